"""P11: weight, fuel and battery charge are conserved over a mission."""
from .. import flight, trajrun
from ..core import Check


class P11(Check):
    id = "P11"
    runs = {"quick": 190, "thorough": 8000}
    min_runs = {"quick": 60, "thorough": 400}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = a mission profile (basic, with reserve, with take-off, both; 3-9 nodes) flown by a drawn aircraft (twin jet, single or twin turboprop, twin series hybrid; fuel "
            "integrated by an explicit integrator or by the group), taken through a history of designs with propulsor failures and recoveries in flight, faults in the vehicle model, interrupts, "
            "cut-short solves, overwritten guesses, repeated setups; after every converged run the ledgers of all phases are recomputed from engine flows and electrical loads")
    assumptions = ["engine flows and electrical loads are the ones the propulsion parts report"]
    real = ["mission profiles and phases", "library propulsion systems, batteries, drag polar", "Integrator/IntegratorGroup", "OpenMDAO solvers"]
    stubs = ["jet engine of the simulated twin jet"]
    prof = ("basic", "basic", "reserve", "reserve", "full", "full", "fullres")
    kinds = ("jet", "jet", "jet", "twin", "single", "elec", "hybrid", "hybrid")
    nns = (3, 3, 5, 7)

    def warm(self):
        import openmdao.api  # noqa

    def gen(self, rng, tier, idx):
        return trajrun.gen_mission(rng, profiles=self.prof, kinds=self.kinds, nns=self.nns)

    @staticmethod
    def inv(live, d):
        return flight.ledger(live.prob, live.spec, d)

    def run(self, plan, log):
        return trajrun.run(plan, log, lambda live, own, i: self.inv(live, live.designs[i]))

    def shrink(self, plan):
        return trajrun.shrink(plan)


CHECK = P11()
