"""P09: linked phases hand over every shared state without a jump."""
from .. import flight, traj, trajrun
from ..core import Check


class P09(Check):
    id = "P09"
    runs = {"quick": 550, "thorough": 20000}
    min_runs = {"quick": 150, "thorough": 1000}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = a drawn trajectory (1-4 phases in any nesting, 1-3 blocks of integrated states each, links with and without skipped states, three construction styles, "
            "three solver arrangements) or one of the library's mission profiles flown by a drawn aircraft, taken through a history of designs with abrupt in-flight events, faults "
            "in the vehicle model, interrupts in library code, cut-short solves, overwritten guesses, repeated setups; after every converged run each state's first node is compared "
            "with the last node of the phase that feeds it; distinct = different (structure, sequence of operation kinds)")
    assumptions = ["handovers of the library's mission profiles: every shared state of consecutive phases except the altitude between take-off and climb, into the reserve climb and into loiter"]
    real = ["TrajectoryGroup, PhaseGroup, IntegratorGroup, Integrator", "all mission profiles and phases", "library propulsion systems, drag polar", "OpenMDAO solvers"]
    stubs = ["vehicle model of synthetic trajectories (affine rates)", "jet engine of the simulated twin jet"]

    def warm(self):
        import openmdao.api  # noqa

    def gen(self, rng, tier, idx):
        if rng.random() < 0.85:
            return trajrun.gen_traj(rng)
        return trajrun.gen_mission(rng, nns=(3, 5), kinds=("jet", "jet", "twin", "single", "elec", "hybrid"))

    def run(self, plan, log):
        def check(live, own, i):
            if live.kind == "traj":
                snap, dur = traj.snapshot(live.prob, live.spec)
                log.sim_time += sum(dur.values())
                log.count("handovers checked", len(traj.feeds(live.spec)))
                return traj.check_links(snap, live.spec, own)
            log.count("handovers checked", len(flight.handovers(live.spec)))
            return flight.links(live.prob, live.spec, live.designs[i])
        return trajrun.run(plan, log, check)

    def shrink(self, plan):
        return trajrun.shrink(plan)


CHECK = P09()
