"""P13: the balanced field take-off honours the engine-failure decision speed."""
from .. import flight, loops, trajrun
from .p11 import P11


class P13(P11):
    id = "P13"
    rule = ("a run = a take-off profile (with or without reserve, both rotation models, 3-7 nodes) flown by a drawn twin aircraft, or the decision-speed equation closed around drawn distance models (balanced well off or next to rotation speed), taken through a history of designs, faults in the vehicle model, "
            "interrupts, cut-short solves, overwritten guesses, repeated setups; after every converged run speeds, distances, obstacle height, balance of the field and engine states are checked")
    assumptions = ["decision speed counts as rotation speed within the library's 0.1 m/s switch tolerance"]
    prof = ("full", "full", "full", "fullres")
    kinds = ("jet", "jet", "twin", "hybrid")
    runs = {"quick": 190, "thorough": 8000}

    def gen(self, rng, tier, idx):
        if rng.random() < 0.3:
            return trajrun.gen_loop(rng, field=True)
        return super().gen(rng, tier, idx)

    @staticmethod
    def inv(live, d):
        if live.kind == "loop":
            return loops.field_rules(live.prob, live.spec, d)
        return flight.takeoff(live.prob, live.spec, d)


CHECK = P13()
