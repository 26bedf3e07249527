"""P14: a converged mission flies the requested profile in force balance."""
from .. import flight
from .p11 import P11


class P14(P11):
    id = "P14"
    rule = ("a run = a mission profile flown by a drawn aircraft through a history of requested ranges, altitudes, holding times, vertical and air speed schedules, in-flight propulsor failures, "
            "faults in the vehicle model, interrupts, cut-short solves, overwritten guesses, repeated setups; after every converged run range, altitudes, holding time, air density, airspeed, "
            "forces and the kinematics of every node are recomputed")
    assumptions = ["International standard atmosphere below 11 km for the expected air density (0.4 %)", "the altitude at the end of the first climb is the requested cruise altitude; descents end at the airport"]

    @staticmethod
    def inv(live, d):
        return flight.profile(live.prob, live.spec, d)


CHECK = P14()
