"""M05: a program that departs from its protocol does not compile."""
from core import *
import cfail
import departures

NEEDS = []
RULE = (
    "for every layer (binary, timed, three-party, generated), participant and peer: each departure (another operation than the type says, another peer, another payload type, an early close, a reused endpoint, another participant's endpoint, "
    "branches or participants whose sessions are not dual) is rejected by the compiler with a type, trait or ownership error at that place, and the twin program without the departure is accepted"
)
EXPLAIN = "Compile-fail witnesses with compiling twins, generated per layer, participant, peer and departure, type-checked against the current tree."
FLOORS = {"witnesses": 600}


def run(R, B):
    C = departures.cases(R.tier)
    cfail.judge_lines(R, B, "m05", departures.PRE, C.mods, C.l)
    for name, mods, bad, good, codes in C.l[:: max(1, len(C.l) // 25)]:
        R.sample("%s: %s" % (name, bad))
