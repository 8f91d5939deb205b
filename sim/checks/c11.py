"""C11: detailed scoring is consistent with the trees under any parallel schedule."""
from sim.checks.c10 import Scoring


class C11(Scoring):
    id = 'C11'
    detailed = True


CHECK = C11()
