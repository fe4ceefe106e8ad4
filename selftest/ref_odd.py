from mut_odd import KEPT
CASES = list(KEPT)
