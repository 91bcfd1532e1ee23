"""C02: concurrent decoding is optimal."""
from . import c01

QUICK, THOROUGH = 2500, 60000
OPS = ["decode", "decode", "predict"]


def gen(r, tier):
    return c01.gen(r, tier, OPS, [None, "viterbi", "map"])


execute = c01.execute
