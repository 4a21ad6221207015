"""C11: xorshift128, xoroshiro128+ and splitmix seeding conform to their definitions for every seed and state."""
from .common import *
from .states import conformity


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        for name in ("Xorshift128", "Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus"):
            conformity(ck, m, name)
