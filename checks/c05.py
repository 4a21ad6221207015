"""C05: MersenneTwister conforms to its published definition for every seed and every state."""
from .common import *
from .states import conformity


def run(ck):
    for mode in MODES:
        conformity(ck, ck.machine(mode), "MersenneTwister")
