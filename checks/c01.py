"""C01: every forward LCRNG follows its documented recurrence and outputs."""
from .common import *

PARAMS = {
    # name: (bits, add, mult, reversed)
    "PokeRNGMod": (32, 0x6073, 0x41C64E6D, False),
    "PokeRNGDiv": (32, 0x6073, 0x41C64E6D, False),
    "PokeRNGRMod": (32, 0x6073, 0x41C64E6D, True),
    "PokeRNGRDiv": (32, 0x6073, 0x41C64E6D, True),
    "ARNG": (32, 0x1, 0x6C078965, False),
    "ARNGR": (32, 0x1, 0x6C078965, True),
    "XDRNG": (32, 0x269EC3, 0x343FD, False),
    "XDRNGR": (32, 0x269EC3, 0x343FD, True),
    "BWRNG": (64, 0x269EC3, 0x5D588B656C078965, False),
    "BWRNGR": (64, 0x269EC3, 0x5D588B656C078965, True),
}


def affine(name):
    bits, add, mult, rev = PARAMS[name]
    mask = (1 << bits) - 1
    if rev:
        mult = pow(mult, -1, 1 << bits)
        add = -add * mult & mask
    return bits, mult, add


def steps(ck, names):
    for mode in MODES:
        m = ck.machine(mode)
        for name in names:
            g = Impl(ck, m, "lcrng", name)
            bits, mult, add = affine(name)
            for label, seed in variants("seed", bits):
                s = Sc("int", seed.n)

                def ref():
                    a = ck.spec(m, "generators", "lcg", s, I(mult), I(add), I(bits))
                    b = ck.spec(m, "generators", "lcg", a, I(mult), I(add), I(bits))
                    c = ck.spec(m, "generators", "lcg", b, I(mult), I(add), I(bits))
                    return a, Sc("int", T.shr(b.n, T.C(bits // 2))), c, c

                def impl():
                    o = g.new(seed)
                    a = g.do(o, "next")
                    b = g.do(o, "next_u%d" % (bits // 2))
                    c = g.do(o, "next")
                    return a, b, c, m.ga(o, "seed")

                def impl2():
                    o = g.new(sym("other", 0, (1 << bits) - 1 if bits < 64 else (1 << 63) - 1))
                    g.do(o, "next")
                    g.do(o, "re_init", seed)
                    a = g.do(o, "next")
                    b = g.do(o, "next_u%d" % (bits // 2))
                    c = g.do(o, "next")
                    return a, b, c, m.ga(o, "seed")
                key = "%s/%s/seed as %s" % (mode, name, label)
                ck.guard(key, lambda: ck.equiv(key + ": next, high half, next, state", g.where("next"), ck.run(m, impl), ck.run(m, ref)))
                ck.guard(key, lambda: ck.equiv(key + ": same after re-initialisation", g.where("re_init"), ck.run(m, impl2), ck.run(m, ref)))


def run(ck):
    steps(ck, [n for n in PARAMS if not PARAMS[n][3]])
