"""C04: LCRNG bounded draws consume one step, follow the documented distribution and stay below the maximum."""
from .common import *
from .c01 import PARAMS, affine

DIST = {"PokeRNGMod": "modulo16", "PokeRNGRMod": "modulo16", "ARNG": "modulo16", "ARNGR": "modulo16", "XDRNG": "modulo16",
        "XDRNGR": "modulo16", "PokeRNGDiv": "reciprocal16", "PokeRNGRDiv": "reciprocal16", "BWRNG": "mulshift32",
        "BWRNGR": "mulshift32"}


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        for name in PARAMS:
            g = Impl(ck, m, "lcrng", name)
            bits, mult, add = affine(name)
            half = bits // 2
            seed = sym("seed", 0, (1 << min(bits, 63)) - 1)
            for label, mx in variants("maximum", half, lo=1):
                n = Sc("int", mx.n)

                def ref():
                    s = ck.spec(m, "generators", "lcg", seed, I(mult), I(add), I(bits))
                    h = Sc("int", T.shr(s.n, T.C(half)))
                    return ck.spec(m, "generators", DIST[name], h, n), s

                def impl():
                    o = g.new(seed)
                    return g.do(o, "next_rand", mx), m.ga(o, "seed")

                def impl_const():
                    o = g.new(seed)
                    f = m.call(m.ga(g.cls, "const_rand"), [mx], {})
                    return m.call(f, [o], {}), m.ga(o, "seed")
                for what, fn in (("next_rand", impl), ("const_rand", impl_const)):
                    key = "%s/%s/maximum as %s: %s" % (mode, name, label, what)

                    def go():
                        side = ck.run(m, fn)
                        ck.equiv(key + " distribution", g.where("next_rand"), side, ck.run(m, ref))
                        if side.normal and not side.raises:
                            ck.valid(key + " below maximum", g.where("next_rand"), side, T.lt(side.value[0].n, n.n))
                    ck.guard(key, go)
