"""C02: every reversed LCRNG is the exact inverse of its forward counterpart, whichever modular-inverse routine is used."""
from .common import *
from .c01 import PARAMS, affine, steps

PAIRS = [("PokeRNGMod", "PokeRNGRMod"), ("PokeRNGDiv", "PokeRNGRDiv"), ("PokeRNGMod", "PokeRNGRDiv"), ("ARNG", "ARNGR"),
         ("XDRNG", "XDRNGR"), ("BWRNG", "BWRNGR")]


def run(ck):
    steps(ck, [n for n in PARAMS if PARAMS[n][3]])
    for mode in MODES:
        for pyver in ((3, 12), (3, 7)):
            m = ck.machine(mode, pyver=pyver)
            for f, r in PAIRS:
                fg, rg = Impl(ck, m, "lcrng", f), Impl(ck, m, "lcrng", r)
                bits = PARAMS[f][0]
                top = (1 << min(bits, 63)) - 1
                seed = sym("seed", 0, top)
                for first, second in ((fg, rg), (rg, fg)):
                    def impl():
                        o = first.new(seed)
                        x = first.do(o, "next")
                        p = second.new(x)
                        return second.do(p, "next")
                    key = "%s/python %d.%d/%s then %s" % (mode, *pyver, first.name, second.name)
                    ck.guard(key, lambda: ck.equiv(key + " restores the seed", second.where("next"), ck.run(m, impl),
                                                   ck.run(m, lambda: seed)))
            # the modular inverse itself, for the documented multipliers and a spread of odd values
            mod = ck.module(m, "compatability")
            inv = ck.attr(mod, "mod_inv")
            for bits in (32, 64):
                vals = sorted({p[2] for p in PARAMS.values() if p[0] == bits} | {1, 3, (1 << bits) - 1, (1 << (bits - 1)) + 1} |
                              {pow(3, k, 1 << bits) for k in range(2, 40)})
                bad = []
                for v in vals:
                    r = m.run(lambda: m.call(inv, [I(v), I(1 << bits)], {}))
                    if not r.normal or r.value.const != pow(v, -1, 1 << bits):
                        bad.append(v)
                ck.fact("%s/python %d.%d/inverse modulo 2^%d" % (mode, *pyver, bits), not bad,
                        "compatability.py mod_inv", "wrong inverse of %s" % [hex(b) for b in bad[:3]], "constant propagation")
