"""C09: after re-initialisation a generator is in the state of a new one, whatever happened before."""
from .common import *
from .c01 import PARAMS
from .states import *


def lcrngs(ck, m):
    for name in PARAMS:
        g = Impl(ck, m, "lcrng", name)
        bits = PARAMS[name][0]
        for label, seed in variants("seed", bits):
            def used():
                o = g.new(sym("other", 0, (1 << min(bits, 63)) - 1))
                g.do(o, "next")
                g.do(o, "next_rand", sym("maximum", 1, 0xFFFF))
                g.do(o, "re_init", seed)
                return probe(o)

            def new():
                return probe(g.new(seed))

            def probe(o):
                return (m.ga(o, "seed"), g.do(o, "next"), g.do(o, "next_u%d" % (bits // 2)),
                        g.do(o, "next_rand", sym("limit", 1, 0xFFFF)), m.ga(o, "seed"))
            key = "%s/%s/seed as %s" % (m.mode, name, label)
            ck.guard(key, lambda: ck.equiv(key, g.where("re_init"), ck.run(m, used), ck.run(m, new)))


def others(ck, m):
    for name in WORDS:
        reseeding(ck, m, name)


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        lcrngs(ck, m)
        others(ck, m)
