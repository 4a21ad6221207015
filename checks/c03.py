"""C03: jumping an LCRNG by n (run-time or precompiled) is n single steps, for every n and seed."""
from .common import *
from .c01 import PARAMS, affine


def powers(bits, mult, add, count):
    mask = (1 << bits) - 1
    out = []
    for _ in range(count):
        out.append((mult, add))
        mult, add = mult * mult & mask, (mult * add + add) & mask
    return out


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        for name in PARAMS:
            g = Impl(ck, m, "lcrng", name)
            bits, mult, add = affine(name)
            mask = (1 << bits) - 1
            tab = tuple((I(a), I(b)) for a, b in powers(bits, mult, add, bits))
            seed = sym("seed", 0, (1 << min(bits, 63)) - 1)
            for label, adv in variants("adv", bits):
                n = Sc("int", adv.n)

                def ref():
                    r = ck.spec(m, "generators", "lcg_jump", seed, n, tab, I(mask))
                    return r, r, ck.spec(m, "generators", "lcg", r, I(mult), I(add), I(bits))

                def ref2():
                    r = ck.spec(m, "generators", "lcg_compose", seed, n, tab, I(mask))
                    return r, r, ck.spec(m, "generators", "lcg", r, I(mult), I(add), I(bits))

                def impl():
                    o = g.new(seed)
                    a = g.do(o, "jump", adv)
                    return a, m.ga(o, "seed"), g.do(o, "next")

                def impl_const():
                    o = g.new(seed)
                    f = m.call(m.ga(g.cls, "const_jump"), [adv], {})
                    a = m.call(f, [o], {})
                    return a, m.ga(o, "seed"), g.do(o, "next")
                key = "%s/%s/adv as %s" % (mode, name, label)
                ck.guard(key + ": jump", lambda: ck.equiv(key + ": jump", g.where("jump"), ck.run(m, impl), ck.run(m, ref), alts=[ck.run(m, ref2)]))
                ck.guard(key + ": const_jump", lambda: ck.equiv(key + ": const_jump", "%s const_jump" % g.where(),
                                                                ck.run(m, impl_const), ck.run(m, ref), alts=[ck.run(m, ref2)]))
