"""C08: advancing any generator by n leaves it exactly where n single draws would."""
from .common import *
from .c01 import PARAMS, affine
from .states import *


def small(name, cap):
    def f(rng, env, k):
        v = env.get("adv")
        if v is None:
            return
        pool = (0, 1, 2, 3, 311, 312, 313, 623, 624, 625, 1247, 1248, 1249)
        env["adv"] = pool[k % len(pool)] if k < 2 * len(pool) else rng.randrange(cap)
    return f


def lcrngs(ck, m):
    for name in PARAMS:
        g = Impl(ck, m, "lcrng", name)
        bits, mult, add = affine(name)
        seed = sym("seed", 0, (1 << min(bits, 63)) - 1)
        for label, adv in variants("adv", bits):
            def impl():
                o = g.new(seed)
                a = g.do(o, "advance", adv)
                return a, m.ga(o, "seed"), g.do(o, "next")

            def ref():
                s = ck.spec(m, "generators", "lcg_advance", seed, Sc("int", adv.n), I(mult), I(add), I((1 << bits) - 1))
                return s, s, ck.spec(m, "generators", "lcg", s, I(mult), I(add), I(bits))
            key = "%s/%s/count as %s" % (m.mode, name, label)
            ck.guard(key, lambda: ck.equiv(key, g.where("advance"), ck.run(m, impl), ck.run(m, ref), vary=[small(name, 3000)]))


def others(ck, m):
    for name in WORDS:
        g = gen(ck, m, name)
        ws = wordvars(name)
        big = name in SPEC
        width = 64 if name.startswith("Xoro") or name.startswith("Split") else 32
        idx0 = None
        if name == "MersenneTwister":
            idx0 = sym("index", 0, 624)
        elif big:
            idx0 = Sc("int", T.mul(T.V("half", 0, 312), T.C(2)))
        for label, adv in variants("adv", width):
            n = Sc("int", adv.n)
            key = "%s/%s/count as %s" % (m.mode, name, label)

            def impl():
                o = fresh(ck, m, g, ws, idx0)
                if o is None:
                    raise Unsupported("state representation changed")
                g.do(o, "advance", adv)
                v = I(0) if big else g.do(o, "next")
                return (v,) + observe(m, o) + ((m.ga(o, "index"),) if big else ())

            def ref():
                st = slist(ws)
                idx = idx0
                if big:
                    f = "mt_advance" if name == "MersenneTwister" else "sfmt_advance"
                    idx = ck.spec(m, "generators", f, st, idx, n)
                else:
                    f = {"TinyMersenneTwister": "tinymt_advance", "Xorshift128": "xorshift128_advance"}.get(name, "xoroshiro_advance")
                    st = ck.spec(m, "generators", f, st, n)
                v = I(0)
                if not big:
                    v, st, idx = ref_next(ck, m, name, st, idx)
                return (v,) + state_tuple(st) + ((idx,) if big else ())

            def alt():
                # the final index is below 624, so narrowing it to 16 bits is the identity
                t = ref()
                return t[:-1] + (Sc("int", T.wrap(t[-1].n, 16)),) if big else t

            def confirm(first):
                """from a seed: outputs that follow the advance"""
                lab, args, rargs = seed_args(name)[0]

                def impl2():
                    o = g.new(*args)
                    g.do(o, "next")
                    g.do(o, "advance", adv)
                    return tuple(g.do(o, "next") for _ in range(4))

                def ref2():
                    st = ref_init(ck, m, name, rargs)
                    v, st, idx = ref_next(ck, m, name, st, I(624))
                    if big:
                        f = "mt_advance" if name == "MersenneTwister" else "sfmt_advance"
                        idx = ck.spec(m, "generators", f, st, idx, n)
                    else:
                        f = {"TinyMersenneTwister": "tinymt_advance", "Xorshift128": "xorshift128_advance"}.get(name, "xoroshiro_advance")
                        st = ck.spec(m, "generators", f, st, n)
                    out = []
                    for _ in range(4):
                        v, st, idx = ref_next(ck, m, name, st, idx)
                        out.append(v)
                    return tuple(out)
                return ck.guard(key, lambda: ck.equiv(key + ": following outputs", g.where("advance"), ck.run(m, impl2),
                                                      ck.run(m, ref2), prove=False, n=40, vary=[small(name, 3000)]))

            def go():
                try:
                    a = ck.run(m, impl)
                except Unsupported as e:
                    if "representation" not in str(e):
                        raise
                    return confirm(None)
                return ck.equiv(key, g.where("advance"), a, ck.run(m, ref), vary=[small(name, 3000)], n=40, confirm=confirm,
                                alts=[ck.run(m, alt)] if big else [])
            ck.guard(key, go)


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        lcrngs(ck, m)
        others(ck, m)
