"""C10: bounded draws of the twisters, xorshift and xoroshiro generators have the documented form."""
from .common import *
from .states import *

MULSHIFT = ("MersenneTwister", "TinyMersenneTwister")
MOD32 = ("MersenneTwister", "TinyMersenneTwister")


def at(name):
    """a position in the block that never triggers a regeneration, and the one that does"""
    if name not in SPEC:
        return [("", None)]
    if name == "MersenneTwister":
        return [("inside the block", sym("index", 0, 623)), ("at the end of the block", I(624))]
    return [("inside the block", Sc("int", T.mul(T.V("half", 0, 311), T.C(2)))), ("at the end of the block", I(624))]


def drawing(ck, m, name, meth, args, rule, label, assume=(), vary=(), alt=None, ignore=(), **kw):
    """meth(*args) on an arbitrary state = rule(state draws)"""
    g = gen(ck, m, name)
    if not g.has(meth):
        raise Anchor("%s no longer offers %s" % (name, meth))
    ws = wordvars(name)
    for where, idx in at(name):
        key = "%s/%s/%s(%s)%s" % (m.mode, name, meth, label, " " + where if where else "")

        def impl():
            o = fresh(ck, m, g, ws, idx)
            if o is None:
                raise Unsupported("state representation changed")
            v = g.do(o, meth, *args)
            return (v,) + observe(m, o) + ((m.ga(o, "index"),) if idx is not None else ())

        def ref(rule=rule):
            st = slist(ws)
            v, st, i2 = rule(st, idx)
            return (v,) + state_tuple(st) + ((i2,) if idx is not None else ())

        def confirm(first):
            lab, sargs, rargs = seed_args(name)[0]

            def impl2():
                o = g.new(*sargs)
                return tuple(g.do(o, meth, *args) for _ in range(3)) + (g.do(o, "next"),)

            def ref2():
                st = ref_init(ck, m, name, rargs)
                i = I(624)
                out = []
                for _ in range(3):
                    v, st, i = rule(st, i)
                    out.append(v)
                v, st, i = ref_next(ck, m, name, st, i)
                return tuple(out) + (v,)
            return ck.guard(key, lambda: ck.equiv(key + ": outputs", g.where(meth), ck.run(m, impl2, ignore), ck.run(m, ref2),
                                                  prove=False, n=40, assume=assume, vary=list(vary)))

        def go():
            try:
                a = ck.run(m, impl, ignore)
            except Unsupported as e:
                if "representation" not in str(e):
                    raise
                return confirm(None)
            return ck.equiv(key, g.where(meth), a, ck.run(m, ref), assume=assume, vary=list(vary), n=60, confirm=confirm,
                            alts=[ck.run(m, lambda: ref(alt))] if alt else [], **kw)
        ck.guard(key, go)


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)

        def spec(fn, *a):
            return ck.spec(m, "generators", fn, *[Sc("int", x.n) for x in a])
        for name in WORDS:
            g = gen(ck, m, name)

            def nxt(st, i, name=name):
                return ref_next(ck, m, name, st, i)
            if name == "Xoroshiro128PlusRejection":
                for label, mx in variants("maximum", 32, lo=1):
                    def rej(st, i, mx=mx):
                        r = ck.spec(m, "generators", "xoroshiro_reject", st, Sc("int", mx.n))
                        return r[0], r[1], i
                    drawing(ck, m, name, "next_rand", [mx], rej, label)
                continue
            width = 64 if name == "SIMDFastMersenneTwister" else 32
            for label, mx in variants("maximum", width, lo=1):
                if name in MULSHIFT:
                    def rule(st, i, mx=mx, nxt=nxt):
                        v, st, i = nxt(st, i)
                        return spec("mulshift32", v, mx), st, i
                else:
                    def rule(st, i, mx=mx, nxt=nxt):
                        v, st, i = nxt(st, i)
                        return spec("modulo16", v, mx), st, i
                drawing(ck, m, name, "next_rand", [mx], rule, label)
                if name in MOD32:
                    def rule2(st, i, mx=mx, nxt=nxt):
                        v, st, i = nxt(st, i)
                        return spec("modulo16", v, mx), st, i
                    drawing(ck, m, name, "next_rand_mod", [mx], rule2, label)
            if name == "Xorshift128":
                lo, hi = -(1 << 31), (1 << 31) - 1
                for label, dt in (("int", "int"), ("np.int32", "i32")):
                    a, b = sym("low", lo, hi, dt), sym("high", lo, hi, dt)
                    order = T.lt(a.n, b.n)

                    def rr(st, i, a=a, b=b, nxt=nxt):
                        v, st, i = nxt(st, i)
                        return ck.spec(m, "generators", "offset_range", Sc("int", v.n), Sc("int", a.n), Sc("int", b.n)), st, i

                    def rr0(st, i, a=a, b=b, nxt=nxt):
                        """the same for bounds in order, whose difference is never 0"""
                        v, st, i = nxt(st, i)
                        return ck.spec(m, "generators", "offset_range_0", Sc("int", v.n), Sc("int", a.n), Sc("int", b.n)), st, i

                    def pick(rng, env, k):
                        x = rng.choice([0, 1, -1, -5, lo, 100, rng.randrange(lo, hi)])
                        y = rng.choice([x + 1, x + 7, hi, 1, 100, rng.randrange(lo, hi)])
                        env["low"], env["high"] = min(x, y, hi - 1), max(x + 1 if x == y else x, y, min(x, y) + 1)
                        env["high"] = min(env["high"], hi)
                    drawing(ck, m, name, "next_randrange", [a, b], rr, label, assume=[order], vary=[pick], alt=rr0)
                for label, mx in variants("maximum", 32, lo=1):
                    def rule3(st, i, mx=mx, nxt=nxt):
                        v, st, i = nxt(st, i)
                        v = ck.spec(m, "generators", "offset_range", Sc("int", v.n), I(-(1 << 31)), I((1 << 31) - 1))
                        return spec("modulo16", v, mx), st, i
                    drawing(ck, m, name, "next_alternate_rand", [mx], rule3, label)
