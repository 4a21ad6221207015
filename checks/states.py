"""Symbolic generator states and their observation."""
from .common import *
from sa.harness import concrete  # noqa

WORDS = {"MersenneTwister": ("mersenne_twister", 624, 32), "SIMDFastMersenneTwister": ("mersenne_twister", 624, 32),
         "TinyMersenneTwister": ("mersenne_twister", 4, 32), "Xorshift128": ("xorshift", 4, 32),
         "Xoroshiro128PlusRejection": ("xorshift", 2, 64), "SplitMixXoroshiro128Plus": ("xorshift", 2, 64)}


def gen(ck, m, name):
    return Impl(ck, m, WORDS[name][0], name)


def wordvars(name, tag="s"):
    _, n, w = WORDS[name]
    return [T.V("%s%d" % (tag, i), 0, (1 << w) - 1) for i in range(n)]


def ctor_args(name):
    if name == "Xorshift128":
        return [I(1), I(2), I(3), I(4)]
    if name == "Xoroshiro128PlusRejection":
        return [I(1), I(2)]
    return [I(1)]


def fresh(ck, m, g, words, index=None):
    """instance whose internal state is `words` (and `index`), or None if the state is not held that way"""
    o = g.new(*ctor_args(g.name))
    if not set_state(m, o, words):
        return None
    if index is not None:
        if field(m, o, "index") is None:
            return None
        m.sa(o, "index", index)
    return o


def observe(m, o):
    st = field(m, o, "state")
    return tuple(Sc("int", x) for x in st.data)


# ---------------------------------------------------------------- generator models
SPEC = {
    "MersenneTwister": ("mt_init", "mt_shuffle", "mt_next"),
    "SIMDFastMersenneTwister": ("sfmt_init", "sfmt_shuffle", "sfmt_next"),
}


def seq_len(name):
    return {"MersenneTwister": 1260, "SIMDFastMersenneTwister": 640}.get(name, 24)


def seed_args(name, tag="seed"):
    """[(label, constructor arguments, reference arguments)]"""
    out = []
    if name in ("MersenneTwister", "SIMDFastMersenneTwister", "TinyMersenneTwister"):
        for l, v in variants(tag, 32):
            out.append((l, [v], [Sc("int", v.n)]))
    elif name == "SplitMixXoroshiro128Plus":
        for l, v in variants(tag, 64):
            out.append((l, [v], [Sc("int", v.n)]))
    elif name == "Xorshift128":
        for dt in ("int", "u32"):
            vs = [u("%s_%d" % (tag, i), 32, dt) for i in range(4)]
            out.append((dt, vs, [Sc("int", v.n) for v in vs]))
    else:
        for l, v in variants(tag + "_0", 64):
            for l2, v2 in variants(tag + "_1", 64):
                out.append((l + "," + l2, [v, v2], [Sc("int", v.n), Sc("int", v2.n)]))
        for l, v in variants(tag + "_0", 64):
            out.append((l + ",default", [v], [Sc("int", v.n), I(0x82A2B175229D6A5B)]))
    return out


def ref_init(ck, m, name, args):
    if name in SPEC:
        return ck.spec(m, "generators", SPEC[name][0], *args)
    if name == "TinyMersenneTwister":
        return ck.spec(m, "generators", "tinymt_init", *args)
    if name == "SplitMixXoroshiro128Plus":
        return ck.spec(m, "generators", "splitmix_init", *args)
    return PList(list(args))


def ref_next(ck, m, name, st, index):
    """(value, state, index) after one reference step; st is mutated for the big twisters"""
    if name in SPEC:
        r = ck.spec(m, "generators", SPEC[name][2], st, index)
        return r[0], st, r[1]
    if name == "TinyMersenneTwister":
        st = ck.spec(m, "generators", "tinymt_step", st)
        return ck.spec(m, "generators", "tinymt_temper", st), st, index
    if name == "Xorshift128":
        r = ck.spec(m, "generators", "xorshift128_next", st)
        return r[0], r[1], index
    r = ck.spec(m, "generators", "xoroshiro_next", st)
    v = r[0]
    if name == "SplitMixXoroshiro128Plus":
        v = Sc("int", T.shr(v.n, T.C(32)))
    return v, r[1], index


def state_tuple(st):
    return tuple(Sc("int", x.n) for x in st.vals())


def confirm_sequence(ck, m, g, key, where):
    """decide on the sequence of outputs from a symbolic seed instead of on the representation"""
    def go(first):
        label, args, rargs = seed_args(g.name)[0]
        n = seq_len(g.name)

        def impl():
            o = g.new(*args)
            return tuple(g.do(o, "next") for _ in range(n))

        def ref():
            st = ref_init(ck, m, g.name, rargs)
            idx = I(624)
            out = []
            for _ in range(n):
                v, st, idx = ref_next(ck, m, g.name, st, idx)
                out.append(v)
            return tuple(out)
        return ck.guard(key, lambda: ck.equiv(key + " (first %d outputs)" % n, where, ck.run(m, impl), ck.run(m, ref),
                                              prove=False, n=40))
    return go


def everything(m, o):
    """every attribute of the object, whatever it is called"""
    return tuple((k, o.d[k]) for k in sorted(o.d))


def reseeding(ck, m, name, suffix=""):
    g = gen(ck, m, name)
    ws = wordvars(name, "old")
    big = name in SPEC
    idx = sym("oldindex", 0, 624) if big else None
    for label, args, _ in seed_args(name):
        key = "%s/%s/seed as %s%s" % (m.mode, name, label, suffix)

        def used():
            o = fresh(ck, m, g, ws, idx)
            if o is None:
                o = g.new(*ctor_args(name))
                for _ in range(3):
                    g.do(o, "next")
            g.do(o, "re_init", *args)
            return everything(m, o)

        def new():
            return everything(m, g.new(*args))

        def confirm(first):
            n = 4

            def a():
                o = g.new(*ctor_args(name))
                for _ in range(3):
                    g.do(o, "next")
                g.do(o, "re_init", *args)
                return tuple(g.do(o, "next") for _ in range(n))

            def b():
                o = g.new(*args)
                return tuple(g.do(o, "next") for _ in range(n))
            return ck.guard(key, lambda: ck.equiv(key + ": outputs", g.where("re_init"), ck.run(m, a), ck.run(m, b), prove=False, n=40))
        ck.guard(key, lambda: ck.equiv(key, g.where("re_init"), ck.run(m, used), ck.run(m, new), n=60, confirm=confirm))


def conformity(ck, m, name):
    g = gen(ck, m, name)
    mode = m.mode
    big = name in SPEC
    # initialisation
    for label, args, rargs in seed_args(name):
        key = "%s/%s/seed as %s" % (mode, name, label)

        def init_impl():
            o = g.new(*args)
            return observe(m, o)

        def init_ref():
            return state_tuple(ref_init(ck, m, name, rargs))
        first = g.new

        def go():
            try:
                a = ck.run(m, init_impl)
            except AttributeError:
                confirm_sequence(ck, m, g, key, g.where("__init__"))(None)
                return
            ck.equiv(key + ": initial state", g.where("re_init"), a, ck.run(m, init_ref),
                     confirm=confirm_sequence(ck, m, g, key + ": outputs", g.where("re_init")), n=60)
        ck.guard(key, go)
    reseeding(ck, m, name, " again")
    # one step from an arbitrary state
    ws = wordvars(name)
    cases = [("", None)]
    if big:
        step = 1 if name == "MersenneTwister" else 2
        if step == 1:
            cases = [("index 624", I(624)), ("index < 624", sym("index", 0, 623))]
        else:
            half = T.V("half", 0, 311)
            cases = [("index 624", I(624)), ("even index < 624", Sc("int", T.mul(half, T.C(2))))]
    for label, idx in cases:
        key = "%s/%s/step %s" % (mode, name, label)

        def impl():
            o = fresh(ck, m, g, ws, idx)
            if o is None:
                raise Unsupported("state representation changed")
            v = g.do(o, "next")
            out = (v, observe(m, o))
            return out + ((m.ga(o, "index"),) if idx is not None else ())

        def ref():
            st = slist(ws)
            v, st, i2 = ref_next(ck, m, name, st, idx)
            out = (v, state_tuple(st))
            return out + ((i2,) if idx is not None else ())

        def go():
            try:
                a = ck.run(m, impl)
            except Unsupported:
                confirm_sequence(ck, m, g, key, g.where("next"))(None)
                return
            ck.equiv(key, g.where("next"), a, ck.run(m, ref),
                     confirm=confirm_sequence(ck, m, g, key + ": outputs", g.where("next")), n=60)
        ck.guard(key, go)
    if big and g.has("shuffle"):
        key = "%s/%s/shuffle" % (mode, name)

        def impl():
            o = fresh(ck, m, g, ws, sym("index", 0, 624))
            if o is None:
                raise Unsupported("state representation changed")
            g.do(o, "shuffle")
            return observe(m, o), m.ga(o, "index")

        def ref():
            st = slist(ws)
            ck.spec(m, "generators", SPEC[name][1], st)
            return state_tuple(st), I(0)
        ck.guard(key, lambda: ck.equiv(key, g.where("shuffle"), ck.run(m, impl), ck.run(m, ref),
                                       confirm=confirm_sequence(ck, m, g, key + ": outputs", g.where("shuffle")), n=60))
