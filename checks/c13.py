"""C13: with and without compilation, every public operation returns the same values and leaves the same state."""
from .common import *
from .c01 import PARAMS
from .states import *
from .c16 import KINDS, Kind, arbitrary, observe_list
from .c17 import Setup


class Both:
    """the same operation interpreted under both settings of the option"""

    def __init__(self, ck):
        self.ck = ck
        self.ms = [ck.machine(mode) for mode in MODES]

    def __call__(self, key, where, fn, **kw):
        ck = self.ck

        def go():
            a, b = [ck.run(m, lambda: fn(m)) for m in self.ms]
            return ck.equiv(key, where, a, b, n=60, **kw)
        ck.guard(key, go)


def small(cap):
    def f(rng, env, k):
        if "adv" in env:
            env["adv"] = (0, 1, 2, 623, 624, 625)[k] if k < 6 else rng.randrange(cap)
    return f


def lcrngs(ck, both):
    for name in PARAMS:
        bits = PARAMS[name][0]
        half = bits // 2
        g = Impl(ck, both.ms[0], "lcrng", name)

        def on(op, seed):
            def go(m):
                i = Impl(ck, m, "lcrng", name)
                o = i.new(seed)
                return op(m, i, o), m.ga(o, "seed")
            return go
        for label, seed in variants("seed", bits):
            for meth in ("next", "next_u%d" % half):
                both("%s.%s, seed as %s" % (name, meth, label), g.where(meth), on(lambda m, i, o: i.do(o, meth), seed))
            both("%s.re_init, seed as %s" % (name, label), g.where("re_init"), on(lambda m, i, o: (i.do(o, "re_init", seed), None)[1], sym("old", 0, M32)))
        seed = sym("seed", 0, (1 << min(bits, 63)) - 1)
        for label, mx in variants("maximum", half, lo=1):
            both("%s.next_rand, maximum as %s" % (name, label), g.where("next_rand"), on(lambda m, i, o: i.do(o, "next_rand", mx), seed))
            both("%s.const_rand, maximum as %s" % (name, label), g.where("next_rand"),
                 on(lambda m, i, o: m.call(m.call(m.ga(i.cls, "const_rand"), [mx], {}), [o], {}), seed))
        for label, adv in variants("adv", bits):
            both("%s.jump, count as %s" % (name, label), g.where("jump"), on(lambda m, i, o: i.do(o, "jump", adv), seed))
            both("%s.const_jump, count as %s" % (name, label), g.where("jump"),
                 on(lambda m, i, o: m.call(m.call(m.ga(i.cls, "const_jump"), [adv], {}), [o], {}), seed))
            both("%s.advance, count as %s" % (name, label), g.where("advance"), on(lambda m, i, o: i.do(o, "advance", adv), seed), vary=[small(2000)])


def others(ck, both):
    for name in WORDS:
        ws = wordvars(name)
        g = gen(ck, both.ms[0], name)
        big = name in SPEC
        idx = [None]
        if name == "MersenneTwister":
            idx = [sym("index", 0, 623), I(624)]
        elif big:
            idx = [Sc("int", T.mul(T.V("half", 0, 311), T.C(2))), I(624)]

        def on(meth, args, index):
            def go(m):
                i = gen(ck, m, name)
                o = fresh(ck, m, i, ws, index)
                if o is None:
                    o = i.new(*ctor_args(name))
                r = i.do(o, meth, *args)
                return r, tuple((k, o.d[k]) for k in sorted(o.d))
            return go

        def op(meth, args, label="", **kw):
            if g.has(meth):
                for k, index in enumerate(idx):
                    both("%s.%s%s%s" % (name, meth, label, ("", ", end of block")[k]), g.where(meth), on(meth, args, index), **kw)
        for meth in ("next", "previous", "shuffle", "temper"):
            op(meth, [])
        width = 64 if name == "SIMDFastMersenneTwister" else 32
        for label, mx in variants("maximum", width, lo=1):
            for meth in ("next_rand", "next_rand_mod", "next_alternate_rand"):
                op(meth, [mx], ", maximum as " + label)
        for label, dt in (("int", "int"), ("np.int32", "i32")):
            a, b = sym("low", -(1 << 31), (1 << 31) - 1, dt), sym("high", -(1 << 31), (1 << 31) - 1, dt)

            def pick(rng, env, k):
                x, y = rng.randrange(-(1 << 31), 1 << 31), rng.randrange(-(1 << 31), 1 << 31)
                env["low"], env["high"] = min(x, y - 1), max(x, y)
                env["low"] = max(env["low"], -(1 << 31))
            op("next_randrange", [a, b], ", bounds as " + label, assume=[T.lt(a.n, b.n)], vary=[pick])
        for label, adv in variants("adv", 64 if name.startswith("Xoro") or name.startswith("Split") else 32):
            op("advance", [adv], ", count as " + label, vary=[small(1300)])
        for label, args, _ in seed_args(name):
            def built(m):
                o = gen(ck, m, name).new(*args)
                return tuple((k, o.d[k]) for k in sorted(o.d))
            both("%s(), seed as %s" % (name, label), g.where("__init__"), built)
            op("re_init", args, ", seed as " + label)
        for meth, args in (("bit_mask", [sym("value", 1, M32)]), ("splitmix", [u("seed", 64, "u64"), u("gamma", 64, "u64")])):
            if g.has(meth):
                both("%s.%s" % (name, meth), g.where(meth), lambda m: m.call(m.ga(gen(ck, m, name).new(*ctor_args(name)), meth), list(args), {}))


def helpers(ck, both):
    def fn(module, name, args, label, **kw):
        f = ck.attr(ck.module(both.ms[0], module), name)
        where = "numba_pokemon_prngs/%s.py:%d %s" % (module, getattr(getattr(f, "node", None), "lineno", 0), name)
        both("%s(%s)" % (name, label), where, lambda m: m.call(ck.attr(ck.module(m, module), name), list(args), {}), **kw)
    for label, v in variants("value", 32):
        fn("util", "change_endian_u32", [v], label)
        fn("util", "hex_32", [v], label)
        for k in range(32):
            for name in ("rotate_left_u32", "rotate_right_u32"):
                fn("util", name, [v, I(k)], "%s, %d" % (label, k))
    for label, v in variants("value", 64):
        for k in range(1, 64):
            for name in ("rotate_left_u64", "rotate_right_u64"):
                fn("util", name, [v, I(k)], "%s, %d" % (label, k))
    for nature in range(25):
        for index in range(1, 6):
            fn("util", "compute_stat", [sym("stat", 5, 714, "u16"), Sc("u8", T.C(nature)), I(index)], "any stat, nature %d, stat %d" % (nature, index))
    t = SymStr("text", T.V("length", 0, 1 << 20))
    for name in ("fnv1_64", "fnv1a_64"):
        fn("fnv", name, [t], "text of any length", n=30) if False else fn("fnv", name, [t], "text of any length")
        for k in (0, 1, 4, 9):
            fn("fnv", name, [SStr([Char(T.V("c%d" % i, 0, 127)) for i in range(k)]) if k else ""], "%d ASCII characters" % k)


def sha1(ck, both):
    for game, lang, console in (("WHITE2", "FRENCH", "DSI"), ("BLACK", "KOREAN", "DS3"), ("WHITE", "JAPANESE", "DS")):
        for soft in (False, True):
            for np_types in (False, True):
                def go(m):
                    s = Setup(ck, m, game, lang, console, np_types)
                    o = s.new(soft)
                    s.set(o, s.values())
                    a = s.g.do(o, "precompute")
                    return tuple(Sc("int", x) for x in a.data), s.g.do(o, "hash_seed", a)
                both("SHA1 %s %s %s%s%s" % (lang, game, console, ", soft reset" if soft else "", ", NumPy arguments" if np_types else ""),
                     "numba_pokemon_prngs/sha1.py SHA1.hash_seed", go)
    def all_nazos(game, lang):
        def go(m):
            out = []
            for console in ("DS", "DSI", "DS3"):
                s = Setup(ck, m, game, lang, console)
                out += [x for x in s.nazo().vals()]
            return tuple(out)
        return go
    for game in ("BLACK", "WHITE", "BLACK2", "WHITE2"):
        for lang in ("ENGLISH", "JAPANESE", "GERMAN", "SPANISH", "FRENCH", "ITALIAN", "KOREAN"):
            both("nazo %s %s" % (lang, game), "numba_pokemon_prngs/sha1.py get_nazo", all_nazos(game, lang))


def lists(ck, both):
    size = 4
    for module, cls, fn, dt in KINDS:
        if cls in SPEC:
            continue
        bufs = [T.V("w%d" % i, 0, (1 << {"u16": 16, "u32": 32, "u64": 64}[dt]) - 1) for i in range(size)]
        head, pointer = sym("head", 0, size - 1), sym("pointer", 0, size - 1)
        for meth, args, label in (("get_value", [], ""), ("advance_state", [], ""), ("advance", [u("adv", 32)], " int"), ("advance", [u("adv", 32, "u32")], " np.uint32"),
                                  ("re_init", [], ""), ("advance_states", [u("adv", 32)], "")):
            def go(m):
                kind = Kind(ck, m, module, cls, fn, dt, size)
                try:
                    o = arbitrary(kind, bufs, head, pointer)
                except Unsupported:
                    o = kind.new(kind.gen())
                r = kind.do(o, meth, *args)
                return (r,) + tuple(kind.do(o, "get_value") for _ in range(size))
            both("RNGList of %s.%s as %s: %s%s" % (cls, fn, dt, meth, label), "numba_pokemon_prngs/rng_list.py build_rnglist", go, vary=[small(200)])


def run(ck):
    both = Both(ck)
    for part in (lcrngs, others, helpers, sha1, lists):
        part(ck, both)
