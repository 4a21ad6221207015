"""C14: ownership of every object an operation writes, and noninterference of interleaved instances, as value graphs."""
from .common import *
from .c01 import PARAMS
from .c17 import Setup
from .states import *
from sa.values import birth_now

AMBIENT = ("time", "random", "secrets", "uuid", "datetime", "os", "platform", "threading", "socket", "gc", "sys", "id", "hash", "np.random", "numpy.random")


# ---------------------------------------------------------------- ownership
def parts(v):
    """values a value refers to, without entering classes, functions and modules"""
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, (Obj, Rec)):
        return list(v.d.values())
    if isinstance(v, Arr):
        return [x for x in v.data if not isinstance(x, T.N)]
    if isinstance(v, PList):
        return [x for _, x in v.items]
    if isinstance(v, PDict):
        return [x for kv in v.d.values() for x in kv]
    if isinstance(v, Alt):
        return [v.a, v.b]
    return [x for x in (getattr(v, s, None) for s in ("arr", "f", "obj", "recs")) if x is not None]


def reach(*vs):
    """objects that can be changed, reachable from values"""
    seen, todo, out = set(), list(vs), []
    while todo:
        v = todo.pop()
        if id(v) in seen or isinstance(v, (str, Sc, Cls, Func, Builtin, Module)) or v is None:
            continue
        seen.add(id(v))
        if hasattr(v, "birth"):
            out.append(v)
        todo.extend(parts(v))
    return {id(o): o for o in out}


def content(m, v, depth=0):
    """contents of one object"""
    if isinstance(v, Arr):
        return tuple(x.id if isinstance(x, T.N) else id(x) for x in v.data)
    if isinstance(v, ExtArr):
        return tuple((g.id, i.id, f, n.id) for g, i, f, n in v.over)
    if isinstance(v, (Obj, Rec, Cls)):
        return tuple((k, name(x)) for k, x in v.d.items())
    if isinstance(v, PList):
        return tuple((g.id, name(x)) for g, x in v.items)
    if isinstance(v, PDict):
        return tuple((str(k), name(x)) for k, (_, x) in v.d.items())
    if hasattr(v, "d"):
        return tuple((k, name(x)) for k, x in v.d.items())
    return id(v)


def name(x):
    if isinstance(x, Sc):
        return ("sc", x.dt, x.n.id)
    if isinstance(x, str) or x is None:
        return x
    if isinstance(x, tuple):
        return tuple(name(y) for y in x)
    return id(x)


def kept(before, after):
    """whether everything there was is still there, possibly with additions"""
    if isinstance(before, tuple) and isinstance(after, tuple):
        return after[:len(before)] == before or set(map(str, before)) <= set(map(str, after))
    return before == after


def blank(content):
    """whether contents are those of a scratch object: nothing but zeros, None and empty"""
    zero = (T.C(0).id, ("sc", "int", T.C(0).id), None)
    return all(x in zero or isinstance(x, tuple) and x[-1] in zero for x in content) if isinstance(content, tuple) else False


def label(v):
    return {"Arr": "an array", "ExtArr": "table " + str(getattr(v, "name", "")), "PList": "a list", "PDict": "a dictionary", "Obj": "an instance of " + getattr(getattr(v, "cls", None), "name", ""),
            "Cls": "class " + str(getattr(v, "name", "")), "Env": "a variable of " + str(getattr(v, "name", ""))}.get(type(v).__name__, type(v).__name__)


class Op:
    """one operation on an instance: `act(instance, tag)` with arguments named by tag; `args` are the objects the caller keeps"""

    def __init__(self, key, where, make, act, args=(), view=None):
        self.key, self.where, self.make, self.act, self.args = key, where, make, act, args
        self.view = view or state

    def result(self, v):
        """a copy of a result"""
        return v if isinstance(v, (Sc, str)) or v is None else self.view(v) if isinstance(v, Obj) else state(v)


def effects(ck, m, op):
    key = "%s/%s: writes only what the instance owns" % (m.mode, op.key)

    def go():
        a, b = op.make("a"), op.make("b")
        args = op.args() if callable(op.args) else op.args
        mine, other, given = reach(a), reach(b), reach(*args)
        shared = [o for i, o in mine.items() if i in other]
        outside = list(other.values()) + list(given.values())
        everything = {id(o): (o, content(m, o)) for o in outside + shared}
        start = birth_now()
        del m.extwrites[:]
        try:
            r = m.run(lambda: op.act(a, "a", *args))
        except Unsupported:
            if not m.extwrites:
                raise
            return ck.fact(key, False, op.where, "changes %s of %s, a table it was given" % m.extwrites[0][::-1], "ownership of written objects")
        bad, grown = [], []
        for o, snap in r.touched.items():
            if o.birth > start:
                continue
            if id(o) in mine and id(o) not in other and id(o) not in given:
                continue
            if id(o) in everything:
                if content(m, o) != everything[id(o)][1]:
                    if id(o) in given:
                        bad.append("changes %s passed by the caller" % label(o))
                    elif id(o) in other and (id(o) not in mine or isinstance(o, (Arr, Obj, PList))):
                        bad.append("changes %s of another instance" % label(o))
                    else:
                        grown.append(label(o))
                continue
            now = content(m, o)
            m_before = restored(m, o, snap)
            if m_before is None or not kept(m_before, now):
                if m_before is not None and not blank(m_before):
                    bad.append("changes %s that is shared" % label(o))
                else:
                    grown.append(label(o))
            elif now != m_before:
                grown.append(label(o))
        if bad:
            ck.fact(key, False, op.where, "; ".join(bad[:3]), "ownership of written objects")
        elif grown:
            ck.record(key, "unproven", op.where, "writes %s that is shared: decided by interleaving" % ", ".join(grown[:3]), "ownership of written objects")
        else:
            ck.fact(key, True, op.where, "%d writes" % len(r.touched), "ownership of written objects")
    ck.guard(key, go)


def restored(m, o, snap):
    """contents of an object before it was written"""
    now = o.snap()
    try:
        o.restore(snap)
        return content(m, o)
    finally:
        o.restore(now)


def sources(ck, m, op):
    key = "%s/%s: depends on nothing else" % (m.mode, op.key)

    def go():
        args = op.args() if callable(op.args) else op.args
        a = op.make("a")
        s = ck.run(m, lambda: (op.result(op.act(a, "a", *args)), a and op.view(a)))
        found = []
        for n in T.reachable(s.roots()).values():
            if n.op == "ext" and ("@" in n.args[0] or n.args[0].startswith("opq")):
                found.append(n.args[0])
        amb = [f for f in found if any(("'%s" % x) in f or ("(%s." % x) in f or (x + "(") in f or x in f.replace("'", " ").replace(",", " ").replace("(", " ").replace(".", " ").split() for x in AMBIENT)]
        if amb:
            ck.fact(key, False, op.where, "the result depends on %s" % amb[0][:120], "dependences of results")
        elif found:
            ck.record(key, "unproven", op.where, "the result depends on %s" % found[0][:80], "dependences of results")
        else:
            ck.fact(key, True, op.where, "%d nodes" % len(s.roots()), "dependences of results")
    ck.guard(key, go)


def state(o):
    if isinstance(o, Obj):
        return tuple((k, state(o.d[k])) for k in sorted(o.d))
    if isinstance(o, tuple):
        return tuple(state(x) for x in o)
    if isinstance(o, PList):
        return tuple(state(x) for _, x in o.items)
    if isinstance(o, Arr):
        return tuple(Sc("int", x) if isinstance(x, T.N) else state(x) for x in o.data)
    if isinstance(o, (Sc, str)) or o is None:
        return o
    return type(o).__name__


def interleaved(ck, m, op, twice=True):
    key = "%s/%s: interleaved with another instance" % (m.mode, op.key)

    def go():
        def alone():
            args = op.args() if callable(op.args) else op.args
            a = op.make("a")
            x = op.result(op.act(a, "a", *args))
            y = op.result(op.act(a, "c", *args)) if twice else None
            return x, y, a and op.view(a)

        def both():
            args = op.args() if callable(op.args) else op.args
            b0 = op.make("b")
            a = op.make("a")
            x = op.result(op.act(a, "a", *args))
            op.act(b0, "b", *args)
            b = op.make("b")
            op.act(b, "d", *args)
            y = op.result(op.act(a, "c", *args)) if twice else None
            return x, y, a and op.view(a)
        ck.equiv(key, op.where, ck.run(m, both), ck.run(m, alone))
    ck.guard(key, go)


def every(ck, m, op, twice=True):
    effects(ck, m, op)
    sources(ck, m, op)
    interleaved(ck, m, op, twice)


# ---------------------------------------------------------------- operations
def arguments(name, tag, bits):
    """arguments of an operation of a generator, by its name"""
    s = lambda n, lo, hi: sym("%s.%s" % (n, tag), lo, hi)  # noqa
    return {"advance": [I(3)], "jump": [s("adv", 0, M32)], "next_rand": [s("maximum", 1, 0xFFFF)], "next_rand_mod": [s("maximum", 1, 0xFFFF)],
            "next_alternate_rand": [s("maximum", 1, 0xFFFF)], "next_randrange": [s("minimum", 0, 100), s("maximum", 101, 200)],
            "next_float_randrange": [Sc("float", T.fconst(0.0, 64)), Sc("float", T.fconst(1.0, 64))],
            "bit_mask": [s("val", 0, M32)], "splitmix": [s("seed", 0, (1 << 62) - 1), s("state", 0, (1 << 62) - 1)]}.get(name, [])


def public(cls):
    out = []
    for c in cls.mro():
        for n, f in c.d.items():
            if not n.startswith("_") and n not in out and isinstance(getattr(f, "f", f), Func):
                out.append(n)
    return out


def lcrngs(ck, m):
    for cname in PARAMS:
        g = Impl(ck, m, "lcrng", cname)
        bits = PARAMS[cname][0]
        new = lambda tag: g.new(sym("seed." + tag, 0, (1 << min(bits, 63)) - 1))  # noqa
        for meth in public(g.cls):
            if meth in ("const_jump", "const_rand"):
                fixed = lambda o, tag, meth=meth: m.call(m.call(m.ga(g.cls, meth), [I(77)], {}), [o], {})  # noqa
                every(ck, m, Op("%s.%s" % (cname, meth), g.where(meth), new, fixed))
                continue
            if meth == "re_init":
                act = lambda o, tag: g.do(o, "re_init", sym("again." + tag, 0, (1 << min(bits, 63)) - 1))  # noqa
            else:
                act = lambda o, tag, meth=meth: g.do(o, meth, *arguments(meth, tag, bits))  # noqa
            every(ck, m, Op("%s.%s" % (cname, meth), g.where(meth), new, act))


def others(ck, m):
    for cname in WORDS:
        g = gen(ck, m, cname)
        big = cname in SPEC

        def symbolic(tag):
            o = fresh(ck, m, g, wordvars(cname, "w." + tag), I({"MersenneTwister": 623, "SIMDFastMersenneTwister": 622}[cname]) if big else None)
            return o if o is not None else g.new(*ctor_args(cname))
        seeds = lambda tag: [Sc("int", x.n) for x in seed_args(cname, tag)[0][1]]  # noqa
        for meth in public(g.cls):
            if meth == "re_init":
                act = lambda o, tag: g.do(o, "re_init", *seeds("again." + tag))  # noqa
            else:
                act = lambda o, tag, meth=meth: g.do(o, meth, *arguments(meth, tag, 32))  # noqa
            every(ck, m, Op("%s.%s" % (cname, meth), g.where(meth), symbolic, act), twice=True)
        every(ck, m, Op("%s()" % cname, g.where("__init__"), lambda tag: None, lambda o, tag: g.new(*seeds(tag))))


def lists(ck, m):
    from .c16 import Kind
    for kind in [("lcrng", "PokeRNGMod", "next_u16", "u16", 4), ("xorshift", "Xorshift128", "next", "u32", 2), ("mersenne_twister", "TinyMersenneTwister", "next", "u32", 2)]:
        k = Kind(ck, m, *kind)
        new = lambda tag: k.new(k.gen("seed." + tag))  # noqa
        for meth in public(k.cls):
            args = {"advance": [I(2)], "advance_states": [I(2)]}.get(meth, [])
            act = lambda o, tag, meth=meth, args=args: k.do(o, meth, *args)  # noqa
            every(ck, m, Op("list of %s.%s" % (kind[1], meth), k.where, new, act))


def hashes(ck, m):
    s = Setup(ck, m)

    def new(tag):
        o = s.new(tag == "b")
        s.set(o, s.values("." + tag))
        return o
    g = s.g

    def seed(o):
        """what an instance is for: its seed"""
        return s.seed(o)

    def filled(o):
        s.set(o, s.values(".new"))
        return s.seed(o)
    for what in ("button", "timer0", "date", "time"):
        every(ck, m, Op("SHA1.set_" + what, g.where("set_" + what), new, lambda o, tag, what=what: g.do(o, "set_" + what, *s.values(".new" + tag)[what]), view=seed))
    every(ck, m, Op("SHA1.precompute", g.where("precompute"), new, lambda o, tag: g.do(o, "precompute"), view=seed))
    u32 = m.ga(m.import_module("numpy"), "uint32")

    def alpha():
        return [Arr(m.dtype_of(u32), (5,), [T.V("alpha%d" % i, 0, M32) for i in range(5)])]

    def ready(tag):
        o = new(tag)
        g.do(o, "precompute")
        return o
    every(ck, m, Op("SHA1.hash_seed", g.where("hash_seed"), ready, lambda o, tag, a: g.do(o, "hash_seed", a), alpha, view=seed))
    every(ck, m, Op("SHA1()", g.where("__init__"), lambda tag: None, lambda o, tag: s.new(False), view=filled))
    f = ck.attr(g.mod, "get_nazo")
    for game in ("BLACK", "WHITE2"):
        v = m.ga(ck.attr(ck.module(m, "enums"), "Game"), game)
        every(ck, m, Op("get_nazo of " + game, "%s get_nazo" % g.mod.env.name, lambda tag: None, lambda o, tag, v=v: m.call(f, [v, s.lang, s.console], {})))


def functions(ck, m):
    mod = ck.module(m, "fnv")
    f = ck.attr(mod, "fnv1a_64")
    every(ck, m, Op("fnv1a_64", "%s fnv1a_64" % mod.env.name, lambda tag: None, lambda o, tag: m.call(f, ["route " + ("1" if tag in "ac" else "2")], {})))
    mod = ck.module(m, "compatability")
    f = mod.env.d.get("mod_inv")
    if f is not None:
        every(ck, m, Op("mod_inv", "%s mod_inv" % mod.env.name, lambda tag: None, lambda o, tag: m.call(f, [I(0x41C64E6D), I(1 << 32)], {})))


def wild(ck, mode):
    from .g3 import G3, machine
    from .c20 import apart, watch
    m = machine(ck, mode)
    g = G3(ck, m)
    for enc, lead in (("GRASS", "NONE"), ("GRASS", "CUTE_CHARM_F"), ("GRASS", "STATIC"), ("ROCK_SMASH", "PRESSURE"), ("SUPER_ROD", "SYNCHRONIZE_HARDY")):
        fixed = [g.e("Method", "METHOD_1"), g.e("Encounter", enc), g.e("Lead", lead), g.e("Game", "EMERALD")]

        def generate(o, tag, area):
            w = watch(g, I(0))

            def append(m, a, kw):
                jit, m.jit = m.jit, False
                try:
                    return m.call(m.ga(w, "take"), a, {})
                finally:
                    m.jit = jit
            w.d["append"] = Builtin("append", append)
            env = g.gen.env
            old = env.d.get("TypedList")
            env.d["TypedList"] = Builtin("TypedList", lambda m, a, kw: w)
            try:
                r = m.call(m.ga(o, "generate"), [sym(n + "." + tag, 0, (1 << 30) - 1) for n in ("seed", "delay", "first", "count")] + [area], {})
            finally:
                env.d["TypedList"] = old
            if r is not w:
                raise Unsupported("the results are not gathered in a typed list")
            return w
        where = g.where(g.gen, "WildGenerator3") + ".generate"
        effects(ck, m, Op("generation %s, lead %s" % (enc, lead), where, lambda tag, fixed=fixed: m.call(g.Gen, fixed + [u("tid." + tag, 16), u("sid." + tag, 16)], {}),
                          generate, lambda: [g.general_area()]))
    for enc, lead in (("GRASS", "NONE"), ("GRASS", "CUTE_CHARM_F")):
        ck.guard("%s/two frames, %s, lead %s" % (mode, enc, lead), lambda: apart(ck, g, enc, lead))


def run(ck):
    for mode in MODES:
        ck.guard("%s/wild" % mode, lambda: wild(ck, mode))
        for part in (lcrngs, others, lists, hashes, functions):
            def go(part=part):
                part(ck, ck.machine(mode))
            ck.guard("%s/%s" % (mode, part.__name__), go)
