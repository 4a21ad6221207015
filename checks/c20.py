"""C20: wild generation examines exactly the requested frames, in order, and labels each result with its frame."""
from .g3 import *
from .c21 import settings, SAFARI, TABLES

def watch(g, k):
    return g.spec("Watch", k)


def seen(o):
    return tuple((n, Sc("int", number(o.d[n]))) for n in sorted(o.d) if n not in ("k", "append"))


def many(ck, g, enc, lead, game, meth, label, types=("int",) * 4, n=60):
    m = g.m
    key = "%s/%s %s, %s, lead %s, %s" % (m.mode, game, meth, enc, lead, label)
    area = g.general_area()
    c = settings(g, enc, lead, game)
    seed, delay = sym("seed", 0, M32, types[0]), sym("delay", 0, (1 << 30) - 1, types[1])
    first, count = sym("initial", 0, (1 << 30) - 1, types[2]), sym("count", 0, (1 << 30) - 1, types[3])
    k = sym("entry", 0, (1 << 31) - 1)
    tid, sid = u("tid", 16), u("sid", 16)
    args = [g.e("Method", meth), g.e("Encounter", enc), g.e("Lead", lead), g.e("Game", game), tid, sid]

    def impl():
        o = m.call(g.Gen, args, {})
        w = watch(g, k)

        def append(m, a, kw):
            jit, m.jit = m.jit, False
            try:
                return m.call(m.ga(w, "take"), a, {})
            finally:
                m.jit = jit
        w.d["append"] = Builtin("append", append)
        env = g.gen.env
        old = env.d.get("TypedList")
        env.d["TypedList"] = Builtin("TypedList", lambda m, a, kw: w)
        try:
            r = m.call(m.ga(o, "generate"), [seed, delay, first, count, area], {})
        finally:
            env.d["TypedList"] = old
        if r is not w:
            raise Unsupported("the results are not gathered in a typed list")
        return seen(w)

    def ref():
        i = lambda x: Sc("int", x.n)  # noqa
        table = ck.attr(ck.module(m, "data.personal"), "PERSONAL_INFO_" + TABLES[game])
        slots = g.slots(area, enc)
        picked = g.spec("forced", slots, I(c["kind"]), table) if c["forces"] else PList()
        safari = T.FALSE
        for s in SAFARI.get(game, ()):
            safari = T.or_(safari, T.eq(area.d["location"].n, T.C(s)))
        w = watch(g, k)
        # that a jump is so many steps is decided by C03
        lead_in = g.rng(i(seed))
        start = m.call(m.ga(lead_in, "jump"), [Sc("int", T.add(first.n, delay.n))], {})
        g.spec("visit", w, i(start), i(first), i(count), slots, g.shares(enc), Sc("int", area.d[RATE.get(enc, "fish_rate")].n), B(c["smash"]), B(c["forces"]),
               picked, B(c["pressure"]), I(c["charm"]), Sc("pybool", safari), B(c["sync"]), I(c["num"]), B(meth == "METHOD_2"), B(meth == "METHOD_4"),
               table, Sc("int", T.xor(tid.n, sid.n)))
        return seen(w)

    def few(rng, env, j):
        env["count"] = rng.randrange(4)
        if "entry" in env:
            env["entry"] = rng.randrange(3)
    want = ck.run(m, ref)
    return ck.equiv(key, g.where(g.gen, "WildGenerator3") + ".generate", ck.run(m, impl), want, n=n, vary=[few])


def apart(ck, g, enc, lead, game="EMERALD", meth="METHOD_1", frames=2):
    """what two frames give is what each gives alone: nothing of a result is shared with the next"""
    m = g.m
    key = "%s/%s %s, %s, lead %s, results of two frames" % (m.mode, game, meth, enc, lead)
    area = g.general_area()
    seed, tid, sid = u("seed", 32), u("tid", 16), u("sid", 16)
    args = [g.e("Method", meth), g.e("Encounter", enc), g.e("Lead", lead), g.e("Game", game), tid, sid]

    def listing(r):
        if not isinstance(r, PList):
            raise Unsupported("the result is not a list")
        return [(c, tuple((n, whole(m.ga(s, n))) for n in sorted(s.d))) for c, s in r.items]

    def whole(v):
        return tuple(Sc("int", x) for x in v.data) if isinstance(v, Arr) else Sc("int", v.n) if isinstance(v, Sc) else type(v).__name__

    def ask(o, first, count):
        return m.call(m.ga(o, "generate"), [seed, I(0), I(first), I(count), area], {})

    def together():
        out = PList()
        out.items = listing(ask(m.call(g.Gen, args, {}), 0, frames))
        return out

    def alone():
        out = PList()
        for k in range(frames):
            out.items += listing(ask(m.call(g.Gen, args, {}), k, 1))
        return out
    return ck.equiv(key, g.where(g.gen, "WildGenerator3") + ".generate", ck.run(m, together), ck.run(m, alone), n=40)


def run(ck):
    kinds = ("GRASS", "SURFING", "ROCK_SMASH", "OLD_ROD", "GOOD_ROD", "SUPER_ROD")
    leads = ("NONE", "SYNCHRONIZE_HARDY", "SYNCHRONIZE_QUIRKY", "CUTE_CHARM_F", "CUTE_CHARM_M", "MAGNET_PULL", "STATIC", "PRESSURE", "ARENA_TRAP")
    for mode in MODES:
        m = machine(ck, mode)
        g = G3(ck, m)
        todo = [("EMERALD", "METHOD_1", enc, lead) for enc in kinds for lead in leads]
        todo += [(game, meth, enc, "NONE") for game in TABLES for meth in ("METHOD_2", "METHOD_4") for enc in ("GRASS", "ROCK_SMASH")]
        if ck.thorough:
            todo += [(game, meth, enc, lead) for game in TABLES for meth in ("METHOD_1", "METHOD_2", "METHOD_4") for enc in kinds for lead in leads]
            todo = list(dict.fromkeys(todo))
        for label, types in (("int arguments", ("int",) * 4), ("np.uint32 arguments", ("u32",) * 4), ("np.uint32 seed", ("u32", "int", "int", "int"))):
            for game, meth, enc, lead in todo:
                if types[1] != "int" and (enc not in ("GRASS", "ROCK_SMASH") or lead not in ("NONE", "CUTE_CHARM_M")):
                    continue
                key = "%s/%s %s, %s, lead %s, %s" % (mode, game, meth, enc, lead, label)
                ck.guard(key, lambda: many(ck, g, enc, lead, game, meth, label, types))
        for enc, lead in (("GRASS", "NONE"), ("GRASS", "CUTE_CHARM_F"), ("GRASS", "SYNCHRONIZE_HARDY"), ("ROCK_SMASH", "NONE")):
            ck.guard("%s/two frames, %s, lead %s" % (mode, enc, lead), lambda: apart(ck, g, enc, lead))
