"""C21: a generation 3 Pokemon is built by the documented sequence of calls of the game's generator."""
from .g3 import *
from .c22 import TYPE, SAFARI, TABLES

RSE = ("RUBY", "SAPPHIRE", "EMERALD")


def settings(g, enc, lead, game):
    """what the reference needs to know of a configuration"""
    emerald = game == "EMERALD"
    num = g.members("Lead")[lead] if isinstance(lead, str) else lead
    on = lambda *names: emerald and lead in names
    return {"forces": on("MAGNET_PULL", "STATIC"), "pressure": on("PRESSURE", "HUSTLE", "VITAL_SPIRIT"),
            "charm": 1 if on("CUTE_CHARM_F") else 2 if on("CUTE_CHARM_M") else 0, "sync": emerald and num <= 24, "num": num,
            "kind": TYPE.get(lead), "smash": enc == "ROCK_SMASH" and game in RSE}


def view(m, s):
    """what the calls of the generator decide of a generated Pokemon"""
    f = lambda n: Sc("int", number(m.ga(s, n)))
    ivs = m.ga(s, "ivs")
    return (f("pid"), f("species"), f("form"), tuple(Sc("int", x) for x in ivs.data), f("ability"), f("level"), f("shiny"))


def one(ck, g, enc, lead, game, meth):
    m = g.m
    key = "%s/%s %s, %s, lead %s" % (m.mode, game, meth, enc, lead)
    area = g.general_area()
    seed, tid, sid = u("seed", 32), u("tid", 16), u("sid", 16)
    args = [g.e("Method", meth), g.e("Encounter", enc), g.e("Lead", lead) if isinstance(lead, str) else I(lead), g.e("Game", game), tid, sid]
    c = settings(g, enc, lead, game)

    def impl():
        o = m.call(g.Gen, args, {})
        r = m.call(m.ga(o, "generate"), [seed, I(0), I(0), I(1), area], {})
        if isinstance(r, PList):
            out = PList()
            out.items = [(k, view(m, s)) for k, s in r.items]
            return out
        raise Unsupported("the result is not a list")

    def ref():
        table = ck.attr(ck.module(m, "data.personal"), "PERSONAL_INFO_" + TABLES[game])
        slots = g.slots(area, enc)
        picked = g.spec("forced", slots, I(c["kind"]), table) if c["forces"] else PList()
        safari = T.FALSE
        for k in SAFARI.get(game, ()):
            safari = T.or_(safari, T.eq(area.d["location"].n, T.C(k)))
        r = g.spec("frames", seed, I(1), slots, g.shares(enc), Sc("int", area.d[RATE.get(enc, "fish_rate")].n), B(c["smash"]), B(c["forces"]), picked,
                   B(c["pressure"]), I(c["charm"]), Sc("pybool", safari), B(c["sync"]), I(c["num"]), B(meth == "METHOD_2"), B(meth == "METHOD_4"),
                   table, Sc("int", T.xor(tid.n, sid.n)))
        return r
    want = ck.run(m, ref)
    return ck.equiv(key, g.where(g.gen, "WildGenerator3") + ".generate", ck.run(m, impl), want, n=60)


def run(ck):
    kinds = ("GRASS", "SURFING", "ROCK_SMASH", "OLD_ROD", "GOOD_ROD", "SUPER_ROD")
    for mode in MODES:
        m = machine(ck, mode)
        g = G3(ck, m)
        todo = []
        leads = sorted(set(g.members("Lead")), key=lambda k: g.members("Lead")[k])
        encs = g.members("Encounter")
        for lead in leads:
            for meth in ("METHOD_1", "METHOD_2", "METHOD_4"):
                for enc in kinds if not lead.startswith("SYNC") else ("GRASS",):
                    todo.append(("EMERALD", meth, enc, lead))
        for game in ("RUBY", "SAPPHIRE", "FIRE_RED", "LEAF_GREEN"):
            for meth in ("METHOD_1", "METHOD_2", "METHOD_4"):
                for enc in kinds:
                    todo.append((game, meth, enc, "NONE"))
            for lead in leads:
                todo.append((game, "METHOD_1", "GRASS", lead))
        for meth in g.members("Method"):
            todo.append(("EMERALD", meth, "GRASS", "NONE"))
        for enc in encs:
            todo.append(("EMERALD", "METHOD_1", enc, "CUTE_CHARM_F"))
        if ck.thorough:
            todo += [(game, meth, enc, lead) for game in TABLES for meth in ("METHOD_1", "METHOD_2", "METHOD_4") for enc in encs for lead in leads]
        for game, meth, enc, lead in dict.fromkeys(todo):
            key = "%s/%s %s, %s, lead %s" % (mode, game, meth, enc, lead)
            ck.guard(key, lambda: one(ck, g, enc, lead, game, meth))
