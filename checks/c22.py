"""C22: slots, levels, forced slots and rates of generation 3 encounters follow the games' tables."""
import os

from sa.harness import REPO
from .g3 import *

# location numbers (index in the game's table) of the Safari Zone's areas
SAFARI = {"RUBY": (89, 90, 91, 92, 186, 187, 188, 189), "SAPPHIRE": (89, 90, 91, 92, 186, 187, 188, 189), "EMERALD": (20, 72, 73, 74, 97, 98)}
# the type each lead attracts: steel, fire, water, grass and electric in the numbering of the species records
TYPE = {"MAGNET_PULL": 8, "FLASH_FIRE": 9, "STORM_DRAIN": 10, "HARVEST": 11, "STATIC": 12}
# species of exactly these types, to read that numbering off the bundled records
KNOWN = {81: ("Electric", "Steel"), 4: ("Fire", "Fire"), 7: ("Water", "Water"), 114: ("Grass", "Grass"), 25: ("Electric", "Electric")}
LEADS = {"MAGNET_PULL": "Steel", "FLASH_FIRE": "Fire", "STORM_DRAIN": "Water", "HARVEST": "Grass", "STATIC": "Electric"}
TABLES = {"RUBY": "RS", "SAPPHIRE": "RS", "EMERALD": "E", "FIRE_RED": "FR", "LEAF_GREEN": "LG"}


def numbering(ck, m):
    """the type numbers of the leads are those the bundled species records use for the types of these names"""
    where = os.path.join(REPO, "numba_pokemon_prngs", "resources")
    for table in sorted(set(TABLES.values())):
        with open(os.path.join(where, "bin", "personal", "personal_" + table.lower()), "rb") as f:
            raw = f.read()
        size = len(raw) // 387
        number = {}
        for species, names in KNOWN.items():
            for name, b in zip(names, raw[species * size + 6:species * size + 8]):
                number.setdefault(name, set()).add(b)
        for lead, name in LEADS.items():
            ck.fact("%s/number of type %s in table %s" % (m.mode, name, table), number[name] == {TYPE[lead]},
                    "numba_pokemon_prngs/resources/bin/personal/personal_" + table.lower(), "%s is %s" % (name, sorted(number[name])), "constants of the bundled records")


def run(ck):
    for mode in MODES:
        m = machine(ck, mode)
        g = G3(ck, m)
        mod = g.area_mod
        area = g.area()
        seed = sym("seed", 0, M32)
        encs, leads, games = g.members("Encounter"), g.members("Lead"), g.members("Game")

        def check(key, name, impl, ref, **kw):
            key = "%s/%s" % (mode, key)
            ck.guard(key, lambda: ck.equiv(key, g.where(mod, name), ck.run(m, lambda: impl(g.fn(mod, name))), ck.run(m, ref), n=120, **kw))

        def drawn(f, *args):
            r = g.rng(seed)
            v = m.call(f, [x if x is not None else r for x in args], {})
            return v, m.ga(r, "seed")

        def passed(v):
            """an enumeration's member as users pass it and as the generator keeps it"""
            return (("enum", I(v)), ("uint8", Sc("u8", T.C(v))))
        # ---- each roll's slot, every encounter type
        for enc, num in encs.items():
            for label, e in passed(num):
                def impl(f):
                    v, s = drawn(f, area, None, e)
                    return g.triple(v), s

                def ref():
                    st = g.spec("Stream", seed)
                    return g.triple(g.spec("slot", g.slots(area, enc), g.shares(enc), st)), st.d["seed"]
                check("slot of %s as %s" % (enc, label), "calculate_hslot", impl, ref)

                def rate():
                    return Sc("int", area.d[RATE.get(enc, "fish_rate")].n)
                check("rate of %s as %s" % (enc, label), "get_encounter_rate", lambda f: m.call(f, [area, e], {}), rate)
        # ---- which roll gives which slot: all 100 rolls of every table
        for name, shares in (("GRASS_TABLE", "land"), ("OLD_ROD_TABLE", "fish_old"), ("GOOD_ROD_TABLE", "fish_good"),
                             ("SUPER_ROD_TABLE", "fish_super"), ("ROCK_SMASH_AND_SURF_TABLE", "water"), ("ROCK_SMASH_AND_SURF_TABLE", "rock")):
            roll = sym("roll", 0, 99)
            check("%s of %s" % (name, shares), name, lambda t: Sc("int", m.gi(t, roll).n), lambda: m.gi(m.gi(m.import_module("spec.gen3").env.d["SHARES"], shares), roll))
        # ---- slots an ability forces
        for enc in encs:
            if enc not in KIND and enc != "GRASS":
                continue
            for lead, num in leads.items():
                for label, l in passed(num):
                    most = len(g.slots(area, enc).data)
                    for picked in sorted({0, 1, 2, 3, most - 1, most}) if lead in LEADS else (0, 2):
                        some = PList(list(g.slots(area, enc).data[:picked]), typed=True)

                        def impl(f):
                            v, s = drawn(f, area, None, I(encs[enc]), l, some)
                            return g.triple(v), s

                        def ref():
                            st = g.spec("Stream", seed)
                            v = g.spec("slot_with_lead", g.slots(area, enc), g.shares(enc), st, B(lead in ("MAGNET_PULL", "STATIC")), some)
                            return g.triple(v), st.d["seed"]
                        if label == "uint8" or enc == "GRASS":
                            check("slot of %s, lead %s as %s, %d forced" % (enc, lead, label, len(some.items)), "calculate_hslot_lead", impl, ref)
        data = ck.module(m, "data.personal")
        ck.guard(mode + "/type numbers", lambda: numbering(ck, m))
        for game, gnum in games.items():
            table = ck.attr(data, "PERSONAL_INFO_" + TABLES.get(game, "E"))
            for lead, num in leads.items():
                kind = TYPE.get(lead)
                for enc in encs:
                    # every type of encounter where the lead forces slots, one where it does not
                    if game != "EMERALD" and (enc != "SURFING" or lead not in ("STATIC", "MAGNET_PULL", "NONE")):
                        continue
                    if kind is None and enc not in ("GRASS", "SURFING"):
                        continue

                    def impl(f):
                        return g.triples(m.call(f, [area, I(encs[enc]), I(num), I(gnum), table], {}))

                    def ref():
                        return g.triples(g.spec("forced", g.slots(area, enc), I(kind), table)) if kind is not None else PList()
                    check("forced slots in %s, %s with %s" % (game, enc, lead), "get_modified_slots", impl, ref)
            where = sym("location", 0, 0xFFFF)
            place = g.area()
            place.d["location"] = Sc("u16", where.n)

            def safari():
                c = T.FALSE
                for k in SAFARI.get(game, ()):
                    c = T.or_(c, T.eq(where.n, T.C(k)))
                return Sc("pybool", c)
            for label, v in [("enum", I(gnum))] + ([("uint8", Sc("u8", T.C(gnum)))] if gnum < 256 else []):
                check("safari zone of %s as %s" % (game, label), "is_rse_safari_zone",
                      lambda f: Sc("pybool", m.truth(m.call(f, [place, v], {}))), safari)
        # ---- levels
        rec = m.gi(g.slots(area, "GRASS"), I(0))
        low, high = rec.d["min_level"].n, rec.d["max_level"].n
        for pressure in (False, True):
            def impl(f):
                v, s = drawn(f, rec, None, B(pressure))
                return Sc("int", number(v)), s

            def ref():
                st = g.spec("Stream", seed)
                return g.spec("level", Sc("int", low), Sc("int", high), st, B(pressure)), st.d["seed"]
            label = "level%s" % (" under pressure" if pressure else "")
            check(label, "calculate_level", impl, ref)
            key = "%s/%s lies within the slot's levels" % (mode, label)

            def bounds():
                side = ck.run(m, lambda: drawn(g.fn(mod, "calculate_level"), rec, None, B(pressure)))
                v = number(side.value[0])
                ck.valid(key, g.where(mod, "calculate_level"), side, T.and_(T.le(low, v), T.le(v, high)), n=200)
            ck.guard(key, bounds)
