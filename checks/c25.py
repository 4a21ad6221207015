"""C25: the loader's value graph on symbolic source tables of every shape, and constant propagation through every bundled table."""
import json
import os
import re

from sa.harness import REPO
from .g3 import *

PKG = os.path.join(REPO, "numba_pokemon_prngs")
FILES = {"RUBY": "rs", "SAPPHIRE": "rs", "EMERALD": "e", "FIRE_RED": "frlg", "LEAF_GREEN": "frlg"}
LABEL = {"RUBY": "Ruby", "SAPPHIRE": "Sapphire", "FIRE_RED": "FireRed", "LEAF_GREEN": "LeafGreen"}
# the letter of each Unown slot, by chamber of the Tanoby ruins
UNOWN = {"MONEAN": "AAAAAAAAAAA?", "LIPTOO": "CCCDDDHHHUUO", "WEEPTH": "NNNNSSSSIIEE", "DILFORD": "PPLLJJRRRQQQ", "SCUFIB": "YYTTGGGFFFKK",
         "RIXY": "VVVWWWXXMMBB", "VIAPOIS": "ZZZZZZZZZZZ!"}
TABLES = (("land_rate", "land_mons", (("land", 0, 12),)), ("water_rate", "water_mons", (("water", 0, 5),)),
          ("rock_rate", "rock_smash_mons", (("rock", 0, 5),)),
          ("fish_rate", "fishing_mons", (("fish_old", 0, 2), ("fish_good", 2, 5), ("fish_super", 5, 10))))
SLOTS = {"land_mons": 12, "water_mons": 5, "rock_smash_mons": 5, "fishing_mons": 10}


def forms(place):
    for chamber, letters in UNOWN.items():
        if place == "MAP_SEVEN_ISLAND_TANOBY_RUINS_%s_CHAMBER" % chamber:
            return [{"!": 26, "?": 27}.get(x, ord(x) - 65) for x in letters]
    return None


def readable(place):
    out = []
    for w in place.replace("MAP_", "").replace("_", " ").split():
        for kind in ("Route", "Room"):
            k = re.match(kind + r"(\d+)", w, re.I)
            if k:
                out.append("%s %s" % (kind, k[1]))
                break
        else:
            out.append(w if re.match(r"(B?\d+F|\d+R)", w) else w.capitalize())
    return " ".join(out)


def skipped(label):
    return "Unused" in label or bool(re.search(r"AlteringCave_?[2-9]", label))


def expected(game, entries, species, val):
    """(names, rows) the documented tables of the entries that belong to the game"""
    own = [e for e in entries if game not in LABEL or LABEL[game] in e["base_label"]]
    names, rows = [], []
    for k, e in enumerate(own):
        use = not skipped(e["base_label"])
        names.append(readable(e["map"]) if use else "")
        row = {"location": I(k if use else 0)}
        unown = forms(e["map"])
        for rate, key, parts in TABLES:
            src = e.get(key) if use else None
            row[rate] = val(src["encounter_rate"]) if src else I(0)
            for part, lo, hi in parts:
                slots = src["mons"][lo:hi] if src else []
                l = []
                for j in range(hi - lo):
                    if j >= len(slots):
                        l.append((I(0),) * 3)
                        continue
                    s = slots[j]
                    sp = species.index(s["species"])
                    if unown and part == "land":
                        sp |= unown[lo + j] << 11
                    l.append((val(s["min_level"]), val(s["max_level"]), I(sp)))
                row[part] = tuple(l)
        rows.append(row)
    return names, rows


def shaped(game):
    """source tables of every shape: each set of encounter types present, own and foreign labels, unused and repeated places, Unown chambers"""
    entries, count = [], [0]
    mine = {"EMERALD": ""}.get(game, "_" + LABEL.get(game, ""))
    foreign = "_" + {"RUBY": "Sapphire", "SAPPHIRE": "Ruby", "FIRE_RED": "LeafGreen", "LEAF_GREEN": "FireRed"}.get(game, "")

    def number(name, hi):
        count[0] += 1
        return T.V("%s%d" % (name, count[0]), 0, hi)

    def entry(label, place, kinds, unown=False):
        e = {"map": place, "base_label": label}
        for key in kinds:
            mons = []
            for _ in range(SLOTS[key]):
                mons.append({"species": None if not unown else 201, "min_level": number("min", 255), "max_level": number("max", 255)})
            e[key] = {"encounter_rate": number("rate", 255), "mons": mons}
        entries.append(e)
    kinds = list(SLOTS)
    for mask in range(16):
        some = [k for j, k in enumerate(kinds) if mask >> j & 1]
        if game in LABEL:
            entry("gPlace%d%s" % (mask, foreign), "MAP_ROUTE%d" % (101 + mask), some)
        entry("gPlace%d%s" % (mask, mine), "MAP_ROUTE%d" % (101 + mask), some)
        # the same place once more in the other order of keys
        entry("gPlace%d%s" % (mask, mine), "MAP_MT_PYRE_%dF" % (mask + 1), some[::-1])
    for label in ("gPlaceUnused", "gAlteringCave2", "gAlteringCave9", "gSixIsland_AlteringCave_2", "gSixIsland_AlteringCave_9"):
        entry(label + mine, "MAP_ALTERING_CAVE", kinds)
    for label in ("gAlteringCave1", "gAlteringCave", "gSixIsland_AlteringCave_1"):
        entry(label + mine, "MAP_ALTERING_CAVE", kinds)
    for chamber in UNOWN:
        entry("gTanoby%s%s" % (chamber, mine), "MAP_SEVEN_ISLAND_TANOBY_RUINS_%s_CHAMBER" % chamber, ["land_mons"], True)
    for place in ("MAP_DEEP_CAVE_B12F", "MAP_POKEMON_TOWER_11F", "MAP_MT_EMBER_10R", "MAP_MANSION_ROOM12", "MAP_ROUTE7", "MAP_UNDERWATER", "MAP_B_SIDE_4ISLE"):
        entry("gShape%s" % mine, place, ["land_mons"])
    entry("gLast%s" % mine, "MAP_SEAFLOOR_CAVERN_ROOM3", kinds)
    return entries


def run(ck):
    for mode in MODES:
        m = machine(ck, mode, json=lambda m, p: None)
        enc = ck.module(m, "data.encounter")
        data = ck.module(m, "data")
        game = ck.attr(ck.module(m, "enums"), "Game")
        load = ck.attr(enc, "load_encounter_3")
        species = ["SPECIES_" + {"Nidoran♂": "Nidoran_M", "Nidoran♀": "Nidoran_F"}.get(x, x).upper() for x in m.iterate(ck.attr(data, "SPECIES_EN"))]
        got = [x for x in m.iterate(ck.attr(data, "CONSTANT_CASE_SPECIES_EN"))]
        ck.guard(mode + "/species by name", lambda: ck.fact(
            mode + "/species by name", got == species, "%s CONSTANT_CASE_SPECIES_EN" % data.env.name, "first difference at %s" % next(
                (k for k, (a, b) in enumerate(zip(got, species)) if a != b), "the length"), "constant propagation over the whole table"))
        where = "numba_pokemon_prngs/data/encounter/__init__.py load_encounter_3"

        def split(v):
            names, rows = m.iterate(v)
            return [x for x in m.iterate(names)], [m.gi(rows, I(k)) for k in range(m.length(rows).const)]

        def part(rows, name):
            out = [I(len(rows))]
            for r in rows:
                x = m.ga(r, name)
                if isinstance(x, Sc):
                    out.append(Sc("int", number(x)))
                else:
                    for s in m.iterate(x):
                        out.append(tuple(Sc("int", number(m.ga(s, f))) for f in ("min_level", "max_level", "species")))
            return tuple(out)

        def wanted(rows, name):
            out = [I(len(rows))]
            for r in rows:
                if isinstance(r[name], Sc):
                    out.append(r[name])
                else:
                    out += list(r[name])
            return tuple(out)

        def compare(label, value, game_name, entries, val):
            names, rows = expected(game_name, entries, species, val)
            ck.equiv(label + ": places", where, ck.run(m, lambda: tuple(split(value())[0])), ck.run(m, lambda: tuple(names)))
            for f in ("location", "land_rate", "land", "water_rate", "water", "rock_rate", "rock", "fish_rate", "fish_old", "fish_good", "fish_super"):
                ck.equiv("%s: %s" % (label, f), where, ck.run(m, lambda: part(split(value())[1], f)), ck.run(m, lambda: wanted(rows, f)))
        for g, file in FILES.items():
            path = os.path.join(PKG, "resources/encount", "%s_wild_encounters.json" % file)

            def bundled(g=g, path=path):
                with open(path, encoding="utf-8") as fh:
                    entries = json.load(fh)["wild_encounter_groups"][0]["encounters"]
                for what, value in (("loaded", lambda: m.call(load, [m.ga(game, g)], {})),
                                    ("published", lambda: (m.gi(ck.attr(enc, "MAP_NAMES_GEN3"), m.ga(game, g)),
                                                           m.gi(ck.attr(enc, "ENCOUNTER_INFORMATION_GEN3"), m.ga(game, g))))):
                    if what == "loaded":
                        r = m.run(value)
                        if not r.normal:
                            ck.equiv("%s/%s tables of %s" % (mode, what, g), where, ck.run(m, value), ck.run(m, lambda: I(0)))
                            continue
                        res = r.value
                        value = lambda res=res: res  # noqa
                    compare("%s/%s tables of %s" % (mode, what, g), value, g, entries, I)
            ck.guard("%s/bundled %s" % (mode, g), bundled)

            def general(g=g):
                entries = shaped(g)
                k = 0
                for e in entries:
                    for key in SLOTS:
                        for s in e.get(key, {}).get("mons", ()):
                            k += 1
                            s["species"] = species[s["species"] or (k * 7) % 387]
                num = lambda x: Sc("int", x) if isinstance(x, T.N) else I(x)  # noqa

                def tree(x):
                    if isinstance(x, dict):
                        d = m.fromjson({})
                        for a, b in x.items():
                            m.si(d, a, tree(b))
                        return d
                    if isinstance(x, (list, tuple)):
                        return PList([tree(b) for b in x])
                    return x if isinstance(x, str) else num(x)
                asked = []

                def source(m, p):
                    if isinstance(p, str) and p.endswith(".json"):
                        asked.append(os.path.basename(p))
                        return tree({"wild_encounter_groups": [{"encounters": entries}, {"encounters": []}]})
                    return None
                m.hooks["json"] = source
                r = m.run(lambda: m.call(load, [m.ga(game, g)], {}))
                m.hooks["json"] = lambda m, p: None
                if not r.normal:
                    m.hooks["json"] = source
                    ck.equiv("%s/any tables of %s" % (mode, g), where, ck.run(m, lambda: m.call(load, [m.ga(game, g)], {})), ck.run(m, lambda: I(0)))
                    return
                compare("%s/any tables of %s" % (mode, g), lambda: r.value, g, entries, num)
                ck.fact("%s/file of %s" % (mode, g), asked == ["%s_wild_encounters.json" % FILES[g]], where, "%s reads %s" % (g, asked), "constant propagation")
            ck.guard("%s/any %s" % (mode, g), general)
