"""C24: record layouts by constant propagation through the layout declarations, game selection and enumeration numbers by propagating every member."""
import os

from spec import records as R
from .g3 import *

from sa.harness import REPO

PKG = os.path.join(REPO, "numba_pokemon_prngs")
TXT = {"SPECIES_EN": ("species_en.txt", {0: "Egg", 1: "Bulbasaur", 25: "Pikachu", 29: "Nidoran♀", 32: "Nidoran♂", 386: "Deoxys"}),
       "ABILITIES_EN": ("abilities_en.txt", {1: "Stench", 77: "Tangled Feet"}),
       "NATURES_EN": ("natures_en.txt", {k: n.capitalize() for k, n in enumerate(R.NATURES)}),
       "TYPES_EN": ("types_en.txt", {0: "Normal", 1: "Fighting", 16: "Dark"})}
LAYOUT = "constant propagation: field offsets and widths of the declared layout equal the reference layout"
SELECT = "constant propagation of every member through the selection"


def offsets(dtype):
    out, at = {}, 0
    for n, d in dtype.fields:
        out[n] = (at, d.size, d.big, d.dt)
        at += d.size
    return out, at


def members(m, cls):
    out = {}
    for k in cls.d:
        if k.isupper() and not k.startswith("_"):
            v = m.ga(cls, k)
            if isinstance(v, Sc) and v.const is not None:
                out[k] = v.const
    return out


def enums(ck, m, mode):
    en = ck.module(m, "enums")
    for name in ("Game", "Lead", "Method", "Encounter", "LAArea", "LATime", "LAWeather", "Language", "DSType"):
        cls = ck.attr(en, name)
        where = "%s:%d %s" % (cls.env.name if getattr(cls, "env", None) else "numba_pokemon_prngs/enums", getattr(getattr(cls, "node", None), "lineno", 0), name)

        def one(name=name, cls=cls, where=where):
            got = members(m, cls)
            group = {x: g[0] for g in R.ALIKE.get(name, ()) for x in g}
            seen = {}
            for k, v in got.items():
                seen.setdefault(v, set()).add(group.get(k, k))
            clash = {v: sorted(s) for v, s in seen.items() if len(s) > 1}
            ck.fact("%s/%s members are distinct" % (mode, name), not clash, where, "members of %s share a number: %s" % (name, clash), SELECT)
            for g in R.ALIKE.get(name, ()):
                ck.fact("%s/%s %s" % (mode, name, " = ".join(g)), len({got.get(x) for x in g}) == 1, where,
                        "%s differ" % {x: got.get(x) for x in g}, SELECT)
            for k, v in R.NUMBERS.get(name, {}).items():
                ck.fact("%s/%s.%s is %d" % (mode, name, k, v), got.get(k) == v, where, "%s.%s is %s, its data are at %d" % (name, k, got.get(k), v), SELECT)
            if name == "Game":
                bad = {k: v for k, v in got.items() if k != "NONE" and (v <= 0 or v & (v - 1))}
                ck.fact("%s/Game members are single flags" % mode, not bad and got.get("NONE", 0) == 0, where, "not single flags: %s" % bad, SELECT)
        ck.guard("%s/enum %s" % (mode, name), one)


def run(ck):
    for mode in MODES:
        m = machine(ck, mode)
        info = ck.module(m, "data.personal.personal_info")
        pers = ck.module(m, "data.personal")
        data = ck.module(m, "data")
        en = ck.module(m, "enums")
        game = ck.attr(en, "Game")
        enums(ck, m, mode)
        layouts = {}

        def layout(name):
            cls = info.env.d.get(name)
            if cls is None:
                raise Unsupported("%s has no %s" % (info.name, name))
            return m.dtype_of(m.ga(cls, "dtype")), "%s:%d %s" % (info.env.name, getattr(cls.node, "lineno", 0), name)

        def check_layout(label, dtype, ref, where):
            size, fields = ref
            got, total = offsets(dtype)
            ck.fact("%s/%s: size" % (mode, label), total == size, where, "a record takes %#x bytes, not %#x" % (total, size), LAYOUT)
            for f, (at, w) in fields.items():
                g = got.get(f)
                ok = g is not None and g[:3] == (at, w, False) and g[3] in ("u8", "u16")
                ck.fact("%s/%s: %s" % (mode, label, f), ok, where, "%s is read as %s, the games keep it in %d byte(s) at %#x" % (
                    f, "nothing" if g is None else "%d byte(s)%s of type %s at %#x" % (g[1], ", big endian," if g[2] else "", g[3], g[0]), w, at), LAYOUT)
        for name, ref in R.LAYOUTS.items():
            def one(name=name, ref=ref):
                d, where = layout(name)
                check_layout(name, d, ref, where)
            ck.guard("%s/layout %s" % (mode, name), one)
        # ---- which table a game uses
        species = sym("species", 0, 300)

        def uses(label, table, want, where):
            """reading species number s of the table reads record s of the file, laid out as the file was written"""
            if not isinstance(table, ExtArr):
                raise Unsupported("the table of %s is not an array read from a file" % label)
            base = os.path.basename(str(getattr(table, "path", table.name)))
            ck.fact("%s: file" % label, base == "personal_" + want, where, "the table of %s comes from %s, not personal_%s" % (label, base, want), SELECT)
            check_layout(label.split("/", 1)[1], table.dtype, R.LAYOUTS[R.FILES[want]], where)
            path = os.path.join(PKG, "resources/bin/personal", "personal_" + want)
            size = os.path.getsize(path) if os.path.isfile(path) else -1
            ck.fact("%s: whole records" % label, size > 0 and size % table.dtype.size == 0, where, "%s: %d bytes are not a whole number of %d byte records" % (
                path, size, table.dtype.size), SELECT)
            for f in ("hp", "gender_ratio", "ability_1", "type_2"):
                ck.equiv("%s: %s of a species" % (label, f), where, ck.run(m, lambda: Sc("int", number(m.ga(m.gi(table, species), f)))),
                         ck.run(m, lambda: Sc("int", T.ext("personal_%s.%s" % (want, f), (species.n,), *dt_range(dict(table.dtype.fields)[f].dt)))))
        nums = members(m, game)
        for fn, some in (("get_info_table", R.GAMES), ("get_info_table_3", {k: v for k, v in R.GAMES.items() if v in ("rs", "e", "fr", "lg")})):
            f = ck.attr(pers, fn)
            where = "%s:%d %s" % (pers.env.name, getattr(getattr(f, "node", None), "lineno", 0), fn)
            for g, want in some.items():
                for form, v in (("", lambda: m.ga(game, g)), (" as a number", lambda: I(nums[g]))):
                    key = "%s/%s(%s)%s" % (mode, fn, g, form)

                    def one(key=key, v=v, want=want, f=f, where=where):
                        r = m.run(lambda: m.call(f, [v()], {}))
                        if not ck.fact(key + ": a table", r.normal and not any(c is T.TRUE for c, _ in r.raises), where, "%s has no table" % key, SELECT):
                            return
                        uses(key, r.value, want, where)
                    ck.guard(key, one)
        f = ck.attr(pers, "get_info_table")
        for g in nums:
            if g not in R.GAMES:
                def none(g=g):
                    r = m.run(lambda: m.call(f, [m.ga(game, g)], {}))
                    if r.normal and isinstance(r.value, ExtArr):
                        # a game that gets a table gets its own
                        base = os.path.basename(str(getattr(r.value, "path", "")))
                        ok = base in {"HEART_GOLD": ("personal_hgss",), "SOUL_SILVER": ("personal_hgss",)}.get(g, ())
                    else:
                        ok = any(c is T.TRUE and e.cls.name == "NotImplementedError" for c, e in r.raises)
                    ck.fact("%s/get_info_table(%s) is not another game's" % (mode, g), ok, where, "%s gets a table of another game" % g, SELECT)
                ck.guard("%s/no table %s" % (mode, g), none)
        # ---- names are those of the bundled lists
        for name, (file, known) in TXT.items():
            def names(name=name, file=file, known=known):
                v = m.iterate(ck.attr(data, name))
                path = os.path.join(PKG, "resources/txt", file)
                with open(path, encoding="utf-8-sig") as fh:
                    lines = fh.read().splitlines()
                got = [str(x) if isinstance(x, str) else None for x in v]
                where = "%s %s" % (data.env.name, name)
                ck.fact("%s/%s are the lines of %s" % (mode, name, file), got == lines, where, "first difference at %s" % next(
                    (k for k, (a, b) in enumerate(zip(got + [None], lines + [None])) if a != b), "the length"), SELECT)
                for k, n in known.items():
                    ck.fact("%s/%s[%d]" % (mode, name, k), k < len(got) and got[k] == n, where, "%s[%d] is %r, not %r" % (
                        name, k, got[k] if k < len(got) else None, n), SELECT)
            ck.guard("%s/names %s" % (mode, name), names)
        ck.guard(mode + "/gender symbols", lambda: ck.fact(mode + "/GENDER_SYMBOLS", tuple(m.iterate(ck.attr(data, "GENDER_SYMBOLS"))) == ("♂", "♀", "-"),
                                                           "%s GENDER_SYMBOLS" % data.env.name, "the symbols are for male, female, none in that order", SELECT))
