"""Shared set-up of the generation 3 checks: the package imported with its data files left symbolic."""
from .common import *

KIND = {"OLD_ROD": "fish_old", "GOOD_ROD": "fish_good", "SUPER_ROD": "fish_super", "ROCK_SMASH": "rock", "SURFING": "water"}
RATE = {"GRASS": "land_rate", "ROCK_SMASH": "rock_rate", "SURFING": "water_rate"}


def json_stub(m, path):
    if isinstance(path, str) and "wild_encounters" in path:
        return m.fromjson({"wild_encounter_groups": [{"encounters": []}]})
    return None


def machine(ck, mode, **hooks):
    h = {"json": json_stub, "fb_len": lambda m, a, b: 0, "exists": lambda m, p: B(False), "tolerate_missing": True}
    h.update(hooks)
    return ck.machine(mode, fresh=True, **h)


def symrec(dtype, prefix, special=None):
    """record with one variable per scalar field"""
    r = Rec(dtype, True)
    for n, d in dtype.fields:
        if d.sub is not None:
            base, shape = d.sub
            k = 1
            for s in shape:
                k *= s
            r.d[n] = Arr(base, shape, [symrec(base, "%s.%s%d" % (prefix, n, i), special) if base.fields is not None else
                                       T.V("%s.%s%d" % (prefix, n, i), *dt_range(base.dt)) for i in range(k)], recarr=True)
        else:
            name = "%s.%s" % (prefix, n)
            node = special(n, name) if special else None
            r.d[n] = Sc(d.dt, node if node is not None else T.V(name, *dt_range(d.dt)))
    return r


def slot_field(n, name):
    """a slot of a game's table: a species number of generation 3 below a form number, a minimum level and a range of levels"""
    if n == "min_level":
        return T.V(name, 1, 100)
    if n == "max_level":
        base = name[:-len(n)]
        return T.add(T.V(base + "min_level", 1, 100), T.V(base + "level_range", 0, 100))
    if n == "species":
        return T.add(T.V(name, 0, 386), T.mul(T.V(name + ".form", 0, 27), T.C(2048)))
    return None


class G3:
    def __init__(self, ck, m):
        self.ck, self.m = ck, m
        self.gen = ck.module(m, "gen3.wild_generator_3")
        self.area_mod = ck.module(m, "gen3.encounter_area_3")
        self.util = ck.module(m, "gen3.util")
        self.state = ck.module(m, "gen3.state")
        en = ck.module(m, "enums")
        self.enums = {k: ck.attr(en, k) for k in ("Encounter", "Lead", "Game", "Method")}
        self.Gen = ck.attr(self.gen, "WildGenerator3")
        self.dtype = m.ga(ck.attr(ck.module(m, "data.encounter.encounter_area_3"), "EncounterArea3"), "dtype")

    def e(self, kind, name):
        return self.m.ga(self.enums[kind], name)

    def members(self, kind):
        """name -> number of every member, aliases included"""
        out = {}
        for k in self.enums[kind].d:
            if k.isupper() and not k.startswith("_"):
                v = self.e(kind, k)
                if isinstance(v, Sc) and v.const is not None:
                    out[k] = v.const
        return out

    def fn(self, mod, name):
        v = mod.env.d.get(name)
        if v is None:
            raise Unsupported("%s has no function %s of its own" % (mod.name, name))
        return v

    def area(self):
        return symrec(self.dtype, "area", slot_field)

    def general_area(self):
        """an area whose tables are uninterpreted functions of the slot number"""
        area = self.area()
        for n, v in area.d.items():
            if isinstance(v, Arr):
                def reader(idx, f, d, n=n):
                    x = lambda f, hi, lo=0: T.ext("area.%s.%s" % (n, f), (idx,), lo, hi)  # noqa
                    return Sc(d.dt, {"min_level": x("min_level", 100, 1), "max_level": T.add(x("min_level", 100, 1), x("level_range", 100)),
                                     "species": T.add(x("species", 386), T.mul(x("form", 27), T.C(2048)))}[f])
                area.d[n] = ExtArr("area." + n, v.dtype, len(v.data), reader)
        return area

    def slots(self, area, enc):
        return area.d[KIND.get(enc, "land")]

    def where(self, mod, name):
        f = mod.env.d.get(name)
        return "%s:%d %s" % (mod.env.name, getattr(getattr(f, "node", None), "lineno", 0), name)

    def spec(self, fn, *args):
        return self.ck.spec(self.m, "gen3", fn, *args)

    def shares(self, enc):
        return KIND.get(enc, "land")

    def rng(self, seed):
        return self.m.call(self.ck.attr(self.ck.module(self.m, "lcrng"), "PokeRNGMod"), [seed], {})

    def triple(self, r):
        """a slot as its contents"""
        return tuple(Sc("int", self.m.ga(r, f).n) for f in ("min_level", "max_level", "species"))

    def triples(self, l):
        out = PList()
        out.items = [(c, self.triple(v)) for c, v in l.items]
        return out


def number(v):
    """the integer a value holds, whichever type each branch gives it"""
    if isinstance(v, Alt):
        return T.ite(v.c, number(v.a), number(v.b))
    if isinstance(v, Sc):
        return T.f2i(v.n, 64, True) if v.dt in FLOATS else v.n
    raise Unsupported("a number was expected, not %r" % (v,))
