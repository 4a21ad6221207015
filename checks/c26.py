"""C26: packing composed with unpacking as a value graph over symbolic tables; the loader's value graph over symbolic source tables."""
from .c27 import plain
from .g3 import *

IDS = (1, (1 << 63) + 5, M64, 0x71A4C3F6BF1A2B3C)
SHAPES = ((), (0,), (1,), (3,), (2, 1), (1, 0, 3), (2, 2, 1, 1))


def levels(own, area, up, alpha):
    """level of a slot: its own within 1..100, else the table's, plus the boost; as it is and as bytes add it"""
    x = T.ite(T.and_(T.lt(T.C(0), own), T.le(own, T.C(100))), own, area)
    byte = lambda t: T.and_(t, T.C(255))  # noqa
    return [Sc("int", y) for y in (T.ite(alpha, T.add(x, up), x), T.ite(alpha, byte(T.add(byte(x), up)), byte(x)), byte(T.add(x, T.ite(alpha, up, T.C(0)))), byte(T.add(byte(x), T.ite(alpha, up, T.C(0)))))]


def rates(own, species):
    """multipliers of a slot: its own, the species' where negative, one where that is negative"""
    def one(o, s):
        neg = lambda x: T.fop("flt", x, T.fconst(0.0, 64), 64)  # noqa
        x = T.ite(neg(o), s, o)
        return T.f2f(T.ite(neg(x), T.fconst(1.0, 64), x), 32)
    return [tuple(Sc("float", one(o.n, s.n)) for o, s in zip(own, species))]


def items(m, d):
    """(key, table) pairs of a map of tables"""
    keys = m.iterate(m.call(m.ga(d, "keys"), [], {}))
    return [(k, m.gi(d, k)) for k in keys]


def describe(m, d, fields, signed=False):
    """contents of a map of tables ordered by key"""
    out = []
    for k, t in items(m, d):
        rows = tuple(tuple(plain(m, m.ga(s, f)) for f in fields) for s in records(m, m.ga(t, "slots")))
        out.append((number(k).args[0] if number(k).op == "c" else repr(number(k)), Sc("int", number(m.ga(t, "table_id"))), rows))
    out.sort(key=lambda x: str(x[0]))
    return tuple((str(k), i, r) for k, i, r in out)


def records(m, arr):
    return [m.gi(arr, I(i)) for i in range(m.pyval(m.call(m.builtins["len"], [arr], {})))]


def plain_data(m, v, seen, depth=0):
    """name of something in v that cannot be pickled, or None"""
    if isinstance(v, Obj):
        return "an instance of %s" % v.cls.name
    if isinstance(v, PDict):
        if type(v).__name__ != "PDict" or getattr(v, "typed", None):
            return "a typed dictionary"
        for k, x in v.d.values():
            r = plain_data(m, k, seen, depth + 1) or plain_data(m, x, seen, depth + 1)
            if r:
                return r
    if isinstance(v, PList):
        v = tuple(v.vals())
    if isinstance(v, tuple):
        for x in v:
            r = plain_data(m, x, seen, depth + 1)
            if r:
                return r
    if isinstance(v, (Func, Cls, Builtin)):
        return "a function"
    return None


def run(ck):
    for mode in MODES:
        ck.guard("%s/packing" % mode, lambda: packing(ck, mode))
        ck.guard("%s/loading" % mode, lambda: loading(ck, mode))


def given(dtype, k):
    """slots of known content, zeros and extreme values among them"""
    r = symrec(dtype, "")
    for j, (n, d) in enumerate(dtype.fields):
        if isinstance(r.d[n], Arr):
            base = r.d[n].dtype
            r.d[n] = Arr(base, r.d[n].shape, [T.fconst((0.0, 1.0, 2.0, 0.5)[(i + j + k) % 4], 32) for i in range(len(r.d[n].data))], recarr=True)
        else:
            r.d[n] = Sc(d.dt, T.C((0, dt_range(d.dt)[1], 1, 7)[(j * 3 + k) % 4]))
    return r


def packing(ck, mode):
    m = machine(ck, mode)
    enc = ck.module(m, "data.encounter")
    la = ck.module(m, "data.encounter.encounter_area_la")
    area = ck.attr(la, "EncounterAreaLA")
    dtype = m.ga(ck.attr(la, "SlotLA"), "dtype")
    fields = [f for f, _ in dtype.fields]
    pack, unpack = ck.attr(enc, "encounter_tables_la_encode"), ck.attr(enc, "encounter_tables_la_decode")
    where = "%s:%d %s" % (enc.env.name, pack.node.lineno, "encounter_tables_la_encode/decode")
    mk = ck.attr(ck.module(m, "compilation"), "TypedDict")
    u64 = m.ga(m.ext_modules["numpy"], "uint64")
    for shape, fixed in [(x, False) for x in SHAPES] + [((3, 1), True), ((4,), True)]:
        key = "%s/tables of %s slots%s" % (mode, "+".join(map(str, shape)) or "no", ", given values" if fixed else "")

        def one(shape=shape, key=key, fixed=fixed):
            def tables():
                d = m.call(mk, [], {"key_type": u64, "value_type": area})
                rows = []
                for j, n in enumerate(shape):
                    t = m.call(area, [Sc("u64", T.C(IDS[j])), I(n)], {})
                    arr = m.ga(t, "slots")
                    m.touch(arr)
                    arr.data = [(given(dtype, i) if fixed else symrec(dtype, "t%d.s%d" % (j, i))) for i in range(n)]
                    m.si(d, Sc("u64", T.C(IDS[j])), t)
                    rows.append((IDS[j], Sc("int", T.C(IDS[j])), tuple(tuple(plain(m, s.d[f]) for f in fields) for s in arr.data)))
                rows.sort(key=lambda x: str(x[0]))
                return d, tuple((str(a), b, c) for a, b, c in rows)
            d, want = tables()
            packed = m.run(lambda: m.call(pack, [d], {}))
            bad = plain_data(m, packed.value, set()) if packed.normal else None
            ck.fact("%s: packed data is plain" % key, bad is None, where, "the packed data contains %s" % bad, "types of the packed data")
            ck.equiv("%s: come back" % key, where, ck.run(m, lambda: describe(m, m.call(unpack, [m.call(pack, [d], {})], {}), fields)), ck.run(m, lambda: want))
            ck.equiv("%s: are left alone" % key, where, ck.run(m, lambda: (m.call(pack, [d], {}), describe(m, d, fields))[1]), ck.run(m, lambda: want))
            def found():
                back = m.call(unpack, [m.call(pack, [d], {})], {})
                return tuple(Sc("int", number(m.ga(m.gi(back, Sc("u64", T.C(IDS[j]))), "table_id"))) for j in range(len(shape)))
            ck.equiv("%s: are found by identifier" % key, where, ck.run(m, found), ck.run(m, lambda: tuple(Sc("int", T.C(IDS[j])) for j in range(len(shape)))))
        ck.guard(key, one)


def loading(ck, mode):
    m = machine(ck, mode)
    enc = ck.module(m, "data.encounter")
    la = ck.module(m, "data.encounter.encounter_area_la")
    en = ck.module(m, "enums")
    areas = ck.attr(en, "LAArea")
    dtype = m.ga(ck.attr(la, "SlotLA"), "dtype")
    fields = [f for f, _ in dtype.fields]
    load = ck.attr(enc, "load_encounter_tables_la")
    where = "%s load_encounter_tables_la" % enc.env.name
    sp = m.import_module("spec.la")
    new = lambda c, *a: m.call(sp.env.d[c], list(a), {})  # noqa
    fl = lambda name: Sc("float", T.f2f(T.VF(name, 32), 64))  # noqa
    MON = ((25, 0), (483, 1), (58, 2))

    def mult(p, none=False):
        return (tuple(fl("%s.time%d" % (p, i)) for i in range(4)),
                (Sc("float", T.fconst(1.0, 64)) if none else fl("%s.weather0" % p),) + tuple(fl("%s.weather%d" % (p, i)) for i in range(1, 9)))
    species = {k: mult("mon%d" % j) for j, k in enumerate(MON)}
    boosts = {k: sym("boost%d" % j, 1, 5) for j, k in enumerate(MON)}

    def lookup(make):
        d = m.fromjson({})
        for k in MON:
            m.si(d, (I(k[0]), I(k[1])), make(k))
        return new("Lookup", d)

    def source(shape):
        tables, spec = [], []
        c = 0
        for j, n in enumerate(shape):
            slots, rows = [], []
            lo, hi = sym("t%d.min" % j, 1, 100), sym("t%d.max" % j, 1, 100)
            for i in range(n):
                p = "t%d.s%d" % (j, i)
                mon = MON[c % 3]
                # every slot is an alpha, no alpha, or either
                alpha = (B(True), B(False), Sc("pybool", T.V(p + ".alpha", 0, 1)))[c // 3 % 3]
                form = I(mon[1]) if mon[1] or c % 2 else None
                c += 1
                a, b = mult(p, True)
                own = [sym(p + "." + f, x, y) for f, x, y in (("gender", 0, 2), ("ivs", 0, 3), ("prob", 0, (1 << 31) - 1), ("lo", -1, 255), ("hi", -1, 255))]
                slots.append(new("Slot", I(mon[0]), own[0], form, own[1] if c % 4 else None, own[2], own[3], own[4], new("Multipliers", a, b), alpha))
                up = T.sel(boosts[mon].n, [T.C(x) for x in (0, 15, 15, 15, 20, 20)])
                lv = lambda o, ar: levels(o.n, ar.n, up, alpha.n)  # noqa
                ints = lambda x: Sc("int", x)  # noqa
                want = {"species": I(mon[0]), "gender": own[0], "form": I(mon[1]), "min_level": lv(own[3], lo), "max_level": lv(own[4], hi),
                        "guaranteed_ivs": own[1] if c % 4 else I(0), "base_probability": own[2], "is_alpha": ints(alpha.n),
                        "time_multipliers": rates(a, species[mon][0]), "weather_multipliers": rates(b, species[mon][1])}
                rows.append(tuple(want[f] if isinstance(want[f], list) else [plain(m, want[f])] for f in fields))
            tables.append(new("Table", Sc("int", T.C(IDS[j])), lo, hi, PList(slots)))
            spec.append((str(IDS[j]), Sc("int", T.C(IDS[j])), tuple(rows)))
        spec.sort(key=lambda x: x[0])
        return new("Root", PList(tables)), tuple(spec)
    multipliers = lookup(lambda k: new("Multipliers", *species[k]))
    misc = lookup(lambda k: new("Misc", boosts[k]))
    asked = []

    def resource(m, p, kind, kw):
        asked.append(p)
        return None
    for shape in ((), (1,), (2, 3), (3, 0, 6)):
        key = "%s/loading tables of %s slots" % (mode, "+".join(map(str, shape)) or "no")

        def one(shape=shape, key=key):
            root, want = source(shape)
            for n in ("EncounterTable8aTable", "ENCOUNTER_MULTIPLIER_LA", "POKE_MISC_LA"):
                if n not in enc.env.d:
                    m.unsupported("%s is not there" % n)
            enc.env.d["EncounterTable8aTable"] = Builtin("EncounterTable8aTable", lambda m, a, kw: root)
            enc.env.d["ENCOUNTER_MULTIPLIER_LA"] = multipliers
            enc.env.d["POKE_MISC_LA"] = misc
            out = m.run(lambda: m.call(load, [m.ga(areas, "CORONET_HIGHLANDS")], {}))
            if not out.normal:
                ck.equiv(key, where, ck.run(m, lambda: m.call(load, [m.ga(areas, "CORONET_HIGHLANDS")], {})), ck.run(m, lambda: want))
                return
            got = m.run(lambda: describe(m, out.value, fields)).value
            ids = tuple(x[0] for x in got), tuple(x[0] for x in want)
            ck.fact("%s: tables" % key, ids[0] == ids[1], where, "tables %s, expected %s" % ids, "constant propagation")
            for (k, i, rows), (k2, i2, rows2) in zip(got, want):
                ck.equiv("%s: table %s: number of slots and identifier" % (key, k), where, ck.run(m, lambda: (i, I(len(rows)))), ck.run(m, lambda: (i2, I(len(rows2)))))
                for j, (a, b) in enumerate(zip(rows, rows2)):
                    for f, x, y in zip(fields, a, b):
                        ck.equiv("%s: table %s: slot %d: %s" % (key, k, j, f), where, ck.run(m, lambda: x), ck.run(m, lambda: y[0]), alts=[ck.run(m, lambda w=w: w) for w in y[1:]])
        ck.guard(key, one)

    def files():
        enc.env.d["EncounterTable8aTable"] = Builtin("EncounterTable8aTable", lambda m, a, kw: new("Root", PList([])))
        m.hooks["resource"] = resource
        for name, v in areas.members.items():
            del asked[:]
            r = m.run(lambda: m.call(load, [m.ga(areas, name)], {}))
            if not 1 <= v.const <= 5:
                continue
            got = [str(p).rsplit("/", 1)[-1] for p in asked]
            ck.fact("%s/file of %s" % (mode, name), got == ["ha_area%02d_encounter.bin" % v.const], where, "%s reads %s" % (name, got), "constant propagation")
        m.hooks.pop("resource")
    ck.guard("%s/files" % mode, files)
