"""C23: the attributes of a Pokemon are the documented functions of its values, and its text shows exactly them."""
from .g3 import *

INFO = ("hp", "attack", "defense", "special_attack", "special_defense", "speed")


def run(ck):
    for mode in MODES:
        m = machine(ck, mode)
        g = G3(ck, m)
        S = ck.attr(g.state, "GeneratorState")
        personal = ck.module(m, "data.personal")
        dtype = m.ga(ck.attr(personal, "PersonalInfo3"), "dtype")
        data = ck.module(m, "data")
        where = g.where(g.state, "GeneratorState")
        util = ck.module(m, "util")

        def check(key, impl, ref, at=where, **kw):
            key = "%s/%s" % (mode, key)
            ck.guard(key, lambda: ck.equiv(key, at, ck.run(m, impl), ck.run(m, ref), **kw))
        i = lambda x: Sc("int", number(x))  # noqa
        for label, dts in (("int", ("int",) * 4), ("NumPy", ("u32", "u16", "u8", "u8"))):
            pid, species = sym("pid", 0, M32, dts[0]), sym("species", 0, 386, dts[1])
            form, level = sym("form", 0, 27, dts[2]), sym("level", 1, 100, dts[3])
            advance, shiny = sym("advance", 0, M32, dts[0]), sym("shiny", 0, 2, dts[3])
            ivs = [sym("iv%d" % k, 0, 31, "u8") for k in range(6)]
            info = symrec(dtype, "info")

            def made(ability=0, **over):
                arr = Arr(DType("u8"), (6,), [x.n for x in ivs])
                a = dict(advance=advance, pid=pid, species=species, form=form, ivs=arr, ability=Sc(dts[3], T.C(ability)), level=level, shiny=shiny, info=info)
                a.update(over)
                return m.call(S, [a[k] for k in ("advance", "pid", "species", "form", "ivs", "ability", "level", "shiny", "info")], {}), arr

            def fields(*names):
                o, _ = made()
                return tuple(Sc("int", number(m.ga(o, n))) for n in names)
            check("values as given, %s" % label, lambda: fields("advance", "pid", "species", "form", "level", "shiny"),
                  lambda: tuple(i(x) for x in (advance, pid, species, form, level, shiny)))
            ivl = PList([i(x) for x in ivs])

            def own_ivs():
                o, arr = made()
                got = m.ga(o, "ivs")
                r = tuple(Sc("int", x) for x in got.data)
                m.si(arr, I(0), Sc("u8", T.C(7)))
                return r, tuple(Sc("int", x) for x in got.data)
            check("individual values are kept, %s" % label, own_ivs, lambda: (tuple(i(x) for x in ivs),) * 2)
            for ab in (0, 1):
                check("ability %d, %s" % (ab, label), lambda: tuple(i(m.ga(made(ab)[0], n)) for n in ("ability", "ability_index")),
                      lambda: (I(ab), i(info.d["ability_%d" % (ab + 1)])))
            check("nature, %s" % label, lambda: fields("nature"), lambda: (Sc("int", T.mod(pid.n, T.C(25))),))
            check("hidden power, %s" % label, lambda: fields("hidden_power", "hidden_power_strength"),
                  lambda: (g.spec("hidden_power_type", ivl), g.spec("hidden_power_strength", ivl)))
            check("characteristic, %s" % label, lambda: fields("characteristic"), lambda: (g.spec("characteristic", i(pid), ivl),), n=4000)
            # each way the personality value can point, with equal and different values
            for start in range(6):
                p = Sc(dts[0], T.add(T.mul(T.V("sixth", 0, M32 // 6 - 1), T.C(6)), T.C(start)))
                check("characteristic, %s, first stat %d" % (label, start),
                      lambda: (Sc("int", number(m.ga(made(pid=p)[0], "characteristic"))),), lambda: (g.spec("characteristic", i(p), ivl),), n=1500)
            for ratio in (0, 1, 31, 63, 127, 191, 225, 253, 254, 255, None):
                rec = symrec(dtype, "info")
                if ratio is not None:
                    rec.d["gender_ratio"] = Sc("u8", T.C(ratio))
                check("gender, ratio %s, %s" % (ratio, label), lambda: (Sc("int", number(m.ga(made(info=rec)[0], "gender"))),),
                      lambda: (g.spec("gender", i(pid), i(rec.d["gender_ratio"])),))
            stat = ck.attr(util, "compute_stat")

            def stats():
                o, _ = made()
                return tuple(Sc("int", x) for x in m.ga(o, "stats").data)

            def stats_ref():
                # what a nature makes of a stat is decided by C19
                out = []
                for k, n in enumerate(INFO):
                    v = g.spec("stat", i(info.d[n]), i(ivs[k]), i(level))
                    if k == 0:
                        out.append(Sc("int", T.add(T.add(v.n, level.n), T.C(10))))
                    else:
                        out.append(i(m.call(stat, [Sc("u16", T.add(v.n, T.C(5))), Sc("u8", T.mod(pid.n, T.C(25))), I(k)], {})))
                return tuple(out)
            check("stats, %s" % label, stats, stats_ref, n=400)
            for name, args, ref in (
                    ("get_gender", [pid, sym("ratio", 0, 255, dts[2])], "gender"),
                    ("get_shiny", [pid, sym("tsv", 0, 0xFFFF, dts[1])], "shiny")):
                f = g.util.env.d.get(name)
                if f is not None:
                    check("%s, %s" % (name, label), lambda: Sc("int", number(m.call(f, list(args), {}))), lambda: g.spec(ref, *[i(x) for x in args]), at=g.where(g.util, name))
            f = g.util.env.d.get("unown_check")
            if f is not None:
                check("unown_check, %s" % label, lambda: Sc("pybool", m.truth(m.call(f, [pid, form], {}))),
                      lambda: Sc("pybool", T.eq(g.spec("letter", i(pid)).n, form.n)), at=g.where(g.util, "unown_check"))
            # ---- the text
            names = {k: ck.attr(data, k) for k in ("SPECIES_EN", "ABILITIES_EN", "NATURES_EN", "TYPES_EN", "GENDER_SYMBOLS")}

            def known():
                o, _ = made()
                for n, (lo, hi, dt) in {"ability_index": (0, 77, "u16"), "gender": (0, 2, "u8"), "hidden_power": (0, 15, "u8"), "nature": (0, 24, "u8"),
                                        "hidden_power_strength": (30, 70, "u8"), "ability": (0, 1, "u8")}.items():
                    m.touch(o)
                    o.d[n] = Sc(dt, T.V("of." + n, lo, hi))
                st = m.ga(o, "stats")
                m.touch(st)
                st.data = [T.V("of.stat%d" % k, 1, 999) for k in range(6)]
                return o

            def text(what):
                o = known()
                return m.call(m.ga(o, what), [], {})

            def text_ref(what):
                o = known()
                v = lambda n: i(m.ga(o, n))  # noqa
                args = [v(n) for n in ("advance", "species", "form", "level", "pid", "nature", "ability_index", "ability", "hidden_power",
                                       "hidden_power_strength", "gender")]
                hexed = m.call(ck.attr(util, "hex_32"), [m.ga(o, "pid")], {})
                rows = g.spec("rows", *args, hexed, PList([i(x) for x in ivs]), PList([Sc("int", x) for x in m.ga(o, "stats").data]),
                              *[names[k] for k in ("SPECIES_EN", "ABILITIES_EN", "NATURES_EN", "TYPES_EN", "GENDER_SYMBOLS")])
                return rows if what == "csv" else g.spec("joined", rows)
            for what in ("csv", "__str__"):
                check("%s, %s" % (what, label), lambda: text(what), lambda: text_ref(what))
