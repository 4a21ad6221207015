"""C27: the selected slot as a value graph over symbolic tables, against the cumulative weight definition."""
from sa import evalt
from sa.machine import SliceView
from .g3 import *

SIZES = (2, 3, 4, 5, 6, 7, 9, 12)


def weight(slot, t, w):
    f = lambda x: T.f2f(x, 64)  # noqa
    return T.fop("fmul", T.fop("fmul", T.i2f(slot.d["base_probability"].n, 64), f(slot.d["time_multipliers"].data[t]), 64), f(slot.d["weather_multipliers"].data[w]), 64)


def reference(slots, r, t, w):
    """(condition of each slot, total): the slot whose interval of the running total contains the roll's share of the total"""
    ws = [weight(s, t, w) for s in slots]
    total = ws[0]
    for x in ws[1:]:
        total = T.fop("fadd", total, x, 64)
    left = T.fop("fmul", r, total, 64)
    chosen = []
    for x in ws:
        chosen.append(T.fop("flt", left, x, 64))
        left = T.fop("fsub", left, x, 64)
    return chosen, total


def dyadic(n, t, w):
    """weights, multipliers and rolls whose products and sums are exact, with rolls on the boundaries and empty slots"""
    def f(rng, env, k):
        ws = []
        # now and then one weight that single precision cannot hold together with the others
        heavy = rng.randrange(n) if k % 7 == 1 else None
        for i in range(n):
            b = rng.choice((0, 0, 1, 1, 2, 3, 5, 50, 100, 4096, 65535))
            a, c = rng.choice((0.0, 0.5, 1.0, 1.0, 1.5, 2.0)), rng.choice((0.0, 0.25, 1.0, 1.0, 2.0))
            if heavy is not None:
                b, a, c = (1 << 24) + rng.randrange(2) if i == heavy else rng.randrange(1, 4), 1.0, 1.0
            env["s%d.base_probability" % i] = b
            for j in range(4):
                env["s%d.time_multipliers%d" % (i, j)] = a if j == t else rng.choice((0.0, 0.5, 1.0, 3.0))
            for j in range(9):
                env["s%d.weather_multipliers%d" % (i, j)] = c if j == w else rng.choice((0.0, 0.5, 1.0, 3.0))
            ws.append(b * a * c)
        total = sum(ws)
        if total <= 0:
            i = rng.randrange(n)
            env["s%d.base_probability" % i] = 8
            env["s%d.time_multipliers%d" % (i, t)] = env["s%d.weather_multipliers%d" % (i, w)] = 1.0
            ws[i] = total = 8.0
        p = k % 4
        if heavy is not None:
            r = 1.0 - 2.0 ** -24 if rng.random() < 0.5 else rng.randrange(1 << 12) / 4096.0
        elif p == 0:
            r = 0.0
        elif p == 1:
            r = 1.0 - 2.0 ** -24
        elif p == 2:
            r = rng.randrange(1 << 10) / 1024.0
        else:
            # a power of two total makes every boundary an exact roll
            r = 0.0
            size = 1 << max(int(total * 8) - 1, 1).bit_length()
            i = rng.randrange(n)
            gap = size / 8.0 - (total - ws[i])
            if gap == int(gap) and 0 <= gap < 1 << 32:
                env["s%d.base_probability" % i] = int(gap)
                env["s%d.time_multipliers%d" % (i, t)] = env["s%d.weather_multipliers%d" % (i, w)] = 1.0
                ws[i] = gap
                x = sum(ws[:rng.randrange(n)]) / (size / 8.0)
                if x < 1 and T.f32(x) == x:
                    r = x
        env["rand"] = r
    return f


def run(ck):
    for mode in MODES:
        m = machine(ck, mode)
        la = ck.module(m, "data.encounter.encounter_area_la")
        en = ck.module(m, "enums")
        impl = Impl(ck, m, "data.encounter.encounter_area_la", "EncounterAreaLA")
        dtype = m.ga(ck.attr(la, "SlotLA"), "dtype")
        times, weathers = ck.attr(en, "LATime"), ck.attr(en, "LAWeather")
        where = impl.where("calc_slot")

        def table(n):
            o = impl.new(Sc("u64", T.V("id", 0, M64)), I(n))
            arr = m.ga(o, "slots")
            slots = [symrec(dtype, "s%d" % i) for i in range(n)]
            m.touch(arr)
            arr.data = list(slots)
            return o, slots

        def case(key, n, time, weather, t, w, rand):
            def go():
                o, slots = table(n)
                r = T.f2f(rand.n, 64) if rand.dt == "f32" else rand.n
                k, total = reference(slots, r, t, w)

                def pick():
                    s = impl.do(o, "calc_slot", rand, time, weather)
                    return tuple((f, plain(m, m.ga(s, f))) for f, _ in dtype.fields)

                def ref():
                    return tuple((f, want(slots, f, k)) for f, _ in dtype.fields)
                ck.equiv(key, where, ck.run(m, pick), ck.run(m, ref), vary=[dyadic(n, t, w)], n=300,
                         assume=[T.fop("flt", T.fconst(0.0, 64), total, 64)])
            ck.guard(key, go)

        def index(key, n, time, weather, t, w, rand):
            """the comparisons of the roll with the running total as free booleans: every combination of outcomes"""
            def go():
                o, slots = table(n)
                for i, s in enumerate(slots):
                    for f in ("species", "form", "gender", "min_level"):
                        s.d[f] = Sc(s.d[f].dt, T.C(i))
                k, total = reference(slots, T.f2f(rand.n, 64), t, w)
                fields = ("species", "form", "gender", "min_level")

                def pick():
                    s = impl.do(o, "calc_slot", rand, time, weather)
                    return tuple((f, plain(m, m.ga(s, f))) for f in fields)
                a = ck.run(m, pick)
                b = ck.run(m, lambda: tuple((f, want(slots, f, k)) for f in fields))
                tests = sorted((x for x in T.reachable(a.roots() + b.roots()).values() if x.op == "flt"), key=lambda x: x.id)
                if len(tests) <= 12:
                    free = {x.id: T.V("test%d" % i, 0, 1) for i, x in enumerate(tests)}
                    fa, fb = a.substituted(free), b.substituted(free)
                    if not [x for x in T.reachable(fa.roots() + fb.roots()).values() if x.op == "var" and x.args[0][:4] != "test"]:
                        if all(same(fa, fb, bits, len(tests)) for bits in range(1 << len(tests))):
                            ck.record(key, "proven", where, None, "all outcomes of the comparisons")
                            return
                ck.equiv(key, where, a, b, vary=[dyadic(n, t, w)], n=300, assume=[T.fop("flt", T.fconst(0.0, 64), total, 64)])
            ck.guard(key, go)
        roll = Sc("f32", T.VF("rand", 32))
        for tn, t in sorted(times.members.items()):
            for wn, w in sorted(weathers.members.items()):
                te, we = m.ga(times, tn), m.ga(weathers, wn)
                case("%s/4 slots, %s, %s" % (mode, tn, wn), 4, te, we, t.const, w.const, roll)
        # the documented table of times and weathers, in every size
        for n in SIZES:
            te, we = m.ga(times, "DUSK"), m.ga(weathers, "RAIN")
            case("%s/%d slots" % (mode, n), n, te, we, 2, 3, roll)
            index("%s/%d slots, position" % (mode, n), n, te, we, 2, 3, roll)
        case("%s/1 slot" % mode, 1, m.ga(times, "DAY"), m.ga(weathers, "FOG"), 1, 6, roll)
        for label, te, we in (("plain numbers", I(3), I(8)), ("NumPy numbers", Sc("u8", T.C(3)), Sc("u8", T.C(8)))):
            case("%s/5 slots, %s" % (mode, label), 5, te, we, 3, 8, roll)
        case("%s/5 slots, a Python roll" % mode, 5, m.ga(times, "DAWN"), m.ga(weathers, "SNOW"), 0, 4, Sc("float", T.VF("rand", 64)))

        def pure():
            o, slots = table(3)
            arr = m.ga(o, "slots")
            before = list(arr.data)
            total = reference(before, roll.n, 1, 6)[1]

            def go():
                impl.do(o, "calc_slot", roll, m.ga(times, "DAY"), m.ga(weathers, "FOG"))
                return tuple(plain(m, m.ga(s, f)) for s in m.ga(o, "slots").data for f, _ in dtype.fields) + (Sc("int", m.ga(o, "table_id").n),)

            def ref():
                return tuple(plain(m, s.d[f]) for s in before for f, _ in dtype.fields) + (Sc("int", T.V("id", 0, M64)),)
            ck.equiv("%s/selecting does not change the table" % mode, where, ck.run(m, go), ck.run(m, ref), vary=[dyadic(3, 1, 6)],
                     assume=[T.fop("flt", T.fconst(0.0, 64), total, 64)])
        ck.guard("%s/selecting does not change the table" % mode, pure)


def same(a, b, bits, n):
    """the two outcomes agree for one outcome of each comparison"""
    global _EV
    roots = a.roots() + b.roots()
    key = tuple(x.id for x in roots)
    if _EV[0] != key:
        _EV = (key, evalt.Evaluator(roots))
    val = _EV[1].plan.run({}, {"test%d" % i: bits >> i & 1 for i in range(n)}, [1 << 30])
    return a.outcome(val) == b.outcome(val)


_EV = (None, None)


def plain(m, v):
    """value without its machine type"""
    if isinstance(v, Alt):
        return m.dist(v, lambda x: plain(m, x))
    if isinstance(v, (ArrView, ColView, SliceView)):
        v = m.materialise(v)
    if isinstance(v, Arr):
        return tuple(Sc("float", x) for x in v.data)
    return Sc("int", v.n)


def want(slots, f, k):
    def choose(get):
        x = get(slots[-1])
        for i in range(len(slots) - 2, -1, -1):
            x = T.ite(k[i], get(slots[i]), x)
        return x
    v = slots[0].d[f]
    if isinstance(v, Arr):
        return tuple(Sc("float", choose(lambda s, j=j: s.d[f].data[j])) for j in range(len(v.data)))
    return Sc("int", choose(lambda s: s.d[f].n))
