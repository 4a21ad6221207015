"""C29: the value graph of every table class and of every field reader against the reference schema, for any buffer, with vectors of 0 to 3 elements."""
from spec import schema as S
from .g3 import *

TYPES = {"U8": "Uint8Flags", "U16": "Uint16Flags", "U32": "Uint32Flags", "U64": "Uint64Flags", "I8": "Int8Flags", "I16": "Int16Flags",
         "I32": "Int32Flags", "I64": "Int64Flags", "F32": "Float32Flags", "F64": "Float64Flags"}
F = lambda x: Sc("float", T.fconst(float(x), 64))  # noqa


class Ref:
    def __init__(self, ck, m, n):
        self.ck, self.m, self.n = ck, m, n

    def kind(self, name):
        return self.m.ga(self.m.import_module("flatbuffers.number_types"), name)

    def s(self, fn, *a):
        return self.ck.spec(self.m, "flat", fn, *a)

    def here(self, buf, off, slot):
        """condition under which a slot is there"""
        v = self.s("present", buf, off, I(slot))
        return self.m.truth(v)

    def default(self, d):
        return d if d is None else F(d) if isinstance(d, float) else I(d)

    def field(self, buf, off, f, done):
        slot, kind = f[0], f[1]
        if kind == "joined":
            out = PList()
            for n in f[2]:
                out.items += done[n].items
            return out
        if kind == "float":
            return self.s("scalar", buf, off, I(slot), self.kind("Float32Flags"), self.default(f[2]))
        if kind == "floats":
            return tuple(F(x) for x in f[3]) + tuple(self.s("scalar", buf, off, I(slot + k), self.kind("Float32Flags"), F(0.0)) for k in range(f[2]))
        if kind == "flag":
            return self.s("flag", buf, off, I(slot), self.kind("Int8Flags"), f[2])
        if kind == "any":
            r = T.FALSE
            for k in range(f[2]):
                r = T.or_(r, self.m.truth(self.s("flag", buf, off, I(slot + k), self.kind("Int8Flags"), B(False))))
            return Sc("pybool", r)
        if kind in ("object", "attribute"):
            o = self.make(f[2], buf, self.s("place", buf, off, I(slot)))
            if kind == "attribute":
                return o[f[3]]
            c = self.here(buf, off, slot)
            return o if c is T.TRUE else None if c is T.FALSE else Alt(c, o, None)
        if kind in ("vector", "first"):
            c = self.here(buf, off, slot)
            l = PList()
            if c is not T.FALSE:
                l.items = [(c, self.make(f[2], buf, self.s("element", buf, off, I(slot), I(k)))) for k in range(self.n)]
            if kind == "first":
                return l.items[0][1][f[3]]
            return l
        return self.s("scalar", buf, off, I(slot), self.kind(kind), self.default(f[2]))

    def make(self, cls, buf, off):
        done = {}
        for a, f in S.SCHEMA[cls].items():
            done[a] = self.field(buf, off, f, done)
        return done


def joined(v):
    """a choice between two lists as one list whose elements are there under the choice"""
    if isinstance(v, Alt):
        a, b = joined(v.a), joined(v.b)
        if isinstance(a, PList) and isinstance(b, PList):
            l = PList()
            l.items = [(T.and_(v.c, g), x) for g, x in a.items] + [(T.and_(T.not_(v.c), g), x) for g, x in b.items]
            return l
        return Alt(v.c, a, b)
    return v


def view(m, v, cls):
    """what the attributes of an object show"""
    if v is None:
        return None
    if isinstance(v, Alt):
        return Alt(v.c, view(m, v.a, cls), view(m, v.b, cls))
    out = {}
    for a, f in S.SCHEMA[cls].items():
        x = m.ga(v, a)
        x = joined(x)
        if f[1] == "object":
            x = view(m, x, f[2])
        elif f[1] == "first" and f[2] == "PlacementParameters8a":
            x = view(m, x, "Vec3F")
        elif f[1] in ("vector", "joined"):
            sub = f[2] if f[1] == "vector" else S.SCHEMA[cls][f[2][0]][2]
            if not isinstance(x, PList):
                raise Unsupported("a vector that is not a list")
            l = PList()
            l.items = [(g, view(m, y, sub)) for g, y in x.items]
            x = l
        out[a] = x
    return out


def run(ck):
    for mode in MODES:
        m = machine(ck, mode)
        fb = ck.module(m, "data.fbs.encounter_la")
        base = ck.module(m, "data.fbs.flatbuffer_object")
        buf = Opq("buffer", ("b",))
        offs = {k: sym("off." + k, 0, 1 << 30) for k in ("present", "absent", "any")}
        here = {"present": True, "absent": False, "any": None}

        def setting(presence, n):
            m.hooks["fb_present"] = lambda m, t, p: here[presence]
            m.hooks["fb_len"] = lambda m, t, p: n

        def cls(name):
            c = fb.env.d.get(name)
            if c is None:
                raise Unsupported("%s has no %s" % (fb.name, name))
            return c

        def where(mod, name):
            f = mod.env.d.get(name)
            return "%s:%d %s" % (mod.env.name, getattr(getattr(f, "node", None), "lineno", 0), name)
        for name in S.SCHEMA:
            vectors = any(f[1] in ("vector", "first") for f in S.SCHEMA[name].values())
            lookups = name == "NewHugeOutbreakGroupLottery8a"
            for presence in ("present", "any", "absent"):
                if presence == "any" and lookups:
                    continue      # the lookup it builds is decided for present and absent vectors
                needs = any(f[1] == "first" for f in S.SCHEMA[name].values())
                for n in (1, 2, 3) if vectors and not (needs and presence == "any") else (1,):
                    key = "%s/%s, fields %s%s" % (mode, name, presence, ", %d elements" % n if vectors else "")

                    def one(key=key, name=name, presence=presence, n=n):
                        setting(presence, n)
                        off = offs[presence]
                        ref = Ref(ck, m, n)
                        needs = any(f[1] in ("first", "attribute") for f in S.SCHEMA[name].values())
                        if needs and presence == "absent":
                            return            # a part the schema requires
                        ck.equiv(key, where(fb, name), ck.run(m, lambda: view(m, m.call(cls(name), [buf, off], {}), name), ("IndexError", "AttributeError")),
                                 ck.run(m, lambda: ref.make(name, buf, off)))
                    ck.guard(key, one)
        # ---- root objects and their lookups
        for name, (attr, part, lookups) in S.ROOTS.items():
            for presence, n in (("present", 0), ("present", 1), ("present", 2), ("present", 3), ("absent", 1)):
                key = "%s/%s, %s" % (mode, name, "%d elements" % n if presence == "present" else "no vector")

                def root(key=key, name=name, attr=attr, part=part, presence=presence, n=n):
                    setting(presence, n)
                    ref = Ref(ck, m, n)

                    def want():
                        o = ref.s("root", buf)
                        return [ref.make(part, buf, ref.s("element", buf, o, I(0), I(k))) for k in range(n)] if presence == "present" else []

                    def have():
                        o = m.call(cls(name), [buf], {})
                        return [view(m, x, part) for x in m.iterate(m.ga(o, attr))]
                    if n < 3:
                        ck.equiv(key + ": " + attr, where(fb, name), ck.run(m, have), ck.run(m, want))
                ck.guard(key, root)
                for lk, by in lookups.items():
                    for j in range(n if presence == "present" else 0):
                        def find(key=key, name=name, attr=attr, part=part, n=n, lk=lk, by=by, j=j):
                            setting("present", n)
                            ref = Ref(ck, m, n)
                            leaf = [a for a, f in S.SCHEMA[part].items() if f[1] in ("Uint64Flags", "Int32Flags")]
                            els = [ref.make(part, buf, ref.s("element", buf, ref.s("root", buf), I(0), I(k))) for k in range(n)]
                            asked = tuple(Sc("int", number(els[j][b])) for b in by)

                            def have():
                                hit = m.gi(m.ga(m.call(cls(name), [buf], {}), lk), asked[0] if len(asked) == 1 else asked)
                                return tuple(Sc("int", number(m.ga(hit, a))) for a in leaf)

                            def want():
                                # the ids of a table's elements are distinct
                                out = [number(els[j][a]) for a in leaf]
                                return tuple(Sc("int", x) for x in out)
                            ck.equiv("%s: %s of element %d" % (key, lk, j), where(fb, name), ck.run(m, have), ck.run(m, want), n=60)
                        ck.guard("%s %s %d" % (key, lk, j), find)
        # ---- the readers
        off = offs["any"]

        def obj():
            o = base.env.d.get("FlatBufferObject")
            return m.call(o, [buf, off], {})

        def ty(n):
            return ck.attr(base, n)
        fbo = "numba_pokemon_prngs/data/fbs/flatbuffer_object.py FlatBufferObject."
        slot_of = lambda p: Sc("int", T.div(T.sub(p.n, T.C(4)), T.C(2)))  # noqa
        even = Sc("int", T.add(T.mul(T.V("slot", 0, 100), T.C(2)), T.C(4)))
        slot = Sc("int", T.V("slot", 0, 100))

        def reader(key, method, args, want, n=1):
            def one():
                setting("any", n)
                ref = Ref(ck, m, n)
                ck.equiv("%s/%s" % (mode, key), fbo + method, ck.run(m, lambda: show(m.call(m.ga(obj(), method), args(), {}))), ck.run(m, lambda: want(ref)))
            ck.guard("%s/%s" % (mode, key), one)

        def show(v):
            v = joined(v)
            if isinstance(v, Alt):
                return Alt(v.c, show(v.a), show(v.b))
            if isinstance(v, PList):
                l = PList()
                l.items = [(g, show(x)) for g, x in v.items]
                return l
            if isinstance(v, Obj):
                return view(m, v, v.cls.name)
            return v
        for t, flags in TYPES.items():
            meth = "read_float" if t[0] == "F" else "read_int"
            for d in (None, 7):
                dv = None if d is None else F(float(d)) if t[0] == "F" else I(d)
                reader("%s(%s), default %s" % (meth, t, d), meth, lambda: [ty(t), even, dv], lambda ref: ref.s("scalar", buf, off, slot, ref.kind(flags), dv))
        for d in (None, False):
            dv = None if d is None else B(d)
            reader("read_int_enum, default %s" % d, "read_int_enum", lambda: [ty("I8"), even, ck.spec(m, "flat", "truth_type"), dv],
                   lambda ref: ref.s("flag", buf, off, slot, ref.kind("Int8Flags"), dv))

        def plain(ref, o, none):
            c = m.truth(ref.s("present", buf, off, slot))
            return Alt(c, o, none)
        reader("read_vec3f", "read_vec3f", lambda: [even], lambda ref: plain(ref, ref.make("Vec3F", buf, ref.s("place", buf, off, slot)), None))
        for part in ("PokeMisc8a", "EncounterEligibilityTraits8a"):
            reader("read_object(%s)" % part, "read_object", lambda: [cls(part), even],
                   lambda ref: plain(ref, ref.make(part, buf, ref.s("place", buf, off, slot)), None))

            def many(ref):
                c = m.truth(ref.s("present", buf, off, slot))
                l = PList()
                l.items = [(c, ref.make(part, buf, ref.s("element", buf, off, slot, I(k)))) for k in range(ref.n)]
                return l
            for n in (0, 1, 2, 5):
                reader("read_object_array(%s), %d elements" % (part, n), "read_object_array", lambda: [cls(part), even], many, n)
        for d in (None, "none"):
            reader("read_string, default %s" % d, "read_string", lambda: [even, d], lambda ref: ref.s("text", buf, off, slot, d), 3)
        # ---- a reader moves on by its own slots only
        kinds = {"read_init_int": (lambda: [ty("I32")], 1), "read_init_float": (lambda: [ty("F32")], 1), "read_init_string": (lambda: [], 1),
                 "read_init_vec3f": (lambda: [], 1), "read_init_object": (lambda: [cls("PokeMisc8a")], 1),
                 "read_init_object_array": (lambda: [cls("PokeMisc8a")], 1), "read_init_padding": (lambda: [I(1)], 1),
                 "read_init_int_enum": (lambda: [ty("I8"), cls("PokeMisc8a")], 1)}
        for k, (args, moves) in kinds.items():
            for first in (0, 3):
                for size in ((1, 2, 9) if k == "read_init_padding" else (1,)):
                    key = "%s/slot after %s%s from slot %d" % (mode, k, "(%d)" % size if k == "read_init_padding" else "", first)

                    def after(k=k, args=args, first=first, size=size, key=key):
                        setting("any", 2)
                        ref = Ref(ck, m, 2)

                        def have():
                            o = obj()
                            for _ in range(first):
                                m.call(m.ga(o, "read_init_int"), [ty("U16")], {})
                            a = args() if k != "read_init_padding" else [I(size)]
                            if k == "read_init_int_enum":
                                a[1] = Builtin("enum", lambda m, a, kw: a[0])
                            mine = m.call(m.ga(o, k), a, {})
                            return (show(mine) if k in ("read_init_int", "read_init_float", "read_init_vec3f", "read_init_object", "read_init_object_array") else None,
                                    m.call(m.ga(o, "read_init_int"), [ty("U16"), I(9)], {}))

                        def want():
                            sl = I(first)
                            mine = None
                            if k == "read_init_int":
                                mine = ref.s("scalar", buf, off, sl, ref.kind("Int32Flags"), None)
                            elif k == "read_init_float":
                                mine = ref.s("scalar", buf, off, sl, ref.kind("Float32Flags"), None)
                            elif k in ("read_init_vec3f", "read_init_object"):
                                what = "Vec3F" if k.endswith("vec3f") else "PokeMisc8a"
                                mine = Alt(m.truth(ref.s("present", buf, off, sl)), ref.make(what, buf, ref.s("place", buf, off, sl)), None)
                            elif k == "read_init_object_array":
                                mine = PList()
                                c = m.truth(ref.s("present", buf, off, sl))
                                mine.items = [(c, ref.make("PokeMisc8a", buf, ref.s("element", buf, off, sl, I(j)))) for j in range(2)]
                            return (mine, ref.s("scalar", buf, off, I(first + size), ref.kind("Uint16Flags"), I(9)))
                        ck.equiv(key, fbo + k, ck.run(m, have), ck.run(m, want))
                    ck.guard(key, after)
