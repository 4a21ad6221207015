"""C15: the optional decorators are transparent without compilation and pass every declaration on with it."""
from .common import *
from sa.interp import Abrupt


def run(ck):
    for mode in MODES:
        jit = mode == "numba"
        m = ck.machine(mode)
        comp = ck.module(m, "compilation")
        r = m.run(lambda: m.import_module("spec.decorated"))
        where = "%s optional_njit/optional_jitclass" % comp.env.name
        if not r.normal or any(c is T.TRUE for c, _ in r.raises):
            e = r.raises[-1][1] if r.raises else None
            ck.violation(mode + "/decorating", where, "decorating raises %s %s" % (e, e.args if e else ""), "decorator transparency")
            continue
        mod = r.value
        W = {n: "%s:%d %s" % (comp.env.name, getattr(ck.attr(comp, n).node, "lineno", 0), n)
             for n in ("optional_njit", "optional_jitclass")}

        def get(n):
            return mod.env.d[n]

        def check(label, fn, ref, which="optional_njit"):
            key = "%s/%s" % (mode, label)
            ck.guard(key, lambda: ck.equiv(key, W[which], ck.run(m, fn), ck.run(m, ref)))

        def val(v):
            return Sc("int", v.n) if isinstance(v, Sc) else v
        a, b = u("a", 32, "u32"), u("b", 30, "u32")
        A, Bv = Sc("int", a.n), Sc("int", b.n)

        def shift(x, y):
            return m.call(get("ref_shift"), [x, y], {})
        # value of a ^ (b << 1): compiled integers of 64 bits, uncompiled NumPy ones of 32
        for name in ("bare", "called", "with_option", "functional", "functional_locals"):
            f = get(name)
            check(name + "/positional", lambda: val(m.call(f, [a, b], {})), lambda: shift(A, Bv))
            check(name + "/keyword", lambda: val(m.call(f, [a], {"b": b})), lambda: shift(A, Bv))
            check(name + "/all keywords", lambda: val(m.call(f, [], {"b": b, "a": a})), lambda: shift(A, Bv))
            check(name + "/default", lambda: val(m.call(f, [a], {})), lambda: shift(A, I(3)))
        for name in ("signed_off", "by_keyword", "functional_sig"):
            f = get(name)
            check(name + "/positional", lambda: val(m.call(f, [a, b], {})), lambda: shift(A, Bv))
            # plain integers are converted to the declared type only when compiled; they are in range here
            check(name + "/int", lambda: val(m.call(f, [A, Bv] if jit or name == "functional_sig" else [a, b], {})), lambda: shift(A, Bv))
        check("with_locals", lambda: val(m.call(get("with_locals"), [a], {})),
              lambda: Sc("int", T.wrap(a.n, 8 if jit else 16)))
        check("only_locals", lambda: val(m.call(get("only_locals"), [a], {})), lambda: Sc("int", T.wrap(a.n, 8 if jit else 32)))
        check("with_everything", lambda: val(m.call(get("with_everything"), [a], {})),
              lambda: Sc("int", T.wrap(T.shr(a.n, T.C(3)), 16 if jit else 32)))
        check("pair", lambda: tuple(val(x) for x in m.iterate(m.call(get("pair"), [a, b], {}))), lambda: (Bv, A))
        check("calls_others", lambda: val(m.call(get("calls_others"), [a], {})),
              lambda: m.call(get("ref_all"), [A, B(jit)], {}))

        def arr(dt, n, shape=None):
            return m.new_array(shape or (n,), m_dtype(m, dt), False)
        # arrays are shared, not copied
        x = arr("u32", 3)
        x.data[:] = [T.V("w%d" % i, 0, M32) for i in range(3)]
        w = list(x.data)

        def shared():
            r = m.call(get("first_two"), [x], {})
            m.call(get("store"), [x, b], {})
            return tuple(m.iterate(r)) + tuple(m.iterate(x))
        check("array arguments", lambda: tuple(val(v) for v in shared()),
              lambda: tuple(Sc("int", n) for n in (T.xor(w[0], w[1]), b.n, w[2]) * 2))
        # options reach the compiler
        if jit:
            for name, want in (("with_option", {"inline": "always"}), ("with_everything", {"cache": True, "nogil": True}), ("bare", {}), ("called", {})):
                f = get(name)
                ok = isinstance(f, Func) and f.jit is not None and f.jit.options == want
                ck.fact("%s/%s/options" % (mode, name), ok, W["optional_njit"],
                        "compiler options are %r, declared %r" % (getattr(getattr(f, "jit", None), "options", "not compiled"), want), "declaration reaches the compiler")
        # ------------------------------------------------ classes
        s, o = u("seed", 32, "u32"), u("other", 32, "u32")
        S = Sc("int", s.n)
        for name in ("Bare", "Called", "Positional", "Keyword", "Functional"):
            c = get(name)
            check("class " + name, lambda: tuple(val(v) for v in m.iterate(m.call(get("drive"), [c, s], {}))),
                  lambda: tuple(m.iterate(m.call(get("ref_drive"), [S], {}))), "optional_jitclass")
            if name in ("Bare", "Called"):
                check("class %s/inherited" % name, lambda: tuple(val(v) for v in m.iterate(m.call(get("drive_base"), [c, s, o], {}))),
                      lambda: tuple(m.iterate(m.call(get("ref_base"), [S, Sc("int", o.n)], {}))), "optional_jitclass")
        check("class Called/static method", lambda: val(m.call(m.ga(get("Called"), "plus") if not jit else m.ga(m.call(get("Called"), [s], {}), "plus"), [I(5)], {})),
              lambda: I(7), "optional_jitclass")
        check("class Private", lambda: tuple(val(v) for v in m.iterate(m.call(m.ga(m.call(get("Private"), [s], {}), "both"), [], {}))),
              lambda: (Sc("int", T.xor(s.n, T.C(1))), I(1)), "optional_jitclass")
        for name, bits in (("Holder", 32), ("LocalClass", 16)):
            def use(name=name):
                h = m.call(get(name), [s], {})
                return tuple(val(m.call(m.ga(h, "step"), [], {})) for _ in range(2))
            check("class " + name, use, lambda: tuple(Sc("int", T.wrap(m.call(get("ref_run"), [S, I(k)], {}).n, bits)) for k in (1, 2)), "optional_jitclass")
        # the declared field types reach the compiler: annotated, inherited and specified ones
        if jit:
            want = {"Bare": {"seed": "u32", "twin": "u64", "words": None}, "Called": {"seed": "u32", "twin": "u64"},
                    "Positional": {"seed": "u32", "twin": "u64", "extra": None}, "Keyword": {"seed": "u32", "twin": "u64"},
                    "Functional": {"seed": "u32", "twin": "u64"}, "Holder": {"inner": None, "count": "i64"}, "LocalClass": {"inner": None, "value": "u16"}}
            for name, fields in want.items():
                js = getattr(get(name), "jitspec", None)
                ok = js is not None and set(js) == set(fields) and all(dt is None or js[f].dt == dt for f, dt in fields.items())
                ck.fact("%s/class %s/fields" % (mode, name), ok, W["optional_jitclass"],
                        "compiled fields are %s" % ({k: str(v) for k, v in js.items()} if js is not None else "none (not compiled)"), "declaration reaches the compiler")
        # ------------------------------------------------ containers
        check("typed list", lambda: tuple(val(v) for v in m.iterate(m.call(get("use_list"), [a, b], {}))), lambda: (I(2), A, Bv), "optional_njit")
        p, q = u("p", 64, "u64"), u("q", 64, "u64")
        for k in (5, 6, 7):
            check("typed dict, key %d" % k, lambda: tuple(val(v) for v in m.iterate(m.call(get("use_dict"), [p, q, I(k)], {}))),
                  lambda: (I(2), Sc("int", q.n), Sc("int", q.n), Sc("int", T.C(1 if k != 7 else 0))), "optional_njit")
        for name in ("two_dicts", "two_lists"):
            check(name, lambda: tuple(val(v) for v in m.iterate(m.call(get(name), [p], {}))), lambda: (I(1), I(0 if name == "two_dicts" else 2)), "optional_njit")
        if jit:
            declared(ck, m, comp)
    # ---------------------------------------------------- the option itself
    for env, numba, want in (("TRUE", True, 1), ("FALSE", True, 0), (None, True, 1), ("TRUE", False, 0), ("FALSE", False, 0), (None, False, 0), ("0", True, 0), ("", True, 0)):
        hooks = {"option": env}
        if not numba:
            hooks["no_numba"] = True
        m = ck.machine("numpy", True, **hooks)
        opt = ck.module(m, "options")
        v = opt.env.d.get("USE_NUMBA")
        key = "option %r, numba %s" % (env, "installed" if numba else "missing")
        n = v.n if isinstance(v, Sc) else T.C(int(v)) if isinstance(v, bool) else None
        ck.fact(key, n is not None and n is T.C(want), "%s USE_NUMBA" % opt.env.name, "USE_NUMBA is %r, expected %s" % (v, bool(want)), "constant propagation")


SCALARS = ("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "bool_")


def declared(ck, m, comp):
    """every type declared through the helpers is the compiler's type of the same element, shape, layout and access"""
    np, numba = m.import_module("numpy"), m.import_module("numba")
    nbt = m.ga(numba, "types")

    def want(key, name, make, expect):
        where = "%s:%d %s" % (comp.env.name, getattr(ck.attr(comp, name).node, "lineno", 0), name)

        def do():
            r = m.run(make)
            e = m.run(expect)
            got = r.value if r.normal else r
            ck.fact("numba/%s(%s)" % (name, key), r.normal and e.normal and got == e.value, where, "declared type is %r, expected %r" % (got, e.value),
                    "declaration reaches the compiler")
        ck.guard("numba/%s(%s)" % (name, key), do)

    def f(name):
        return ck.attr(comp, name)

    def dt(s):
        return m.ga(np, s)

    def nb(s):
        return m.ga(nbt, s)
    Array, Tup = m.ga(nbt, "Array"), m.ga(nbt, "UniTuple")
    for s in SCALARS:
        want(s, "convert_to_numba", lambda: m.call(f("convert_to_numba"), [dt(s)], {}), lambda: nb(s))
        want(s, "array_type", lambda: m.call(f("array_type"), [dt(s)], {}), lambda: m.call(Array, [nb(s), I(1), "C", False], {}))
        want(s + ", 3", "unituple_type", lambda: m.call(f("unituple_type"), [dt(s), I(3)], {}), lambda: m.call(Tup, [nb(s), I(3)], {}))
    for nd in (1, 2, 3):
        for lay in ("C", "F", "A"):
            for ro in (False, True):
                full = lambda: m.call(Array, [nb("uint16"), I(nd), lay, ro], {})
                key = "uint16, %d, %s, %s" % (nd, lay, ro)
                want(key, "array_type", lambda: m.call(f("array_type"), [dt("uint16"), I(nd), lay, ro], {}), full)
                want(key + ", by keyword", "array_type",
                     lambda: m.call(f("array_type"), [dt("uint16")], {"readonly": ro, "layout": lay, "ndim": I(nd)}), full)
    want("void", "convert_to_numba", lambda: m.call(f("convert_to_numba"), [dt("void")], {}), lambda: m.ga(numba, "void"))
    want("str_", "convert_to_numba", lambda: m.call(f("convert_to_numba"), [dt("str_")], {}), lambda: nb("string"))
    want("a compiled type", "convert_to_numba", lambda: m.call(f("convert_to_numba"), [nb("uint8")], {}), lambda: nb("uint8"))
    # signatures: NumPy, compiler and composite types mixed, in order
    s = lambda r, *a: m.call(r, list(a), {})
    want("uint32, (uint16, int64)", "return_type", lambda: m.call(f("return_type"), [dt("uint32"), (dt("uint16"), nb("int64"))], {}),
         lambda: s(nb("uint32"), nb("uint16"), nb("int64")))
    want("array, (uint8, array)", "return_type",
         lambda: m.call(f("return_type"), [m.call(f("array_type"), [dt("uint32"), I(2)], {}), PList([dt("uint8"), m.call(f("array_type"), [dt("int16")], {})])], {}),
         lambda: s(m.call(Array, [nb("uint32"), I(2), "C", False], {}), nb("uint8"), m.call(Array, [nb("int16"), I(1), "C", False], {})))


def m_dtype(m, dt):
    np = m.import_module("numpy")
    return m.ga(np, {"u32": "uint32", "u16": "uint16"}[dt])
