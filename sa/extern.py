"""Models of the builtins and external modules used by the analysed package.

Each model is a transfer function over abstract values; nothing external is
called except constant folding of pure string / number functions."""

import os
import re as _re
import json as _json
from . import term as T
from .values import *
from . import arith as A
from .interp import MISSING, SymIter

NPNAMES = {"uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64", "int8": "i8", "int16": "i16",
           "int32": "i32", "int64": "i64", "float32": "f32", "float64": "f64", "bool_": "bool", "bool8": "bool",
           "ubyte": "u8", "ushort": "u16", "uintc": "u32", "byte": "i8", "short": "i16", "intc": "i32",
           "int_": "i64", "uint": "u64", "intp": "i64", "uintp": "u64", "single": "f32", "double": "f64",
           "longlong": "i64", "ulonglong": "u64"}
NBNAMES = {"uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64", "int8": "i8", "int16": "i16",
           "int32": "i32", "int64": "i64", "float32": "f32", "float64": "f64", "boolean": "bool", "bool_": "bool",
           "u1": "u8", "u2": "u16", "u4": "u32", "u8": "u64", "i1": "i8", "i2": "i16", "i4": "i32", "i8": "i64",
           "f4": "f32", "f8": "f64", "b1": "bool", "intp": "i64", "uintp": "u64", "int_": "i64", "uint": "u64"}


def bi(name, f, **kw):
    return Builtin(name, f, **kw)


# ---------------------------------------------------------------- builtins
def py_int(v):
    return v.const if isinstance(v, Sc) else None


def b_range(m, a, kw):
    if any(isinstance(x, Alt) for x in a):
        i = next(i for i, x in enumerate(a) if isinstance(x, Alt))
        return m.dist(a[i], lambda v: b_range(m, list(a[:i]) + [v] + list(a[i + 1:]), kw))
    for x in a:
        if not isinstance(x, Sc) or x.dt in FLOATS:
            m.raise_("TypeError" if not m.jit else "TypingError", "range() argument must be an integer")
    if m.jit:
        dts = [TONB.get(x.dt, x.dt) for x in a]
        if any(d == "bool" for d in dts):
            dts = ["i64" if d == "bool" else d for d in dts]
        uns = [d[0] == "u" for d in dts]
        if all(uns):
            dt = "u64"
        elif all(d in ("i8", "i16", "i32") for d in dts):
            dt = "i32"
        else:
            dt = "i64"
        # Python integer literals are typed i64 but unify as literals
        if not all(uns) and any(uns):
            lit = [x for x, d in zip(a, dts) if d == "i64" and x.const is not None and x.const >= 0]
            if len(lit) + sum(uns) == len(a) and False:
                dt = "u64"
        a = [A.cast(m, Sc(TONB.get(x.dt, x.dt), x.n), dt) for x in a]
    else:
        dt = "int"
    ns = [x.n for x in a]
    if len(ns) == 1:
        r = (T.C(0), ns[0], T.C(1))
    elif len(ns) == 2:
        r = (ns[0], ns[1], T.C(1))
    else:
        r = tuple(ns)
    if T.cval(r[2]) == 0:
        m.raise_("ValueError", "range() arg 3 must not be zero")
    return Range(r[0], r[1], r[2], dt)


def b_len(m, a, kw):
    return m.length(a[0])


def b_enumerate(m, a, kw):
    start = a[1].n if len(a) > 1 else kw["start"].n if "start" in kw else T.C(0)
    it = m.as_iter(a[0])
    dt = "i64" if m.jit else "int"
    if isinstance(it, SymIter):
        from .machine import Mapped
        return Mapped(SymIter(it.n, lambda k: (Sc(dt, T.add(k, start)), it.elem(k))))
    return PList([(Sc(dt, T.add(T.C(k), start)), v) for k, v in enumerate(it)])


def b_zip(m, a, kw):
    its = [m.as_iter(x) for x in a]
    if any(isinstance(i, SymIter) for i in its):
        from .machine import Mapped
        if all(isinstance(i, SymIter) for i in its) and all(i.n is its[0].n for i in its):
            return Mapped(SymIter(its[0].n, lambda k: tuple(i.elem(k) for i in its)))
        m.unsupported("zip of symbolic lengths")
    return PList([tuple(t) for t in zip(*its)])


def b_map(m, a, kw):
    return PList([m.call(a[0], list(t), {}) for t in zip(*[m.iterate(x) for x in a[1:]])])


def b_filter(m, a, kw):
    src = m.as_iter(a[1])
    if isinstance(src, SymIter):
        m.unsupported("filter of symbolic length")
    r = PList()
    for v in src:
        c = m.fold(m.truth(m.call(a[0], [v], {}) if a[0] is not None else v))
        if c is T.FALSE:
            continue
        r.items.append((c, v))
    return r


def b_sum(m, a, kw):
    r = a[1] if len(a) > 1 else I(0)
    if m.jit:
        r = m.unbox(r)
    for v in m.iterate(a[0]):
        r = m.binop("+", r, v)
    return r


def b_minmax(name):
    def f(m, a, kw):
        vals = m.iterate(a[0]) if len(a) == 1 else list(a)
        if "key" in kw:
            m.unsupported("key function")
        if not vals:
            m.raise_("ValueError", "empty sequence")
        r = vals[0]
        for v in vals[1:]:
            c = m.truth(m.binop("<" if name == "min" else ">", v, r))
            if m.jit and isinstance(v, Sc) and isinstance(r, Sc):
                u = A.unify(TONB.get(v.dt, v.dt), TONB.get(r.dt, r.dt)) or v.dt
                v, r = A.cast(m, m.unbox(v), u), A.cast(m, m.unbox(r), u)
            r = m.merge(m.fold(c), v, r)
        return r
    return f


def b_int(m, a, kw):
    if not a:
        return I(0)
    v = a[0]
    if isinstance(v, Sc):
        if m.jit:
            if v.dt in FLOATS:
                return A.cast(m, v, "i64")
            if v.dt in ("u64", "u32", "u16", "u8"):
                return A.cast(m, v, "u64")
            return A.cast(m, m.unbox(v), "i64")
        return A.cast(m, v, "int") if v.dt != "int" or v.en else v if v.en is None else Sc("int", v.n)
    if isinstance(v, str):
        base = a[1].const if len(a) > 1 else 10
        try:
            return I(int(v, base))
        except ValueError:
            m.raise_("ValueError", "invalid literal for int()")
    if isinstance(v, SStr):
        if len(v.parts) == 1 and isinstance(v.parts[0], Dec) and v.parts[0].spec == "":
            return Sc("int", v.parts[0].n)
        return Sc("int", T.ext("int@" + m.opq_key(v), (), None, None))
    if isinstance(v, Opq):
        return Sc("int", T.ext("int@" + m.opq_key(v), (), None, None))
    if v is None:
        m.raise_("TypeError", "int() argument must not be NoneType")
    if isinstance(v, Arr) and len(v.data) == 1:
        return A.cast(m, Sc(v.dtype.dt, v.data[0]), "int")
    m.misfit("TypeError", "int() argument", v)


def b_float(m, a, kw):
    if not a:
        return Sc("float", T.fconst(0.0, 64))
    v = a[0]
    if isinstance(v, Sc):
        return Sc("f64" if m.jit else "float", A.as_float(v, 64))
    if isinstance(v, str):
        return Sc("float", T.fconst(float(v), 64))
    m.misfit("TypeError", "float() argument", v)


def b_bool(m, a, kw):
    return Sc("bool" if m.jit else "pybool", m.truth(a[0]) if a else T.FALSE)


def b_str(m, a, kw):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, (str, SStr, SymStr)):
        return v
    if isinstance(v, bytes):
        return v.decode(a[1] if len(a) > 1 else kw.get("encoding", "utf-8"))
    if is_buffer(v) and (len(a) > 1 or "encoding" in kw):
        return bytes_decode(m, a, kw)
    return m.format(v, "", "")


def b_ord(m, a, kw):
    v = a[0]
    if isinstance(v, str):
        if len(v) != 1:
            m.raise_("TypeError", "ord() expected a character")
        return Sc("i32" if m.jit else "int", T.C(ord(v)))
    if isinstance(v, SStr) and len(v.parts) == 1:
        p = v.parts[0]
        if isinstance(p, Char):
            return Sc("i32" if m.jit else "int", p.code)
        if isinstance(p, Pick):
            return Sc("i32" if m.jit else "int", T.sel(p.idx, [T.C(ord(s)) for s in p.table]))
    m.unsupported("ord")


def b_chr(m, a, kw):
    v = a[0]
    if isinstance(v, Sc):
        if v.const is not None:
            return chr(v.const)
        return SStr([Char(v.n)])
    m.unsupported("chr")


def b_tuple(m, a, kw):
    if not a:
        return ()
    if isinstance(a[0], PList) and any(g is not T.TRUE for g, _ in a[0].items):
        r = PList()
        r.items = list(a[0].items)
        return r
    return tuple(m.iterate(a[0]))


def b_list(m, a, kw):
    if not a:
        return PList()
    if isinstance(a[0], PList):
        r = PList()
        r.items = list(a[0].items)
        return r
    return PList(m.iterate(a[0]))


def b_dict(m, a, kw):
    d = PDict()
    if a:
        if isinstance(a[0], PDict):
            d.d.update(a[0].d)
        else:
            for kv in m.iterate(a[0]):
                k, v = m.iterate(kv)
                d.d[m.hashkey(k)] = (k, v)
    for k, v in kw.items():
        d.d[k] = (k, v)
    return d


def b_set(m, a, kw):
    if not a:
        return Opq("set", ())
    return Opq("set", m.iterate(a[0]))


def typecheck(m, v, t):
    """True / False / node"""
    if isinstance(t, tuple):
        r = T.FALSE
        for x in t:
            y = typecheck(m, v, x)
            r = T.or_(r, y if isinstance(y, T.N) else T.C(1 if y else 0))
        return r
    if isinstance(t, Opq) and t.head == "union":
        return typecheck(m, v, tuple(t.args))
    if isinstance(v, Alt):
        x, y = typecheck(m, v.a, t), typecheck(m, v.b, t)
        f = lambda z: z if isinstance(z, T.N) else T.C(1 if z else 0)
        return T.ite(v.c, f(x), f(y))
    if isinstance(t, Builtin):
        n = t.name
        if "check" in t.attrs:
            return t.attrs["check"](v)
        if n == "int":
            return isinstance(v, Sc) and v.dt in ("int", "pybool")
        if n == "bool":
            return isinstance(v, Sc) and v.dt == "pybool"
        if n == "float":
            return isinstance(v, Sc) and v.dt in ("float", "f64") and True
        if n == "str":
            return isinstance(v, (str, SStr, SymStr, Pick))
        if n == "tuple":
            return isinstance(v, tuple)
        if n == "list":
            return isinstance(v, PList)
        if n == "dict":
            return isinstance(v, PDict)
        if n == "bytes":
            return isinstance(v, bytes)
        if n == "type":
            return isinstance(v, (Cls, NpType)) or isinstance(v, Builtin) and v.istype
        if n == "object":
            return True
        if n in ("IntEnum", "Enum"):
            return isinstance(v, Sc) and v.en is not None
        if n == "np.ndarray":
            return isinstance(v, (Arr, ExtArr, ArrView, ColView))
        if n == "np.recarray":
            return isinstance(v, (Arr,)) and v.recarr or isinstance(v, ExtArr) and v.recarr
        if n == "np.integer":
            return isinstance(v, Sc) and v.dt in WIDTH
        if n == "np.generic":
            return isinstance(v, Sc) and v.dt not in PYNUM
        if n == "np.dtype":
            return isinstance(v, DType)
        if n in ("set", "frozenset"):
            return isinstance(v, Opq) and v.head == "set"
        if n == "callable":
            return isinstance(v, (Func, Builtin, Bound, Cls, NpType))
        return False
    if isinstance(t, Cls):
        if isinstance(v, Obj):
            return v.cls.is_a(t) or t.orig is not None and v.cls.is_a(t.orig)
        if isinstance(v, Sc):
            return v.en is t
        if isinstance(v, Exc):
            return isinstance(v.cls, Cls) and v.cls.is_a(t)
        return False
    if isinstance(t, NpType):
        return isinstance(v, Sc) and v.dt == t.dt
    if isinstance(t, Opq):
        return T.ext("isinstance@%s,%s" % (m.opq_key(v), m.opq_key(t)), (), 0, 1)
    return False


def b_isinstance(m, a, kw):
    r = typecheck(m, a[0], a[1])
    return B(r if isinstance(r, T.N) else bool(r))


def b_issubclass(m, a, kw):
    c, t = a
    ts = t if isinstance(t, tuple) else (t,)
    for t in ts:
        if isinstance(c, Cls) and isinstance(t, Cls) and c.is_a(t):
            return B(True)
        if isinstance(c, Cls) and isinstance(t, Builtin) and any(t is b for k in c.mro() for b in k.bases):
            return B(True)
        if c is t:
            return B(True)
        if isinstance(c, NpType) and isinstance(t, Builtin) and t.name == "np.generic":
            return B(True)
    return B(False)


def b_hasattr(m, a, kw):
    v = a[0]
    if isinstance(v, NpType) and a[1] == "dtype":
        return B(True)     # unbound descriptor on scalar type
    if a[1] == "__iter__":
        return B(isinstance(v, (tuple, PList, PDict, str, SStr, SymStr, Arr, Range, ExtArr)))
    r = m.ga(v, a[1], UNDEF)
    if isinstance(r, Alt):
        return B(m.bound_cond(r))
    return B(r is not UNDEF)


def b_getattr(m, a, kw):
    if len(a) > 2:
        return m.ga(a[0], a[1], a[2])
    return m.ga(a[0], a[1])


def b_setattr(m, a, kw):
    m.sa(a[0], a[1], a[2])
    return None


def b_print(m, a, kw):
    return None


def b_sorted(m, a, kw):
    vals = m.iterate(a[0])
    keyf = kw.get("key")
    keys = [m.pyval(m.call(keyf, [v], {}) if keyf is not None else v) for v in vals]
    if any(k is MISSING for k in keys):
        m.unsupported("sorting of symbolic values")
    rev = m.pyval(kw.get("reverse", B(False)))
    order = sorted(range(len(vals)), key=lambda i: keys[i], reverse=bool(rev))
    return PList([vals[i] for i in order])


def b_reversed(m, a, kw):
    v = a[0]
    if isinstance(v, Range):
        c = [T.cval(x) for x in (v.start, v.stop, v.step)]
        if None not in c:
            return PList([Sc(v.dt, T.C(k)) for k in reversed(range(*c))])
    if m.jit:
        m.raise_("TypingError", "reversed() in compiled code")
    return PList(list(reversed(m.iterate(v))))


def b_anyall(name):
    def f(m, a, kw):
        r = T.FALSE if name == "any" else T.TRUE
        for v in m.iterate(a[0]):
            t = m.truth(v)
            r = T.or_(r, t) if name == "any" else T.and_(r, t)
        return Sc("bool" if m.jit else "pybool", r)
    return f


def b_abs(m, a, kw):
    v = a[0]
    c = m.truth(m.binop("<", v, I(0)))
    return m.merge(m.fold(c), A.unop(m, "-", v, m.jit), v)


def b_pow(m, a, kw):
    if len(a) == 3:
        x, e, n = (py_int(v) for v in a)
        if None not in (x, e, n) and not m.jit:
            try:
                return I(pow(x, e, n))
            except ValueError:
                m.raise_("ValueError", "base is not invertible for the given modulus")
        m.unsupported("modular power of symbolic values")
    return m.binop("**", a[0], a[1])


def b_divmod(m, a, kw):
    return (m.binop("//", a[0], a[1]), m.binop("%", a[0], a[1]))


def b_type(m, a, kw):
    if len(a) == 3:
        from_ = [b for b in m.iterate(a[1])]
        c = Cls(a[0], [b for b in from_ if isinstance(b, (Cls, Builtin, Opq))], {k: v for k, v in
                ((kv, x) for kv, x in a[2].d.values())}, m.frames[-1].env.glob if False else None)
        c.module = next(iter(m.modules.values()))
        c.env = None
        m.finish_class(c, {})
        return c
    v = a[0]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Sc):
        if v.en is not None:
            return v.en
        if v.dt in PYNUM:
            return m.builtins[{"int": "int", "pybool": "bool", "float": "float"}[v.dt]]
        return NpType(v.dt)
    if isinstance(v, (str, SStr)):
        return m.builtins["str"]
    if isinstance(v, tuple):
        return m.builtins["tuple"]
    if isinstance(v, PList):
        return m.builtins["list"]
    if isinstance(v, Cls):
        return m.builtins["type"]
    return Opq("type", (v,))


def b_iter(m, a, kw):
    return PList(m.iterate(a[0])) if not isinstance(a[0], PList) else a[0]


def b_next(m, a, kw):
    it = a[0]
    if isinstance(it, PList):
        if not it.items:
            if len(a) > 1:
                return a[1]
            m.raise_("StopIteration", "")
        if it.items[0][0] is T.TRUE:
            return it.items[0][1]
        r = a[1] if len(a) > 1 else None
        if len(a) == 1:
            n = m.length(it).n
            m.cond_raise(T.eq(n, T.C(0)), "StopIteration")
            r = it.items[-1][1]
        for g, v in reversed(it.items):
            r = m.merge(g, v, r)
        return r
    m.unsupported("next()")


def b_callable(m, a, kw):
    return B(isinstance(a[0], (Func, Builtin, Bound, Cls, NpType, Static)) or
             isinstance(a[0], Obj) and a[0].cls.lookup("__call__") is not None)


def b_open(m, a, kw):
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    if not isinstance(mode, str):
        m.unsupported("open mode")
    return open_file(m, a[0], mode)


def pstr(v):
    """the string of a path object"""
    return v.args[0] if isinstance(v, Opq) and v.head == "path" else v


def mk_path(m, a, kw):
    a = [pstr(x) for x in a]
    return Opq("path", (a[0] if len(a) == 1 else path_join(m, a, {}),))


def path_parent(m, p):
    p = pstr(p)
    if isinstance(p, str):
        return os.path.dirname(p)
    if isinstance(p, SStr) and isinstance(p.parts[0], str) and not any("/" in x for x in p.parts[1:] if isinstance(x, str)) and "/" in p.parts[0]:
        return os.path.dirname(p.parts[0])
    return Opq("dirname", (p,))


def path_name(m, p):
    p = pstr(p)
    if isinstance(p, str):
        return os.path.basename(p)
    if isinstance(p, SStr) and isinstance(p.parts[0], str) and not any("/" in x for x in p.parts[1:] if isinstance(x, str)):
        h = p.parts[0].rsplit("/", 1)[-1]
        return m.concat_strs(([h] if h else []) + [SStr([x]) if not isinstance(x, str) else x for x in p.parts[1:]])
    return Opq("basename", (p,))


def path_suffix(m, p, suffix):
    """with_suffix"""
    p = pstr(p)
    if isinstance(p, str):
        import pathlib
        return Opq("path", (str(pathlib.PurePosixPath(p).with_suffix(suffix)),)) if isinstance(suffix, str) else Opq("path", (m.concat_strs([str(pathlib.PurePosixPath(p).with_suffix("")), suffix]),))
    if isinstance(p, SStr) and isinstance(p.parts[-1], str) and "." in p.parts[-1].rsplit("/", 1)[-1]:
        last = p.parts[-1].rsplit(".", 1)[0]
        parts = [SStr([x]) if not isinstance(x, str) else x for x in p.parts[:-1]] + ([last] if last else [])
        return Opq("path", (m.concat_strs(parts + [suffix]),))
    m.unsupported("with_suffix")


def open_file(m, path, mode):
    from .machine import FileObj
    path = pstr(path)
    f = FileObj(path, mode)
    event(m, ("open", path, mode, f))
    h = m.hooks.get("open")
    if h is not None:
        r = h(m, f)
        if r is not None:
            return r
    elif isinstance(mode, str) and mode.startswith("r") and m.hooks.get("exists") is not None:
        e = m.hooks["exists"](m, path)
        if isinstance(e, Sc) and e.const is not None and not e.const:
            m.raise_("FileNotFoundError", "missing")
    return f


def event(m, ev):
    h = m.hooks.get("event")
    if h is not None:
        h(m, ev)
    m.touch(m.fs)
    m.fs.items.append((T.TRUE, ev))


def b_repr(m, a, kw):
    return m.format(a[0], "", "r")


def b_hash(m, a, kw):
    return Opq("hash", (a[0],))


def b_round(m, a, kw):
    v = a[0]
    if v.const is not None and len(a) == 1:
        return I(round(v.const))
    return Sc("int", T.ext("round", (v.n,), None, None))


def b_bytes(m, a, kw):
    if a and isinstance(a[0], (PList, tuple)):
        vals = [py_int(v) for v in m.iterate(a[0])]
        if None not in vals:
            return bytes(vals)
    if a and isinstance(a[0], bytes):
        return a[0]
    if a and isinstance(a[0], Sc) and a[0].const is not None:
        return bytes(a[0].const)
    if len(a) == 1 and is_buffer(a[0]):
        return a[0]
    return Opq("bytes", tuple(a))


def b_property(m, a, kw):
    return Static(a[0], "property")


def b_object(m, a, kw):
    return Opq("object")


def make_builtins(m):
    d = {}
    for n, f in [("range", b_range), ("len", b_len), ("enumerate", b_enumerate), ("zip", b_zip), ("map", b_map),
                 ("filter", b_filter), ("sum", b_sum), ("min", b_minmax("min")), ("max", b_minmax("max")),
                 ("isinstance", b_isinstance), ("issubclass", b_issubclass), ("hasattr", b_hasattr),
                 ("getattr", b_getattr), ("setattr", b_setattr), ("print", b_print), ("sorted", b_sorted),
                 ("reversed", b_reversed), ("any", b_anyall("any")), ("all", b_anyall("all")), ("abs", b_abs),
                 ("pow", b_pow), ("divmod", b_divmod), ("iter", b_iter), ("next", b_next), ("callable", b_callable),
                 ("open", b_open), ("repr", b_repr), ("hash", b_hash), ("round", b_round), ("ord", b_ord),
                 ("chr", b_chr), ("hex", lambda m, a, kw: m.format(a[0], "#x")),
                 ("bin", lambda m, a, kw: m.format(a[0], "#b")),
                 ("id", lambda m, a, kw: Opq("id", (a[0],))),
                 ("super", lambda m, a, kw: Opq("super")), ("vars", lambda m, a, kw: m.ga(a[0], "__dict__")),
                 ("delattr", lambda m, a, kw: None),
                 ("format", lambda m, a, kw: m.format(a[0], a[1] if len(a) > 1 else "")),
                 ]:
        d[n] = Builtin(n, f)
    for n, f in [("int", b_int), ("float", b_float), ("bool", b_bool), ("str", b_str), ("tuple", b_tuple),
                 ("list", b_list), ("dict", b_dict), ("set", b_set), ("frozenset", b_set), ("type", b_type),
                 ("bytes", b_bytes), ("bytearray", b_bytes), ("object", b_object), ("property", b_property)]:
        d[n] = Builtin(n, f, istype=True)
    d["int"].attrs["from_bytes"] = Builtin("int.from_bytes", int_from_bytes)
    d["bytes"].attrs["fromhex"] = Builtin("bytes.fromhex", lambda m, a, kw: bytes.fromhex(a[0]))
    d["dict"].attrs["fromkeys"] = Builtin("dict.fromkeys", dict_fromkeys)
    d["staticmethod"] = Builtin("staticmethod", lambda m, a, kw: Static(a[0], "static"), istype=True)
    d["classmethod"] = Builtin("classmethod", lambda m, a, kw: Static(a[0], "class"), istype=True)
    d["object"].attrs["__setattr__"] = Builtin("object.__setattr__", b_setattr)
    for e in ("BaseException", "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError",
              "NotImplementedError", "RuntimeError", "ZeroDivisionError", "OverflowError", "OSError", "ImportError",
              "ModuleNotFoundError", "FileNotFoundError", "FileExistsError", "PermissionError", "StopIteration",
              "AssertionError", "LookupError", "ArithmeticError", "NameError", "UnboundLocalError", "EOFError",
              "UnicodeDecodeError", "MemoryError", "KeyboardInterrupt", "SystemExit", "DeprecationWarning",
              "UserWarning", "Warning", "RuntimeWarning"):
        d[e] = m.exc_class(e)
    d["IOError"] = d["EnvironmentError"] = d["OSError"]
    d["True"], d["False"], d["None"] = B(True), B(False), None
    d["NotImplemented"] = Opq("NotImplemented")
    d["Ellipsis"] = Opq("...")
    d["__name__"] = "__main__"
    d["__debug__"] = B(True)
    return d


def int_from_bytes(m, a, kw):
    order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
    v = a[0]
    if isinstance(v, bytes):
        return I(int.from_bytes(v, order, signed=bool(m.pyval(kw.get("signed", B(False))))))
    if isinstance(v, (PList, tuple)):
        vals = m.iterate(v)
        if order == "little":
            vals = vals[::-1]
        n = T.C(0)
        for x in vals:
            n = T.or_(T.mul(n, T.C(256)), x.n)
        return Sc("int", n)
    return Sc("int", T.ext("int.from_bytes@" + m.opq_key(v), (), None, None))


def dict_fromkeys(m, a, kw):
    d = PDict()
    for k in m.iterate(a[0]):
        d.d[m.hashkey(k)] = (k, a[1] if len(a) > 1 else None)
    return d


# ---------------------------------------------------------------- methods
def l_append(m, a, kw):
    l, v = a
    m.touch(l)
    l.items.append((T.TRUE, v))


def l_extend(m, a, kw):
    l = a[0]
    m.touch(l)
    if isinstance(a[1], PList):
        l.items.extend(a[1].items)
    else:
        l.items.extend((T.TRUE, v) for v in m.iterate(a[1]))


def l_pop(m, a, kw):
    l = a[0]
    vals = l.vals()
    if not vals:
        m.raise_("IndexError", "pop from empty list")
    i = a[1].const if len(a) > 1 else -1
    if i is None or not -len(vals) <= i < len(vals):
        m.unsupported("pop index")
    m.touch(l)
    v = vals.pop(i)
    l.items = [(T.TRUE, x) for x in vals]
    return v


def l_insert(m, a, kw):
    l, i, v = a
    if i.const is None:
        m.unsupported("insert index")
    m.touch(l)
    l.items.insert(i.const, (T.TRUE, v))


def l_clear(m, a, kw):
    m.touch(a[0])
    a[0].items = []


def l_copy(m, a, kw):
    r = PList()
    r.items = list(a[0].items)
    return r


def l_reverse(m, a, kw):
    m.touch(a[0])
    a[0].items = list(reversed(a[0].items))


def l_sort(m, a, kw):
    r = b_sorted(m, a, kw)
    m.touch(a[0])
    a[0].items = list(r.items)


def seq_index(m, a, kw):
    seq, x = a[0], a[1]
    vals = m.iterate(seq)
    if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Pick):
        p = x.parts[0]
        out = []
        strs = [v if isinstance(v, str) else None for v in vals]
        for s in p.table:
            if s not in strs:
                m.unsupported("index of a value not in the sequence")
            out.append(T.C(strs.index(s)))
        if all(T.cval(o) == k for k, o in enumerate(out)):
            return Sc("int", p.idx)
        return Sc("int", T.sel(p.idx, out))
    if isinstance(x, str):
        for k, v in enumerate(vals):
            if v == x:
                return m.intval(k)
        m.raise_("ValueError", "%r is not in sequence" % x)
    if isinstance(x, (SStr, Opq)):
        return Sc("int", T.ext("index@%s,%s" % (m.opq_key(seq) if not isinstance(seq, tuple) else hash(seq),
                                                m.opq_key(x)), (), 0, len(vals) - 1))
    n = T.C(len(vals))
    for k in range(len(vals) - 1, -1, -1):
        n = T.ite(m.eq_node(vals[k], x), T.C(k), n)
    m.cond_raise(m.fold(T.eq(n, T.C(len(vals)))), "ValueError")
    return m.intval(n)


def seq_count(m, a, kw):
    n = T.C(0)
    for v in m.iterate(a[0]):
        n = T.add(n, m.eq_node(v, a[1]))
    return m.intval(n)


def d_get(m, a, kw):
    return m.dict_get(a[0], a[1], a[2] if len(a) > 2 else None)


def d_items(m, a, kw):
    d = a[0]
    m.iterate(d)
    return PList([(kv, m.strip_undef(v)) for kv, v in d.d.values()])


def d_values(m, a, kw):
    m.iterate(a[0])
    return PList([v for _, v in a[0].d.values()])


def d_keys(m, a, kw):
    return PList(m.iterate(a[0]))


def d_copy(m, a, kw):
    r = PDict(a[0].typed)
    r.d = dict(a[0].d)
    return r


def d_update(m, a, kw):
    m.touch(a[0])
    if len(a) > 1:
        if isinstance(a[1], PDict):
            a[0].d.update(a[1].d)
        else:
            for kv in m.iterate(a[1]):
                k, v = m.iterate(kv)
                a[0].d[m.hashkey(k)] = (k, v)
    for k, v in kw.items():
        a[0].d[k] = (k, v)


def d_setdefault(m, a, kw):
    k = m.hashkey(a[1])
    if k not in a[0].d:
        m.touch(a[0])
        a[0].d[k] = (a[1], a[2] if len(a) > 2 else None)
    return a[0].d[k][1]


def d_pop(m, a, kw):
    k = m.hashkey(a[1])
    if k not in a[0].d:
        if len(a) > 2:
            return a[2]
        m.raise_("KeyError", str(k))
    v = a[0].d[k][1]
    m.touch(a[0])
    del a[0].d[k]
    return v


def strmeth(name):
    def f(m, a, kw):
        vals = [m.pyval(x) for x in a]
        kws = {k: m.pyval(v) for k, v in kw.items()}
        if any(v is MISSING for v in vals) or any(v is MISSING for v in kws.values()):
            if isinstance(a[0], SStr):
                p = a[0].parts
                if len(p) == 1 and isinstance(p[0], Pick) and all(v is not MISSING for v in vals[1:]):
                    outs = [getattr(s, name)(*vals[1:], **kws) for s in p[0].table]
                    return m.sel_values(p[0].idx, [m.fromjson(o) for o in outs])
            if name == "join" and isinstance(a[0], str):
                parts = []
                for k, x in enumerate(m.iterate(a[1])):
                    if k:
                        parts.append(a[0])
                    parts.append(x)
                return m.concat_strs(parts) if parts else ""
            if name == "format" and isinstance(a[0], str):
                return str_format(m, a[0], a[1:], kw)
            if name == "startswith" and isinstance(a[0], SStr) and isinstance(a[0].parts[0], str) and \
                    isinstance(a[1], str) and len(a[0].parts[0]) >= len(a[1]):
                return B(a[0].parts[0].startswith(a[1]))
            if name in ("startswith", "endswith", "isdigit"):
                return Sc("pybool", T.ext("str.%s@%s" % (name, ",".join(m.opq_key(x) for x in a)), (), 0, 1))
            return Opq("str." + name, tuple(a))
        try:
            return m.fromjson(getattr(vals[0], name)(*vals[1:], **kws))
        except (ValueError, IndexError, KeyError) as e:
            m.raise_(type(e).__name__, str(e))
    return f


def str_format(m, s, args, kw):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return Opq("format", (s,) + tuple(args))
        parts.append(m.format(v, spec or "", conv or ""))
    return m.concat_strs(parts) if parts else ""


CODECS = {"utf8": "utf-8", "utf_8": "utf-8", "u8": "utf-8", "latin1": "latin-1", "iso-8859-1": "latin-1"}


def bytes_decode(m, a, kw):
    enc = a[1] if len(a) > 1 else kw.get("encoding", "utf-8")
    err = a[2] if len(a) > 2 else kw.get("errors", "strict")
    if isinstance(a[0], bytes):
        return a[0].decode(enc, err)
    if isinstance(enc, str):
        enc = CODECS.get(enc.lower(), enc.lower())
    return Opq("decode", (a[0], enc) + ((err,) if err != "strict" else ()))


def is_buffer(v):
    """bytes of a serialized table, or a part of them"""
    while isinstance(v, Opq) and v.head == "slice":
        v = v.args[0]
    return isinstance(v, Opq) and (v.head == "buffer" or v.head == "attr" and v.args[-1] == "Bytes" and isinstance(v.args[0], Opq) and v.args[0].head == "fbtable")


def part_decode(m, a, kw):
    if is_buffer(a[0]):
        return bytes_decode(m, a, kw)
    return Opq("call", (Opq("attr", (a[0], "decode")),) + tuple(a[1:]))


def fb_string(m, a, kw):
    """bytes of the string whose offset is stored at an absolute position"""
    pos = T.sub(a[1].n, a[0].args[1].n)
    rel = [a[0], Sc("int", pos)]
    start, n = fb_vector(m, rel, {}), fb_veclen(m, rel, {})
    return m.gi(m.ga(a[0], "Bytes"), Slice(start, Sc("int", T.add(start.n, n.n)), None))


def f_read(m, a, kw):
    f = a[0]
    event(m, ("read", f.path, f.mode, f))
    h = m.hooks.get("read")
    if h is not None:
        r = h(m, f)
        if r is not None:
            return r
    return Opq("contents", (f.path,))


def f_write(m, a, kw):
    f = a[0]
    event(m, ("write", f.path, f.mode, f, a[1]))
    return None


def f_close(m, a, kw):
    f = a[0]
    event(m, ("close", f.path, f.mode, f))


def arr_meth(name):
    def f(m, a, kw):
        v = a[0]
        from .machine import SliceView
        if isinstance(v, SliceView):
            arr = Arr(v.arr.dtype, (len(v.r),), [v.arr.data[k] for k in v.r])
        else:
            arr = m.materialise(v)
        if name == "view":
            t = a[1]
            if isinstance(t, Builtin) and t.name in ("np.recarray", "np.ndarray"):
                r = Arr(arr.dtype, arr.shape, arr.data, recarr=t.name == "np.recarray")
                r.data = arr.data
                if arr.dtype.fields is not None:
                    for x in arr.data:
                        set_recarr(x, r.recarr)
                    return r
                return arr
            m.unsupported("ndarray.view")
        if name == "copy":
            if arr.dtype.fields is not None:
                return Arr(arr.dtype, arr.shape, [rec_copy(x) for x in arr.data], recarr=arr.recarr)
            return Arr(arr.dtype, arr.shape, list(arr.data), recarr=arr.recarr)
        if name == "astype":
            dt = m.dtype_of(a[1])
            return Arr(dt, arr.shape, [A.cast(m, Sc(arr.dtype.dt, x), dt.dt).n for x in arr.data])
        if name == "tolist":
            return PList([m.box(m.arr_elem(arr, k)) for k in range(len(arr.data))])
        if name in ("flatten", "ravel"):
            return Arr(arr.dtype, (len(arr.data),), list(arr.data))
        if name == "reshape":
            sh = a[1] if isinstance(a[1], tuple) else tuple(a[1:])
            sh = [x.const for x in sh]
            if -1 in sh:
                k = 1
                for s in sh:
                    if s != -1:
                        k *= s
                sh[sh.index(-1)] = len(arr.data) // k
            return Arr(arr.dtype, sh, list(arr.data))
        if name == "sum":
            return np_sum(m, [arr] + list(a[1:]), kw)
        if name == "fill":
            m.si(v, Slice(None, None, None), a[1])
            return None
        if name in ("any", "all"):
            r = T.FALSE if name == "any" else T.TRUE
            for x in arr.data:
                t = T.truthy(x)
                r = T.or_(r, t) if name == "any" else T.and_(r, t)
            return Sc("bool", r)
        if name == "item":
            return m.box(m.arr_elem(arr, 0))
        m.unsupported("ndarray." + name)
    return f


def set_recarr(r, flag):
    r.recarr = flag
    for v in r.d.values():
        if isinstance(v, Arr) and v.dtype.fields is not None:
            v.recarr = flag
            for x in v.data:
                set_recarr(x, flag)


def rec_copy(r):
    n = Rec(r.dtype, r.recarr)
    for k, v in r.d.items():
        if isinstance(v, Arr):
            v = Arr(v.dtype, v.shape, [rec_copy(x) if isinstance(x, Rec) else x for x in v.data], recarr=v.recarr)
        n.d[k] = v
    return n


def fb_table(off):
    def g(name, lo, hi):
        def f(m, a, kw):
            return Sc("int", T.ext(name, (a[0].args[1].n,) + tuple(x.n for x in a[1:]), lo, hi))
        return f
    return g


def fb_offset(m, a, kw):
    h = m.hooks.get("fb_present")
    if h is not None:
        r = h(m, a[0], a[1])
        if r is False:
            return I(0)
        if r is True:
            return Sc("int", T.ext("fb.Offset", (a[0].args[1].n, a[1].n), 1, 0xFFFF))
    return Sc("int", T.ext("fb.Offset", (a[0].args[1].n, a[1].n), 0, 0xFFFF))


def fb_get(m, a, kw):
    ty = a[1]
    name = ty.args[-1] if isinstance(ty, Opq) else str(ty)
    w = {"Uint8Flags": "u8", "Uint16Flags": "u16", "Uint32Flags": "u32", "Uint64Flags": "u64", "Int8Flags": "i8",
         "Int16Flags": "i16", "Int32Flags": "i32", "Int64Flags": "i64", "Float32Flags": "f32",
         "Float64Flags": "f64", "BoolFlags": "bool"}.get(name)
    if w is None:
        return Opq("fb.Get", (ty, a[2]))
    if w in FLOATS:
        return Sc("float", T.ext("fb.Get." + name, (a[2].n,), None, None, "f64"))
    return Sc("pybool" if w == "bool" else "int", T.ext("fb.Get." + name, (a[2].n,), *dt_range(w)))


def fb_indirect(m, a, kw):
    return Sc("int", T.ext("fb.Indirect", (a[1].n,), 0, (1 << 32) - 1))


def fb_vector(m, a, kw):
    return Sc("int", T.ext("fb.Vector", (a[0].args[1].n, a[1].n), 0, (1 << 32) - 1))


def fb_veclen(m, a, kw):
    h = m.hooks.get("fb_len")
    if h is not None:
        r = h(m, a[0], a[1])
        if r is not None:
            return I(r)
    return Sc("int", T.ext("fb.VectorLen", (a[0].args[1].n, a[1].n), 0, (1 << 32) - 1))


def fb_tabattr(k):
    def f(m, a, kw):
        return a[0].args[k]
    return f


METHODS = {
    ("list", "append"): l_append, ("list", "extend"): l_extend, ("list", "pop"): l_pop, ("list", "insert"): l_insert,
    ("list", "clear"): l_clear, ("list", "copy"): l_copy, ("list", "index"): seq_index, ("list", "count"): seq_count,
    ("list", "reverse"): l_reverse, ("list", "sort"): l_sort,
    ("tuple", "index"): seq_index, ("tuple", "count"): seq_count,
    ("dict", "get"): d_get, ("dict", "items"): d_items, ("dict", "values"): d_values, ("dict", "keys"): d_keys,
    ("dict", "copy"): d_copy, ("dict", "update"): d_update, ("dict", "setdefault"): d_setdefault,
    ("dict", "pop"): d_pop,
    ("bytes", "decode"): bytes_decode,
    ("file", "read"): f_read, ("file", "write"): f_write, ("file", "close"): f_close,
    ("file", "flush"): lambda m, a, kw: None, ("file", "__enter__"): lambda m, a, kw: a[0],
    ("file", "fileno"): lambda m, a, kw: Opq("fileno", (a[0].path,)),
    ("file", "__exit__"): lambda m, a, kw: f_close(m, a[:1], {}),
    ("opq:slice", "decode"): part_decode,
    ("opq:fbtable", "Offset"): fb_offset, ("opq:fbtable", "Get"): fb_get, ("opq:fbtable", "Indirect"): fb_indirect,
    ("opq:fbtable", "Vector"): fb_vector, ("opq:fbtable", "String"): fb_string, ("opq:fbtable", "VectorLen"): fb_veclen,
    ("opq:match", "group"): lambda m, a, kw: a[0].args[a[1].const if len(a) > 1 else 0],
    ("opq:match", "groups"): lambda m, a, kw: tuple(a[0].args[1:]),
    ("opq:path", "mkdir"): lambda m, a, kw: event(m, ("mkdir", a[0])),
    ("opq:set", "add"): lambda m, a, kw: m.unsupported("set mutation"),
}
for _n in ("replace", "split", "upper", "lower", "capitalize", "strip", "lstrip", "rstrip", "join", "format",
           "startswith", "endswith", "splitlines", "title", "zfill", "find", "rfind", "isdigit", "isupper", "islower",
           "encode", "partition", "rpartition", "rsplit", "ljust", "rjust", "count", "removeprefix", "removesuffix",
           "swapcase", "isalpha", "isalnum", "index", "translate", "casefold", "center", "isspace"):
    METHODS[("str", _n)] = strmeth(_n)
for _n in ("view", "copy", "astype", "tolist", "flatten", "ravel", "reshape", "sum", "fill", "any", "all", "item"):
    METHODS[("arr", _n)] = arr_meth(_n)


# ---------------------------------------------------------------- numpy
def shape_of(m, v):
    if isinstance(v, Sc):
        if v.const is None:
            h = m.hooks.get("array_len")
            r = h(m, v) if h else None
            if r is None:
                m.unsupported("array of symbolic size")
            return (r,)
        if v.dt in FLOATS:
            m.raise_("TypeError", "array size must be an integer")
        if v.const < 0:
            m.raise_("ValueError", "negative dimensions are not allowed")
        return (v.const,)
    if isinstance(v, (tuple, PList)):
        out = []
        for x in m.iterate(v):
            out.extend(shape_of(m, x))
        return tuple(out)
    m.unsupported("array shape")


def np_new(kind):
    def f(m, a, kw):
        dt = kw.get("dtype", a[1] if len(a) > 1 else None)
        if isinstance(dt, Alt):
            m.unsupported("array dtype")
        d = m.dtype_of(dt) if dt is not None else DType("f64")
        sh = shape_of(m, a[0] if a else kw["shape"])
        while d.sub is not None:
            sh = sh + tuple(d.sub[1])
            d = d.sub[0]
        if kind == "ones":
            arr = m.new_array(sh, d, True)
            one = T.fconst(1.0, FLOATS[d.dt]) if d.dt in FLOATS else T.C(1)
            arr.data = [one] * len(arr.data)
            return arr
        if kind == "full":
            arr = m.new_array(sh, d, True)
            arr.data = [m.to_elem(a[1], d.dt)] * len(arr.data)
            return arr
        return m.new_array(sh, d, kind == "zeros")
    return f


def np_full(m, a, kw):
    dt = kw.get("dtype", a[2] if len(a) > 2 else None)
    d = m.dtype_of(dt) if dt is not None else DType(a[1].dt if a[1].dt not in PYNUM else
                                                    {"int": "i64", "float": "f64", "pybool": "bool"}[a[1].dt])
    arr = m.new_array(shape_of(m, a[0]), d, True)
    x = m.to_elem(a[1], d.dt)
    arr.data = [x] * len(arr.data)
    return arr


def np_array(m, a, kw):
    dt = kw.get("dtype", a[1] if len(a) > 1 else None)
    d = m.dtype_of(dt) if dt is not None and not (isinstance(dt, NpType) and dt.dt == "str") else None
    if isinstance(a[0], Sc):
        return Arr(d or DType(a[0].dt), (1,), [m.to_elem(a[0], (d or DType(a[0].dt)).dt)])
    if m.jit and isinstance(a[0], tuple) and a[0] and not isinstance(a[0][0], tuple):
        pass
    return m.np_array(a[0], d)


def np_sum(m, a, kw):
    v = a[0]
    if len(a) > 1 or set(kw) - {"dtype"}:
        m.unsupported("np.sum along an axis")
    if isinstance(v, (PList, tuple)):
        v = m.np_array(v, None)
    v = m.materialise(v)
    dt = v.dtype.dt
    if kw.get("dtype") is not None:
        want = m.dtype_of(kw["dtype"]).dt
        if want not in FLOATS and want not in WIDTH:
            m.unsupported("np.sum as %s" % want)
        v = Arr(DType(want), v.shape, [A.cast(m, Sc(dt, x), want).n for x in v.data])
        dt = want
        if dt in WIDTH:
            acc = Sc(dt, T.C(0))
            for x in v.data:
                acc = A.cast(m, A.binop(m, "+", acc, Sc(dt, x), m.jit), dt)
            return acc
    if dt in FLOATS:
        acc = T.fconst(0.0, FLOATS[dt])
        first = True
        for x in v.data:
            acc = x if first else T.fop("fadd", acc, x, FLOATS[dt])
            first = False
        return Sc(dt, acc)
    rd = "u64" if dt[0] == "u" else "i64"
    acc = Sc(rd, T.C(0))
    for x in v.data:
        acc = A.binop(m, "+", acc, A.cast(m, Sc(dt, x), rd), m.jit)
        acc = A.cast(m, acc, rd)
    return acc


def np_where(m, a, kw):
    c, x, y = [m.np_array(v, None) if isinstance(v, (PList, tuple)) else v for v in a]
    c = m.materialise(c) if not isinstance(c, Sc) else c
    if isinstance(c, Sc):
        return m.merge(m.truth(c), x, y)
    n = len(c.data)
    xs, ys = m.spread(x, n), m.spread(y, n)
    adt = lambda v: None if isinstance(v, Sc) and v.dt in PYNUM else (m.materialise(v).dtype.dt if not isinstance(v, Sc) else v.dt)
    dx, dy = adt(x), adt(y)
    d = dx or dy or ("f64" if "float" in (x.dt, y.dt) else "i64")
    if dx and dy and dx != dy:
        d = A.unify(dx, dy)
    # value based casting: python scalars take the array type
    if d in WIDTH and "float" in [v.dt for v in (x, y) if isinstance(v, Sc)]:
        d = "f64"
    out = [m.ite(T.truthy(k), A.cast(m, p, d).n, A.cast(m, q, d).n) for k, p, q in zip(c.data, xs, ys)]
    return Arr(DType(d), c.shape, out)


def np_fromfile(m, a, kw):
    f = a[0] if a else kw.get("file")
    count = kw.get("count", a[2] if len(a) > 2 else None)
    kw = dict(kw)
    if isinstance(kw.get("offset"), Sc) and kw["offset"].const == 0:
        del kw["offset"]
    if set(kw) - {"file", "dtype", "count"} or len(a) > 3 or not (count is None or isinstance(count, Sc) and count.const == -1):
        m.unsupported("np.fromfile of part of a file")
    d = m.dtype_of(kw.get("dtype", a[1] if len(a) > 1 else None))
    from .machine import FileObj
    path = f.path if isinstance(f, FileObj) else f
    h = m.hooks.get("fromfile")
    if h is not None:
        r = h(m, path, d)
        if r is not None:
            return r
    if isinstance(path, str) and os.path.exists(path):
        n = os.path.getsize(path) // d.size
    else:
        n = T.V("len:" + os.path.basename(str(path)), 0, 1 << 20)
    r = ExtArr(os.path.basename(str(path)), d, n, recarr=False)
    r.path = path
    return r


def np_frombuffer(m, a, kw):
    b = a[0] if a else kw.get("buffer")
    if isinstance(b, Opq) and b.head == "contents" and len(a) <= 2 and not set(kw) - {"buffer", "dtype"}:
        return np_fromfile(m, [b.args[0], kw.get("dtype", a[1] if len(a) > 1 else None)], {})
    m.unsupported("np.frombuffer")


def np_arange(m, a, kw):
    dt = kw.get("dtype")
    r = b_range(m, [x for x in a if isinstance(x, Sc)], {})
    return m.np_array(PList(m.iterate(r)), m.dtype_of(dt) if dt is not None else None)


def np_wherefn(name):
    return None


def np_dtype(m, a, kw):
    return m.dtype_of(a[0])


class ErrState:
    pass


def np_func2(op):
    def f(m, a, kw):
        return m.binop(op, a[0], a[1])
    return f


def make_numpy(m):
    M = Module("numpy")
    at = M.attrs
    for n, d in NPNAMES.items():
        at[n] = NpType(d)
    at["bool"] = m.builtins["bool"]
    at["str_"] = at["unicode_"] = NpType("str")
    at["void"] = NpType("void")
    at["object_"] = Opq("np.object_")
    for n in ("ndarray", "recarray", "generic", "integer", "floating", "number", "record", "unsignedinteger",
              "signedinteger"):
        at[n] = Builtin("np." + n, lambda m, a, kw: m.unsupported("array constructor"), istype=True)
    at["dtype"] = Builtin("np.dtype", np_dtype, istype=True)
    at["array"] = at["asarray"] = at["ascontiguousarray"] = Builtin("np.array", np_array)
    for n in ("empty", "zeros", "ones"):
        at[n] = Builtin("np." + n, np_new(n))
    at["full"] = Builtin("np.full", np_full)
    at["sum"] = Builtin("np.sum", np_sum)
    at["where"] = Builtin("np.where", np_where)
    at["fromfile"] = Builtin("np.fromfile", np_fromfile)
    at["frombuffer"] = Builtin("np.frombuffer", np_frombuffer)
    at["arange"] = Builtin("np.arange", np_arange)
    at["bitwise_and"] = Builtin("np.bitwise_and", np_func2("&"))
    at["bitwise_or"] = Builtin("np.bitwise_or", np_func2("|"))
    at["bitwise_xor"] = Builtin("np.bitwise_xor", np_func2("^"))
    at["left_shift"] = Builtin("np.left_shift", np_func2("<<"))
    at["right_shift"] = Builtin("np.right_shift", np_func2(">>"))
    at["add"] = Builtin("np.add", np_func2("+"))
    at["multiply"] = Builtin("np.multiply", np_func2("*"))
    at["subtract"] = Builtin("np.subtract", np_func2("-"))
    at["minimum"] = Builtin("np.minimum", b_minmax("min"))
    at["maximum"] = Builtin("np.maximum", b_minmax("max"))
    at["seterr"] = Builtin("np.seterr", lambda m, a, kw: None)
    at["errstate"] = Builtin("np.errstate", lambda m, a, kw: Opq("errstate"))
    at["copy"] = Builtin("np.copy", lambda m, a, kw: arr_meth("copy")(m, a, kw))
    at["newaxis"] = None
    at["__version__"] = "1.26.4"
    at["typing"] = Opq("numpy.typing")
    at["rec"] = Opq("np.rec")
    M.attrs["pi"] = Sc("float", T.fconst(3.141592653589793, 64))
    return M


# ---------------------------------------------------------------- numba
def nb_njit(m, a, kw):
    a = list(a)
    sig = a[0] if a else kw.get("signature_or_function")
    locs = kw.get("locals")
    locals_ = {}
    if isinstance(locs, PDict):
        for kv, v in locs.d.values():
            if isinstance(v, NbType) and v.kind == "scalar":
                locals_[kv] = v.dt
            elif isinstance(v, NpType):
                locals_[kv] = v.dt
    opts = {k: m.pyval(v) for k, v in kw.items() if k not in ("signature_or_function", "locals")}
    bad = set(opts) - {"cache", "fastmath", "inline", "nogil", "parallel", "error_model", "boundscheck", "debug",
                       "nopython", "forceinline", "no_cpython_wrapper", "no_cfunc_wrapper", "pipeline_class"}
    if bad:
        m.raise_("KeyError", "unknown compiler option %s" % sorted(bad))
    if opts.get("error_model") == "numpy" or opts.get("fastmath"):
        m.notes.append("njit options %r" % opts)

    def compile_(f, s):
        if isinstance(f, Func):
            g = f.clone()
            g.ir = f.ir
            g.jit = JitInfo(s, locals_)
            g.jit.options = opts
            g.orig = f
            f.jitted = g
            m.jitcount = getattr(m, "jitcount", 0) + 1
            return g
        if isinstance(f, Static):
            m.raise_("TypeError", "njit of a static method object")
        m.raise_("TypeError", "A jit decorator was called on a non-function")
    if isinstance(sig, Func):
        if isinstance(sig.node, object) and sig.jit is None:
            return compile_(sig, None)
        return sig

    def norm(s):
        if s is None:
            return None
        if isinstance(s, Sig):
            return s
        if isinstance(s, (PList,)):
            v = m.iterate(s)
            return norm(v[0]) if v else None
        if isinstance(s, tuple):
            return Sig(None, list(s))
        if isinstance(s, str):
            m.unsupported("textual signature")
        m.raise_("TypeError", "invalid signature")
    from .machine import Sig
    s = norm(sig)
    return Builtin("njit.wrapper", lambda m, a, kw: compile_(a[0], s))


def nb_jitclass(m, a, kw):
    a = list(a)
    cls = a[0] if a else kw.get("cls_or_spec")
    spec = a[1] if len(a) > 1 else kw.get("spec")
    if cls is not None and not isinstance(cls, Cls) and spec is None:
        cls, spec = None, cls

    def build(c):
        if not isinstance(c, Cls):
            m.raise_("TypeError", "class passed to jitclass must be a class")
        js = {}
        if spec is not None:
            items = spec.d.values() if isinstance(spec, PDict) else [tuple(m.iterate(x)) for x in m.iterate(spec)]
            for k, v in items:
                js[k] = v
        # annotations not in the specification
        merged = {}
        for k in reversed(c.mro()):
            merged.update(k.d)
        for n, t in all_hints(m, c):
            if n not in js:
                if isinstance(t, (NpType, DType)):
                    m.raise_("TypingError", "cannot infer the numba type of %r (%s)" % (t, n))
                js[n] = as_nb(m, t)
        for n, t in js.items():
            if not isinstance(t, NbType):
                m.raise_("TypeError", "spec values should be Numba type instances, got %r for %s" % (t, n))
        new = {}
        for n, v in merged.items():
            if isinstance(v, Func):
                if v.jit is not None and v.ir is None:
                    m.raise_("TypeError", "class members are not yet supported: " + n)
                g = v.clone()
                g.jit = JitInfo()
                g.orig = v
                new[n] = g
            elif isinstance(v, Static):
                g = v.f.clone()
                g.jit = JitInfo()
                g.orig = v.f
                new[n] = Static(g, v.kind)
            elif n.startswith("__") or n in ("_abc_impl", "_is_protocol", "_is_runtime_protocol"):
                if n == "__doc__":
                    new[n] = v
            else:
                m.raise_("TypeError", "class members are not yet supported: " + n)
        shadow = set(new) & set(js)
        if shadow:
            m.raise_("NameError", "name shadowing: %s" % sorted(shadow))
        k = Cls(c.name, [b for b in c.bases if isinstance(b, Builtin)], new, c.module, c.node)
        k.jitspec = js
        k.orig = c
        k.env = c.env
        k.ann = c.ann
        return k
    if cls is None:
        return Builtin("jitclass.wrapper", lambda m, a, kw: build(a[0]))
    return build(cls)


def all_hints(m, c):
    out = {}
    for k in reversed(c.mro()):
        for n, t in m.annotations(k):
            out[n] = t
    return list(out.items())


def as_nb(m, t):
    if isinstance(t, NbType):
        return t
    if isinstance(t, NpType):
        return NbType("scalar", t.dt)
    if isinstance(t, DType):
        return nb_from_dtype(m, [t], {})
    if isinstance(t, Builtin) and t.name in ("int", "float", "bool"):
        return NbType("scalar", {"int": "i64", "float": "f64", "bool": "bool"}[t.name])
    if isinstance(t, Cls) and t.jitspec is not None:
        return NbType("instance", None, (t,))
    m.raise_("TypingError", "no numba type for %r" % (t,))


def is_big(d):
    return (bool(getattr(d, "big", False)) or d.fields is not None and any(is_big(x) for _, x in d.fields)
            or d.sub is not None and is_big(d.sub[0]))


def nb_from_dtype(m, a, kw):
    v = a[0]
    if isinstance(v, NpType):
        if v.dt in ("str", "void"):
            m.raise_("NumbaNotImplementedError", "from_dtype")
        return NbType("scalar", v.dt)
    if isinstance(v, DType):
        if is_big(v):
            m.raise_("NumbaNotImplementedError", "from_dtype: foreign byte order")
        if v.dt is not None:
            return NbType("scalar", v.dt)
        if v.fields is not None:
            return NbType("record", None, (v,))
        return NbType("nested", None, (v,))
    m.raise_("NumbaNotImplementedError", "from_dtype(%r)" % (v,))


def nb_infer_global(m, a, kw):
    target = a[0]

    def deco(m, a, kw):
        return a[0]
    return Builtin("infer_global.wrapper", deco)


def nb_lower_builtin(m, a, kw):
    target = a[0]

    def deco(m, a2, kw):
        if isinstance(target, Func):
            target.ir = (a2[0], list(a[1:]))
        return a2[0]
    return Builtin("lower_builtin.wrapper", deco)


def make_numba(m):
    mods = {}

    def mod(name, **attrs):
        x = Module(name)
        x.attrs.update(attrs)
        mods[name] = x
        return x
    types = {n: NbType("scalar", d) for n, d in NBNAMES.items()}
    isnb = lambda v: isinstance(v, NbType)
    Type = Builtin("types.Type", lambda m, a, kw: m.unsupported("types.Type"), {"check": isnb}, istype=True)
    unituple = Builtin("types.UniTuple", lambda m, a, kw: NbType("unituple", None, (a[0], py_int(a[1]))), istype=True)
    tuple_ = Builtin("types.Tuple", lambda m, a, kw: NbType("tuple", None, tuple(m.iterate(a[0]))), istype=True)

    def nb_array(m, a, kw):
        names = ("dtype", "ndim", "layout", "readonly")
        v = dict(zip(names, a))
        for k, x in kw.items():
            if k not in names:
                m.unsupported("types.Array(%s)" % k)
            v[k] = x
        ro = v.get("readonly", False)
        if isinstance(ro, Sc):
            ro = bool(py_int(ro))
        return NbType("array", None, (v["dtype"], py_int(v["ndim"]), v["layout"], ro))
    array = Builtin("types.Array", nb_array, istype=True)
    listtype = Builtin("types.ListType", lambda m, a, kw: NbType("list", None, tuple(a)), istype=True)
    string = NbType("string")
    void = NbType("void")
    tattrs = dict(types)
    tattrs.update(Type=Type, UniTuple=unituple, Tuple=tuple_, Array=array, ListType=listtype, string=string,
                  unicode_type=string, void=void, none=void,
                  DictType=Builtin("types.DictType", lambda m, a, kw: NbType("dict", None, tuple(a)), istype=True))
    mod("numba.types", **tattrs)
    tl = Builtin("typed.List", lambda m, a, kw: PList([v for v in (m.iterate(a[0]) if a else [])], True), istype=True)
    tl.attrs["empty_list"] = Builtin("List.empty_list", lambda m, a, kw: PList([], True))

    def td(m, a, kw):
        return PDict((kw.get("key_type", a[0] if a else None), kw.get("value_type", a[1] if len(a) > 1 else None)))
    tdict = Builtin("typed.Dict", lambda m, a, kw: PDict(True), istype=True)
    tdict.attrs["empty"] = Builtin("Dict.empty", td)
    mod("numba.typed", List=tl, Dict=tdict)
    jc = Builtin("jitclass", nb_jitclass)
    mod("numba.experimental", jitclass=jc)
    mod("numba.core.imputils", lower_builtin=Builtin("lower_builtin", nb_lower_builtin),
        impl_ret_untracked=Opq("impl_ret_untracked"))
    sigf = Builtin("signature", lambda m, a, kw: _mksig(a[0], list(a[1:])))
    mod("numba.core.typing.templates", infer_global=Builtin("infer_global", nb_infer_global),
        AbstractTemplate=Builtin("AbstractTemplate", lambda m, a, kw: Opq("template"), istype=True), signature=sigf)
    npy = mod("numba.core.types.npytypes")
    for n in ("Record", "Array", "NestedArray"):
        npy.attrs[n] = Opq("npytypes." + n)
    mod("numba.core.types", npytypes=npy, **tattrs)
    mod("numba.core.typing", templates=mods["numba.core.typing.templates"], signature=sigf)
    mod("numba.core", imputils=mods["numba.core.imputils"], typing=mods["numba.core.typing"],
        types=mods["numba.core.types"], cgutils=Opq("cgutils"))
    nb = mod("numba", njit=Builtin("njit", nb_njit), jit=Builtin("jit", nb_njit), from_dtype=Builtin("from_dtype", nb_from_dtype),
             types=mods["numba.types"], typed=mods["numba.typed"], experimental=mods["numba.experimental"],
             core=mods["numba.core"], void=void, typeof=Opq("typeof"), prange=Builtin("prange", b_range),
             **types)
    nb.attrs["__version__"] = "0.59.1"
    nb.attrs["config"] = Opq("numba.config")
    return mods


def _mksig(ret, args):
    from .machine import Sig
    return Sig(ret, args)


# ---------------------------------------------------------------- standard library
def re_fn(kind):
    def f(m, a, kw):
        pat, s = a[0], a[1]
        flags = 0
        for x in a[2:]:
            c = m.pyval(x)
            flags |= c if c is not MISSING else 0
        for x in kw.values():
            c = m.pyval(x)
            flags |= c if c is not MISSING else 0
        if isinstance(pat, str) and isinstance(s, str):
            r = getattr(_re, kind)(pat, s, flags)
            if r is None:
                return None
            return Opq("match", (r.group(0),) + r.groups())
        if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Pick):
            p = s.parts[0]
            vals = [f(m, [pat, x] + list(a[2:]), kw) for x in p.table]
            return m.sel_values(p.idx, vals)
        return Alt(T.ext("re.%s@%s,%s" % (kind, m.opq_key(pat), m.opq_key(s)), (), 0, 1), Opq("match", (s,)), None)
    return f


def re_sub(m, a, kw):
    if all(isinstance(x, str) for x in a[:3]):
        return _re.sub(a[0], a[1], a[2])
    return Opq("re.sub", tuple(a))


def resource_path(m, pkg, name):
    if isinstance(pkg, Module):
        base = pkg.path if pkg.pkg and os.path.isdir(pkg.path or "") else os.path.dirname(pkg.path or "")
    elif isinstance(pkg, str):
        mod = m.import_module(pkg)
        return resource_path(m, mod, name)
    else:
        m.unsupported("resource package")
    if not isinstance(name, str):
        return Opq("resource", (pkg.name, name))
    return os.path.join(base, name)


def res_access(kind):
    def f(m, a, kw):
        p = resource_path(m, a[0], a[1])
        m.resources = getattr(m, "resources", [])
        m.resources.append((p, m.where(), kind))
        h = m.hooks.get("resource")
        if h is not None:
            r = h(m, p, kind, kw)
            if r is not None:
                return r
        if isinstance(p, str) and not os.path.isfile(p):
            m.missing.append((p, m.where()))
            if not m.hooks.get("tolerate_missing"):
                m.raise_("FileNotFoundError", p)
            return "{}" if kind == "read_text" else Opq("contents", (p,))
        if kind == "read_text":
            enc = kw.get("encoding", a[2] if len(a) > 2 else "utf-8")
            if isinstance(p, str) and os.path.getsize(p) < 200000:
                with open(p, encoding=enc) as fh:
                    return fh.read()
            return Opq("contents", (p,))
        if kind == "read_binary":
            return Opq("contents", (p,))
        from .machine import FileObj
        return FileObj(p, "r" if kind == "open_text" else "rb", True)
    return f


def json_load(m, a, kw):
    from .machine import FileObj
    f = a[0]
    path = f.path if isinstance(f, FileObj) else f
    h = m.hooks.get("json")
    if h is not None:
        r = h(m, path)
        if r is not None:
            return r
    if isinstance(path, str) and os.path.isfile(path):
        with open(path, encoding="utf-8") as fh:
            return m.fromjson(_json.load(fh))
    return Opq("json", (path,))


def json_loads(m, a, kw):
    v = a[0]
    h = m.hooks.get("json")
    if h is not None:
        r = h(m, v)
        if r is not None:
            return r
    if isinstance(v, str):
        try:
            d = m.fromjson(_json.loads(v))
        except ValueError:
            m.raise_("ValueError", "JSONDecodeError")
        oh = kw.get("object_hook")
        if oh is not None and isinstance(d, PDict):
            return m.call(oh, [d], {})
        return d
    return Opq("json.loads", (v,))


def pickle_dumps(m, a, kw):
    return Opq("pickle.dumps", (a[0],))


def pickle_loads(m, a, kw):
    v = a[0]
    if isinstance(v, Opq) and v.head == "pickle.dumps":
        return v.args[0]
    event(m, ("unpickle", v))
    if v == b"":
        m.raise_("EOFError", "Ran out of input")
    h = m.hooks.get("unpickle")
    if h is not None:
        return h(m, v)
    return Opq("pickle.loads", (v,))


def pickle_dump(m, a, kw):
    f = a[1]
    event(m, ("write", f.path, f.mode, f, Opq("pickle.dumps", (a[0],))))


def pickle_load(m, a, kw):
    f = a[0]
    return pickle_loads(m, [f_read(m, [f], {})], {})


def os_exists(m, a, kw):
    a = [pstr(a[0])]
    h = m.hooks.get("exists")
    if h is not None:
        r = h(m, a[0])
        if r is not None:
            return r
    event(m, ("exists", a[0]))
    return Sc("pybool", T.ext("exists@" + m.opq_key(a[0]), (), 0, 1))


def file_size(m, a, kw):
    from .machine import FileObj
    h = m.hooks.get("read")
    v = h(m, FileObj(pstr(a[0]), "rb")) if h is not None else None
    if isinstance(v, bytes):
        return I(len(v))
    return Sc("int", T.ext("size@" + m.opq_key(pstr(a[0])), (), 0, None))


def os_event(name):
    def f(m, a, kw):
        event(m, (name,) + tuple(pstr(x) for x in a))
        return None
    return f


def cache_root(m, a, kw):
    v = [x for x in list(a) + [kw[k] for k in ("appname", "appauthor", "version") if k in kw] if x is not None]
    if all(isinstance(x, str) for x in v):
        return "/CACHE/" + "/".join(v)
    return path_join(m, ["/CACHE"] + [x if isinstance(x, (str, SStr)) else m.format(x) for x in v], {})


def path_write(m, a, kw):
    f = open_file(m, a[0], "wb")
    f_write(m, [f, a[1]], {})
    f_close(m, [f], {})


def path_read(m, a, kw):
    f = open_file(m, a[0], "rb")
    v = f_read(m, [f], {})
    f_close(m, [f], {})
    return v


PROPS = {}


def path_join(m, a, kw):
    a = [pstr(x) for x in a]
    if all(isinstance(x, str) for x in a):
        return os.path.join(*a)
    parts = []
    for k, x in enumerate(a):
        if k:
            parts.append("/")
        parts.append(x)
    if all(isinstance(p, (str, SStr, Pick)) for p in parts):
        return m.concat_strs(parts)
    return Opq("join", tuple(a))


def env_get(m, a, kw):
    if a[0] == "NPP_USE_NUMBA":
        if "option" in m.hooks:
            v = m.hooks["option"]
            return v if v is not None else a[1] if len(a) > 1 else None
        return "TRUE" if m.mode == "numba" else "FALSE"
    h = m.hooks.get("environ")
    if h is not None:
        return h(m, a[0], a[1] if len(a) > 1 else None)
    return a[1] if len(a) > 1 else None


def dataclass(m, a, kw):
    def deco(m, a, kw2):
        c = a[0]
        c.d.setdefault("__dataclass_fields__", True)
        if "__init__" not in c.d:
            names = [n for n, _ in c.ann]

            def init(m, args, kws):
                o = args[0]
                for n, v in zip(names, args[1:]):
                    m.sa(o, n, v)
                for n, v in kws.items():
                    m.sa(o, n, v)
            c.d["__init__"] = Builtin("dataclass.__init__", init)
        return c
    if a:
        return deco(m, a, {})
    return Builtin("dataclass.wrapper", deco)


def dc_fields(m, a, kw):
    from .machine import Field
    import ast
    c = a[0] if isinstance(a[0], Cls) else a[0].cls
    out, seen = [], {}
    for k in reversed(c.mro()):
        if k.module is not None and k.module.future:
            ent = [(n, ast.unparse(x)) for n, x in k.ann]
        else:
            ent = m.annotations(k)
        for n, t in ent:
            if n in seen:
                out[seen[n]] = Field(n, t)
            else:
                seen[n] = len(out)
                out.append(Field(n, t))
    return tuple(out)


def get_type_hints(m, a, kw):
    c = a[0]
    d = PDict()
    if isinstance(c, Cls):
        for n, t in all_hints(m, c):
            if isinstance(t, AnnotT) and t.head == "Annotated" and not kw.get("include_extras"):
                t = t.args[0]
            d.d[n] = (n, t)
    return d


def subscriptable(name):
    return AnnotT(name, ())


def find_spec(m, a, kw):
    name = a[0]
    if name == "numba":
        return None if m.hooks.get("no_numba") else Module("spec:numba")
    return Module("spec:" + str(name))


def make_modules(m):
    mods = {}

    def mod(name, **attrs):
        x = Module(name)
        x.attrs.update(attrs)
        mods[name] = x
        return x
    mods["numpy"] = make_numpy(m)
    m.notes = []
    if m.mode == "numba" or True:
        mods.update(make_numba(m))
    ie = {}
    for n in ("IntEnum", "Enum", "IntFlag", "Flag", "StrEnum"):
        ie[n] = Builtin(n, lambda m, a, kw: m.unsupported("functional enum"), {"enum": True}, istype=True)
    mod("enum", auto=Builtin("auto", lambda m, a, kw: Opq("auto")),
        unique=Builtin("unique", lambda m, a, kw: a[0]), **ie)
    ty = {}
    for n in ("Annotated", "Callable", "Type", "Union", "Tuple", "List", "Dict", "Optional", "Any", "Iterable",
              "Iterator", "Sequence", "Generic", "ClassVar", "Final", "Literal", "Mapping", "Set", "NamedTuple",
              "Self", "overload"):
        ty[n] = AnnotT(n, ())
    ty["Generic"] = Builtin("Generic", lambda m, a, kw: None, istype=True)
    ty["overload"] = Builtin("overload", lambda m, a, kw: a[0])
    ty["Protocol"] = Builtin("Protocol", lambda m, a, kw: m.raise_("TypeError", "Protocols cannot be instantiated"), istype=True)
    ty["TypeVar"] = Builtin("TypeVar", lambda m, a, kw: Opq("TypeVar", (a[0],)))
    ty["TYPE_CHECKING"] = B(False)
    ty["get_type_hints"] = Builtin("get_type_hints", get_type_hints)
    ty["cast"] = Builtin("cast", lambda m, a, kw: a[1])
    mod("typing", **ty)
    mod("typing_extensions", **ty)
    mod("dataclasses", dataclass=Builtin("dataclass", dataclass), fields=Builtin("fields", dc_fields),
        field=Builtin("field", lambda m, a, kw: Opq("field")))
    mod("re", match=Builtin("re.match", re_fn("match")), search=Builtin("re.search", re_fn("search")),
        fullmatch=Builtin("re.fullmatch", re_fn("fullmatch")), sub=Builtin("re.sub", re_sub),
        IGNORECASE=I(2), I=I(2), MULTILINE=I(8),
        compile=Builtin("re.compile", lambda m, a, kw: Opq("pattern", tuple(a))))
    for k in ("match", "search", "fullmatch"):
        METHODS[("opq:pattern", k)] = (lambda k: lambda m, a, kw: re_fn(k)(m, [a[0].args[0], a[1]] + list(a[0].args[1:]), {}))(k)
    mod("json", load=Builtin("json.load", json_load), loads=Builtin("json.loads", json_loads))
    mod("pickle", dumps=Builtin("pickle.dumps", pickle_dumps), loads=Builtin("pickle.loads", pickle_loads),
        dump=Builtin("pickle.dump", pickle_dump), load=Builtin("pickle.load", pickle_load), HIGHEST_PROTOCOL=I(5),
        UnpicklingError=m.exc_class("UnpicklingError"), PickleError=m.exc_class("UnpicklingError"))
    pth = mod("os.path", exists=Builtin("exists", os_exists), isfile=Builtin("exists", os_exists),
              join=Builtin("join", path_join),
              dirname=Builtin("dirname", lambda m, a, kw: path_parent(m, a[0])),
              getsize=Builtin("getsize", file_size),
              basename=Builtin("basename", lambda m, a, kw: path_name(m, a[0])),
              abspath=Builtin("abspath", lambda m, a, kw: a[0]))
    env = Opq("os.environ")
    METHODS[("opq:os.environ", "get")] = lambda m, a, kw: env_get(m, a[1:], kw)
    METHODS[("opq:os.environ", "__getitem__")] = lambda m, a, kw: env_get(m, a[1:], kw)
    mod("os", path=pth, environ=env, getenv=Builtin("getenv", env_get), replace=Builtin("os.replace", os_event("replace")),
        rename=Builtin("os.rename", os_event("rename")), remove=Builtin("os.remove", os_event("remove")),
        unlink=Builtin("os.unlink", os_event("remove")), makedirs=Builtin("os.makedirs", os_event("mkdir")),
        mkdir=Builtin("os.mkdir", os_event("mkdir")), fsync=Builtin("os.fsync", os_event("fsync")),
        getpid=Builtin("getpid", lambda m, a, kw: Opq("pid")), sep="/",
        fdopen=Builtin("os.fdopen", lambda m, a, kw: open_file(m, a[0].args[0] if isinstance(a[0], Opq) and a[0].head == "fd" else Opq("fdpath", (a[0],)), a[1] if len(a) > 1 else "r")))
    mod("tempfile", NamedTemporaryFile=Builtin("NamedTemporaryFile", tmp_named),
        mkstemp=Builtin("mkstemp", lambda m, a, kw: tmp_mk(m, kw)))
    mod("shutil", move=Builtin("shutil.move", os_event("move")))
    mod("threading", get_ident=Builtin("get_ident", lambda m, a, kw: Opq("tid"))), mod("uuid", uuid4=Builtin("uuid4", lambda m, a, kw: Opq("unique")), uuid1=Builtin("uuid1", lambda m, a, kw: Opq("unique"))), mod("functools", wraps=Builtin("wraps", lambda m, a, kw: Builtin("wraps.w", lambda m, b, kw: b[0])),
                          lru_cache=Builtin("lru_cache", lambda m, a, kw: a[0] if a and isinstance(a[0], Func) else Builtin("lru.w", lambda m, b, kw: b[0])),
                          reduce=Builtin("reduce", f_reduce),
                          partial=Builtin("partial", f_partial))
    mod("itertools", chain=Builtin("chain", lambda m, a, kw: PList([v for x in a for v in m.iterate(x)])),
        product=Builtin("product", it_product), islice=Builtin("islice", it_islice))
    mod("operator", **{n: Builtin("operator." + n, np_func2(o)) for n, o in
                       (("add", "+"), ("xor", "^"), ("and_", "&"), ("or_", "|"), ("mul", "*"), ("sub", "-"))})
    mod("pathlib", **{n: Builtin(n, mk_path, istype=True) for n in ("Path", "PurePath", "PosixPath", "PurePosixPath")})
    for name, f in (
            ("exists", lambda m, a, kw: os_exists(m, a, {})), ("is_file", lambda m, a, kw: os_exists(m, a, {})),
            ("open", lambda m, a, kw: open_file(m, a[0], a[1] if len(a) > 1 else kw.get("mode", "r"))),
            ("write_bytes", path_write), ("read_bytes", path_read), ("write_text", path_write), ("read_text", path_read),
            ("replace", lambda m, a, kw: event(m, ("replace", pstr(a[0]), pstr(a[1])))),
            ("rename", lambda m, a, kw: event(m, ("rename", pstr(a[0]), pstr(a[1])))),
            ("unlink", lambda m, a, kw: event(m, ("remove", pstr(a[0])))),
            ("mkdir", lambda m, a, kw: event(m, ("mkdir", pstr(a[0])))),
            ("joinpath", mk_path), ("__truediv__", mk_path), ("with_name", lambda m, a, kw: mk_path(m, [path_parent(m, a[0]), a[1]], {})),
            ("with_suffix", lambda m, a, kw: path_suffix(m, a[0], a[1])),
            ("__str__", lambda m, a, kw: pstr(a[0])), ("__fspath__", lambda m, a, kw: pstr(a[0])), ("as_posix", lambda m, a, kw: pstr(a[0]))):
        METHODS[("opq:path", name)] = f
    PROPS[("path", "parent")] = lambda m, o: Opq("path", (path_parent(m, o),))
    PROPS[("path", "name")] = path_name
    mod("platformdirs", user_cache_dir=Builtin("user_cache_dir", cache_root), user_cache_path=Builtin("user_cache_path", lambda m, a, kw: Opq("path", (cache_root(m, a, kw),))),
        user_data_dir=Builtin("user_data_dir", cache_root))
    imd = mod("importlib.metadata", version=Builtin("importlib.metadata.version", lambda m, a, kw: Opq("version", tuple(a))),
              PackageNotFoundError=m.exc_class("PackageNotFoundError"))
    nt = Module("flatbuffers.number_types")
    for n in ("Bool", "Uint8", "Uint16", "Uint32", "Uint64", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64",
              "UOffsetT", "SOffsetT", "VOffsetT"):
        nt.attrs[n + "Flags"] = Opq("fbtype", (n + "Flags",))
    mods["flatbuffers.number_types"] = nt
    mod("flatbuffers.table", Table=Builtin("Table", lambda m, a, kw: Opq("fbtable", (a[0], a[1])), istype=True))
    mod("flatbuffers.encode", Get=Builtin("encode.Get", lambda m, a, kw: Sc("int", T.ext("fb.Root@" + m.opq_key(a[1]), (a[2].n,), 0, (1 << 32) - 1))))
    mod("flatbuffers.packer", uoffset=Opq("packer.uoffset"))
    mod("flatbuffers", number_types=nt, table=mods["flatbuffers.table"], encode=mods["flatbuffers.encode"],
        packer=mods["flatbuffers.packer"])
    ir = mod("importlib.resources", **{k: Builtin(k, res_access(k)) for k in
                                       ("read_text", "read_binary", "open_text", "open_binary")})
    iu = mod("importlib.util", find_spec=Builtin("find_spec", find_spec))
    mod("importlib", resources=ir, util=iu, metadata=imd, import_module=Builtin("import_module", lambda m, a, kw: m.import_module(a[0])))
    mod("io", FileIO=Opq("io.FileIO"), BytesIO=Opq("io.BytesIO"), StringIO=Opq("io.StringIO"))
    mod("sys", version_info=VersionInfo(m), platform="linux", maxsize=I((1 << 63) - 1), byteorder="little",
        modules=PDict())
    lg = {n: Builtin("logging." + n, lambda m, a, kw: None) for n in ("warning", "info", "debug", "error", "exception")}
    mod("logging", getLogger=Builtin("getLogger", lambda m, a, kw: Opq("logger")), **lg)
    mod("warnings", warn=Builtin("warn", lambda m, a, kw: None))
    mod("__future__", annotations=Opq("future"))
    mod("math", floor=Builtin("floor", lambda m, a, kw: b_int(m, a, kw)))
    mod("struct", unpack=Opq("struct.unpack"), pack=Opq("struct.pack"))
    mod("copy", copy=Builtin("copy.copy", lambda m, a, kw: m.unsupported("copy")))
    mod("llvmlite", ir=Module("llvmlite.ir"))
    from . import irmodel
    mods["llvmlite.ir"] = mods["llvmlite"].attrs["ir"]
    irmodel.fill_module(m, mods["llvmlite.ir"])
    return mods


def tmp_named(m, a, kw):
    m._tmp = getattr(m, "_tmp", 0) + 1
    return open_file(m, tmp_path(m, kw), kw.get("mode", a[0] if a else "w+b"))


def tmp_path(m, kw):
    """a fresh name nobody else uses"""
    d = pstr(kw.get("dir") or "/tmp")
    u = SStr([Dec(T.ext("unique@%d" % m._tmp, (), 0, None), "opaque")])
    return m.concat_strs([d if isinstance(d, (str, SStr)) else m.format(d, ""), "/", kw.get("prefix") or "tmp", u] + ([kw["suffix"]] if kw.get("suffix") else []))


def tmp_mk(m, kw):
    m._tmp = getattr(m, "_tmp", 0) + 1
    p = tmp_path(m, kw)
    return (Opq("fd", (p,)), p)


def f_reduce(m, a, kw):
    vals = m.iterate(a[1])
    if len(a) > 2:
        vals = [a[2]] + vals
    r = vals[0]
    for v in vals[1:]:
        r = m.call(a[0], [r, v], {})
    return r


def f_partial(m, a, kw):
    f, pre = a[0], list(a[1:])
    return Builtin("partial", lambda m, b, kw2: m.call(f, pre + list(b), {**kw, **kw2}))


def it_product(m, a, kw):
    import itertools
    rep = py_int(kw.get("repeat", I(1)))
    return PList([tuple(t) for t in itertools.product(*[m.iterate(x) for x in a], repeat=rep)])


def it_islice(m, a, kw):
    c = [py_int(x) if x is not None else None for x in a[1:]]
    return PList(m.iterate(a[0])[slice(*c)])


def VersionInfo(m):
    return VInfo("version_info", (I(m.pyver[0]), I(m.pyver[1]), I(0), "final", I(0)))


class VInfo(tuple):
    """sys.version_info: a tuple with named members"""

    def __new__(cls, name, vals):
        return tuple.__new__(cls, vals)
