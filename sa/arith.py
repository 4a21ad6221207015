"""Scalar arithmetic of the two execution modes over value-graph terms."""

from . import term as T
from .values import *

CMP = {"<": ("<", False, False), ">": ("<", True, False), "<=": ("<", True, True), ">=": ("<", False, True),
       "==": ("==", False, False), "!=": ("==", False, True)}
F53 = 1 << 53


def fwidth(dt):
    return FLOATS[dt]


def wrapx(m, n, dt):
    w, s = WIDTH[dt]
    lo, hi = m.rng(n)
    if lo is not None and hi is not None:
        a, b = dt_range(dt)
        if lo >= a and hi <= b:
            return n
        # constant offset known from the refined interval
        k = (lo - a) >> w
        if k == (hi - a) >> w:
            return T.add(n, T.C(-(k << w)))
    return T.wrap(n, w, s)


def to_int(m, v):
    """mathematical integer node of an integer-like scalar"""
    if v.dt in FLOATS:
        raise Unsupported("float used as integer")
    return v.n


def cast(m, v, dt):
    """convert scalar v to type dt (numpy/numba conversion semantics)"""
    src = v.dt
    if src == dt:
        return v if v.en is None else Sc(dt, v.n)
    if dt in WIDTH:
        if src in FLOATS:
            w, s = WIDTH[dt]
            return Sc(dt, T.f2i(v.n, w, s))
        if src == "int":
            lo, hi = m.rng(v.n)
            top = 64 if dt in ("u32", "u64") else 63
            if lo is None or hi is None or lo < -(1 << 63) or hi >= 1 << top:
                bad = T.or_(T.lt(v.n, T.C(-(1 << 63))), T.ge(v.n, T.C(1 << top)))
                m.cond_raise(bad, "OverflowError")
        return Sc(dt, wrapx(m, v.n, dt))
    if dt in FLOATS:
        if src in FLOATS:
            return Sc(dt, T.f2f(v.n, FLOATS[dt]))
        return Sc(dt, T.i2f(v.n, FLOATS[dt]))
    if dt in BOOLS:
        return Sc(dt, truth_node(m, v))
    if dt == "int":
        if src in FLOATS:
            c = T.fval(v.n)
            if c is not None:
                return Sc("int", T.C(int(c)))
            return Sc("int", T.f2i(v.n, 64, True))
        return Sc("int", v.n)
    raise Unsupported("cast %s -> %s" % (src, dt))


def truth_node(m, v):
    if v.dt in FLOATS:
        return T.not_(T.fop("feq", v.n, T.fconst(0.0, fwidth(v.dt)), fwidth(v.dt)))
    return T.truthy(v.n)


def as_float(v, w):
    if v.dt in FLOATS:
        return T.f2f(v.n, w)
    return T.i2f(v.n, w)


def _exact(m, op, a, b, jit, ret):
    """exact integer operation on nodes"""
    if op == "+":
        return T.add(a, b)
    if op == "-":
        return T.sub(a, b)
    if op == "*":
        return T.mul(a, b)
    if op == "&":
        return T.and_(a, b)
    if op == "|":
        return T.or_(a, b)
    if op == "^":
        return T.xor(a, b)
    if op in ("//", "%"):
        lo, hi = m.rng(b)
        f = T.floordiv if op == "//" else T.mod
        if (lo is None or lo <= 0) and (hi is None or hi >= 0):
            z = T.eq(b, T.C(0))
            if jit or ret == "int":
                m.cond_raise(z, "ZeroDivisionError")
                if b.op == "c" and b.args[0] == 0:
                    return T.C(0)
                return f(a, b)
            if z is T.TRUE:
                return T.C(0)
            if m.known(z) is False:
                return f(a, b)
            return T.ite(z, T.C(0), f(a, b))
        return f(a, b)
    if op in ("<<", ">>"):
        lo, hi = m.rng(b)
        if ret == "int":
            if lo is None or lo < 0:
                m.cond_raise(T.lt(b, T.C(0)), "ValueError")
            return T.shl(a, b) if op == "<<" else T.shr(a, b)
        w = WIDTH[ret][0] if ret in WIDTH else 64
        if lo is None or hi is None or lo < 0 or hi >= w:
            if lo is not None and lo >= w or lo is not None and hi is not None and lo == hi and not 0 <= lo < w:
                if jit:
                    return T.ext("undef-shift" + op, (a, b), *dt_range(ret))
                return T.C(0) if op == "<<" or (a.lo is not None and a.lo >= 0) else T.ite(T.lt(a, T.C(0)), T.C(-1), T.C(0))
            ok = T.and_(T.ge(b, T.C(0)), T.lt(b, T.C(w)))
            if m.known(ok) is not True:
                inner = T.shl(a, b) if op == "<<" else T.shr(a, b)
                if jit:
                    return T.ite(ok, inner, T.ext("undef-shift" + op, (a, b), *dt_range(ret)))
                over = T.C(0) if op == "<<" or (a.lo is not None and a.lo >= 0) else T.ite(T.lt(a, T.C(0)), T.C(-1), T.C(0))
                return T.ite(ok, inner, over)
        return T.shl(a, b) if op == "<<" else T.shr(a, b)
    if op == "**":
        e = T.cval(b)
        if e is not None and 0 <= e <= 64:
            r = T.C(1)
            for _ in range(e):
                r = T.mul(r, a)
            return r
        if T.cval(a) == 2:
            return T.shl(T.C(1), b)
        raise Unsupported("power")
    raise Unsupported("operator " + op)


def compare(m, op, a, b, jit):
    base, swap, negate = CMP[op]
    if swap:
        a, b = b, a
    if a.dt in FLOATS or b.dt in FLOATS:
        w = 64
        if a.dt in FLOATS and b.dt in FLOATS:
            w = max(fwidth(a.dt), fwidth(b.dt))
        elif jit or a.dt not in PYNUM and b.dt not in PYNUM:
            fl, it = (a, b) if a.dt in FLOATS else (b, a)
            if fwidth(fl.dt) == 32 and it.dt in ("u8", "u16", "i8", "i16", "bool") and not jit:
                w = 32
        r = T.fop("flt" if base == "<" else "feq", as_float(a, w), as_float(b, w), w)
        if negate and base == "<":
            # not (a < b) is only b <= a without NaN; keep as negation
            r = T.not_(r)
        elif negate:
            r = T.not_(r)
        return r
    x, y = a.n, b.n
    mixed = {a.dt if a.dt not in TONB else TONB[a.dt], b.dt if b.dt not in TONB else TONB[b.dt]}
    if "u64" in mixed and any(d in mixed for d in ("i8", "i16", "i32", "i64")) and (
            jit or (a.dt not in PYNUM and b.dt not in PYNUM)):
        rs = [m.rng(x), m.rng(y)]
        if not all(lo is not None and hi is not None and lo >= -F53 and hi <= F53 for lo, hi in rs):
            r = T.fop("flt" if base == "<" else "feq", T.i2f(x, 64), T.i2f(y, 64), 64)
            return T.not_(r) if negate else r
    r = T.lt(x, y) if base == "<" else T.eq(x, y)
    r = m.fold(r)
    return T.not_(r) if negate else r


def binop(m, op, a, b, jit):
    if op in CMP:
        r = compare(m, op, a, b, jit)
        return Sc("bool" if jit or (a.dt not in PYNUM or b.dt not in PYNUM) else "pybool", r)
    if jit:
        da, db = TONB.get(a.dt, a.dt), TONB.get(b.dt, b.dt)
        if op == "**":
            if da in FLOATS or db in FLOATS:
                raise Unsupported("power")
            e = T.cval(b.n)
            if e is not None and e >= 0:
                ret = "i64" if da.startswith("i") else "u64"
                return Sc(ret, wrapx(m, _exact(m, op, a.n, b.n, jit, "int"), ret))
            raise Unsupported("power")
        ent = NB.get(da + op + db)
        if ent is None:
            m.raise_("TypingError", "no numba overload for %s %s %s" % (da, op, db))
        ret, (ca, cb) = ent
        if ret in FLOATS:
            return _float(m, op, cast(m, Sc(da, a.n), ret), cast(m, Sc(db, b.n), ret), ret, True)
        x, y = Sc(da, a.n), Sc(db, b.n)
        if ca in FLOATS or cb in FLOATS:
            raise Unsupported("float operand of integer operator")
        x, y = cast(m, x, ca), cast(m, y, cb)
        if ret == "bool":
            return Sc("bool", _exact(m, op, x.n, y.n, jit, ret))
        if op in ("&", "|", "^", "//", "%") or op == ">>":
            # lowered in the result type
            x, y = cast(m, x, ret), cast(m, y, ret)
        elif op == "<<":
            x = cast(m, x, ret)
        n = _exact(m, op, x.n, y.n, jit, ret)
        return Sc(ret, wrapx(m, n, ret))
    if op == "**":
        if a.dt in FLOATS or b.dt in FLOATS:
            raise Unsupported("power")
        ret = NP.get("%s*%s" % (a.dt, b.dt))
    else:
        ret = NP.get(a.dt + op + b.dt, "?")
    if ret is None or ret == "?":
        m.raise_("TypeError", "unsupported operand types for %s: %s and %s" % (op, a.dt, b.dt))
    if ret in FLOATS:
        return _float(m, op, cast(m, a, ret) if op != "/" or ret != "float" else Sc("float", as_float(a, 64)),
                      cast(m, b, ret) if op != "/" or ret != "float" else Sc("float", as_float(b, 64)), ret, False)
    if ret in ("int", "pybool", "bool"):
        if ret == "bool" and op in ("+",):
            return Sc("bool", T.or_(a.n, b.n))
        if ret == "bool" and op == "*":
            return Sc("bool", T.and_(a.n, b.n))
        return Sc(ret, _exact(m, op, a.n, b.n, jit, "int"))
    x, y = a, b
    if ret in WIDTH:
        if x.dt != "int":
            x = cast(m, x, ret)
        elif op not in ("+", "-", "*", "&", "|", "^", "<<"):
            x = cast(m, x, ret)
        if y.dt != "int":
            y = cast(m, y, ret)
    return Sc(ret, wrapx(m, _exact(m, op, x.n, y.n, jit, ret), ret))


FOP = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}


def _float(m, op, a, b, ret, jit):
    w = fwidth(ret)
    if op in FOP:
        if op == "/":
            z = T.fop("feq", b.n, T.fconst(0.0, w), w)
            if jit or ret == "float":
                m.cond_raise(z, "ZeroDivisionError")
        return Sc(ret, T.fop(FOP[op], a.n, b.n, w))
    va, vb = T.fval(a.n), T.fval(b.n)
    if va is not None and vb is not None and op in ("//", "%"):
        return Sc(ret, T.fconst(va // vb if op == "//" else va % vb, w))
    if op in ("//", "%"):
        return Sc(ret, T.ext("f" + op, (a.n, b.n), None, None, "f%d" % w))
    m.raise_("TypeError", "unsupported float operator " + op)


def unop(m, op, a, jit):
    if op == "not":
        return Sc("bool" if jit else "pybool", T.not_(truth_node(m, a)))
    if op == "+":
        return a if a.dt not in BOOLS else Sc("int" if not jit else "i64", a.n)
    name = "neg" if op == "-" else "inv"
    if jit:
        ent = NBU.get(name + TONB.get(a.dt, a.dt))
        if ent is None:
            m.raise_("TypingError", "bad operand for unary " + op)
        ret = ent[0]
        x = cast(m, Sc(TONB.get(a.dt, a.dt), a.n), ret) if ret not in BOOLS else a
    else:
        ret = NPU.get(name + a.dt, "?")
        if ret is None or ret == "?":
            m.raise_("TypeError", "bad operand for unary " + op)
        x = a
    if ret in FLOATS:
        return Sc(ret, T.fop("fsub", T.fconst(-0.0, fwidth(ret)), as_float(x, fwidth(ret)), fwidth(ret)))
    if ret == "bool":
        return Sc(ret, T.not_(x.n))
    if name == "neg":
        n = T.neg(x.n)
    elif ret in WIDTH and not WIDTH[ret][1]:
        n = T.sub(T.C((1 << WIDTH[ret][0]) - 1), x.n)
    else:
        n = T.inv(x.n)
    return Sc(ret, n if ret == "int" else wrapx(m, n, ret))


def unify(da, db):
    if da == db:
        return da
    return UNI.get("%s,%s" % (da, db))
