"""Hash-consed value graph.

Integer nodes denote *mathematical* integers; machine widths appear only as
explicit `wrap` nodes.  A boolean is an integer node with range [0, 1].
Nodes are built through the constructor functions below, which fold constants
and use interval information; nothing here depends on how the analysed source
was written."""

import struct

INF = None


class N:
    __slots__ = ("op", "args", "id", "lo", "hi", "sort", "phs", "x")

    def __repr__(self):
        return show(self, 4)


_table = {}
_nodes = []
_EMPTY = frozenset()


def mk(op, args, lo, hi, sort="i", extra_phs=None):
    key = (op,) + tuple((a.id if type(a) is N else ("k", a)) if not isinstance(a, tuple) else
                        ("t",) + tuple(b.id if type(b) is N else ("k", b) for b in a) for a in args)
    n = _table.get(key)
    if n is not None:
        return n
    n = N()
    n.op, n.args, n.lo, n.hi, n.sort = op, args, lo, hi, sort
    n.id = len(_nodes)
    phs = _EMPTY
    for a in args:
        if type(a) is N:
            if a.phs:
                phs = phs | a.phs
        elif isinstance(a, tuple):
            for b in a:
                if type(b) is N and b.phs:
                    phs = phs | b.phs
    n.phs = phs
    n.x = None
    _nodes.append(n)
    _table[key] = n
    return n


_consts = {}


def C(v):
    v = int(v)
    n = _consts.get(v)
    if n is None:
        n = mk("c", (v,), v, v)
        _consts[v] = n
    return n


def cval(n):
    return n.args[0] if n.op == "c" else None


TRUE = C(1)
FALSE = C(0)


def V(name, lo, hi):
    """free variable with inclusive range"""
    return mk("var", (name, lo, hi), lo, hi)


def VF(name, width):
    return mk("var", (name, "f", width), None, None, "f%d" % width)


_phc = [0]


def PH(lo, hi, sort="i"):
    """loop-carried placeholder"""
    _phc[0] += 1
    n = mk("ph", (_phc[0],), lo, hi, sort)
    n.phs = frozenset((_phc[0],))
    return n


def isc(n):
    return n.op == "c"


def _rng_add(a, b):
    return (None if a.lo is None or b.lo is None else a.lo + b.lo,
            None if a.hi is None or b.hi is None else a.hi + b.hi)


def add(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.args[0] + b.args[0])
    if a.op == "c" and a.args[0] == 0:
        return b
    if b.op == "c" and b.args[0] == 0:
        return a
    if a.op == "c":
        a, b = b, a
    if b.op == "c" and a.op == "add" and a.args[1].op == "c":
        return add(a.args[0], C(a.args[1].args[0] + b.args[0]))
    if b.op != "c" and a.id > b.id:
        a, b = b, a
    lo, hi = _rng_add(a, b)
    return mk("add", (a, b), lo, hi)


def neg(a):
    return mul(a, C(-1))


def sub(a, b):
    if b.op == "c":
        return add(a, C(-b.args[0]))
    if a is b:
        return C(0)
    if a.op == "add" or b.op == "add":
        r = _cancel(a, b)
        if r is not None:
            return r
    return add(a, neg(b))


def _summands(n, sign, out):
    if len(out) > 6:
        return
    if n.op == "add":
        _summands(n.args[0], sign, out)
        _summands(n.args[1], sign, out)
    elif n.op == "c":
        out[None] = out.get(None, 0) + sign * n.args[0]
    elif n.op == "mul" and n.args[1].op == "c":
        out[n.args[0]] = out.get(n.args[0], 0) + sign * n.args[1].args[0]
    else:
        out[n] = out.get(n, 0) + sign


def _shared(c, a, b):
    """c ? s + x : s + y is s + (c ? x : y)"""
    pa, pb = {}, {}
    _summands(a, 1, pa)
    _summands(b, 1, pb)
    if len(pa) > 6 or len(pb) > 6:
        return None
    common = [k for k, v in pa.items() if k is not None and v and pb.get(k) == v]
    if not common:
        return None
    s, x, y = C(0), C(0), C(0)
    for k, v in pa.items():
        t = C(v) if k is None else mul(k, C(v))
        if k in common:
            s = add(s, t)
        else:
            x = add(x, t)
    for k, v in pb.items():
        if k not in common:
            y = add(y, C(v) if k is None else mul(k, C(v)))
    return add(s, ite(c, x, y))


def _cancel(a, b):
    """a - b where a summand occurs in both; None when nothing cancels"""
    out, other = {}, {}
    _summands(a, 1, out)
    _summands(b, -1, other)
    if len(out) > 6 or len(other) > 6 or not any(k is not None and out.get(k, 0) * v < 0 for k, v in other.items()):
        return None
    for k, v in other.items():
        out[k] = out.get(k, 0) + v
    r = C(out.pop(None, 0))
    for k, v in out.items():
        if v:
            r = add(r, mul(k, C(v)))
    return r


def _choice(a, depth=24):
    """a choice between constants"""
    while a.op == "ite" and depth:
        if a.args[1].op == "c":
            a = a.args[2]
        elif a.args[2].op == "c":
            a = a.args[1]
        else:
            return False
        depth -= 1
    return a.op == "c"


def _scaled(a, k):
    if a.op == "c":
        return C(a.args[0] * k)
    return ite(a.args[0], _scaled(a.args[1], k), _scaled(a.args[2], k))


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.args[0] * b.args[0])
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.args[0] == 0:
            return C(0)
        if b.args[0] == 1:
            return a
        if a.op == "mul" and a.args[1].op == "c":
            return mul(a.args[0], C(a.args[1].args[0] * b.args[0]))
        if a.op == "ite" and "ite" in (a.args[1].op, a.args[2].op) and _choice(a):
            return _scaled(a, b.args[0])
    elif a.id > b.id:
        a, b = b, a
    if None in (a.lo, a.hi, b.lo, b.hi):
        lo = hi = None
        if a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
            lo = a.lo * b.lo
    else:
        p = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        lo, hi = min(p), max(p)
    return mk("mul", (a, b), lo, hi)


def in_range(a, lo, hi):
    return a.lo is not None and a.hi is not None and a.lo >= lo and a.hi <= hi


def wrap_const(v, w, signed):
    v &= (1 << w) - 1
    if signed and v >> (w - 1):
        v -= 1 << w
    return v


def wrap(a, w, signed=False):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if a.op == "c":
        return C(wrap_const(a.args[0], w, signed))
    if in_range(a, lo, hi):
        return a
    if a.op == "wrap" and a.args[1] >= w:
        return wrap(a.args[0], w, signed)
    if a.op == "ite" and a.args[1].op == "c" and a.args[2].op == "c":
        return ite(a.args[0], wrap(a.args[1], w, signed), wrap(a.args[2], w, signed))
    if a.op == "add":
        for x, y in (a.args, a.args[::-1]):
            if y.op in ("c", "mul") and (y.args[0] if y.op == "c" else y.args[1].args[0] if y.args[1].op == "c" else 1) % (1 << w) == 0:
                return wrap(x, w, signed)
    # narrow range crossing no boundary (e.g. [2**32, 2**32+5])
    if a.lo is not None and a.hi is not None:
        base = (a.lo - lo) >> w
        if base == (a.hi - lo) >> w:
            return add(a, C(-(base << w)))
    return mk("wrap", (a, w, bool(signed)), lo, hi)


def _bl(v):
    return v.bit_length()


def _bitrange(a, b):
    """width enclosing both, and whether both nonneg"""
    if None in (a.lo, a.hi, b.lo, b.hi):
        return None, False
    w = max(_bl(a.lo if a.lo >= 0 else ~a.lo), _bl(a.hi if a.hi >= 0 else ~a.hi),
            _bl(b.lo if b.lo >= 0 else ~b.lo), _bl(b.hi if b.hi >= 0 else ~b.hi))
    return w, a.lo >= 0 and b.lo >= 0


def _ordered(a, b):
    return (a, b) if a.id <= b.id else (b, a)


def and_(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.args[0] & b.args[0])
    if a is b:
        return a
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        m = b.args[0]
        if m == 0:
            return b
        if m == -1:
            return a
        if m > 0 and (m & (m + 1)) == 0:
            return wrap(a, _bl(m), False)
    if a.hi is not None and b.hi is not None and a.lo is not None and b.lo is not None:
        if a.lo >= 0 and b.lo >= 0:
            if a.hi == 1 and b.hi == 1:
                # booleans
                if _complement(a, b):
                    return C(0)
            lo, hi = 0, min(a.hi, b.hi)
        elif a.lo >= 0:
            lo, hi = 0, a.hi
        elif b.lo >= 0:
            lo, hi = 0, b.hi
        else:
            w, _ = _bitrange(a, b)
            lo, hi = -(1 << w), (1 << w) - 1
    else:
        lo = hi = None
        for x in (a, b):
            if x.lo is not None and x.lo >= 0 and x.hi is not None:
                lo, hi = 0, x.hi
    return mk("and", _ordered(a, b), lo, hi)


def _complement(a, b):
    return not_(a) is b if (a.lo, a.hi) == (0, 1) else False


def or_(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.args[0] | b.args[0])
    if a is b:
        return a
    if a.op == "c":
        a, b = b, a
    if b.op == "c" and b.args[0] == 0:
        return a
    if b.op == "c" and b.args[0] == 1 and (a.lo, a.hi) == (0, 1):
        return b
    w, nn = _bitrange(a, b)
    lo, hi = (None, None) if w is None else ((max(a.lo, b.lo), (1 << w) - 1) if nn else (-(1 << w), (1 << w) - 1))
    if nn and a.hi == 1 and b.hi == 1 and a.lo == 0 and b.lo == 0 and _complement(a, b):
        return C(1)
    return mk("or", _ordered(a, b), lo, hi)


def xor(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.args[0] ^ b.args[0])
    if a is b:
        return C(0)
    if a.op == "c":
        a, b = b, a
    if b.op == "c" and b.args[0] == 0:
        return a
    if b.op == "c" and a.op == "xor" and a.args[1].op == "c":
        return xor(a.args[0], C(a.args[1].args[0] ^ b.args[0]))
    w, nn = _bitrange(a, b)
    lo, hi = (None, None) if w is None else (0 if nn else -(1 << w), (1 << w) - 1)
    if b.op != "c":
        a, b = _ordered(a, b)
    return mk("xor", (a, b), lo, hi)


def not_(c):
    """boolean negation"""
    if c.op == "c":
        return C(1 - c.args[0])
    return xor(c, C(1))


def inv(a):
    if a.op == "c":
        return C(~a.args[0])
    return sub(C(-1), a)


def shl(a, b):
    if b.op == "c":
        if b.args[0] < 0:
            return ext("shl", (a, b), a.lo, a.hi)
        return mul(a, C(1 << b.args[0]))
    if a.op == "c" and a.args[0] == 0:
        return a
    lo = hi = None
    if b.lo is not None and b.lo >= 0 and b.hi is not None and b.hi <= 256 and a.lo is not None and a.hi is not None:
        lo = a.lo << (b.hi if a.lo < 0 else b.lo)
        hi = a.hi << (b.hi if a.hi > 0 else b.lo)
    return mk("shl", (a, b), lo, hi)


def shr(a, b):
    if b.op == "c":
        k = b.args[0]
        if k < 0:
            return ext("shr", (a, b), a.lo, a.hi)
        if a.op == "c":
            return C(a.args[0] >> k)
        if k == 0:
            return a
        if a.op == "shr" and a.args[1].op == "c":
            return shr(a.args[0], C(a.args[1].args[0] + k))
        lo = None if a.lo is None else a.lo >> k
        hi = None if a.hi is None else a.hi >> k
        if lo is not None and lo == hi:
            return C(lo)
        if a.op == "mul" and a.args[1].op == "c" and a.args[1].args[0] % (1 << k) == 0:
            return mul(a.args[0], C(a.args[1].args[0] >> k))
        return mk("shr", (a, b), lo, hi)
    if a.op == "c" and a.args[0] == 0:
        return a
    lo = hi = None
    if b.lo is not None and b.lo >= 0 and a.lo is not None and a.hi is not None:
        lo, hi = min(a.lo, 0), max(a.hi, 0)
    return mk("shr", (a, b), lo, hi)


def floordiv(a, b):
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return C(a.args[0] // b.args[0])
    if b.op == "c":
        k = b.args[0]
        if k == 1:
            return a
        if k > 0 and (k & (k - 1)) == 0:
            return shr(a, C(_bl(k) - 1))
        if k > 0 and a.lo is not None and a.hi is not None and a.lo // k == a.hi // k:
            return C(a.lo // k)
    lo = hi = None
    if a.lo is not None and a.hi is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
        lo, hi = 0, a.hi if not b.lo else a.hi // b.lo
        if b.hi is not None and b.hi > 0:
            lo = a.lo // b.hi
    elif a.lo is not None and a.hi is not None:
        m = max(abs(a.lo), abs(a.hi)) + 1
        lo, hi = -m, m
    return mk("div", (a, b), lo, hi)


def mod(a, b):
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return C(a.args[0] % b.args[0])
    if b.op == "c":
        k = b.args[0]
        if k > 0 and (k & (k - 1)) == 0:
            return wrap(a, _bl(k) - 1, False)
    if a.lo is not None and a.hi is not None and b.lo is not None and a.lo >= 0 and a.hi < b.lo:
        return a
    if b.op == "c" and b.args[0] > 0 and a.op in ("add", "mul"):
        # whole multiples of the divisor leave the remainder alone
        k, out = b.args[0], {}
        _summands(a, 1, out)
        if len(out) <= 6 and any(x is not None and v and v % k == 0 for x, v in out.items()):
            r = C(out.pop(None, 0) % k)
            for x, v in out.items():
                if v % k:
                    r = add(r, mul(x, C(v)))
            return mod(r, b)
    lo = hi = None
    if b.lo is not None and b.lo >= 0 and b.hi is not None:
        lo, hi = 0, max(b.hi - 1, 0)
        if a.lo is not None and a.lo >= 0 and a.hi is not None:
            hi = min(hi, a.hi)
    elif a.lo is not None and b.lo is not None and b.hi is not None:
        m = max(abs(b.lo), abs(b.hi))
        lo, hi = -m, m
    return mk("mod", (a, b), lo, hi)


def _below(a, b):
    """range lemmas relating a reduced value to its bound: a < b for every input"""
    if b.lo is None or b.lo < 1:
        return False
    if a.op == "wrap":
        x = a.args[0]
        if x.lo is not None and x.lo >= 0 and not a.args[2] and _below(x, b):
            return True
        return False
    if a.op == "mod" and a.args[1] is b:
        return True
    if a.op == "shr" and a.args[1].op == "c" and a.args[0].op == "mul":
        k = a.args[1].args[0]
        x, y = a.args[0].args
        for p, q in ((x, y), (y, x)):
            if q is b and p.lo is not None and p.lo >= 0 and p.hi is not None and p.hi < 1 << k:
                return True      # p*b < 2^k*b
    if a.op == "div":
        p, q = a.args
        if q.op == "add" and q.args[1].op == "c" and q.args[1].args[0] >= 1:
            d = q.args[0]
            if d.op == "div" and d.args[1] is b and d.args[0].op == "c":
                if p.lo is not None and p.lo >= 0 and p.hi is not None and p.hi <= d.args[0].args[0]:
                    return True  # c//b + 1 > c/b, so p//(c//b + 1) < b
    return False


def lt(a, b):
    if a.op == "c" and b.op == "c":
        return C(1 if a.args[0] < b.args[0] else 0)
    if a is b:
        return FALSE
    if a.hi is not None and b.lo is not None and a.hi < b.lo:
        return TRUE
    if a.lo is not None and b.hi is not None and a.lo >= b.hi:
        return FALSE
    if _below(a, b):
        return TRUE
    # x < 1 with x >= 0  ->  x == 0
    if b.op == "c" and a.lo is not None and b.args[0] == a.lo + 1:
        return eq(a, C(a.lo))
    if a.op == "c" and b.lo is not None and a.args[0] == b.lo:
        return not_(eq(b, C(b.lo)))
    if b.op == "c" and a.hi is not None and b.args[0] == a.hi:
        return not_(eq(a, b))
    if a.op == "c" and b.hi is not None and a.args[0] == b.hi - 1:
        return eq(b, C(b.hi))
    return mk("lt", (a, b), 0, 1)


def ge(a, b):
    return not_(lt(a, b))


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return FALSE
    if a.op == "c":
        a, b = b, a
    if None not in (a.lo, a.hi, b.lo, b.hi) and (a.hi < b.lo or b.hi < a.lo):
        return FALSE
    if b.op == "c" and (a.lo, a.hi) == (0, 1):
        return a if b.args[0] == 1 else not_(a)
    if b.op == "c" and a.op == "add" and a.args[1].op == "c":
        return eq(a.args[0], C(b.args[0] - a.args[1].args[0]))
    if b.op == "c" and a.op == "ite":
        c, x, y = a.args
        if x.op == "c" or y.op == "c":
            ex, ey = eq(x, b), eq(y, b)
            if ex.op == "c" or ey.op == "c":
                return ite(c, ex, ey)
    if b.op != "c":
        a, b = _ordered(a, b)
    return mk("eq", (a, b), 0, 1)


def ne(a, b):
    return not_(eq(a, b))


def truthy(a):
    if (a.lo, a.hi) == (0, 1) or a.op == "c" and a.args[0] in (0, 1):
        return a
    return ne(a, C(0))


def ite(c, a, b):
    if c.op == "c":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "xor" and c.args[1].op == "c" and c.args[1].args[0] == 1:
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        if a.args[0] == 1 and b.args[0] == 0:
            return c
        if a.args[0] == 0 and b.args[0] == 1:
            return not_(c)
    bool_a, bool_b = (a.lo is not None and a.lo >= 0 and a.hi == 1 or a.op == "c" and a.args[0] == 0), \
        (b.lo is not None and b.lo >= 0 and b.hi == 1 or b.op == "c" and b.args[0] == 0)
    if bool_a and bool_b and a.sort == "i" and b.sort == "i":
        if b.op == "c":
            return or_(not_(c), a) if b.args[0] else and_(c, a)
        if a.op == "c":
            return or_(c, b) if a.args[0] else and_(not_(c), b)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
    # eq(x, k): the else-branch at x = k
    if c.op == "eq" and c.args[1].op == "c" and a.op == "c":
        # ite(x==k, k', f(x)) with f(k)=k' -> f(x), one substitution level
        if b is c.args[0] and a is c.args[1]:
            return b
        if b.op in ("shr", "wrap", "add", "mul", "and") and b.args[0] is c.args[0]:
            fb = subst_top(b, c.args[1])
            if fb is a:
                return b
    if a.sort == "f64" and b.sort == "f64":
        x, y = _exact_int(a), _exact_int(b)
        if x is not None and y is not None:
            return i2f(ite(c, x, y), 64)
    if (a.op == "add" or b.op == "add") and a.op != "c" and b.op != "c" and a.sort == "i" and b.sort == "i":
        r = _shared(c, a, b)
        if r is not None:
            return r
    blo, bhi = b.lo, b.hi
    if c.op == "eq" and c.args[1].op == "c" and b is c.args[0]:
        # x != k on this side
        k = c.args[1].args[0]
        if blo == k:
            blo += 1
        if bhi == k:
            bhi -= 1
    lo = None if a.lo is None or blo is None else min(a.lo, blo)
    hi = None if a.hi is None or bhi is None else max(a.hi, bhi)
    if lo is not None and lo == hi:
        return C(lo)
    return mk("ite", (c, a, b), lo, hi, a.sort)


def subst_top(n, v):
    op = n.op
    if op == "shr":
        return shr(v, n.args[1])
    if op == "wrap":
        return wrap(v, n.args[1], n.args[2])
    if op == "add":
        return add(v, n.args[1])
    if op == "mul":
        return mul(v, n.args[1])
    if op == "and":
        return and_(v, n.args[1])
    return None


def sel(idx, elems):
    """elems[idx]; idx is known to be in range at every use that matters"""
    elems = tuple(elems)
    if idx.op == "c":
        return elems[idx.args[0]] if 0 <= idx.args[0] < len(elems) else elems[0]
    lo = max(idx.lo or 0, 0)
    hi = len(elems) - 1 if idx.hi is None else min(idx.hi, len(elems) - 1)
    if lo > 0 or hi < len(elems) - 1:
        if lo > hi:
            return elems[0]
        if lo > 0:
            return sel(add(idx, C(-lo)), elems[lo:hi + 1])
        elems = elems[:hi + 1]
    first = elems[0]
    if all(e is first for e in elems):
        return first
    if all(e.op == "c" and e.args[0] == first.args[0] + i for i, e in enumerate(elems)) if first.op == "c" else False:
        return add(idx, first)
    if len(elems) == 2:
        return ite(idx if (idx.lo, idx.hi) == (0, 1) else eq(idx, C(1)), elems[1], elems[0])
    if idx.op == "ite" and (idx.args[1].op == "c" or idx.args[2].op == "c"):
        return ite(idx.args[0], sel(idx.args[1], elems), sel(idx.args[2], elems))
    rl = [e.lo for e in elems]
    rh = [e.hi for e in elems]
    rlo = None if None in rl else min(rl)
    rhi = None if None in rh else max(rh)
    return mk("sel", (idx, elems), rlo, rhi, first.sort)


def ext(name, args, lo=None, hi=None, sort="i"):
    """application of a named pure function (interpreted by the evaluator only)"""
    return mk("ext", (name, tuple(args)), lo, hi, sort)


def fconst(v, width):
    if width == 32:
        v = f32(v)
    return mk("fc", (struct.pack("<d", v), width), None, None, "f%d" % width)


def fval(n):
    return struct.unpack("<d", n.args[0])[0] if n.op == "fc" else None


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return float("inf") if v > 0 else float("-inf")


def i2f(a, width):
    if a.op == "c":
        return fconst(_tofloat(a.args[0], width), width)
    return mk("i2f", (a, width), None, None, "f%d" % width)


def _tofloat(v, width):
    if width == 64:
        return float(v)
    # correctly rounded single conversion of an integer
    s = -1 if v < 0 else 1
    m = abs(v)
    bl = m.bit_length()
    if bl > 24:
        sh = bl - 24
        r = m & ((1 << sh) - 1)
        m >>= sh
        half = 1 << (sh - 1)
        if r > half or (r == half and m & 1):
            m += 1
        m <<= sh
    return float(s * m)


def _exact_int(a):
    """the integer a double holds exactly"""
    v = fval(a)
    if v is not None:
        return C(int(v)) if abs(v) <= 1 << 53 and v == int(v) and str(v) != "-0.0" else None
    if a.op == "i2f" and a.args[1] == 64:
        x = a.args[0]
        if x.lo is not None and x.lo >= -(1 << 53) and x.hi <= 1 << 53:
            return x
    return None


def fop(op, a, b, width):
    va, vb = fval(a), fval(b)
    if va is not None and vb is not None:
        r = _fop(op, va, vb)
        if isinstance(r, bool):
            return C(r)
        return fconst(r, width)
    if op in ("flt", "feq"):
        if width == 64:
            x, y = _exact_int(a), _exact_int(b)
            if x is not None and y is not None:
                return lt(x, y) if op == "flt" else eq(x, y)
            x = _single(a)
            y = x and _single(b)
            if y:
                a, b, width = x, y, 32
        return mk(op, (a, b, width), 0, 1)
    if op in ("fadd", "fsub", "fmul") and width == 64:
        x, y = _exact_int(a), _exact_int(b)
        if x is not None and y is not None and (op != "fmul" or x.lo >= 0 and y.lo >= 0):
            r = {"fadd": add, "fsub": sub, "fmul": mul}[op](x, y)
            if in_range(r, -(1 << 53), 1 << 53):
                return i2f(r, 64)
    if op in ("fadd", "fmul"):
        a, b = _ordered(a, b)
    return mk(op, (a, b, width), None, None, "f%d" % width)


def _fop(op, a, b):
    try:
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if op == "fdiv":
            return a / b
        if op == "flt":
            return a < b
        if op == "feq":
            return a == b
    except (ZeroDivisionError, OverflowError):
        return float("nan")
    raise KeyError(op)


def _single(a, depth=12):
    """the single-precision term whose exact widening the double a is, or None"""
    if a.op == "fc":
        v = fval(a)
        return fconst(v, 32) if f32(v) == v else None
    if a.op == "f2f" and a.sort == "f64" and a.args[0].sort == "f32":
        return a.args[0]
    if a.op == "ite" and a.sort == "f64" and depth:
        x = _single(a.args[1], depth - 1)
        y = x and _single(a.args[2], depth - 1)
        return y and ite(a.args[0], x, y)
    return None


def f2f(a, width):
    v = fval(a)
    if v is not None:
        return fconst(v, width)
    if a.sort == "f%d" % width:
        return a
    if width == 32:
        x = _single(a)
        if x is not None:
            return x
    return mk("f2f", (a, width), None, None, "f%d" % width)


def f2i(a, w, signed):
    v = fval(a)
    if v is not None:
        return C(wrap_const(int(v), w, signed)) if v == v and abs(v) != float("inf") else C(0)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    x = _exact_int(a)
    if x is not None and in_range(x, lo, hi):
        return x
    return mk("f2i", (a, w, signed), lo, hi)


# ---------------------------------------------------------------- loops
class LoopInfo:
    """while-loop: phs placeholders, inits, cond (over phs), body (over phs)
    or counted loop (trip is a node): cond is None"""
    __slots__ = ("phs", "inits", "cond", "body", "trip", "uid", "where")


_loops = []


def _narrow(phs, inits, cond, body):
    """a loop-carried value is its initial value or the result of an iteration: tighten declared ranges"""
    m = {}
    out = []
    for p, i, b in zip(phs, inits, body):
        if p.sort == "i" and None not in (i.lo, b.lo, i.hi, b.hi, p.lo, p.hi):
            lo, hi = max(min(i.lo, b.lo), p.lo), min(max(i.hi, b.hi), p.hi)
            if lo <= hi and (lo, hi) != (p.lo, p.hi):
                q = PH(lo, hi)
                m[p.id] = q
                p = q
        out.append(p)
    if not m:
        return phs, cond, body
    cache = dict(m)
    body = [subst(b, m, cache) for b in body]
    if cond is not None:
        cond = subst(cond, m, cache)
    return out, cond, body


def loop(phs, inits, cond, body, trip=None, where=None):
    phs, cond, body = _narrow(list(phs), list(inits), cond, list(body))
    li = LoopInfo()
    li.phs, li.inits, li.cond, li.body, li.trip = tuple(phs), tuple(inits), cond, tuple(body), trip
    li.where = where
    li.uid = len(_loops)
    _loops.append(li)
    outs = []
    own = frozenset(p.args[0] for p in phs)
    free = _EMPTY
    for n in list(inits) + list(body) + ([cond] if cond is not None else []) + ([trip] if trip is not None else []):
        free = free | n.phs
    free = free - own
    for j, p in enumerate(phs):
        o = mk("loop", (li.uid, j), p.lo, p.hi, p.sort)
        o.phs = free
        outs.append(o)
    return outs


def loopinfo(n):
    return _loops[n.args[0]]


# ---------------------------------------------------------------- traversal
def children(n):
    if n.op == "loop":
        li = loopinfo(n)
        return list(li.inits) + list(li.body) + ([li.cond] if li.cond is not None else []) + (
            [li.trip] if li.trip is not None else [])
    out = []
    for a in n.args:
        if type(a) is N:
            out.append(a)
        elif isinstance(a, tuple):
            out.extend(b for b in a if type(b) is N)
    return out


def reachable(roots):
    seen = {}
    st = list(roots)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        st.extend(children(n))
    return seen


def free_vars(roots):
    return {n.args[0]: n for n in reachable(roots).values() if n.op == "var"}


REB = {
    "add": add, "mul": mul, "and": and_, "or": or_, "xor": xor, "shl": shl, "shr": shr,
    "div": floordiv, "mod": mod, "lt": lt, "eq": eq, "ite": ite, "sel": sel,
}


def rebuild(n, f):
    """rebuild n with children mapped through f"""
    op = n.op
    if op in REB:
        return REB[op](*[f(a) if type(a) is N else tuple(f(b) for b in a) for a in n.args])
    if op == "wrap":
        return wrap(f(n.args[0]), n.args[1], n.args[2])
    if op == "ext":
        return ext(n.args[0], tuple(f(a) for a in n.args[1]), n.lo, n.hi, n.sort)
    if op == "i2f":
        return i2f(f(n.args[0]), n.args[1])
    if op == "f2f":
        return f2f(f(n.args[0]), n.args[1])
    if op == "f2i":
        return f2i(f(n.args[0]), n.args[1], n.args[2])
    if op in ("fadd", "fsub", "fmul", "fdiv", "flt", "feq"):
        return fop(op, f(n.args[0]), f(n.args[1]), n.args[2])
    if op == "loop":
        li = loopinfo(n)
        own = frozenset(p.args[0] for p in li.phs)
        key = None
        inits = tuple(f(a) for a in li.inits)
        body = tuple(f(a) for a in li.body)
        cond = None if li.cond is None else f(li.cond)
        trip = None if li.trip is None else f(li.trip)
        if inits == li.inits and body == li.body and cond is li.cond and trip is li.trip:
            return n
        return loop_cached(li, inits, cond, body, trip)[n.args[1]]
    return n


_loop_cache = {}


def loop_cached(li, inits, cond, body, trip):
    key = (li.phs, inits, cond, body, trip)
    r = _loop_cache.get(key)
    if r is None:
        r = loop(li.phs, inits, cond, body, trip, li.where)
        _loop_cache[key] = r
    return r


def subst(root, mapping, cache=None):
    """mapping: node id -> node"""
    if cache is None:
        cache = dict(mapping)
    else:
        cache.update(mapping)
    order = []
    st = [(root, False)]
    seen = set()
    while st:
        n, done = st.pop()
        if n.id in cache:
            continue
        if done:
            cache[n.id] = rebuild(n, lambda a: cache[a.id])
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        ch = children(n)
        if not ch:
            cache[n.id] = n
            continue
        st.append((n, True))
        for c in ch:
            if c.id not in cache:
                st.append((c, False))
    return cache[root.id]


# ---------------------------------------------------------------- display
def show(n, depth=5):
    if type(n) is not N:
        return repr(n)
    if n.op == "c":
        v = n.args[0]
        return hex(v) if abs(v) > 4096 else str(v)
    if n.op == "var":
        return n.args[0]
    if n.op == "fc":
        return repr(fval(n))
    if n.op == "ph":
        return "@%d" % n.args[0]
    if depth <= 0:
        return "…"
    sym = {"add": "+", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "shr": ">>", "div": "//",
           "mod": "%", "lt": "<", "eq": "==", "fadd": "+.", "fmul": "*.", "fsub": "-.", "fdiv": "/."}
    if n.op in sym:
        return "(%s %s %s)" % (show(n.args[0], depth - 1), sym[n.op], show(n.args[1], depth - 1))
    if n.op == "wrap":
        return "%s%d(%s)" % ("i" if n.args[2] else "u", n.args[1], show(n.args[0], depth - 1))
    if n.op == "ite":
        return "(%s ? %s : %s)" % tuple(show(a, depth - 1) for a in n.args)
    if n.op == "sel":
        return "[%s, …×%d][%s]" % (show(n.args[1][0], depth - 2), len(n.args[1]), show(n.args[0], depth - 1))
    if n.op == "ext":
        return "%s(%s)" % (n.args[0], ", ".join(show(a, depth - 1) for a in n.args[1]))
    if n.op == "loop":
        li = loopinfo(n)
        return "loop#%d.%d" % (li.uid, n.args[1])
    return "%s(%s)" % (n.op, ", ".join(show(a, depth - 1) for a in n.args))
