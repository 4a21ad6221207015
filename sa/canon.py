"""Canonical forms for value-graph nodes (global value numbering).

Every integer node is mapped to an interned vector of GF(2) polynomials (one
per bit, plus the sign-extension bit).  Bitwise operators act on the bits;
ring arithmetic is kept as integer polynomials (modulo 2^w under a wrap) whose
result bits become atoms; loops are canonicalised by partition refinement.
Two nodes with the same canonical id denote the same function of the inputs."""

from . import term as T

ONE = (1, frozenset())
ZERO = (0, frozenset())
NL_LIMIT = 384
MUX_LIMIT = 192
COND_LIMIT = 24

_bitidx = {}
_bitkeys = [None]
_eqgroup = {}


def atom_bit(key):
    i = _bitidx.get(key)
    if i is None:
        i = len(_bitkeys)
        _bitidx[key] = i
        _bitkeys.append(key)
    return (1 << i, frozenset())


def axor(a, b):
    if not b[1]:
        return (a[0] ^ b[0], a[1])
    if not a[1]:
        return (a[0] ^ b[0], b[1])
    return (a[0] ^ b[0], a[1] ^ b[1])


def anot(a):
    return (a[0] ^ 1, a[1])


def monos(a):
    """monomials as sorted tuples of atom indices; () is the constant 1"""
    out = []
    lin = a[0]
    if lin & 1:
        out.append(())
        lin ^= 1
    while lin:
        low = lin & -lin
        out.append((low.bit_length() - 1,))
        lin ^= low
    out.extend(a[1])
    return out


def nmon(a):
    return bin(a[0]).count("1") + len(a[1])


def _exclusive(m):
    seen = None
    for i in m:
        base = _eqgroup.get(i)
        if base is not None:
            if seen is None:
                seen = [base]
            elif base in seen:
                return True
            else:
                seen.append(base)
    return False


def aand(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    if a == ZERO or b == ZERO:
        return ZERO
    if a == b:
        return a
    if a[0] ^ 1 == b[0] and a[1] == b[1]:
        return ZERO
    if nmon(a) * nmon(b) > 20000:
        a, b = cut(a), cut(b)
        if a == b:
            return a
        if a == anot(b):
            return ZERO
    ma, mb = monos(a), monos(b)
    if len(ma) > len(mb):
        ma, mb = mb, ma
    acc = set()
    for x in ma:
        for y in mb:
            z = (tuple(sorted({*x, *y})) if y else x) if x else y
            if z in acc:
                acc.remove(z)
            else:
                acc.add(z)
    lin = 0
    nl = []
    for z in acc:
        k = len(z)
        if k == 0:
            lin ^= 1
        elif k == 1:
            lin ^= 1 << z[0]
        else:
            if _exclusive(z):
                continue
            nl.append(z)
    r = (lin, frozenset(nl))
    if len(r[1]) > NL_LIMIT:
        return cut(r)
    return r


def cut(a):
    if nmon(a) - (a[0] & 1) <= 1:
        return a
    c = a[0] & 1
    base = (a[0] & ~1, a[1])
    r = atom_bit(("CUT", base))
    return anot(r) if c else r


def aor(a, b):
    return axor(axor(a, b), aand(a, b))


def amux(c, a, b):
    if a == b:
        return a
    if c == ONE:
        return a
    if c == ZERO:
        return b
    d = axor(a, b)
    if d == ONE:
        return axor(c, b)
    if nmon(c) > COND_LIMIT:
        c = cut(c)
    r = axor(aand(c, d), b)
    return cut(r) if len(r[1]) > MUX_LIMIT else r


class BV:
    __slots__ = ("bits", "sign", "id", "lad", "width", "poly", "key", "pref")

    def bit(self, i):
        return self.bits[i] if i < len(self.bits) else self.sign

    def __repr__(self):
        return "BV#%d" % self.id


_bvtab = {}
_bvs = []


def _cls(i):
    return i + 1


def intern(bits, sign=ZERO):
    bits = list(bits)
    while bits and bits[-1] == sign:
        bits.pop()
    trie = _trie
    pref = [0]
    p = 0
    for a in bits:
        k = (p, a)
        p = trie.get(k)
        if p is None:
            p = len(trie) + 1
            trie[k] = p
        pref.append(p)
    key = (p, sign)
    b = _bvtab.get(key)
    if b is None:
        b = _new(key, tuple(bits), sign, pref)
    return b


def _new(key, bits, sign, pref):
    b = BV()
    b.bits = bits
    b.sign = sign
    b.pref = pref
    b.width = len(bits)
    b.id = len(_bvs)
    b.lad = None
    b.poly = None
    b.key = None
    _bvs.append(b)
    _bvtab[key] = b
    _detect(b)
    return b


def low(b, c):
    """the value of the low c bits of b"""
    if b.width < c:
        return intern([b.bit(k) for k in range(c)])
    bits = b.bits
    while c and bits[c - 1] == ZERO:
        c -= 1
    key = (b.pref[c], ZERO)
    r = _bvtab.get(key)
    if r is None:
        r = _new(key, bits[:c], ZERO, b.pref[:c + 1])
    return r


_trie = {}


def opaque(key):
    """canonical value without bit structure (unbounded ints, floats, objects)"""
    k = ("OP", key)
    b = _bvtab.get(k)
    if b is None:
        b = BV()
        b.bits = None
        b.sign = None
        b.width = None
        b.id = len(_bvs)
        b.lad = None
        b.poly = None
        b.key = key
        _bvs.append(b)
        _bvtab[k] = b
    return b


def _single(a):
    """bit index if the ANF is one bare atom"""
    if a[1] or a[0] & 1 or a[0] == 0 or a[0] & (a[0] - 1):
        return None
    return a[0].bit_length() - 1


def _detect(b):
    """recognise bits 0..w-1 of one polynomial"""
    if b.sign != ZERO or not b.bits:
        return
    w = len(b.bits)
    t = _single((b.bits[-1][0] & ~1, b.bits[-1][1]))
    if t is None:
        return
    k = _bitkeys[t]
    if k[0] != "P" or k[2] != w - 1:
        return
    for i in (0, w // 2, w - 2):
        x = _single((b.bits[i][0] & ~1, b.bits[i][1]))
        if x is None:
            if b.bits[i] not in (ZERO, ONE):
                return
        elif _bitkeys[x][0] != "P":
            return
    q = dict(k[1])
    if b.bits[-1][0] & 1:
        q = pcompl(q, _cls(w - 1))
    if list(b.bits) != pbits(q, w):
        return
    b.lad = (dict(q), w)


def pcompl(p, w):
    """-1 - p modulo 2^w"""
    r = {k: -c for k, c in p.items()}
    r[()] = r.get((), 0) - 1
    return pmodc(r, w)


_trunc = {}


def _truncated(i, c, w):
    """polynomial, modulo 2^c, of the low c bits of a value; None if that is the value itself"""
    r = _trunc.get((i, c), 0)
    if r == 0:
        b = _bvs[i]
        if b.bits is None or b.width <= c and b.sign == ZERO and (b.lad is None or b.lad[1] < c):
            r = None
        elif b.lad is not None and b.lad[1] >= c:
            r = pmodc(b.lad[0], c)
        else:
            t = low(b, c)
            r = pmodc(bvpoly(t, c) if t.lad is not None and t.lad[1] >= c else bvpoly(t), c)
            if r == {(i,): 1}:
                r = None
        _trunc[(i, c)] = r
    return r


def pnorm(p, w):
    """p modulo 2^w, mentioning only the bits that matter modulo 2^w"""
    p = pmodc(p, w)
    while True:
        for k, c in p.items():
            if k == ():
                continue
            e = w - ((c & -c).bit_length() - 1)
            for i in k:
                t = _truncated(i, e, w)
                if t is not None:
                    rest = list(k)
                    rest.remove(i)
                    q = dict(p)
                    del q[k]
                    p = pmodc(padd(q, pmul(t, {tuple(rest): c})), w)
                    break
            else:
                continue
            break
        else:
            return p


def pbits(p, w):
    """bits 0..w-1 of a polynomial as atoms, each keyed by the polynomial modulo twice its weight; p and its complement share them"""
    raw = (pkey(p), w)
    r = _pbits.get(raw)
    if r is not None:
        return r
    p = pnorm(p, w)
    key = (pkey(p), w)
    r = _pbits.get(key)
    if r is not None:
        _pbits[raw] = r
        return r
    k = min(((c & -c).bit_length() - 1 for c in p.values()), default=w)
    res = [ZERO] * min(k, w)
    if k < w:
        p = {m: c >> k for m, c in p.items()}
        w -= k
        for i in range(w - 1, -1, -1):
            p = pnorm(p, i + 1)
            a = pkey(p)
            if all(m == () for m, _ in a):
                v = a[0][1] if a else 0
                res += [ONE if v >> t & 1 else ZERO for t in range(i, -1, -1)]
                break
            b = pkey(pcompl(p, i + 1))
            x = atom_bit(("P", a if a <= b else b, i))
            res.append(anot(x) if b < a else x)
        res[k:] = res[:k - 1:-1] if k else res[::-1]
    _pbits[key] = _pbits[raw] = res
    return res


_pbits = {}


# ---------------------------------------------------------------- polynomials
def pkey(p):
    return tuple(sorted((m, c) for m, c in p.items() if c))


def pmodc(p, w):
    m = (1 << w) - 1
    return {k: c & m for k, c in p.items() if c & m}


def padd(p, q):
    r = dict(p)
    for k, c in q.items():
        c2 = r.get(k, 0) + c
        if c2:
            r[k] = c2
        else:
            r.pop(k, None)
    return r


def pmul(p, q):
    r = {}
    for k1, c1 in p.items():
        for k2, c2 in q.items():
            k = tuple(sorted(k1 + k2)) if k1 and k2 else k1 or k2
            v = r.get(k, 0) + c1 * c2
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pscale(p, c):
    return {k: v * c for k, v in p.items()} if c else {}


def bvpoly(b, w=None):
    """exact integer polynomial of a BV (or modulo 2^w)"""
    if w is not None and b.lad is not None and b.lad[1] >= w:
        return pmodc(b.lad[0], w)
    if b.bits is None:
        if b.key[0] == "poly":
            return dict(b.key[1])
        return {(b.id,): 1}
    if b.poly is None:
        p = {}
        bits = list(b.bits)
        const = 0
        if b.sign != ZERO:
            wd = len(bits)
            if b.sign == ONE:
                const -= 1 << wd
            else:
                s = intern([b.sign])
                p = padd(p, pscale(bvpoly(s), -(1 << wd)))
        for i, a in enumerate(bits):
            if a == ONE:
                const += 1 << i
                bits[i] = ZERO
        lo = 0
        while lo < len(bits) and bits[lo] == ZERO:
            lo += 1
        body = bits[lo:]
        while body and body[-1] == ZERO:
            body.pop()
        if body:
            if all(a[0] & 1 for a in body):
                comp = intern([anot(a) for a in body])
                const += ((1 << len(body)) - 1) << lo
                p = padd(p, {(comp.id,): -(1 << lo)})
            else:
                p = padd(p, {(intern(body).id,): 1 << lo})
        if const:
            p = padd(p, {(): const})
        b.poly = p
    return b.poly if w is None else pmodc(b.poly, w)


def bits_of_poly(p, w):
    """bits 0..w-1 of polynomial p (coefficients already reduced mod 2^w)"""
    p = pmodc(p, w)
    if not p:
        return []
    r = _struct_bits(p, w)
    if r is not None:
        return r
    r = _struct_bits(pcompl(p, w), w)
    if r is not None:
        r += [ZERO] * (w - len(r))
        return [anot(a) for a in r]
    return list(pbits(p, w))


def _struct_bits(p, w):
    m = 1 << w
    nk = [k for k in p if k]
    if len(nk) == 1 and len(nk[0]) == 1:
        b = _bvs[nk[0][0]]
        if b.bits is not None and b.sign == ZERO and b.width == 1:
            # one bit selects between two constants
            c0 = p.get((), 0) & (m - 1)
            c1 = (c0 + p[nk[0]]) & (m - 1)
            t = b.bits[0]
            nt = anot(t)
            tab = {(0, 0): ZERO, (1, 1): ONE, (0, 1): t, (1, 0): nt}
            return [tab[c0 >> i & 1, c1 >> i & 1] for i in range(w)]
    # disjoint supports
    out = [ZERO] * w
    used = 0
    ok = True
    for k, c in p.items():
        if k == ():
            if used & c:
                ok = False
                break
            used |= c
            for i in range(w):
                if c >> i & 1:
                    out[i] = ONE
            continue
        if len(k) == 1 and c & (c - 1):
            b = _bvs[k[0]]
            if b.bits is not None and b.sign == ZERO and b.width == 1 and not used & c:
                # a single bit times a constant
                used |= c
                for i in range(w):
                    if c >> i & 1:
                        out[i] = b.bits[0]
                continue
        if len(k) != 1 or c & (c - 1):
            ok = False
            break
        b = _bvs[k[0]]
        if b.bits is None or b.sign != ZERO:
            if b.bits is None or len(p) > 1:
                ok = False
                break
            sh = c.bit_length() - 1
            return [ZERO] * sh + [b.bit(i) for i in range(w - sh)]
        sh = c.bit_length() - 1
        mask = 0
        for i, a in enumerate(b.bits):
            if a != ZERO and sh + i < w:
                mask |= 1 << (sh + i)
        if used & mask:
            ok = False
            break
        used |= mask
        for i, a in enumerate(b.bits):
            if a != ZERO and sh + i < w:
                out[sh + i] = a
    return out if ok else None


def neg_cond(p):
    """ANF of (p < 0) for an exact integer polynomial"""
    const = p.get((), 0)
    nc = {k: c for k, c in p.items() if k}
    if not nc:
        return ONE if const < 0 else ZERO
    from math import gcd
    g = 0
    for c in nc.values():
        g = gcd(g, abs(c))
    if g > 1:
        nc = {k: c // g for k, c in nc.items()}
        const = const // g
    lead = min(nc)
    flip = nc[lead] < 0
    if flip:
        nc = {k: -c for k, c in nc.items()}
        const = -const - 1
    r = None
    if len(nc) == 1:
        (k, c), = nc.items()
        if c == 1 and len(k) == 1:
            b = _bvs[k[0]]
            if b.bits is not None and b.sign == ZERO:
                t = -const
                if t <= 0:
                    r = ZERO
                elif t > (1 << b.width) - 1:
                    r = ONE
                elif t & (t - 1) == 0:
                    r = eq0(b.bits[t.bit_length() - 1:])
    if r is None:
        q = dict(nc)
        if const:
            q[()] = const
        r = atom_bit(("NEG", pkey(q)))
    return anot(r) if flip else r


def eq0(bits):
    """ANF of 'all bits are zero'"""
    base = {}
    for a in bits:
        if a == ONE:
            return ZERO
        if a == ZERO:
            continue
        k = (a[0] & ~1, a[1])
        c = a[0] & 1
        if base.setdefault(k, c) != c:
            return ZERO
    if not base:
        return ONE
    if len(base) == 1:
        (k, c), = base.items()
        return (k[0] | c, k[1]) if c else anot(k)
    bk = frozenset(base)
    pat = frozenset(k for k, c in base.items() if c)
    r = atom_bit(("EQ", bk, pat))
    i = r[0].bit_length() - 1
    if i not in _eqgroup:
        _eqgroup[i] = bk
    return r


# ---------------------------------------------------------------- nodes
_memo = {}
_pm = {}


def canon(root):
    """canonical BV of a node"""
    m = _memo
    r = m.get(root.id)
    if r is not None:
        return r
    st = [(root, False)]
    seen = set()
    while st:
        n, done = st.pop()
        if n.id in m:
            continue
        if done:
            m[n.id] = _canon1(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        if n.op == "loop":
            li = T.loopinfo(n)
            ch = list(li.inits) + ([li.trip] if li.trip is not None else [])
        else:
            ch = T.children(n)
        for c in ch:
            if c.id not in m:
                st.append((c, False))
    return m[root.id]


def cond(n):
    b = canon(n)
    if b.bits is None:
        return atom_bit(("B", b.id))
    return b.bit(0)


def atom_bits(key, lo, hi):
    if lo is None or hi is None:
        return opaque(key)
    if lo >= 0:
        return intern([atom_bit((key, i)) for i in range(hi.bit_length())])
    w = max((~lo).bit_length(), hi.bit_length() if hi >= 0 else 0)
    return intern([atom_bit((key, i)) for i in range(w)], atom_bit((key, "s")))


# ---- functions of one variable with a small range are tabulated (constant propagation over its values)
_tabs = {}
TABLE = 128


def _table(n):
    """(variable, values) when n is a function of a single small variable, ("c", value) or None"""
    r = _tabs.get(n.id, 0)
    if r != 0:
        return r
    st = [(n, False)]
    while st:
        x, done = st.pop()
        if x.id in _tabs:
            continue
        if x.op == "c":
            _tabs[x.id] = ("c", x.args[0])
            continue
        if x.op == "var":
            ok = x.sort == "i" and x.lo is not None and x.hi is not None and 2 < x.hi - x.lo + 1 <= TABLE and (
                x.lo != 0 or x.hi & (x.hi + 1))
            _tabs[x.id] = (x, tuple(range(x.lo, x.hi + 1))) if ok else None
            continue
        if x.op in ("loop", "ph", "fc", "ext", "i2f", "f2i", "f2f", "flt", "feq", "fadd", "fmul", "fsub", "fdiv") or x.sort != "i":
            _tabs[x.id] = None
            continue
        ch = T.children(x)
        if not done:
            bad = False
            pend = []
            for c in ch:
                t = _tabs.get(c.id, 0)
                if t is None:
                    bad = True
                    break
                if t == 0:
                    pend.append(c)
            if bad:
                _tabs[x.id] = None
                continue
            st.append((x, True))
            st.extend((c, False) for c in pend)
            continue
        ts = [_tabs[c.id] for c in ch]
        var = None
        for t in ts:
            if t is None:
                var = False
                break
            if t[0] != "c":
                if var is None:
                    var = t[0]
                elif var is not t[0]:
                    var = False
                    break
        if var is False or var is None:
            _tabs[x.id] = None
            continue
        from . import evalt
        out = []
        for i in range(var.hi - var.lo + 1):
            val = {c.id: (t[1] if t[0] == "c" else t[1][i]) for c, t in zip(ch, ts)}
            v = evalt.ev(x, val, {})
            out.append(v)
        _tabs[x.id] = None if any(v is evalt.POISON or type(v) is float for v in out) else (var, tuple(out))
    return _tabs[n.id]


def _tabular(n):
    """the table of n if it is a non-linear function of one small variable"""
    if n.op in ("c", "var"):
        return None
    t = _table(n)
    if t is None or t[0] == "c":
        return None
    v = t[1]
    k = v[1] - v[0]
    if all(v[i] - v[0] == i * k for i in range(len(v))):
        return None
    return t


def _canon_table(t):
    var, vals = t
    w = width_of(min(vals), max(vals))
    own = {}
    for i in range(width_of(var.lo, var.hi)):
        own[tuple(x >> i & 1 for x in range(var.lo, var.hi + 1))] = i
    vb = canon(var)

    def col(c):
        if not any(c):
            return ZERO
        if all(c):
            return ONE
        if c in own:
            return vb.bit(own[c])
        inv = tuple(1 - x for x in c)
        if inv in own:
            return anot(vb.bit(own[inv]))
        if c[0]:
            return anot(atom_bit(("col", var.args[0], var.lo, inv)))
        return atom_bit(("col", var.args[0], var.lo, c))
    bits = [col(tuple(x >> i & 1 for x in vals)) for i in range(w)]
    return intern(bits, col(tuple(1 if x < 0 else 0 for x in vals)))


def polymod(n, w):
    k = (n.id, w)
    r = _pm.get(k)
    if r is not None:
        return r
    op = n.op
    if op == "c":
        v = n.args[0] & ((1 << w) - 1)
        r = {(): v} if v else {}
    elif op in ("add", "mul") and _tabular(n) is not None:
        b = canon(n)
        if b.width > w or b.sign != ZERO:
            b = low(b, w)
        r = bvpoly(b, w)
    elif op == "add":
        r = pmodc(padd(polymod(n.args[0], w), polymod(n.args[1], w)), w)
    elif op == "mul":
        r = pmodc(pmul(polymod(n.args[0], w), polymod(n.args[1], w)), w)
    elif op == "wrap" and n.args[1] >= w:
        r = polymod(n.args[0], w)
    else:
        b = canon(n)
        if b.bits is not None and b.lad is None and (b.width > w or b.sign != ZERO):
            b = low(b, w)
        r = bvpoly(b, w)
    _pm[k] = r
    return r


def polyexact(n):
    k = (n.id, None)
    r = _pm.get(k)
    if r is not None:
        return r
    op = n.op
    if op == "c":
        r = {(): n.args[0]} if n.args[0] else {}
    elif op in ("add", "mul") and _tabular(n) is not None:
        r = bvpoly(canon(n))
    elif op == "add":
        r = padd(polyexact(n.args[0]), polyexact(n.args[1]))
    elif op == "mul":
        r = pmul(polyexact(n.args[0]), polyexact(n.args[1]))
    else:
        r = bvpoly(canon(n))
    _pm[k] = r
    return r


def width_of(lo, hi):
    return max(lo.bit_length() if lo >= 0 else (~lo).bit_length(), hi.bit_length() if hi >= 0 else (~hi).bit_length())


def from_poly(p, lo, hi):
    """BV of an exact polynomial known to lie in [lo, hi]"""
    if all(k == () for k in p):
        v = p.get((), 0)
        return const_bv(v)
    if len(p) == 1:
        (k, c), = p.items()
        if c == 1 and len(k) == 1:
            return _bvs[k[0]]
    if lo is None or hi is None:
        return opaque(("poly", pkey(p)))
    w = width_of(lo, hi)
    W = _cls(max(w - 1, 0))
    if lo >= 0:
        return intern(_padded(bits_of_poly(p, W), W)[:w])
    if hi < 0:
        sign = ONE
    else:
        sign = neg_cond(p)
    return intern(_padded(bits_of_poly(p, W), W)[:w], sign)


def _padded(bits, w):
    return bits + [ZERO] * (w - len(bits))


def const_bv(v):
    if v >= 0:
        return intern([ONE if v >> i & 1 else ZERO for i in range(v.bit_length())])
    u = ~v
    return intern([ZERO if u >> i & 1 else ONE for i in range(u.bit_length())], ONE)


def _canon1(n):
    op = n.op
    a = n.args
    if op == "c":
        return const_bv(a[0])
    if op == "var":
        if n.sort != "i":
            return opaque(("fvar", a[0], n.sort))
        return atom_bits(("var", a[0]), n.lo, n.hi)
    if op == "ph":
        # only while a loop is being built; closed terms have none
        if n.sort != "i":
            return opaque(("fph", a[0]))
        return atom_bits(("ph", a[0]), n.lo, n.hi)
    t = _tabular(n)
    if t is not None:
        return _canon_table(t)
    if op in ("add", "mul"):
        return from_poly(polyexact(n), n.lo, n.hi)
    if op == "wrap":
        x, w, signed = a
        if x.op in ("add", "mul", "wrap") or canon(x).bits is None:
            W = _cls(w - 1)
            bits = _padded(bits_of_poly(polymod(x, W), W), W)[:w]
        else:
            b = canon(x)
            bits = [b.bit(i) for i in range(w)]
            if b.lad is not None and b.lad[1] > w:
                W = _cls(w - 1)
                bits = _padded(bits_of_poly(pmodc(b.lad[0], W), W), W)[:w]
        if signed:
            return intern(bits[:w - 1], bits[w - 1])
        return intern(bits)
    if op in ("and", "or", "xor"):
        x, y = canon(a[0]), canon(a[1])
        if x.bits is None or y.bits is None:
            return opaque((op,) + tuple(sorted((x.id, y.id))))
        w = max(x.width, y.width)
        f = {"and": aand, "or": aor, "xor": axor}[op]
        return intern([f(x.bit(i), y.bit(i)) for i in range(w)], f(x.sign, y.sign))
    if op == "shr":
        x = canon(a[0])
        if a[1].op == "c" and x.bits is not None:
            return intern(x.bits[a[1].args[0]:], x.sign)
        return _op2(n)
    if op == "shl":
        x, y = canon(a[0]), canon(a[1])
        if x.bits is not None and y.bits is not None and y.sign == ZERO and y.width <= 3:
            # barrel shifter for small counts
            cur = x
            for i in range(y.width):
                k = 1 << i
                sh = intern([ZERO] * k + list(cur.bits), cur.sign)
                w = max(sh.width, cur.width)
                cur = intern([amux(y.bits[i], sh.bit(j), cur.bit(j)) for j in range(w)],
                             amux(y.bits[i], sh.sign, cur.sign))
            return cur
        return _op2(n)
    if op in ("div", "mod"):
        return _op2(n)
    if op == "lt":
        x, y = a
        return intern([neg_cond(padd(polyexact(x), pscale(polyexact(y), -1)))])
    if op == "eq":
        x, y = canon(a[0]), canon(a[1])
        if x is y:
            return intern([ONE])
        if x.bits is None or y.bits is None:
            d = padd(bvpoly(x), pscale(bvpoly(y), -1))
            if all(k == () for k in d):
                return intern([ONE if not d else ZERO])
            lead = min(k for k in d if k)
            if d[lead] < 0:
                d = pscale(d, -1)
            return intern([atom_bit(("EQP", pkey(d)))])
        w = max(x.width, y.width)
        bits = [axor(x.bit(i), y.bit(i)) for i in range(w)]
        bits.append(axor(x.sign, y.sign))
        return intern([eq0(bits)])
    if op == "ite":
        c = cond(a[0])
        x, y = canon(a[1]), canon(a[2])
        if c == ONE:
            return x
        if c == ZERO:
            return y
        if x is y:
            return x
        if x.bits is None or y.bits is None:
            if c[0] & 1:
                c = anot(c)
                x, y = y, x
            return opaque(("ite", c, x.id, y.id))
        w = max(x.width, y.width)
        return intern([amux(c, x.bit(i), y.bit(i)) for i in range(w)], amux(c, x.sign, y.sign))
    if op == "sel":
        return _canon_sel(n)
    if op == "ext":
        key = ("ext", a[0]) + tuple(canon(b).id for b in a[1])
        if n.sort != "i":
            return opaque(key)
        return atom_bits(key, n.lo, n.hi)
    if op == "loop":
        return _canon_loop(n)
    # floats
    if op == "fc":
        return opaque(("fc",) + a)
    key = (op,) + tuple(canon(b).id if isinstance(b, T.N) else ("k", b) for b in a)
    if op in ("fadd", "fmul"):
        key = (op,) + tuple(sorted(key[1:3])) + key[3:]
    if op in ("flt", "feq", "f2i"):
        return atom_bits(key, n.lo, n.hi)
    return opaque(key)


def _op2(n):
    x, y = canon(n.args[0]), canon(n.args[1])
    return atom_bits((n.op, x.id, y.id), n.lo, n.hi)


def _canon_sel(n):
    idx, elems = n.args
    ib = canon(idx)
    es = [canon(e) for e in elems]
    if all(e is es[0] for e in es):
        return es[0]
    if ib.bits is not None and ib.sign == ZERO and all(e.bits is not None for e in es):
        nonconst = [i for i, b in enumerate(ib.bits) if b not in (ZERO, ONE)]
        if len(nonconst) <= 2:
            def build(bits, i):
                if i < 0:
                    v = 0
                    for k, b in enumerate(bits):
                        v |= (1 if b == ONE else 0) << k
                    return es[v] if v < len(es) else es[0]
                if bits[i] in (ZERO, ONE):
                    return build(bits, i - 1)
                b = bits[i]
                hi = build(bits[:i] + [ONE] + bits[i + 1:], i - 1)
                lo = build(bits[:i] + [ZERO] + bits[i + 1:], i - 1)
                if hi is lo:
                    return hi
                w = max(hi.width, lo.width)
                return intern([amux(b, hi.bit(j), lo.bit(j)) for j in range(w)], amux(b, hi.sign, lo.sign))
            return build(list(ib.bits), len(ib.bits) - 1)
    return atom_bits(("sel", ib.id, tuple(e.id for e in es)), n.lo, n.hi) if n.sort == "i" else opaque(
        ("sel", ib.id, tuple(e.id for e in es)))


_loopcols = {}
_loopdeps = {}


def _loop_range(li, k):
    """a loop-carried value is its initial value or the result of an iteration"""
    p, i, b = li.phs[k], li.inits[k], li.body[k]
    if p.sort != "i" or None in (i.lo, i.hi, b.lo, b.hi):
        return p.lo, p.hi
    lo, hi = min(i.lo, b.lo), max(i.hi, b.hi)
    if p.lo is not None:
        lo, hi = max(lo, p.lo), min(hi, p.hi)
    return lo, hi


def _canon_loop(n):
    uid, j = n.args
    li = T._loops[uid]
    nv = len(li.phs)
    # cone of influence of output j
    info = _loopdeps.get(uid)
    if info is None:
        idx = {p.args[0]: k for k, p in enumerate(li.phs)}
        dep = [frozenset(idx[q] for q in b.phs if q in idx) for b in li.body]
        cdep = frozenset(idx[q] for q in li.cond.phs if q in idx) if li.cond is not None else frozenset()
        info = _loopdeps[uid] = (dep, cdep, {})
    dep, cdep, cones = info
    need = cones.get(j)
    if need is None:
        need = {j} | cdep
        work = list(need)
        while work:
            new = dep[work.pop()] - need
            need |= new
            work.extend(new)
        need = frozenset(need)
        for k in need:
            if j in dep[k]:
                cones[k] = need
        cones[j] = need
    order = sorted(need)
    ck = (uid, need)
    res = _loopcols.get(ck)
    if res is None:
        init = {k: canon(li.inits[k]).id for k in order}
        rng = {k: _loop_range(li, k) for k in order}
        col = {k: ("i", init[k], rng[k][0], rng[k][1], li.phs[k].sort) for k in order}
        nparts = 0
        condid = None
        body = {}
        for _round in range(len(order) + 2):
            names = {}
            m = {}
            for k in order:
                p = li.phs[k]
                nm = "φ" + str(_intern_col(col[k]))
                names[k] = nm
                m[p.id] = T.V(nm, *rng[k]) if p.sort == "i" else T.VF(nm, int(p.sort[1:]))
            cache = dict(m)
            # other placeholders of this loop (not in the cone) never occur
            body = {k: canon(T.subst(li.body[k], m, cache)).id for k in order}
            condid = canon(T.subst(li.cond, m, cache)).id if li.cond is not None else None
            parts = len({col[k] for k in order})
            if parts == nparts and _round > 0:
                break
            nparts = parts
            col = {k: ("r", _intern_col(col[k]), body[k]) for k in order}
            if len({col[k] for k in order}) == parts and _round > 0:
                # stable
                break
        tripid = canon(li.trip).id if li.trip is not None else None
        summary = _intern_col((tuple(sorted({(_intern_col(col[k]), init[k], body[k]) for k in order})), condid, tripid))
        res = (col, summary)
        _loopcols[ck] = res
    col, summary = res
    key = ("loop", summary, _intern_col(col[j]))
    return atom_bits(key, *_loop_range(li, j)) if n.sort == "i" else opaque(key)


_coltab = {}


def _intern_col(c):
    i = _coltab.get(c)
    if i is None:
        i = len(_coltab)
        _coltab[c] = i
    return i


def same(a, b):
    return a is b or canon(a) is canon(b)


def reset(limit=0):
    """drop all tables once they have grown past `limit` atoms (ids are only comparable between resets)"""
    if len(_bitkeys) <= limit:
        return
    for t in (_bitidx, _eqgroup, _bvtab, _memo, _pm, _tabs, _loopcols, _loopdeps, _coltab, _trunc, _pbits, _trie):
        t.clear()
    del _bitkeys[1:]
    del _bvs[:]
