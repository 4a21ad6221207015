"""Abstract domain of bitwise-linear maps: each bit of a term as a parity of input bits and a constant.
A matrix is a list of rows, row i the mask of input bits whose parity is output bit i."""
from . import evalt
from . import term as T


class NotLinear(Exception):
    pass


class Bits:
    """non-negative number whose bit i is the parity of rows[i] (bit `one` is the constant)"""

    def __init__(self, rows):
        while rows and rows[-1] == 0:
            rows = rows[:-1]
        self.rows = rows


class Two:
    """a number that takes one of two values, by a parity"""

    def __init__(self, form, v0, v1):
        self.form, self.v0, self.v1 = form, v0, v1


class Domain:
    def __init__(self, words, width):
        """words: variables, in order; width: bits of each"""
        self.n = len(words) * width
        self.one = 1 << self.n
        self.at = {w.id: i * width for i, w in enumerate(words)}
        self.width = width
        self.memo = {}

    def const(self, v):
        if v < 0:
            return Two(0, v, v)
        return Bits([self.one if v >> i & 1 else 0 for i in range(v.bit_length())])

    def two(self, x):
        """the same value as a function of one parity, if it is"""
        if isinstance(x, Two):
            return x
        form, v0, v1 = 0, 0, 0
        for i, r in enumerate(x.rows):
            c, f = r & self.one, r & ~self.one
            if f:
                if form and f != form:
                    return None
                form = f
            if c:
                v0 |= 1 << i
                if not f:
                    v1 |= 1 << i
            elif f:
                v1 |= 1 << i
        return Two(form, v0, v1)

    def bits(self, t):
        if isinstance(t, Bits):
            return t
        if t.v0 < 0 or t.v1 < 0:
            raise NotLinear("negative number")
        rows = []
        for i in range(max(t.v0.bit_length(), t.v1.bit_length())):
            a, b = t.v0 >> i & 1, t.v1 >> i & 1
            rows.append((self.one if a else 0) ^ (t.form if a != b else 0))
        return Bits(rows)

    def get(self, root):
        st = [(root, False)]
        while st:
            n, done = st.pop()
            if n.id in self.memo:
                continue
            if done:
                self.memo[n.id] = self.step(n)
                continue
            st.append((n, True))
            if n.op == "loop":
                raise NotLinear("loop")
            for c in T.children(n):
                st.append((c, False))
        return self.memo[root.id]

    def step(self, n):
        op, a = n.op, n.args
        if op == "c":
            return self.const(a[0])
        if op == "var":
            k = self.at.get(n.id)
            if k is None:
                raise NotLinear("depends on %s" % a[0])
            return Bits([1 << (k + i) for i in range(self.width)])
        kids = T.children(n)
        x = [self.memo[c.id] for c in kids]
        two = [self.two(v) for v in x]
        forms = {t.form for t in two if t is not None and t.form}
        if None not in two and len(forms) <= 1:
            f = forms.pop() if forms else 0
            val = []
            for k in (0, 1):
                v = evalt.ev(n, {c.id: (t.v1 if k else t.v0) for c, t in zip(kids, two)}, {})
                if v is evalt.POISON:
                    raise NotLinear("undefined")
                val.append(v)
            return Two(f, *val)
        if op == "ite":
            c, p, q = two[0], self.bits(x[1]).rows, self.bits(x[2]).rows
            if c is None or {c.v0, c.v1} - {0, 1}:
                raise NotLinear("condition")
            m = max(len(p), len(q))
            p, q = p + [0] * (m - len(p)), q + [0] * (m - len(q))
            out = []
            for r, s in zip(p, q):
                d = r ^ s
                if d & ~self.one:
                    raise NotLinear("branches differ by more than a constant")
                sel = (c.form if c.v0 != c.v1 else 0) ^ (self.one if c.v0 else 0)
                out.append(s ^ (sel if d else 0))
            return Bits(out)
        y = [self.bits(v).rows for v in x]
        if op == "xor":
            m = max(map(len, y))
            return Bits([(y[0][i] if i < len(y[0]) else 0) ^ (y[1][i] if i < len(y[1]) else 0) for i in range(m)])
        if op in ("and", "or"):
            m = max(map(len, y))
            out = []
            for i in range(m):
                p, q = (y[0][i] if i < len(y[0]) else 0), (y[1][i] if i < len(y[1]) else 0)
                if p == q:
                    out.append(p)
                elif p in (0, self.one) or q in (0, self.one):
                    k, r = (p, q) if p in (0, self.one) else (q, p)
                    out.append((r if k else 0) if op == "and" else (self.one if k else r))
                elif p == q ^ self.one:
                    out.append(0 if op == "and" else self.one)
                else:
                    raise NotLinear("product of inputs")
            return Bits(out)
        if op == "wrap" and not a[2]:
            return Bits(y[0][:a[1]])
        if op in ("shl", "shr") and a[1].op == "c":
            k = a[1].args[0]
            return Bits([0] * k + y[0]) if op == "shl" else Bits(y[0][k:])
        if op == "add":
            m = max(map(len, y))
            z = [(y[0][i] if i < len(y[0]) else 0, y[1][i] if i < len(y[1]) else 0) for i in range(m)]
            if all(not p or not q for p, q in z):
                return Bits([p | q for p, q in z])
        if op == "mul":
            for p, q in ((0, 1), (1, 0)):
                if kids[p].op == "c" and kids[p].args[0] > 0 and kids[p].args[0] & (kids[p].args[0] - 1) == 0:
                    return Bits([0] * (kids[p].args[0].bit_length() - 1) + y[q])
        raise NotLinear(op)


def matrix(words, width, roots):
    """(rows, constant) of the map from the words to the roots"""
    d = Domain(words, width)
    rows, const = [], 0
    for k, r in enumerate(roots):
        b = d.bits(d.get(r)).rows
        if len(b) > width:
            raise NotLinear("more than %d bits" % width)
        for i in range(width):
            v = b[i] if i < len(b) else 0
            if v & d.one:
                const |= 1 << (k * width + i)
            rows.append(v & ~d.one)
    return rows, const


def mul(a, b):
    """a after b"""
    out = []
    for r in a:
        acc = 0
        while r:
            k = r & -r
            acc ^= b[k.bit_length() - 1]
            r ^= k
        out.append(acc)
    return out


def identity(n):
    return [1 << i for i in range(n)]


def squares(a, n):
    out = [a]
    for _ in range(n):
        out.append(mul(out[-1], out[-1]))
    return out


def power(sq, e):
    r = None
    k = 0
    while e:
        if e & 1:
            r = sq[k] if r is None else mul(sq[k], r)
        e >>= 1
        k += 1
    return r if r is not None else identity(len(sq[0]))


def rank(rows):
    piv = {}
    for r in rows:
        while r:
            b = r.bit_length()
            if b not in piv:
                piv[b] = r
                break
            r ^= piv[b]
    return len(piv)
