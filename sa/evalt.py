"""Random interpretation of value-graph terms (Gulwani & Necula, POPL 2003):
evaluates *terms*, never program text."""

import hashlib
import struct
from . import term as T


class _Poison:
    def __repr__(self):
        return "<undefined>"


POISON = _Poison()
BUDGET = [400000]

EXT = {}


def ext_eval(name):
    def deco(f):
        EXT[name] = f
        return f
    return deco


# uninterpreted functions differ between valuations: what sets them apart, and the values they prefer
SALT = [None]
POOL = [()]


def _default_ext(name, lo, hi, sort, args):
    h = hashlib.blake2b(repr((name,) + tuple(_plain(a) for a in args) + (() if SALT[0] is None else (SALT[0],))).encode(), digest_size=16).digest()
    v = int.from_bytes(h, "little")
    if SALT[0] is not None and POOL[0] and v & 3 == 0 and not sort.startswith("f"):
        c = POOL[0][(v >> 2) % len(POOL[0])]
        if (lo is None or c >= lo) and (hi is None or c <= hi):
            return c
    v >>= 2
    if sort.startswith("f"):
        return float(v % 4096) / 64.0
    if lo is None and hi is None:
        return v & 0xFFFFFFFF
    if lo is None:
        return hi - (v & 0xFFFF)
    if hi is None:
        return lo + (v & 0xFFFF)
    return lo + v % (hi - lo + 1)


def _plain(a):
    return a


class Plan:
    """evaluation order for a set of roots; `own` placeholders are inputs"""

    def __init__(self, roots, own=frozenset()):
        self.own = own
        self.order = []
        self.loops = {}
        self.invariant = {}   # nodes needed from the enclosing scope
        seen = set()
        st = [(r, False) for r in roots]
        while st:
            n, done = st.pop()
            if done:
                self.order.append(n)
                continue
            if n.id in seen:
                continue
            seen.add(n.id)
            if own and not (n.phs & own):
                self.invariant[n.id] = n
                continue
            if n.op == "ph":
                continue
            if n.op == "loop":
                li = T.loopinfo(n)
                lp = self.loops.get(li.uid)
                if lp is None:
                    lown = frozenset(p.args[0] for p in li.phs)
                    lp = Plan(list(li.body) + ([li.cond] if li.cond is not None else []), lown)
                    self.loops[li.uid] = lp
                ch = list(li.inits) + ([li.trip] if li.trip is not None else []) + list(lp.invariant.values())
            else:
                ch = T.children(n)
            st.append((n, True))
            for c in ch:
                if c.id not in seen:
                    st.append((c, False))
        self.size = len(self.order) + sum(4 * l.size for l in self.loops.values())

    def run(self, val, env, budget):
        loopres = {}
        for n in self.order:
            op = n.op
            if op == "loop":
                uid = n.args[0]
                r = loopres.get(uid)
                if r is None:
                    r = self._loop(T._loops[uid], self.loops[uid], val, env, budget)
                    loopres[uid] = r
                val[n.id] = r[n.args[1]]
            else:
                val[n.id] = ev(n, val, env)
        return val

    def _loop(self, li, plan, outer, env, budget):
        cur = [outer[i.id] for i in li.inits]
        base = {i: outer[i] for i in plan.invariant}
        trip = outer[li.trip.id] if li.trip is not None else None
        if trip is POISON:
            return [POISON] * len(cur)
        k = 0
        unit = plan.size + 1
        while True:
            if trip is not None and k >= trip:
                return cur
            budget[0] -= unit
            if budget[0] < 0:
                return [POISON] * len(cur)
            val = dict(base)
            for p, c in zip(li.phs, cur):
                val[p.id] = c
            plan.run(val, env, budget)
            if li.cond is not None:
                c = val[li.cond.id]
                if c is POISON:
                    return [POISON] * len(cur)
                if not c:
                    return cur
            cur = [val[b.id] for b in li.body]
            k += 1


def ev(n, val, env):
    op = n.op
    a = n.args
    if op == "c":
        return a[0]
    if op == "var":
        return env[a[0]]
    if op == "fc":
        return T.fval(n)
    if op == "ite":
        c = val[a[0].id]
        if c is POISON:
            return POISON
        return val[a[1].id] if c else val[a[2].id]
    if op == "sel":
        i = val[a[0].id]
        if i is POISON or not 0 <= i < len(a[1]):
            return POISON
        return val[a[1][i].id]
    if op == "and":
        x, y = val[a[0].id], val[a[1].id]
        if x is POISON or y is POISON:
            return 0 if (x is not POISON and x == 0) or (y is not POISON and y == 0) else POISON
        return x & y
    if op == "or":
        x, y = val[a[0].id], val[a[1].id]
        if x is POISON or y is POISON:
            if n.hi == 1 and n.lo is not None and n.lo >= 0 and (x is not POISON and x == 1 or y is not POISON and y == 1):
                return 1
            return POISON
        return x | y
    if op == "ext":
        args = [val[b.id] for b in a[1]]
        if any(x is POISON for x in args):
            return POISON
        f = EXT.get(a[0])
        if f is None:
            key = a[0].split("@")[0]
            f = EXT.get(key)
            if f is not None:
                return f(a[0], *args)
            return _default_ext(a[0], n.lo, n.hi, n.sort, args)
        return f(*args)
    x = val[a[0].id]
    if x is POISON:
        return POISON
    if op == "wrap":
        return T.wrap_const(x, a[1], a[2])
    if op == "i2f":
        return T._tofloat(x, a[1])
    if op == "f2f":
        return T.f32(x) if a[1] == 32 else x
    if op == "f2i":
        if x != x or abs(x) == float("inf"):
            return POISON
        return T.wrap_const(int(x), a[1], a[2])
    y = val[a[1].id]
    if y is POISON:
        return POISON
    if op == "add":
        return x + y
    if op == "mul":
        return x * y
    if op == "xor":
        return x ^ y
    if op == "shl":
        return x << y if 0 <= y < 4096 else POISON
    if op == "shr":
        return x >> y if y >= 0 else POISON
    if op == "div":
        return x // y if y else POISON
    if op == "mod":
        return x % y if y else POISON
    if op == "lt":
        return 1 if x < y else 0
    if op == "eq":
        return 1 if x == y else 0
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        r = T._fop(op, x, y)
        return T.f32(r) if a[2] == 32 else r
    if op in ("flt", "feq"):
        return 1 if T._fop(op, x, y) else 0
    raise KeyError(op)


class Evaluator:
    def __init__(self, roots):
        self.roots = list(roots)
        self.plan = Plan(self.roots)
        self.vars = T.free_vars(self.roots)

    def __call__(self, env, budget=None):
        val = self.plan.run({}, env, [budget or BUDGET[0]])
        return [val[r.id] for r in self.roots]
