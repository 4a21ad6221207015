"""Aimed valuations: values of the inputs under which a comparison of the value graph comes out true (or only just false),
found by propagating the wanted value backwards through the invertible operations of the term. Nothing is solved for but
chains of invertible operations and linear (bitwise) regions; every candidate is checked by evaluating the term."""
from . import canon as K
from . import evalt
from . import term as T

LIMIT = 320      # bits of a linear region


_has = {}


def varying(n):
    """the term depends on an input"""
    r = _has.get(n.id)
    if r is None:
        r = _has[n.id] = n.op == "var" or bool(T.free_vars([n]))
        if len(_has) > 200000:
            _has.clear()
    return r


def comparisons(roots, depth=3, most=400):
    """comparisons of a graph, those of loop bodies as they are in the first iterations"""
    out, loops = {}, {}
    for n in T.reachable(roots).values():
        if n.op in ("eq", "lt"):
            out[n.id] = n
        elif n.op == "loop":
            loops[n.args[0]] = n
    for n in loops.values():
        li = T.loopinfo(n)
        cur = list(li.inits)
        if any(x.phs for x in cur):
            continue
        inner = list(li.body) + ([li.cond] if li.cond is not None else [])
        if len(T.reachable(inner)) > 4000:
            continue
        cs = [x for x in T.reachable(inner).values() if x.op in ("eq", "lt")]
        own = frozenset(p.args[0] for p in li.phs)
        if not cs or any(x.phs - own for x in cs):
            continue
        for _ in range(depth):
            mp = {p.id: c for p, c in zip(li.phs, cur)}
            cache = dict(mp)
            for x in cs:
                y = T.subst(x, {}, cache)
                if y.op in ("eq", "lt"):
                    out[y.id] = y
            cur = [T.subst(b, {}, cache) for b in li.body]
            if len(out) > most or len(T.reachable(cur)) > 20000:
                break
    return out


def culprits(mine, theirs, most=24):
    """comparisons only one of the graphs makes"""
    a, b = comparisons(mine), comparisons(theirs)
    try:
        ka = {K.canon(n).id: n for n in a.values()}
        kb = {K.canon(n).id: n for n in b.values()}
    except RecursionError:
        ka, kb = a, b
    first = [n for k, n in ka.items() if k not in kb]
    second = [n for k, n in kb.items() if k not in ka]
    pick = lambda l: [n for n in l if not n.phs and varying(n)]  # noqa
    first, second = pick(first), pick(second)
    first.sort(key=lambda n: n.id)
    second.sort(key=lambda n: n.id)
    return first[:most] + second[:most // 2]


def region(n):
    """the bitwise part of a term and what it is made of"""
    leaves, seen, order = [], set(), []
    st = [(n, False)]
    while st:
        x, done = st.pop()
        if done:
            order.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        ok = x.op in ("xor", "and", "or") or (x.op == "wrap" and not x.args[2] and x.args[0].op in ("xor", "and", "or", "shl", "shr", "var", "wrap")) or (x.op in ("shl", "shr") and x.args[1].op == "c")
        if ok and len(order) < 3000:
            st.append((x, True))
            for c in T.children(x):
                st.append((c, False))
        elif x.op != "c":
            leaves.append(x)
    return leaves, order


def linear(n, target, w, val, rng):
    """values of the leaves of a bitwise region for which it has the wanted value"""
    leaves, order = region(n)
    leaves = [x for x in leaves if x.lo is not None and x.lo >= 0 and x.hi is not None and varying(x)]
    leaves.sort(key=lambda x: (x.op != "var", x.id))
    cols = []
    for x in leaves:
        cols += [(x, k) for k in range(x.hi.bit_length())]
    if not cols or len(cols) > LIMIT or target < 0:
        return
    mask = (1 << w) - 1 if w is not None else -1

    def f(over):
        v = dict(over)
        for x in order:
            v[x.id] = evalt.ev(x, _Look(v, val), {})
        r = v[n.id] if n.id in v else val[n.id]
        return r
    base = f({})
    if base is evalt.POISON:
        return
    want = (base ^ target) & mask
    rows = []     # (vector, combination)
    for i, (x, k) in enumerate(cols):
        r = f({x.id: val[x.id] ^ (1 << k)})
        if r is evalt.POISON:
            return
        vec, comb = (r ^ base) & mask, 1 << i
        for pv, pc in rows:
            if vec ^ pv < vec:
                vec, comb = vec ^ pv, comb ^ pc
        if vec:
            rows.append((vec, comb))
            rows.sort(key=lambda p: -p[0])
    acc = 0
    for pv, pc in rows:
        if want ^ pv < want:
            want, acc = want ^ pv, acc ^ pc
    if want:
        return
    new = {}
    for i, (x, k) in enumerate(cols):
        if acc >> i & 1:
            new.setdefault(x.id, [x, val[x.id]])[1] ^= 1 << k
    yield list(new.values())


class _Look:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getitem__(self, k):
        r = self.a.get(k)
        if r is None and k not in self.a:
            return self.b[k]
        return r


def solve(n, t, w, val, rng, depth=0):
    """assignments of inputs that give the term the value t (modulo 2**w)"""
    if depth > 60 or n.sort != "i":
        return
    if w is not None:
        t &= (1 << w) - 1
    op, a = n.op, n.args
    now = val[n.id]
    if now is not evalt.POISON and (now == t if w is None else (now - t) & ((1 << w) - 1) == 0):
        yield {}
        return
    if op == "var":
        if w is None:
            c = t
        else:
            m = 1 << w
            c = t if n.lo is None else n.lo + (t - n.lo) % m
            if n.hi is not None and n.hi - c >= m:
                c += m * rng.randrange((n.hi - c) // m + 1)
        if (n.lo is None or c >= n.lo) and (n.hi is None or c <= n.hi):
            yield {a[0]: c}
        return
    if now is evalt.POISON:
        return
    if op == "wrap":
        if w is None and T.wrap_const(t, a[1], a[2]) != t:
            return
        x = a[0]
        nw = a[1] if w is None else min(w, a[1])
        yield from solve(x, t, nw, val, rng, depth + 1)
        return
    if op == "add":
        for p, q in ((a[0], a[1]), (a[1], a[0])):
            if varying(p) and val[q.id] is not evalt.POISON:
                yield from solve(p, t - val[q.id], w, val, rng, depth + 1)
        return
    if op == "mul":
        for p, q in ((a[0], a[1]), (a[1], a[0])):
            c = val[q.id]
            if not varying(p) or c is evalt.POISON or c == 0:
                continue
            if w is None:
                if t % c == 0:
                    yield from solve(p, t // c, None, val, rng, depth + 1)
                continue
            k = (c & -c).bit_length() - 1
            if k >= w or t & ((1 << k) - 1):
                continue
            m = 1 << (w - k)
            yield from solve(p, (t >> k) * pow(c >> k, -1, m) % m, w - k, val, rng, depth + 1)
        return
    if op == "shl" and a[1].op == "c":
        k = a[1].args[0]
        if t & ((1 << k) - 1) == 0 and (w is None or w > k):
            yield from solve(a[0], t >> k, None if w is None else w - k, val, rng, depth + 1)
    elif op == "shr" and a[1].op == "c":
        k = a[1].args[0]
        low = val[a[0].id] & ((1 << k) - 1)
        yield from solve(a[0], (t << k) | low, None if w is None else w + k, val, rng, depth + 1)
    elif op == "ite":
        yield from solve(a[1] if val[a[0].id] else a[2], t, w, val, rng, depth + 1)
        return
    elif op == "sel":
        i = val[a[0].id]
        yield from solve(a[1][i], t, w, val, rng, depth + 1)
        return
    elif op == "mod" and a[1].op == "c" and a[1].args[0] > 0:
        m = a[1].args[0]
        if w is None and 0 <= t < m or w is not None and t < m:
            x = val[a[0].id]
            yield from solve(a[0], x - x % m + t, None, val, rng, depth + 1)
        return
    elif op == "div" and a[1].op == "c" and a[1].args[0] > 0:
        m = a[1].args[0]
        if w is None:
            yield from solve(a[0], t * m + val[a[0].id] % m, None, val, rng, depth + 1)
        return
    if op in ("xor", "and", "or", "shl", "shr") and depth < 24:
        for sol in linear(n, t, w, val, rng):
            got = [{}]
            for x, v in sol:
                nxt = []
                for g in got:
                    for s in solve(x, v, None, val, rng, depth + 1):
                        nxt.append({**g, **s})
                        break
                got = nxt
            yield from got


def aims(c, val, rng):
    """pairs (term, value) that decide a comparison one way or only just the other"""
    x, y = c.args
    a, b = val[x.id], val[y.id]
    if a is evalt.POISON or b is evalt.POISON or x.sort != "i":
        return []
    out = []
    if c.op == "eq":
        if a == b:
            out += [(x, b ^ 1), (y, a ^ 1)]
        else:
            out += [(x, b), (y, a)]
    else:
        out += [(x, b), (x, b - 1), (y, a), (y, a + 1)]
    return [(n, v) for n, v in out if varying(n)]


def valuations(cs, draw, rng, rounds):
    """valuations aimed at the given comparisons; draw() gives a starting point"""
    if not cs:
        return
    plan = evalt.Plan(cs)
    for k in range(rounds):
        env = draw()
        order = list(cs)
        if k:
            rng.shuffle(order)
        for c in order[:12]:
            budget = [evalt.BUDGET[0]]
            val = plan.run({}, env, budget)
            if budget[0] < 0:
                break
            for n, v in aims(c, val, rng):
                done = False
                for i, s in enumerate(solve(n, v, None, val, rng)):
                    if i > 3:
                        break
                    if not s:
                        continue
                    new = dict(env)
                    new.update(s)
                    after = plan.run({}, new, [evalt.BUDGET[0]])
                    if after[n.id] is evalt.POISON or c.op == "eq" and after[c.id] == val[c.id]:
                        continue
                    yield new
                    env = new
                    done = True
                    break
                if done and rng.random() < 0.7:
                    break
