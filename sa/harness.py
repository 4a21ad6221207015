"""Obligations, verdicts, evidence and known findings."""

import json
import os
import pickle
import itertools
import random
import sys
import time
import traceback

from . import canon as K
from . import aim
from . import evalt
from . import term as T
from .machine import Machine
from .values import *  # noqa: F401,F403
from .values import (Alt, Arr, ArrView, B, Bound, Char, Dec, DType, Exc, ExtArr, ExtRec, Func, I, NpType, Obj, Opq, PDict,
                     PList, Pick, Rec, RecSel, Sc, SStr, UNDEF, Unsupported, Cls, Module, Builtin, FLOATS)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NPP_SA_REPO", "/repo")
MODES = ("numba", "numpy")


# exceptions that a module body raises on its own account
IMPORT_ERRORS = {"IndexError", "KeyError", "AssertionError", "ValueError", "ZeroDivisionError", "AttributeError", "NameError", "OverflowError",
                 "FileNotFoundError", "NumbaNotImplementedError", "UnboundLocalError", "UnicodeDecodeError", "ImportError", "ModuleNotFoundError"}


class Anchor(Exception):
    """a public construct the property is anchored at is missing"""


# ------------------------------------------------------------------ value trees
def under(g, v):
    """what a conditional value is where g holds"""
    while isinstance(v, Alt) and g is not T.TRUE:
        known = {g}
        if g.op == "and":
            known |= set(g.args)
        if v.c in known:
            v = v.a
        elif T.not_(v.c) in known:
            v = v.b
        else:
            break
    return v


def tree(m, v, depth=0):
    """nested tuples of nodes/constants describing an abstract value"""
    if depth > 40:
        raise Unsupported("value too deep")
    if isinstance(v, T.N):
        return v
    if isinstance(v, Sc):
        return ("f" if v.dt in FLOATS else "i", v.n)
    if v is None or isinstance(v, (str, bytes, int, float)):
        return ("k", v)
    if isinstance(v, Alt):
        return ("alt", v.c, tree(m, v.a, depth + 1), tree(m, v.b, depth + 1))
    if isinstance(v, (tuple, list)):
        return ("seq", tuple((T.TRUE, tree(m, x, depth + 1)) for x in v))
    if isinstance(v, PList):
        return ("seq", tuple((g, tree(m, under(g, x), depth + 1)) for g, x in v.items))
    if isinstance(v, PDict):
        return ("map", tuple(sorted(((repr(k), tree(m, x, depth + 1)) for k, (_, x) in v.d.items()), key=lambda t: t[0])))
    if isinstance(v, dict):
        return ("map", tuple(sorted(((repr(k), tree(m, x, depth + 1)) for k, x in v.items()), key=lambda t: t[0])))
    if isinstance(v, Arr):
        return ("seq", tuple((T.TRUE, tree(m, Sc(v.dtype.dt, x) if isinstance(x, T.N) else x, depth + 1)) for x in v.data))
    if isinstance(v, Rec):
        return ("map", tuple((f, tree(m, v.d.get(f), depth + 1)) for f, _ in sorted(v.dtype.fields, key=lambda t: t[0])))
    if isinstance(v, SStr):
        return ("str", tuple(tree(m, p, depth + 1) for p in v.parts))
    if isinstance(v, Char):
        return ("chr", v.code)
    if isinstance(v, Dec):
        return ("dec", v.n, v.spec)
    if isinstance(v, Pick):
        return ("pick", v.idx, v.table)
    if isinstance(v, Opq):
        return ("opq", v.head, tuple(tree(m, x, depth + 1) for x in v.args))
    if isinstance(v, Obj):
        return ("obj", v.cls.name, tuple(sorted(((k, tree(m, x, depth + 1)) for k, x in v.d.items()), key=lambda t: t[0])))
    if isinstance(v, (ArrView, RecSel, ExtRec)):
        mv = m.materialise(v) if isinstance(v, ArrView) else None
        if mv is not None and not isinstance(mv, ArrView):
            return tree(m, mv, depth + 1)
        if isinstance(v, ExtRec):
            return ("extrec", v.arr.name, v.idx)
        return ("map", tuple((f, tree(m, m.recsel_field(v, f), depth + 1)) for f, _ in sorted(v.recs[0].dtype.fields)))
    if isinstance(v, ExtArr):
        return ("k", "extarr:" + v.name)
    if isinstance(v, (Func, Cls, Module, Builtin, NpType, DType)):
        return ("k", repr(v))
    if v is UNDEF:
        return ("k", "<unbound>")
    raise Unsupported("cannot describe %s" % type(v).__name__)


def nodes_of(t, acc):
    if isinstance(t, T.N):
        acc.append(t)
    elif isinstance(t, tuple):
        for x in t:
            nodes_of(x, acc)
    return acc


def map_tree(t, f):
    if isinstance(t, T.N):
        return f(t)
    if isinstance(t, tuple):
        return tuple(map_tree(x, f) for x in t)
    return t


def canon_tree(t):
    if isinstance(t, T.N):
        return ("#", K.canon(t).id)
    if isinstance(t, tuple):
        if t and t[0] == "alt":
            c = K.canon(t[1])
            a, b = canon_tree(t[2]), canon_tree(t[3])
            if a == b:
                return a
            if c.bits is not None and not c.bits:
                return b if c.sign == K.ZERO else a
            if c is K.canon(T.TRUE):
                return a
            if (t[1].lo, t[1].hi) == (0, 1):
                o = K.canon(T.not_(t[1]))
                if o.id < c.id:
                    c, a, b = o, b, a
            return ("alt", ("#", c.id), a, b)
        if t and t[0] == "seq":
            out = []
            for g, x in t[1]:
                if g is T.FALSE or K.canon(g) is K.canon(T.FALSE):
                    continue
                out.append((canon_tree(g), canon_tree(x)))
            return ("seq", tuple(out))
        if t and t[0] == "str":
            return ("str", tuple(("#s", K.canon(x[1]).id) if isinstance(x, tuple) and x[0] == "chr" else canon_tree(x)
                                 for x in t[1]))
        return tuple(canon_tree(x) for x in t)
    return t


class Undefined(Exception):
    pass


def concrete(t, val):
    """value of a tree under a valuation of its nodes"""
    if isinstance(t, T.N):
        v = val[t.id]
        if v is evalt.POISON:
            raise Undefined()
        return v
    if not isinstance(t, tuple) or not t:
        return t
    h = t[0]
    if h == "alt":
        return concrete(t[2], val) if concrete(t[1], val) else concrete(t[3], val)
    if h == "i":
        return concrete(t[1], val)
    if h == "f":
        return ("float", repr(concrete(t[1], val)))
    if h == "k":
        return t[1]
    if h == "seq":
        return ["seq"] + [concrete(x, val) for g, x in t[1] if g is T.TRUE or concrete(g, val)]
    if h == "map":
        return {k: concrete(x, val) for k, x in t[1]}
    if h == "str":
        return "".join(str(concrete(x, val)) for x in t[1])
    if h == "chr":
        v = concrete(t[1], val)
        return chr(v) if 0 <= v < 0x110000 else "<%d>" % v
    if h == "dec":
        return format(concrete(t[1], val), t[2] or "")
    if h == "pick":
        i = concrete(t[1], val)
        return t[2][i] if 0 <= i < len(t[2]) else "<index %d>" % i
    if h == "opq":
        return ["opq", t[1]] + [concrete(x, val) for x in t[2]]
    if h == "extrec":
        return ["extrec", t[1], concrete(t[2], val)]
    if h == "obj":
        return {"<class>": t[1], **{k: concrete(x, val) for k, x in t[2]}}
    raise Unsupported("tree " + str(h))


# operations on unknown data whose results differ whenever they are different operations
PLAIN_OPAQUE = {"decode", "slice", "buffer", "item"}


def diff(a, b, path="result"):
    """first differing component of two concrete trees"""
    if type(a) is type(b):
        if isinstance(a, dict):
            for k in sorted(set(a) | set(b), key=str):
                if k not in a or k not in b:
                    return "%s.%s present only on one side" % (path, k)
                if a[k] != b[k]:
                    return diff(a[k], b[k], "%s.%s" % (path, k))
        elif isinstance(a, list):
            if a and b and a[0] == b[0] == "opq" and a[1] != b[1] and not {a[1], b[1]} <= PLAIN_OPAQUE:
                raise Unsupported("%s and %s cannot be compared" % (a[1], b[1]))
            if len(a) != len(b):
                return "%s: %d elements, expected %d" % (path, len(a) - 1, len(b) - 1)
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return diff(x, y, "%s[%d]" % (path, i - 1))
    return "%s is %s, expected %s" % (path, brief(a), brief(b))


def brief(x):
    s = hex(x) if isinstance(x, int) and abs(x) > 255 else repr(x)
    return s if len(s) < 160 else s[:160] + "..."


class Side:
    """outcome of evaluating a thunk in a machine"""

    def __init__(self, m, r, ignore=()):
        self.m = m
        self.normal = r.normal
        self.raises = [(c, e) for c, e in r.raises if c is not T.FALSE and e.name not in ignore]
        self.value = r.value
        self.tree = tree(m, r.value) if r.normal else ("k", "<no value>")

    def substituted(self, mp):
        s = object.__new__(Side)
        s.m, s.normal, s.value = self.m, self.normal, self.value
        cache = dict(mp)
        s.tree = map_tree(self.tree, lambda n: T.subst(n, {}, cache))
        s.raises = [(T.subst(c, {}, cache), e) for c, e in self.raises]
        return s

    def roots(self):
        acc = nodes_of(self.tree, [])
        acc += [c for c, _ in self.raises]
        return acc

    def ckey(self):
        rs = []
        false = K.canon(T.FALSE)
        for c, e in self.raises:
            k = K.canon(c)
            if k is not false:
                rs.append((e.name, k.id))
        return (canon_tree(self.tree) if self.normal else None, tuple(sorted(rs)))

    def outcome(self, val):
        for c, e in self.raises:
            v = val[c.id] if c.op != "c" else c.args[0]
            if v is evalt.POISON:
                raise Undefined()
            if v:
                return ("raise", e.name, e.where)
        if not self.normal:
            return ("raise", "?", None)
        return ("value", concrete(self.tree, val))


# ------------------------------------------------------------------ valuations
def mined(roots):
    """constants each input is compared with or divided by"""
    out = set()
    rel = set()
    for n in T.reachable(roots).values():
        for c in T.children(n):
            if c.op == "c" and n.op in ("eq", "lt", "div", "mod", "and", "add"):
                v = c.args[0]
                if n.op == "add":
                    v = -v
                if len(out) < 4000:
                    out.update((v - 1, v, v + 1))
        if n.op == "sel":
            rel.add(len(n.args[1]))
        if n.op == "loop":
            for b in list(T.loopinfo(n).body) + [T.loopinfo(n).cond]:
                if b is None:
                    continue
                for x in T.reachable([b]).values():
                    for c in T.children(x):
                        if c.op == "c" and x.op in ("eq", "lt", "div", "mod"):
                            out.update((c.args[0] - 1, c.args[0], c.args[0] + 1))
    for r in rel:
        out.update((r - 1, r))
    return sorted(out)


def draw(rng, v, consts, k, total):
    if v.sort != "i":
        return T.f32(rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-100, 100), float(rng.randrange(1 << 20))])) \
            if v.sort == "f32" else rng.choice([0.0, 1.0, rng.uniform(-1e6, 1e6)])
    lo = v.lo if v.lo is not None else -(1 << 70)
    hi = v.hi if v.hi is not None else 1 << 70
    if k == 0:
        return lo if lo > 0 or v.lo is not None else 0
    if k == 1:
        return hi
    p = rng.random()
    if p < 0.5:
        return rng.randint(lo, hi)
    if p < 0.62:
        return min(hi, max(lo, rng.choice((lo, hi, lo + 1, hi - 1, (lo + hi) // 2))))
    if p < 0.78 and consts:
        for _ in range(4):
            c = rng.choice(consts)
            if lo <= c <= hi:
                return c
    if p < 0.92:
        w = (hi - lo).bit_length()
        x = lo + rng.getrandbits(rng.randint(0, w) or 1)
        return x if lo <= x <= hi else rng.randint(lo, hi)
    w = max((hi - lo).bit_length(), 1)
    x = (1 << rng.randrange(w)) * rng.choice((1, 1, 3, -1)) + rng.choice((0, 0, -1, 1))
    return x if lo <= x <= hi else rng.randint(lo, hi)


def finite(vs, roots, limit):
    """all tuples of values of the variables, if there are few"""
    size = 1
    for v in vs:
        if v.sort != "i" or v.lo is None or v.hi is None:
            return None
        size *= v.hi - v.lo + 1
        if size > limit:
            return None
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ext":
            return None
        st.extend(T.children(x))
    return list(itertools.product(*(range(v.lo, v.hi + 1) for v in vs)))


# ------------------------------------------------------------------ check
class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obl = []
        self.violations = []
        self.known_hits = []
        self.undecided = []
        self.assumptions = []
        self.machines = []
        self.counters = {}
        self.findings = self._load_known()
        self.thorough = self.tier == "thorough"
        self._mach = {}
        self.valuations = 0
        self.aimed = 0
        self.skipped = 0
        self.worker, self.claims, self.depth, self.turn = None, None, 0, 0
        self.spent, self.taken = False, 0
        self.marks = {f: [] for f in self.FIELDS}
        self.extra_functions = set()
        self.extra_stats = {}

    # ---- known findings
    def _load_known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                ln = ln.strip()
                if ln.startswith("KNOWN-FINDING: property=%s " % self.pid):
                    rest = ln.split(" ", 2)[2]
                    key, _, text = rest.partition(" | ")
                    out.append((key.strip(), text.strip()))
        return out

    # ---- machines
    def machine(self, mode, fresh=False, pyver=(3, 12), **hooks):
        key = (mode, pyver, tuple(sorted(hooks)))
        if not fresh and key in self._mach:
            return self._mach[key]
        m = Machine(mode, REPO, pyver=pyver, hooks=hooks)
        m.spec_roots = {"spec": VERIF}
        self.machines.append(m)
        if not fresh:
            self._mach[key] = m
        return m

    def module(self, m, name):
        full = "numba_pokemon_prngs" + ("." + name if name else "")
        r = m.run(lambda: m.import_module(full))
        if not r.normal or any(c is T.TRUE for c, _ in r.raises):
            e = r.raises[-1][1] if r.raises else None
            if e is not None and e.name in IMPORT_ERRORS:
                self.violation("%s/module %s can be imported" % (m.mode, full), full.replace(".", "/"),
                               "the import always raises %s %s" % (e.name, " ".join(map(str, e.args or ()))), "reachability of an exception")
            raise Anchor("module %s cannot be imported in %s mode: %s %s" % (full, m.mode, e, e.args if e else ""))
        return r.value

    def attr(self, mod, name):
        v = mod.env.d.get(name)
        if v is None:
            raise Anchor("%s has no %s" % (mod.name, name))
        return v

    def spec(self, m, name, fn, *args):
        """call a reference function interpreted by the same machine"""
        mod = m.import_module("spec." + name)
        return m.call(mod.env.d[fn], list(args), {})

    # ---- recording
    def record(self, name, status, where=None, detail=None, rule="value-graph equivalence"):
        self.obl.append({"obligation": name, "status": status, "where": where, "detail": detail, "rule": rule})
        self._mark("obl")

    def violation(self, key, where, detail, rule, data=None):
        for k, text in self.findings:
            if k == key:
                self.known_hits.append((key, text))
                self._mark("known_hits")
                self.record(key, "known-finding", where, detail, rule)
                return
        self.violations.append({"key": key, "where": where, "detail": detail, "rule": rule, "data": data})
        self._mark("violations")
        if self.claims is not None:
            open(os.path.join(self.claims, "found"), "w").close()
        self.record(key, "violated", where, detail, rule)

    def undecide(self, key, why):
        self.undecided.append({"obligation": key, "reason": why})
        self._mark("undecided")
        self.record(key, "undecided", None, why)

    def fact(self, key, ok, where=None, detail=None, rule="structural rule"):
        if ok:
            self.record(key, "proven", where, None, rule)
        else:
            self.violation(key, where, detail or key, rule)
        return ok

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    # ---- evaluation of thunks
    def run(self, m, thunk, ignore=()):
        r = m.run(thunk)
        return Side(m, r, ignore)

    def equiv(self, key, where, impl, spec, assume=(), confirm=None, n=None, prove=True, ignore_undefined=False, vary=(), alts=()):
        """impl and spec are Sides; decide that they denote the same outcome for every input"""
        t0 = time.time()
        K.reset(4000)
        assume = [a for a in assume if a is not T.TRUE]
        proven = False
        if impl.normal != spec.normal and not impl.raises and not spec.raises:
            self.violation(key, where, "no outcome", "value-graph equivalence")
            return False
        if prove:
            try:
                ik = impl.ckey()
                proven = ik == spec.ckey() or any(ik == a.ckey() for a in alts)
            except RecursionError:
                proven = False
            except Unsupported:
                proven = False
        if prove and not proven and impl.normal and spec.normal and self.split(impl, spec):
            proven = True
        if proven:
            self.record(key, "proven", where)
            return True
        if prove and self.trips(key, where, impl, [spec] + list(alts), assume):
            return False
        roots = impl.roots() + spec.roots() + list(assume)
        if not roots:
            try:
                a, b = impl.outcome({}), spec.outcome({})
            except Undefined:
                a, b = "undefined", None
            if a[:2] == b[:2] if a[0] == "raise" else a == b:
                self.record(key, "proven", where)
                return True
            self._report(key, where, a, b, {})
            return False
        ev = evalt.Evaluator(roots)
        vs = sorted(T_vars(ev.vars), key=lambda v: v.args[0])
        consts = mined(roots)
        rng = random.Random("%s/%s/%s" % (self.seed, self.pid, key))
        total = n or (1500 if self.thorough else 260)
        limit = (60 if self.thorough else 8)
        domain = None if vary else finite(vs, roots, 60000 if self.thorough else 6000)
        if domain is not None:
            total, limit = len(domain), max(limit, 40)
        tally = {"good": 0, "bad": 0, "und": 0, "out": 0}
        first = []

        def test(env, k):
            budget = [evalt.BUDGET[0] * (8 if self.thorough else 2)]
            evalt.SALT[0], evalt.POOL[0] = (k, consts) if k else (None, ())
            try:
                val = ev.plan.run({}, env, budget)
            finally:
                evalt.SALT[0], evalt.POOL[0] = None, ()
            if budget[0] < 0:
                self.skipped += 1
                return
            if any(val[a.id] is evalt.POISON or not val[a.id] for a in assume):
                tally["out"] += 1
                return
            try:
                b = spec.outcome(val)
            except Undefined:
                tally["out"] += 1
                return
            try:
                a = impl.outcome(val)
            except Undefined:
                tally["und"] += 1
                if ignore_undefined:
                    return
                a = ("undefined", "the value is undefined (division by zero, out-of-range shift or index)")
            self.valuations += 1
            if a[:2] == b[:2]:
                tally["good"] += 1
            else:
                tally["bad"] += 1
                first.append((a, b, env))
        tried = 0
        start = time.time()
        while tried < total * 4 and tally["good"] + tally["bad"] < total:
            if time.time() - start > limit and tally["good"] + tally["bad"] >= 12:
                break
            if time.time() - start > 4 * limit:
                break
            if domain is not None:
                if tried >= len(domain):
                    break
                env = dict(zip((v.args[0] for v in vs), domain[tried]))
            else:
                env = {v.args[0]: draw(rng, v, consts, tried, total) for v in vs}
            for f in vary:
                f(rng, env, tried)
            test(env, tried)
            tried += 1
            if first and (confirm is None or tally["bad"] > 20 and tally["good"] > 20):
                break
        good, bad, out = tally["good"], tally["bad"], tally["out"]
        if not bad and domain is None and prove:
            def start_env():
                e = {v.args[0]: draw(rng, v, consts, 2, total) for v in vs}
                for f in vary:
                    f(rng, e, tried)
                return e
            try:
                cs = aim.culprits(impl.roots(), spec.roots())
                stop = time.time() + limit / 2
                for k, env in enumerate(aim.valuations(cs, start_env, rng, 40 if self.thorough else 10)):
                    test(env, 0 if k & 1 else tried + k)
                    self.aimed += 1
                    if first or time.time() > stop:
                        break
            except (RecursionError, KeyError, TypeError):
                pass
            if first:
                self._report(key, where, *first[0])
                return False
        if bad:
            if confirm is not None and bad * 2 > good + bad:
                # a change of representation: decide on the observable sequence instead
                return confirm(first[0])
            self._report(key, where, *first[0])
            return False
        if good == 0:
            self.undecide(key, "no valuation satisfies the preconditions within the budget")
            return True
        if domain is not None and good + out == len(domain):
            self.record(key, "proven", where, "equal for each of the %d values of its finite domain" % good)
            return True
        self.record(key, "unproven", where, "%d term valuations agree; no canonical proof" % good)
        return True

    def trips(self, key, where, impl, specs, assume):
        """loops that agree with the reference except for how often they run: decide the counts"""
        def loops(side):
            out = {}
            for n in T.reachable(side.roots()).values():
                if n.op == "loop" and T.loopinfo(n).trip is not None:
                    out.setdefault(n.args[0], []).append(n)
            return out
        try:
            mine = loops(impl)
            for spec in specs:
                theirs = loops(spec)
                if not mine or not theirs or len(mine) * len(theirs) > 12:
                    continue
                want = spec.ckey()
                for ns in mine.values():
                    li = T.loopinfo(ns[0])
                    for ms in theirs.values():
                        t2 = T.loopinfo(ms[0]).trip
                        if K.canon(li.trip) is K.canon(t2) or t2.phs or li.trip.phs:
                            continue
                        new = T.loop_cached(li, li.inits, li.cond, li.body, t2)
                        if impl.substituted({n.id: new[n.args[1]] for n in ns}).ckey() != want:
                            continue
                        ev = evalt.Evaluator([li.trip, t2] + list(assume))
                        vs = sorted(T_vars(ev.vars), key=lambda v: v.args[0])
                        consts = mined([li.trip, t2])
                        rng = random.Random("%s/%s/%s/trips" % (self.seed, self.pid, key))
                        for k in range(2000):
                            env = {v.args[0]: draw(rng, v, consts, k, 2000) for v in vs}
                            val = ev.plan.run({}, env, [evalt.BUDGET[0]])
                            if any(val[a.id] is evalt.POISON or not val[a.id] for a in assume):
                                continue
                            a, b = val[li.trip.id], val[t2.id]
                            if b is evalt.POISON:
                                continue
                            if a is evalt.POISON or max(a, 0) != max(b, 0):
                                ws = ", ".join("%s=%s" % (x, hex(v) if isinstance(v, int) else v) for x, v in sorted(env.items())[:14])
                                self.violation(key, where, "the loop at %s runs %s times, %s are required" % (li.where, a, b),
                                               "loop trip count", {"valuation": env, "summary": ws})
                                return True
        except (RecursionError, Unsupported):
            pass
        return False

    def split(self, impl, spec, depth=2):
        """case distinction on a condition both graphs branch on"""
        reach = T.reachable(impl.roots() + spec.roots())
        if len(reach) > 6000:
            return False
        groups = {}
        for n in reach.values():
            if n.op == "ite" and not n.phs:
                c = n.args[0]
                g = groups.setdefault(K.canon(c).id, [0, {}])
                g[0] += 1
                g[1][c.id] = c
        for cid, (cnt, ns) in sorted(groups.items(), key=lambda t: -t[1][0])[:2]:
            if K.canon(T.C(1)).id == cid or K.canon(T.C(0)).id == cid:
                continue
            ok = True
            for v in (T.TRUE, T.FALSE):
                mp = {i: v for i in ns}
                a, b = impl.substituted(mp), spec.substituted(mp)
                if a.ckey() != b.ckey() and not (depth > 1 and self.split(a, b, depth - 1)):
                    ok = False
                    break
            if ok:
                return True
        return False

    def _report(self, key, where, a, b, env):
        if a[0] == "raise":
            d = "raises %s at %s, expected %s" % (a[1], a[2], brief(b[1]) if b[0] == "value" else "raise " + str(b[1]))
        elif a[0] == "undefined":
            d = a[1]
        elif b[0] == "raise":
            d = "returns %s, expected %s to be raised" % (brief(a[1]), b[1])
        else:
            d = diff(a[1], b[1])
        w = {k: v for k, v in sorted(env.items())}
        ws = ", ".join("%s=%s" % (k, hex(v) if isinstance(v, int) else v) for k, v in list(w.items())[:14])
        self.violation(key, where, d, "value-graph equivalence", {"valuation": w, "summary": ws})

    def valid(self, key, where, side, pred, assume=(), n=None, prove=None, rule="value-range obligation", vary=()):
        """pred(node list)->bool node must hold for every input, and nothing may be raised"""
        cond = pred
        K.reset(4000)
        roots = [cond] + [c for c, _ in side.raises] + list(assume)
        k = K.canon(cond)
        live = [(c, e) for c, e in side.raises if K.canon(c) is not K.canon(T.FALSE)]
        if k is K.canon(T.TRUE) and not live:
            self.record(key, "proven", where, None, rule)
            return True
        ev = evalt.Evaluator(roots)
        vs = sorted(T_vars(ev.vars), key=lambda v: v.args[0])
        consts = mined(roots)
        rng = random.Random("%s/%s/%s" % (self.seed, self.pid, key))
        total = n or (3000 if self.thorough else 400)
        good = 0
        start = time.time()
        limit = (60 if self.thorough else 8)
        tried = 0
        while tried < total * 4 and good < total and time.time() - start < limit:
            env = {v.args[0]: draw(rng, v, consts, tried, total) for v in vs}
            for f in vary:
                f(rng, env, tried)
            tried += 1
            budget = [evalt.BUDGET[0] * (8 if self.thorough else 2)]
            val = ev.plan.run({}, env, budget)
            if budget[0] < 0:
                self.skipped += 1
                continue
            if any(val[a.id] is evalt.POISON or not val[a.id] for a in assume):
                continue
            self.valuations += 1
            r = [e for c, e in live if val[c.id]]
            if r:
                self._report(key, where, ("raise", r[0].name, r[0].where), ("value", "a value"), env)
                return False
            if val[cond.id] is evalt.POISON or not val[cond.id]:
                ws = ", ".join("%s=%s" % (k2, hex(v) if isinstance(v, int) else v) for k2, v in sorted(env.items())[:14])
                self.violation(key, where, "the required relation is false", rule, {"valuation": env, "summary": ws})
                return False
            good += 1
        if good == 0:
            self.undecide(key, "no valuation satisfies the preconditions within the budget")
        else:
            self.record(key, "unproven", where, "%d term valuations satisfy the relation" % good, rule)
        return True

    def guard(self, key, fn):
        """run an obligation builder; constructs outside the analysed language leave it undecided"""
        if self.depth == 0:
            self.turn += 1
            if self.claims is not None:
                if not self.spent and self.taken and resident() > self.ROOM:
                    self.spent = True
                if self.spent:
                    return None
                try:
                    fd = os.open(os.path.join(self.claims, str(self.turn)), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
                except FileExistsError:
                    return None
                self.taken += 1
                os.write(fd, str(self.worker).encode())
                os.close(fd)
                passed = time.time() - self.t0
                if passed > self.SETTLE and os.path.exists(os.path.join(self.claims, "found")):
                    self.record(key, "left", None, "not examined: a violation was found before")
                    return None
                if passed > self.DEADLINE and not self.thorough:
                    self.undecide(key, "not examined: the time of a quick run is spent")
                    return None
        self.depth += 1
        try:
            return fn()
        except Unsupported as e:
            self.undecide(key, "outside the analysed language: %s" % e)
        except RecursionError:
            self.undecide(key, "term nesting too deep")
        except Abrupt:
            self.undecide(key, "setting the operation up raises")
        finally:
            self.depth -= 1
        return None

    # ---- a check in several forked processes, each deciding the obligations it claims first
    FIELDS = ("obl", "violations", "known_hits", "undecided")
    SETTLE = 75  # seconds after which a check that has found a violation examines nothing more
    DEADLINE = 600  # seconds after which a quick run leaves what remains undecided
    ROOM = 2300  # MB held by a worker after which it leaves the rest to a successor

    def parallel(self, body, workers=None):
        import shutil
        import tempfile
        import warnings
        workers = workers or min(8, os.cpu_count() or 1)
        if workers < 2 or os.environ.get("NPP_SA_SERIAL"):
            body()
            return
        warnings.simplefilter("ignore")
        sys.stdout.flush()
        claims = tempfile.mkdtemp(prefix="npp_sa_")
        try:
            running, results, lost, started = {}, [], 0, 0

            def start(k=None):
                nonlocal started
                if k is None:
                    k, started = started, started + 1
                out = os.path.join(claims, "out%d" % k)
                pid = os.fork()
                if pid == 0:
                    self._worker(k, claims, out, body)
                running[pid] = k, out
            for _ in range(workers):
                start()
            while running:
                pid, _ = os.wait()
                if pid not in running:
                    continue
                k, out = running.pop(pid)
                if os.path.exists(out):
                    with open(out, "rb") as f:
                        results.append(pickle.load(f))
                    if results[-1]["spent"]:
                        start()
                    continue
                lost += 1
                if lost > 12:
                    raise RuntimeError("workers end without a result (out of memory?)")
                for name in os.listdir(claims):
                    path = os.path.join(claims, name)
                    if name.isdigit() and open(path).read() == str(k):
                        os.remove(path)
                if k == 0 or len(running) < 2:
                    start(k if k == 0 else None)
            names = [n for n in os.listdir(claims) if n.isdigit()]
            if not any(d["err"] for d in results) and len(names) != max(d["turns"] for d in results):
                raise RuntimeError("%d of %d obligations were left out" % (max(d["turns"] for d in results) - len(names), max(d["turns"] for d in results)))
        finally:
            shutil.rmtree(claims, ignore_errors=True)
        merged = {f: [] for f in self.FIELDS}
        anchor = None
        for d in results:
            if d["err"] and d["err"][0] == "error":
                raise RuntimeError(d["err"][1])
            if d["err"] and anchor is None:
                anchor = d["err"][1]
            for f in self.FIELDS:
                merged[f].extend(d[f])
            for k, v in d["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            self.valuations += d["valuations"]
            self.aimed += d["aimed"]
            self.skipped += d["skipped"]
            self.extra_functions |= d["funcs"]
            for k, v in d["stats"].items():
                self.extra_stats[k] = self.extra_stats.get(k, 0) + v
        for f in self.FIELDS:
            merged[f].sort(key=lambda t: t[0])
            setattr(self, f, [x for _, x in merged[f]])
        if anchor is not None:
            raise Anchor(anchor)

    def _worker(self, k, claims, out, body):
        code = 1
        try:
            self.worker, self.claims = k, claims
            err = None
            try:
                body()
            except Anchor as e:
                err = ("anchor", str(e))
            except BaseException:
                err = ("error", traceback.format_exc())
            funcs, stats = set(), {}
            for m in self.machines:
                funcs |= set(str(f) for f in m.stats["functions"])
                for key, v in m.stats.items():
                    if isinstance(v, int):
                        stats[key] = stats.get(key, 0) + v
            for v in self.violations:
                if v.get("data"):
                    v["data"] = {"valuation": {str(a): str(b) for a, b in (v["data"].get("valuation") or {}).items()},
                                 "summary": str(v["data"].get("summary", ""))}
            d = {f: [(i, x) for i, x in zip(self.marks[f], getattr(self, f))] for f in self.FIELDS}
            d.update(spent=self.spent, turns=self.turn, counters=self.counters, valuations=self.valuations, aimed=self.aimed, skipped=self.skipped, funcs=funcs, stats=stats, err=err)
            with open(out + ".part", "wb") as f:
                pickle.dump(d, f)
            os.rename(out + ".part", out)
            code = 0
        finally:
            os._exit(code)

    def _mark(self, f):
        """where in the sequence of obligations the latest entry of list f was made; outside any, only one worker keeps it"""
        if self.depth == 0 and self.worker:
            getattr(self, f).pop()
        else:
            self.marks[f].append(self.turn)

    # ---- end
    def finish(self, level="other", explanation="", extra=None):
        ev_path = os.path.join(VERIF, "evidence", self.pid + ".json")
        os.makedirs(os.path.dirname(ev_path), exist_ok=True)
        st = {}
        for o in self.obl:
            st[o["status"]] = st.get(o["status"], 0) + 1
        funcs = set(self.extra_functions)
        stats = dict(self.extra_stats)
        for m in self.machines:
            funcs |= set(str(f) for f in m.stats["functions"])
            for k, v in m.stats.items():
                if isinstance(v, int):
                    stats[k] = stats.get(k, 0) + v
        cov = {
            "explanation": explanation,
            "rule": "value graph of every analysed function compared with the reference value graph",
            "obligations": len(self.obl),
            "discharged": st.get("proven", 0),
            "obligation_status": st,
            "functions_analysed": len(funcs),
            "functions": sorted(str(f) for f in funcs)[:300],
            "engine": stats,
            "term_valuations": self.valuations,
            "aimed_valuations": self.aimed,
            "valuations_skipped_for_budget": self.skipped,
            "undecided": self.undecided,
            "unproven": [o["obligation"] for o in self.obl if o["status"] == "unproven"],
            "obligation_list": [(o["obligation"], o["status"], o["where"]) for o in self.obl][:600],
            "counters": self.counters,
            "known_findings": [k for k, _ in self.known_hits],
        }
        cov.update(extra or {})
        doc = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
               "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
               "assumptions": self.assumptions, "violations": len(self.violations)}
        cov["violations"] = [{k: v for k, v in x.items() if k != "data"} for x in self.violations]
        json.dump(doc, open(ev_path, "w"), indent=1, default=str)
        seen = set()
        for k, text in self.known_hits:
            if k not in seen:
                seen.add(k)
                print("KNOWN-FINDING: property=%s %s | %s" % (self.pid, k, text))
        print("%s: %d obligations: %s; %d functions, %d valuations, %.1fs" % (
            self.pid, len(self.obl), ", ".join("%d %s" % (v, k) for k, v in sorted(st.items())), len(funcs),
            self.valuations, time.time() - self.t0))
        for u in self.undecided[:20]:
            print("  undecided %s: %s" % (u["obligation"], u["reason"]))
        if self.violations:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
            json.dump(self.violations, open(rp, "w"), indent=1, default=str)
            for v in self.violations[:25]:
                print("  %s: %s" % (v["where"] or "?", v["key"]))
                print("    rule: %s; %s" % (v["rule"], v["detail"]))
                if v.get("data") and v["data"].get("summary"):
                    print("    at %s" % v["data"]["summary"])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if not self.obl or (st.get("undecided", 0) == len(self.obl)):
            print("error: nothing could be decided")
            return 2
        return 0


def resident():
    """megabytes of memory held by this process"""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20


def T_vars(vs):
    return list(vs.values()) if isinstance(vs, dict) else list(vs)


def main(pid):
    sys.setrecursionlimit(60000)
    import importlib
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def body():
        ck = Check(pid)
        try:
            mod = importlib.import_module("checks." + pid.lower())
            ck.parallel(lambda: mod.run(ck))
            rc[0] = ck.finish(getattr(mod, "LEVEL", "other"), getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()),
                              getattr(mod, "EXTRA", None))
        except Anchor as e:
            print("error: %s" % e)
            ck.undecide("anchor", str(e))
            ck.finish()
            rc[0] = 1 if ck.violations else 2
        except Exception:
            traceback.print_exc()
            rc[0] = 2
    t = threading.Thread(target=body)
    t.start()
    t.join()
    return rc[0]
