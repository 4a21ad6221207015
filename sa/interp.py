"""Abstract interpreter: builds gated value graphs from Python source.

Every construct is evaluated over abstract values (values.py); branches are
joined at their merge points into `ite` gates, loops whose trip count is not a
constant become loop nodes.  No program code is executed."""

import ast
import os
from . import term as T
from .values import *
from . import arith as A
from . import canon as K

MISSING = object()


class Out:
    __slots__ = ("cond", "kind", "val", "state")

    def __init__(self, cond, kind, val, state):
        self.cond, self.kind, self.val, self.state = cond, kind, val, state


class Ctx:
    __slots__ = ("kind", "cond", "outs", "j", "birth", "undo", "frame", "tag")

    def __init__(self, kind, cond=None):
        self.kind, self.cond = kind, cond
        self.outs = []
        self.j = {}
        self.birth = birth_now()
        self.undo = []
        self.frame = None
        self.tag = None


class Frame:
    __slots__ = ("func", "env", "node", "jit", "locals", "tree")

    def __init__(self, func, env, jit, tree=None):
        self.func, self.env, self.jit, self.tree = func, env, jit, tree
        self.node = None
        self.locals = None


class SymIter:
    """iteration space of symbolic length: elem(k) for k < n"""
    __slots__ = ("n", "elem")

    def __init__(self, n, elem):
        self.n, self.elem = n, elem


RECEIVER = {"return": ("call",), "break": ("loop",), "continue": ("iter",), "raise": ("try", "top")}


def local_names(node):
    r = getattr(node, "_locals", None)
    if r is not None:
        return r
    names, glob, nonloc = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        names.add(x.arg)
    inner = [False]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            inner[0] = True
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            inner[0] = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            walk(n.generators[0].iter)
            inner[0] = True
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    names.add(s.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    r = (frozenset(names - glob - nonloc), frozenset(glob), frozenset(nonloc), inner[0])
    node._locals = r
    return r


def has_jump(stmts):
    """whether a statement list contains break/continue of its own loop"""
    def walk(n, top):
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        if isinstance(n, (ast.For, ast.While)):
            return any(walk(s, False) for s in n.orelse)
        return any(walk(c, False) for c in ast.iter_child_nodes(n))
    return any(walk(s, True) for s in stmts)


class MachineBase:
    def __init__(self, mode, root, pyver=(3, 12), package="numba_pokemon_prngs"):
        self.mode, self.root, self.pyver, self.package = mode, root, pyver, package
        self.modules = {}
        self.ctxs = [Ctx("top")]
        self.frames = []
        self.cut = None
        self.knownmap = {}
        self.rmap = {}
        self.jit = False
        self.events = []
        self.stats = {"functions": set(), "loops": 0, "stmts": 0, "calls": 0}
        self.fuel = 80_000_000
        self.hooks = {}
        self.spec_roots = {}
        self.trial_depth = 0

    # ------------------------------------------------------------ locations
    def where(self):
        for f in reversed(self.frames):
            if f.node is not None:
                p = getattr(f.env, "name", "")
                return "%s:%d %s" % (self._file(f), f.node.lineno, f.func)
        return "<module>"

    def _file(self, f):
        mod = f.env
        while mod.parent is not None and mod.kind != "module":
            mod = mod.parent
        return mod.name

    def unsupported(self, what):
        raise Unsupported("%s (%s)" % (what, self.where()))

    # ------------------------------------------------------------ contexts
    def push(self, kind, cond=None):
        c = Ctx(kind, cond)
        self.ctxs.append(c)
        return c

    def pop(self, c):
        top = self.ctxs.pop()
        assert top is c
        for mp, k, old in reversed(c.undo):
            if old is None:
                mp.pop(k, None)
            else:
                mp[k] = old
        if self.ctxs:
            p = self.ctxs[-1]
            pj = p.j
            for o, s in c.j.items():
                if o.birth <= p.birth and o not in pj:
                    pj[o] = s

    def touch(self, o):
        c = self.ctxs[-1]
        if o.birth <= c.birth and o not in c.j:
            c.j[o] = o.snap()

    def setmap(self, mp, k, v):
        self.ctxs[-1].undo.append((mp, k, mp.get(k)))
        mp[k] = v

    def assume(self, c, val):
        """record that boolean node c has value val in the current context"""
        if c.op == "c":
            return
        if c.op == "xor" and c.args[1].op == "c":
            return self.assume(c.args[0], not val)
        self.setmap(self.knownmap, c.id, val)
        if c.op == "and" and val or c.op == "or" and not val:
            self.assume(c.args[0], val)
            self.assume(c.args[1], val)
        elif c.op == "lt":
            a, b = c.args
            if val:
                self.refine(a, None, self._dec(self.rng(b)[1]))
                self.refine(b, self._inc(self.rng(a)[0]), None)
            else:
                self.refine(a, self.rng(b)[0], None)
                self.refine(b, None, self.rng(a)[1])
        elif c.op == "eq":
            a, b = c.args
            if val:
                la, ha = self.rng(a)
                lb, hb = self.rng(b)
                self.refine(a, lb, hb)
                self.refine(b, la, ha)
            elif b.op == "c":
                lo, hi = self.rng(a)
                k = b.args[0]
                if lo == k:
                    self.refine(a, k + 1, None)
                if hi == k:
                    self.refine(a, None, k - 1)

    @staticmethod
    def _inc(v):
        return None if v is None else v + 1

    @staticmethod
    def _dec(v):
        return None if v is None else v - 1

    def refine(self, n, lo, hi):
        if n.op == "c":
            return
        clo, chi = self.rng(n)
        nlo = clo if lo is None else lo if clo is None else max(lo, clo)
        nhi = chi if hi is None else hi if chi is None else min(hi, chi)
        if (nlo, nhi) == (clo, chi):
            return
        self.setmap(self.rmap, n.id, (nlo, nhi))
        if n.op == "add" and n.args[1].op == "c":
            k = n.args[1].args[0]
            self.refine(n.args[0], None if nlo is None else nlo - k, None if nhi is None else nhi - k)

    def rng(self, n, depth=5):
        lo, hi = n.lo, n.hi
        if not self.rmap or n.op == "c":
            return lo, hi
        r = self.rmap.get(n.id)
        if r is not None:
            lo = r[0] if lo is None else lo if r[0] is None else max(lo, r[0])
            hi = r[1] if hi is None else hi if r[1] is None else min(hi, r[1])
        if depth:
            op = n.op
            x = None
            if op == "add":
                a, b = self.rng(n.args[0], depth - 1), self.rng(n.args[1], depth - 1)
                x = (None if a[0] is None or b[0] is None else a[0] + b[0],
                     None if a[1] is None or b[1] is None else a[1] + b[1])
            elif op == "mul" and n.args[1].op == "c":
                a = self.rng(n.args[0], depth - 1)
                k = n.args[1].args[0]
                if None not in a:
                    x = (min(a[0] * k, a[1] * k), max(a[0] * k, a[1] * k))
            elif op == "shr" and n.args[1].op == "c":
                a = self.rng(n.args[0], depth - 1)
                k = n.args[1].args[0]
                x = (None if a[0] is None else a[0] >> k, None if a[1] is None else a[1] >> k)
            elif op == "ite":
                k = self.known(n.args[0])
                if k is not None:
                    x = self.rng(n.args[1] if k else n.args[2], depth - 1)
            if x is not None:
                lo = x[0] if lo is None else lo if x[0] is None else max(lo, x[0])
                hi = x[1] if hi is None else hi if x[1] is None else min(hi, x[1])
        return lo, hi

    def known(self, c, depth=6):
        if c.op == "c":
            return bool(c.args[0])
        r = self.knownmap.get(c.id)
        if r is not None:
            return r
        op = c.op
        if op == "xor" and c.args[1].op == "c" and c.args[1].args[0] == 1:
            r = self.known(c.args[0], depth)
            return None if r is None else not r
        if not depth:
            return None
        if op == "lt" and self.rmap:
            (la, ha), (lb, hb) = self.rng(c.args[0]), self.rng(c.args[1])
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
        elif op == "eq" and self.rmap:
            (la, ha), (lb, hb) = self.rng(c.args[0]), self.rng(c.args[1])
            if None not in (la, ha, lb, hb):
                if ha < lb or hb < la:
                    return False
                if la == ha == lb == hb:
                    return True
        elif op == "and" and (c.lo, c.hi) == (0, 1):
            a, b = self.known(c.args[0], depth - 1), self.known(c.args[1], depth - 1)
            if a is False or b is False:
                return False
            if a and b:
                return True
        elif op == "or" and (c.lo, c.hi) == (0, 1):
            a, b = self.known(c.args[0], depth - 1), self.known(c.args[1], depth - 1)
            if a or b:
                return True
            if a is False and b is False:
                return False
        return None

    def fold(self, c):
        k = self.known(c)
        return c if k is None else T.C(1 if k else 0)

    def ite(self, c, a, b):
        r = T.ite(c, a, b)
        if r.op != "ite":
            return r
        cc = r.args[0]
        if cc.op == "eq" and cc.args[1].op == "c" and cc.args[1].args[0] == 0 and r.sort == "i":
            x = cc.args[0]
            k = 0
            if x.op == "shr" and x.args[1].op == "c":
                k = x.args[1].args[0]
                x = x.args[0]
            if x.op in ("var", "ph") and x.lo == 0:
                t, e = r.args[1], r.args[2]
                key = (r.id,)
                hit = self._itememo.get(key)
                if hit is None:
                    try:
                        e2 = T.subst(e, {x.id: T.wrap(x, k, False) if k else T.C(0)}, {})
                        t2 = T.subst(t, {x.id: T.wrap(x, k, False) if k else T.C(0)}, {})
                        hit = e2 is t2 or K.same(e2, t2)
                    except RuntimeError:
                        hit = False
                    self._itememo[key] = hit
                if hit:
                    return e
        return r

    _itememo = {}

    # ------------------------------------------------------------ outs
    def relcond(self, r):
        cond = T.TRUE
        for c in self.ctxs[r + 1:]:
            if c.kind == "br":
                cond = T.and_(cond, c.cond)
            for o in c.outs:
                cond = T.and_(cond, T.not_(o.cond))
        return cond

    def receiver(self, kind):
        kinds = RECEIVER[kind]
        for r in range(len(self.ctxs) - 1, -1, -1):
            if self.ctxs[r].kind in kinds:
                return r
        self.unsupported("no receiver for " + kind)

    def record(self, kind, val, extra=None):
        r = self.receiver(kind)
        R = self.ctxs[r]
        cond = self.relcond(r)
        if extra is not None:
            cond = T.and_(cond, extra)
        if cond is T.FALSE:
            return
        objs = {}
        for c in self.ctxs[r:]:
            for o in c.j:
                objs[o] = None
        state = {o: o.snap() for o in objs}
        nb = birth_now()
        for c in self.ctxs[r:]:
            # from here on, objects created inside must be journalled as well
            c.birth = nb
        R.outs.append(Out(cond, kind, val, state))

    def leave(self, kind, val):
        self.record(kind, val)
        raise Abrupt()

    def finish(self, R, normal, val=None):
        """pop receiver R; returns (alive, kind, value)"""
        outs = R.outs
        if not outs:
            self.pop(R)
            if normal:
                return True, None, val
            raise Abrupt()
        last = None
        if not normal:
            last = outs[-1]
            outs = outs[:-1]
        if not outs and last is not None and not normal:
            # single unconditional exit; its state is the state at the exit
            st = last.state
            j = dict(R.j)
            for o in set(j) | set(st):
                tgt = st.get(o)
                if tgt is None:
                    tgt = j[o]
                self._restore_diff(o, tgt)
            self.pop(R)
            return True, last.kind, last.val
        objs = set(R.j)
        for o in outs:
            objs.update(o.state)
        if last is not None:
            objs.update(last.state)
        conds = [o.cond for o in outs]
        skip = R.frame
        for o in objs:
            if o is skip:
                continue
            orig = R.j.get(o)
            if orig is None:
                orig = o.snap()
            if normal:
                cur = o.snap()
            else:
                cur = last.state.get(o, orig)
            for out in reversed(outs):
                st = out.state.get(o, orig)
                cur = self.merge_content(o, out.cond, st, cur)
            o.restore(cur)
        v = val if normal else last.val
        for out in reversed(outs):
            v = self.merge(out.cond, out.val, v)
        kind = None if normal else last.kind
        self.pop(R)
        return True, kind, v

    def _restore_diff(self, o, s):
        o.restore(s)

    # ------------------------------------------------------------ merging
    def merge_content(self, o, c, a, b):
        if isinstance(o, (Env, Obj, Rec, Cls)):
            if a == b and False:
                return a
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k, UNDEF), b.get(k, UNDEF)
                out[k] = x if x is y else self.merge(c, x, y)
            return out
        if isinstance(o, Arr):
            out = []
            for x, y in zip(a, b):
                if x is y:
                    out.append(x)
                elif isinstance(x, T.N) and isinstance(y, T.N):
                    out.append(self.ite(c, x, y))
                else:
                    out.append(self.merge(c, x, y))
            return out
        if isinstance(o, PList):
            n = 0
            while n < len(a) and n < len(b) and a[n][0] is b[n][0] and a[n][1] is b[n][1]:
                n += 1
            ra, rb = a[n:], b[n:]
            if not ra and not rb:
                return a
            if len(ra) == len(rb) and all(x[0] is y[0] for x, y in zip(ra, rb)):
                ms = [self.merge(c, x[1], y[1]) for x, y in zip(ra, rb)]
                if not any(isinstance(v, Alt) for v in ms):
                    return a[:n] + [(x[0], v) for x, v in zip(ra, ms)]
            return a[:n] + [(T.and_(c, g), v) for g, v in ra] + [(T.and_(T.not_(c), g), v) for g, v in rb]
        if isinstance(o, ExtArr):
            n = 0
            while n < len(a) and n < len(b) and a[n] == b[n]:
                n += 1
            return a[:n] + [(T.and_(c, e[0]),) + e[1:] for e in a[n:]] + [(T.and_(T.not_(c), e[0]),) + e[1:] for e in b[n:]]
        if isinstance(o, PDict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k), b.get(k)
                if x is None or y is None:
                    kv = (x or y)[0]
                    out[k] = (kv, self.merge(c, x[1] if x else UNDEF, y[1] if y else UNDEF))
                else:
                    out[k] = (x[0], x[1] if x[1] is y[1] else self.merge(c, x[1], y[1]))
            return out
        self.unsupported("merge of %s" % type(o).__name__)

    def merge(self, c, a, b):
        if a is b:
            return a
        if c.op == "c":
            return a if c.args[0] else b
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.dt == b.dt:
                return Sc(a.dt, self.ite(c, a.n, b.n), a.en if a.en == b.en else None)
            if self.jit:
                da, db = TONB.get(a.dt, a.dt), TONB.get(b.dt, b.dt)
                u = A.unify(da, db)
                if u is not None:
                    x, y = A.cast(self, Sc(da, a.n), u), A.cast(self, Sc(db, b.n), u)
                    return Sc(u, self.ite(c, x.n, y.n))
            return Alt(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, SStr) and isinstance(b, SStr) and a.parts == b.parts:
            return a
        if a is STALE or b is STALE:
            return STALE
        if isinstance(a, Range) and isinstance(b, Range):
            return Alt(c, a, b)
        if isinstance(a, RecSel) and isinstance(b, RecSel) and a.idx is b.idx and a.recs == b.recs:
            return a
        if isinstance(a, ExtRec) and isinstance(b, ExtRec) and a.arr is b.arr:
            return ExtRec(a.arr, self.ite(c, a.idx, b.idx))
        if isinstance(a, Char) and isinstance(b, Char):
            return Char(T.ite(c, a.code, b.code))
        if a == b and not isinstance(a, Mut) and type(a) is type(b) and isinstance(a, (NpType, DType, NbType, bytes)):
            return a
        if isinstance(a, Alt) and a.c is c:
            a = a.a
        if isinstance(b, Alt) and b.c is c:
            b = b.b
        if a is b:
            return a
        return Alt(c, a, b)

    # ------------------------------------------------------------ branching
    def fork(self, c, fa, fb):
        k = self.known(c)
        if k is not None:
            return fa() if k else fb()
        A_ = self.push("br", c)
        enda = endb = False
        va = vb = None
        self.assume(c, True)
        try:
            va = fa()
        except Abrupt:
            enda = True
        sa = {o: o.snap() for o in A_.j}
        for o, s in A_.j.items():
            o.restore(s)
        ja = A_.j
        self.pop(A_)
        nc = T.not_(c)
        B_ = self.push("br", nc)
        self.assume(c, False)
        try:
            vb = fb()
        except Abrupt:
            endb = True
        sb = {o: o.snap() for o in B_.j}
        for o, s in B_.j.items():
            o.restore(s)
        jb = B_.j
        self.pop(B_)
        if enda and endb:
            # the objects keep their entry state; every path has left
            raise Abrupt()
        if enda or endb:
            for o, s in (sb if enda else sa).items():
                self.touch(o)
                o.restore(s)
            self.assume(c, not enda)
            return vb if enda else va
        for o in list(ja) + [o for o in jb if o not in ja]:
            base = ja.get(o)
            if base is None:
                base = jb[o]
            x, y = sa.get(o, base), sb.get(o, base)
            self.touch(o)
            o.restore(self.merge_content(o, c, x, y))
        return self.merge(c, va, vb)

    def dist(self, v, f):
        if isinstance(v, Alt):
            return self.fork(v.c, lambda: self.dist(v.a, f), lambda: self.dist(v.b, f))
        return f(v)

    def raise_(self, name, msg="", args=None):
        e = Exc(self.exc_class(name), args if args is not None else (msg,), self.where())
        self.leave("raise", e)

    def cond_raise(self, c, name, msg=""):
        k = self.known(c)
        if k is False:
            return
        if k is True:
            self.raise_(name, msg)
        self.record("raise", Exc(self.exc_class(name), (msg,), self.where()), c)
        self.assume(c, False)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        fr = self.frames[-1]
        fr.node = s
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("analysis budget exhausted at " + self.where())
        m = self._sd.get(type(s))
        if m is None:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.unsupported("statement " + type(s).__name__)
            m = getattr(type(self), "s_" + type(s).__name__)
            self._sd[type(s)] = m
        m(self, s, env)

    _sd = {}
    _ed = {}

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if env.kind == "class" and isinstance(s.target, ast.Name):
            env.glob.append((s.target.id, s.annotation))
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        op = OPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            v = self.ev(s.value, env)
            self.store(t.id, self.aug(op, cur, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.ga(o, t.attr)
            v = self.ev(s.value, env)
            self.sa(o, t.attr, self.aug(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev_index(t.slice, env)
            cur = self.gi(o, i)
            v = self.ev(s.value, env)
            self.si(o, i, self.aug(op, cur, v))
        else:
            self.unsupported("augmented assignment target")

    def aug(self, op, cur, v):
        if isinstance(cur, PList) and op == "+":
            for x in self.iterate(v):
                self.touch(cur)
                cur.items.append((T.TRUE, x))
            return cur
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            self.touch(cur)
            cur.data = [A.cast(self, Sc(r.dtype.dt, x), cur.dtype.dt).n if isinstance(x, T.N) else x for x in r.data]
            return cur
        return self.binop(op, cur, v)

    def s_Return(self, s, env):
        v = None if s.value is None else self.ev(s.value, env)
        if self.ctxs[-1].kind == "call" and not self.ctxs[-1].outs:
            self._retval = v
            raise FastReturn()
        self.leave("return", v)

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "_handling", None)
            if cur is not None:
                self.leave("raise", cur)
            self.unsupported("re-raise")
        e = self.ev(s.exc, env)
        if isinstance(e, Cls):
            e = Exc(e, (), self.where())
        if isinstance(e, Opq):
            e = Exc(self.exc_class("Exception"), (e,), self.where())
        if isinstance(e, Exc):
            e = Exc(e.cls, e.args, self.where())
        self.leave("raise", e)

    def s_Assert(self, s, env):
        c = self.truth(self.ev(s.test, env))
        self.cond_raise(T.not_(c), "AssertionError")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = self.find_env(t.id, env)
                self.touch(e)
                e.d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                self.di(o, self.ev_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.touch(o)
                o.d.pop(t.attr, None)

    def s_If(self, s, env):
        c = self.truth(self.ev(s.test, env))
        self.fork(c, lambda: self.block(s.body, env), lambda: self.block(s.orelse, env))

    def s_Break(self, s, env):
        self.leave("break", None)

    def s_Continue(self, s, env):
        self.leave("continue", None)

    def s_Import(self, s, env):
        for al in s.names:
            mod = self.import_module(al.name)
            if al.asname:
                self.store(al.asname, mod, env)
            else:
                self.store(al.name.split(".")[0], self.import_module(al.name.split(".")[0]), env)

    def s_ImportFrom(self, s, env):
        if s.module == "__future__":
            return
        name = s.module or ""
        if s.level:
            me = env
            while me.kind != "module":
                me = me.parent
            mod = me.glob
            base = mod.name.split(".")
            if not mod.pkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        mod = self.import_module(name)
        for al in s.names:
            if al.name == "*":
                src = mod.env.d if isinstance(mod, Module) and mod.env else {}
                allv = src.get("__all__")
                for k, v in list(src.items()):
                    if not k.startswith("_"):
                        self.store(k, v, env)
                continue
            self.store(al.asname or al.name, self.import_name(mod, al.name), env)

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.ev(d, env)
            v = self.call(dec, [v], {})
        self.store(s.name, v, env)

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, env) for d in a.kw_defaults]
        cenv = env
        q = name
        if env.kind == "class":
            q = env.name + "." + name
            while cenv.kind == "class":
                cenv = cenv.parent
        me = cenv
        while me.kind != "module":
            me = me.parent
        f = Func(node, cenv, me.glob, name, defaults, kwd)
        f.qual = q
        if cenv.jit:
            f.jit = JitInfo()
        return f

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords}
        cenv = Env(env, "class", s.name)
        cenv.glob = []
        me = env
        while me.kind != "module":
            me = me.parent
        self.touch_frame()
        for st in s.body:
            self.stmt(st, cenv)
        d = cenv.d
        if s.body and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) and \
                isinstance(s.body[0].value.value, str):
            d.setdefault("__doc__", s.body[0].value.value)
        flat = []
        for b in bases:
            if isinstance(b, Cls):
                flat.append(b)
            elif isinstance(b, (Builtin, Opq, AnnotT, NpType)):
                flat.append(b)
        c = Cls(s.name, flat, d, me.glob, s)
        c.ann = list(cenv.glob)
        c.env = cenv
        self.finish_class(c, kw)
        v = c
        for dnode in reversed(s.decorator_list):
            dec = self.ev(dnode, env)
            v = self.call(dec, [v], {})
        self.store(s.name, v, env)

    def touch_frame(self):
        pass

    def s_With(self, s, env):
        mgrs = []
        for it in s.items:
            m = self.ev(it.context_expr, env)
            enter = self.ga(m, "__enter__")
            v = self.call(enter, [], {})
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        done = True
        try:
            self.block(s.body, env)
        except Abrupt:
            done = False
        finally:
            pass
        for m in reversed(mgrs):
            self.call(self.ga(m, "__exit__"), [None, None, None], {})
        if not done:
            raise Abrupt()

    def s_Try(self, s, env):
        if s.finalbody:
            # normal and abrupt completion both run the final block
            ended = False
            try:
                self._try_core(s, env)
            except Abrupt:
                ended = True
            self.block(s.finalbody, env)
            if ended:
                raise Abrupt()
            return
        self._try_core(s, env)

    def _try_core(self, s, env):
        if not s.handlers:
            self.block(s.body, env)
            return
        R = self.push("try")
        normal = True
        try:
            self.block(s.body, env)
        except Abrupt:
            normal = False
        outs, R.outs = R.outs, []
        base = {o: o.snap() for o in R.j}
        orig = dict(R.j)
        for o in outs:
            for x in o.state:
                if x not in orig:
                    orig[x] = x.snap()
        self.pop(R)

        def enter_state(st):
            for o in orig:
                self.touch(o)
                o.restore(st.get(o, orig[o]))

        def handle(exc):
            for h in s.handlers:
                if h.type is None or self.exc_match(exc, self.ev(h.type, env)):
                    if h.name:
                        self.store(h.name, exc, env)
                    prev = getattr(self, "_handling", None)
                    self._handling = exc
                    try:
                        self.block(h.body, env)
                    finally:
                        self._handling = prev
                    return
            self.leave("raise", exc)

        def chain(i):
            if i == len(outs) - 1 and not normal:
                enter_state(outs[i].state)
                handle(outs[i].val)
                return
            if i == len(outs):
                if not normal:
                    raise Abrupt()
                for o in orig:
                    self.touch(o)
                    o.restore(base.get(o, o.snap()))
                self.block(s.orelse, env)
                return

            def taken():
                enter_state(outs[i].state)
                handle(outs[i].val)
            self.fork(outs[i].cond, taken, lambda: chain(i + 1))
        chain(0)

    # ------------------------------------------------------------ loops
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        self.dist(it, lambda v: self.for_over(s, v, env))

    def for_over(self, s, it, env):
        it = self.as_iter(it)
        if isinstance(it, SymIter):
            return self.sym_for(s, it, env)
        jump = has_jump(s.body)
        R = self.push("loop")
        normal = True
        try:
            if self.jit and len(it) > 1:
                self._jit_for(s, it, env, jump)
            else:
                for v in it:
                    self.iter_body(s, v, env, jump)
            self.block(s.orelse, env)
        except Abrupt:
            normal = False
        except FastReturn:
            raise AssertionError
        self.finish(R, normal)

    def iter_body(self, s, v, env, jump):
        if v is not MISSING:
            self.assign(s.target, v, env)
        if not jump:
            self.block(s.body, env)
            return
        I_ = self.push("iter")
        normal = True
        try:
            self.block(s.body, env)
        except Abrupt:
            normal = False
        self.finish(I_, normal)

    def _jit_for(self, s, it, env, jump):
        """unrolled loop of a compiled function: variables that are live at the
        loop head take the unified type of all their definitions"""
        names = self.header_names(s, env)
        want = {}
        for _ in range(4):
            t = self.push("probe")
            for nm, dt in want.items():
                v = env.d.get(nm)
                if isinstance(v, Sc):
                    self.store(nm, A.cast(self, Sc(TONB.get(v.dt, v.dt), v.n), dt), env)
            entry = {nm: env.d.get(nm) for nm in names}
            saved = [len(c.outs) for c in self.ctxs]
            ended = False
            try:
                self.iter_body(s, it[0], env, jump)
            except Abrupt:
                ended = True
            bad = False
            if not ended:
                for nm in names:
                    a, b = entry[nm], env.d.get(nm)
                    if isinstance(a, Sc) and isinstance(b, Sc):
                        da, db = TONB.get(a.dt, a.dt), TONB.get(b.dt, b.dt)
                        if da != db:
                            u = A.unify(da, db)
                            if u is None:
                                self.raise_("TypingError", "cannot unify %s and %s for %s" % (da, db, nm))
                            if u != da:
                                want[nm] = u
                                bad = True
            if bad:
                for o, sn in t.j.items():
                    o.restore(sn)
                for c, n in zip(self.ctxs, saved):
                    del c.outs[n:]
                self.pop(t)
                continue
            # keep the first iteration: transfer outs recorded on the probe (none)
            self.pop(t)
            if ended:
                raise Abrupt()
            break
        for v in it[1:]:
            for nm, dt in want.items():
                x = env.d.get(nm)
                if isinstance(x, Sc) and x.dt != dt:
                    self.store(nm, A.cast(self, Sc(TONB.get(x.dt, x.dt), x.n), dt), env)
            self.iter_body(s, v, env, jump)
        for nm, dt in want.items():
            x = env.d.get(nm)
            if isinstance(x, Sc) and x.dt != dt:
                self.store(nm, A.cast(self, Sc(TONB.get(x.dt, x.dt), x.n), dt), env)

    def header_names(self, s, env):
        """local names assigned in the loop that may be read before being assigned in it"""
        stored, early = set(), set()
        order = []

        def walk(n):
            if isinstance(n, ast.Assign):
                walk(n.value)
                for t in n.targets:
                    walk(t)
                return
            if isinstance(n, ast.AugAssign):
                walk(n.value)
                if isinstance(n.target, ast.Name):
                    order.append((n.target.id, "r"))
                    order.append((n.target.id, "w"))
                else:
                    walk(n.target)
                return
            if isinstance(n, ast.Name):
                order.append((n.id, "w" if isinstance(n.ctx, ast.Store) else "r"))
                return
            for c in ast.iter_child_nodes(n):
                walk(c)
        if isinstance(s, ast.While):
            walk(s.test)
        for st in s.body:
            walk(st)
        for nm, k in order:
            if k == "r":
                if nm not in stored:
                    early.add(nm)
            else:
                stored.add(nm)
        return [nm for nm in early if nm in {n for n, k in order if k == "w"} and nm in env.d]

    def s_While(self, s, env):
        jump = has_jump(s.body)
        R = self.push("loop")
        normal = True
        try:
            n = 0
            concrete = False
            while True:
                c = self.fold(self.truth(self.ev(s.test, env)))
                if c.op == "c":
                    if not c.args[0]:
                        break
                    n += 1
                    if not concrete:
                        # a conditional exit under a constant test: summarise
                        saved = [len(x.outs) for x in self.ctxs]
                        ctxs = list(self.ctxs)
                        pr = self.push("probe")
                        ended = False
                        try:
                            self.iter_body(s, MISSING, env, jump)
                        except Abrupt:
                            ended = True
                        grew = not ended and any(len(x.outs) > k for x, k in zip(ctxs, saved))
                        if grew:
                            for o, sn in pr.j.items():
                                o.restore(sn)
                            for x, k in zip(ctxs, saved):
                                del x.outs[k:]
                        self.pop(pr)
                        if ended:
                            raise Abrupt()
                        if grew:
                            if self.sym_while(s, env, jump, c):
                                break
                            concrete = True
                        continue
                    self.iter_body(s, MISSING, env, jump)
                    if n > 200000:
                        self.unsupported("loop does not terminate")
                    continue
                self.sym_while(s, env, jump, c, force=True)
                break
            self.block(s.orelse, env)
        except Abrupt:
            normal = False
        self.finish(R, normal)

    # ---- summarised loops
    def sym_for(self, s, it, env):
        jump = has_jump(s.body)
        R = self.push("loop")
        normal = True
        try:
            if it.n is not T.C(0):
                self.summarise(s, env, jump, it, None)
            self.block(s.orelse, env)
        except Abrupt:
            normal = False
        self.finish(R, normal)

    def sym_while(self, s, env, jump, c, force=False):
        return self.summarise(s, env, jump, None, c, force)

    def comps_of(self, o, a, b):
        """keys whose content differs between snapshots a and b"""
        if isinstance(o, (Env, Obj, Rec, Cls)):
            ks = list(a) + [k for k in b if k not in a]
            return [k for k in ks if a.get(k, UNDEF) is not b.get(k, UNDEF)]
        if isinstance(o, Arr):
            return [i for i, (x, y) in enumerate(zip(a, b)) if x is not y]
        if isinstance(o, PList):
            if len(a) != len(b):
                self.unsupported("list grows in a loop of symbolic length")
            return [i for i, (x, y) in enumerate(zip(a, b)) if x[1] is not y[1]]
        self.unsupported("%s modified in a symbolic loop" % type(o).__name__)

    def getcomp(self, o, k):
        if isinstance(o, PList):
            return o.items[k][1]
        return o.getc(k)

    def setcomp(self, o, k, v):
        self.touch(o)
        if isinstance(o, PList):
            o.items[k] = (o.items[k][0], v)
        else:
            o.setc(k, v)

    def summarise(self, s, env, jump, it, c0, force=True):
        self.stats["loops"] += 1
        where = self.where()
        for _peel in range(6):
            r = self._summarise(s, env, jump, it, where, force)
            if r == "unroll":
                return self._unroll(s, env, jump, 0)
            if r == "concrete":
                return False
            if r != "peel":
                return True
            # run one iteration under its condition, then summarise the rest
            if it is not None:
                it0 = it
                c = T.lt(T.C(0), it0.n)
                k = self.fold(c)

                def first():
                    self.iter_body(s, it0.elem(T.C(0)), env, jump)
                    rest = SymIter(T.sub(it0.n, T.C(1)), lambda k: it0.elem(T.add(k, T.C(1))))
                    self.summarise(s, env, jump, rest, None)
                self.fork(c, first, lambda: None)
                return True
            c = self.fold(self.truth(self.ev(s.test, env)))

            def first2():
                self.iter_body(s, MISSING, env, jump)
                c2 = self.fold(self.truth(self.ev(s.test, env)))
                if c2 is T.FALSE:
                    return
                self.summarise(s, env, jump, None, c2)
            self.fork(c, first2, lambda: None)
            return True
        self.unsupported("loop types do not stabilise")

    def _unroll(self, s, env, jump, n):
        if n > 160:
            self.unsupported("unbounded loop")
        c = self.fold(self.truth(self.ev(s.test, env)))
        if c is T.FALSE:
            return True

        def one():
            self.iter_body(s, MISSING, env, jump)
            self._unroll(s, env, jump, n + 1)
        self.fork(c, one, lambda: None)
        return True

    def _summarise(self, s, env, jump, it, where, force):
        comps = {}       # (o,k) -> (dt, ph) ; dt None -> stale
        ranges = {}
        dts = {}
        init = {}
        kph = None
        depth = len(self.ctxs)
        for _round in range(14):
            saved = [(c, len(c.outs)) for c in self.ctxs]
            t = self.push("trial")
            tbirth = t.birth
            self.trial_depth += 1
            phs = {}
            for ck in comps:
                o, k = ck
                if ck not in init:
                    init[ck] = self.getcomp(o, k)
                if comps[ck] is None:
                    self.setcomp(o, k, STALE)
                else:
                    dt, lo, hi = comps[ck]
                    p = T.PH(lo, hi) if dt not in FLOATS else T.PH(None, None, "f%d" % FLOATS[dt])
                    phs[ck] = p
                    self.setcomp(o, k, Sc(dt, p))
            p = self.push("probe")
            cond = T.TRUE
            err = None
            final = {}
            normal = True
            tail = T.FALSE
            outs_new = []
            try:
                if it is not None:
                    nhi = it.n.hi
                    kph = T.PH(0, None if nhi is None else max(nhi - 1, 0))
                    self.assume(T.lt(kph, it.n), True)
                    el = it.elem(kph)
                    self.iter_body(s, el, env, jump)
                else:
                    cond = self.fold(self.truth(self.ev(s.test, env)))
                    if cond is T.FALSE and not comps:
                        raise Unsupported("condition decided false in trial")
                    self.assume(cond, True)
                    self.iter_body(s, MISSING, env, jump)
            except Abrupt:
                normal = False
            # exits recorded on contexts outside the trial
            for c, n in saved:
                for o in c.outs[n:]:
                    outs_new.append((c, o))
                del c.outs[n:]
            if p.outs or t.outs:
                self.unsupported("internal: outs on a probe")
            changed = {}
            alive = None
            if normal:
                for o in p.j:
                    snapb = o.snap()
                    base = p.j[o]
                    for k in self.comps_of(o, base, snapb):
                        changed[(o, k)] = self.getcomp(o, k)
            exitstates = []
            for c, o in outs_new:
                ch = {}
                for ob, st in o.state.items():
                    base = p.j.get(ob)
                    if base is None:
                        continue
                    for k in self.comps_of(ob, base, st):
                        ch[(ob, k)] = self._contentget(ob, st, k)
                exitstates.append(ch)
            bodyval = {}
            for ck in comps:
                bodyval[ck] = self.getcomp(*ck)
            condtail = None
            for o, sn in p.j.items():
                o.restore(sn)
            self.pop(p)
            for o, sn in t.j.items():
                o.restore(sn)
            self.pop(t)
            self.trial_depth -= 1
            # only objects that existed before the loop are components
            allch = dict(changed)
            for ch in exitstates:
                for ck in ch:
                    allch.setdefault(ck, ch[ck])
            new = False
            for ck in list(allch):
                o, k = ck
                if o.birth > tbirth:
                    continue
                if ck not in comps:
                    iv = self.getcomp(o, k)
                    v = allch[ck]
                    if isinstance(iv, Alt) and it is None and isinstance(s.test, ast.Constant) and isinstance(o, Env) \
                            and k in self._surely(s) and self._temp(s, k):
                        iv = UNDEF
                    init[ck] = iv
                    if isinstance(iv, Sc) and isinstance(v, Sc):
                        if iv.dt != v.dt:
                            if self.jit:
                                da, db = TONB.get(iv.dt, iv.dt), TONB.get(v.dt, v.dt)
                                if da != db:
                                    u = A.unify(da, db)
                                    if u is None:
                                        self.raise_("TypingError", "cannot unify %s and %s" % (da, db))
                                else:
                                    u = da
                                dts[ck] = u
                            else:
                                if isinstance(o, Env) and self._temp(s, k):
                                    comps[ck] = None
                                    new = True
                                    continue
                                return "peel"
                        dt = dts.get(ck, iv.dt)
                        lo, hi = dt_range(dt)
                        if dt == "int":
                            lo, hi = iv.n.lo, iv.n.hi
                        elif lo is not None and iv.n.lo is not None and iv.n.lo >= 0 and iv.n.hi < 1 << 16 and hi > iv.n.hi:
                            # optimistic: small values stay small unless an iteration says otherwise
                            lo, hi = iv.n.lo, iv.n.hi
                        comps[ck] = (dt, lo, hi)
                    elif (iv is UNDEF or iv is STALE) and isinstance(v, Sc):
                        dt = TONB.get(v.dt, v.dt) if self.jit else v.dt
                        lo, hi = dt_range(dt)
                        if dt == "int":
                            lo, hi = v.n.lo, v.n.hi
                        dts[ck] = dt
                        keep = not isinstance(o, Env) or not self._temp(s, k) or \
                            (it is None and isinstance(s.test, ast.Constant) and self._outlives(s, k))
                        comps[ck] = (dt, lo, hi) if keep else None
                        if comps[ck] is None:
                            dts.pop(ck)
                    else:
                        comps[ck] = None
                    new = True
            if new:
                continue
            # shrinking scan variables are unrolled
            if it is None:
                for ck, d in comps.items():
                    if d is None or not isinstance(changed.get(ck), Sc):
                        continue
                    b = bodyval[ck].n if isinstance(bodyval[ck], Sc) else None
                    ph = phs[ck]
                    if b is not None and self._shrinks(b, ph) and isinstance(init[ck], Sc) and init[ck].n.hi is not None:
                        return "unroll" if not isinstance(s.test, ast.Constant) else "concrete"
            if not normal and not outs_new:
                raise Abrupt()
            # check types and ranges
            again = False
            for ck, d in list(comps.items()):
                if d is None:
                    continue
                vals = [bodyval[ck]] if normal else []
                for ch in exitstates:
                    if ck in ch:
                        vals.append(ch[ck])
                for v in vals:
                    if not isinstance(v, Sc):
                        if isinstance(v, Stale):
                            continue
                        comps[ck] = None
                        again = True
                        break
                    dt, lo, hi = comps[ck]
                    if v.dt != dt:
                        if self.jit:
                            da, db = TONB.get(dt, dt), TONB.get(v.dt, v.dt)
                            u = A.unify(da, db)
                            if u is None:
                                self.raise_("TypingError", "cannot unify %s and %s" % (da, db))
                            if u != dt:
                                comps[ck] = (u,) + dt_range(u)
                                dts[ck] = u
                                again = True
                        else:
                            if init[ck] is UNDEF or init[ck] is STALE:
                                comps[ck] = (v.dt,) + (dt_range(v.dt) if v.dt != "int" else (v.n.lo, v.n.hi))
                                again = True
                            else:
                                return "peel"
                    elif dt == "int":
                        nlo, nhi = v.n.lo, v.n.hi
                        if lo is not None and (nlo is None or nlo < lo):
                            lo = None if _round > 2 or nlo is None else (0 if nlo >= 0 else None)
                            again = True
                        if hi is not None and (nhi is None or nhi > hi):
                            hi = None
                            if nhi is not None and _round <= 4:
                                for w in (8, 16, 32, 64):
                                    if nhi < 1 << w:
                                        hi = (1 << w) - 1
                                        break
                            again = True
                        comps[ck] = (dt, lo, hi)
                    elif lo is not None and (v.n.lo is None or v.n.lo < lo or v.n.hi > hi):
                        flo, fhi = dt_range(dt)
                        if (lo, hi) != (flo, fhi):
                            if v.n.lo is not None and v.n.lo >= 0 and v.n.hi < 1 << 16 and _round < 2 and fhi > v.n.hi:
                                comps[ck] = (dt, min(lo, v.n.lo), max(hi, v.n.hi))
                            else:
                                comps[ck] = (dt, flo, fhi)
                            again = True
                if again:
                    pass
            if again:
                continue
            break
        else:
            self.unsupported("loop summary does not converge")
        return self._close(s, env, it, comps, phs, init, dts, bodyval, cond, kph, outs_new, exitstates, normal, where, force)

    def _temp(self, s, name):
        """local name that is always written before being read in the loop body"""
        return name not in self._early(s)

    def _surely(self, s):
        """names that any pass leaving an endless loop through break has written"""
        r = set()
        for x in s.body:
            if any(isinstance(y, ast.Break) for y in ast.walk(x)):
                break
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        r.add(y.id)
        return r

    def _outlives(self, s, name):
        """whether a name written in the loop may be read outside it"""
        if name not in self._surely(s):
            return False
        body = self.frames[-1].tree if self.frames else None
        if body is None:
            return True
        inside = {id(x) for x in ast.walk(s)}
        return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside
                   for x in ast.walk(body))

    def _early(self, s):
        r = getattr(s, "_earlynames", None)
        if r is None:
            written, early = set(), set()

            def expr(n):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in written:
                        early.add(x.id)

            def tgt(t):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        written.add(x.id)
                    elif isinstance(x, ast.Name) and x.id not in written:
                        early.add(x.id)

            def blk(stmts):
                for st in stmts:
                    if isinstance(st, ast.Assign):
                        expr(st.value)
                        for t in st.targets:
                            tgt(t)
                    elif isinstance(st, ast.AnnAssign):
                        if st.value is not None:
                            expr(st.value)
                            tgt(st.target)
                    elif isinstance(st, ast.AugAssign):
                        expr(st.value)
                        if isinstance(st.target, ast.Name):
                            if st.target.id not in written:
                                early.add(st.target.id)
                        else:
                            expr(st.target)
                    elif isinstance(st, ast.If):
                        nonlocal_w(st)
                    else:
                        for c in ast.iter_child_nodes(st):
                            if isinstance(c, ast.expr):
                                expr(c)
                        # nested bodies: reads count, writes are conditional
                        if isinstance(st, (ast.For, ast.While, ast.With, ast.Try)):
                            keep = set(written)
                            for f in ("body", "orelse", "finalbody"):
                                if isinstance(st, ast.For) and f == "body":
                                    tgt(st.target)
                                blk(getattr(st, f, []) or [])
                            written.clear()
                            written.update(keep)
                            if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value:
                                # left only by break: whatever precedes the first one has run
                                written.update(self._surely(st))

            def nonlocal_w(st):
                expr(st.test)
                keep = set(written)
                blk(st.body)
                w1 = set(written)
                written.clear()
                written.update(keep)
                blk(st.orelse)
                w2 = set(written)
                written.clear()
                written.update(keep | (w1 & w2))
            if isinstance(s, ast.While):
                expr(s.test)
            else:
                tgt(s.target)
            blk(s.body)
            r = early
            s._earlynames = r
        return r

    def _contentget(self, o, st, k):
        if isinstance(o, PList):
            return st[k][1]
        if isinstance(o, Arr):
            v = st[k]
            return Sc(o.dtype.dt, v) if isinstance(v, T.N) else v
        return st.get(k, UNDEF)

    def _shrinks(self, b, ph):
        while b.op == "wrap":
            b = b.args[0]
        if b.op == "shr" and b.args[0] is ph and b.args[1].op == "c" and b.args[1].args[0] > 0:
            return True
        return b.op == "div" and b.args[0] is ph and b.args[1].op == "c" and b.args[1].args[0] > 1

    def _tostore(self, dt, v):
        if isinstance(v, Sc) and v.dt != dt:
            return A.cast(self, Sc(TONB.get(v.dt, v.dt) if self.jit else v.dt, v.n), dt)
        return v

    def _close(self, s, env, it, comps, phs, init, dts, bodyval, cond, kph, outs_new, exitstates, normal, where, force):
        keys = [ck for ck in comps if comps[ck] is not None]
        stale = [ck for ck in comps if comps[ck] is None]
        inits, bodies, plist = [], [], []
        for ck in keys:
            dt = comps[ck][0]
            iv = init[ck]
            if iv is UNDEF or not isinstance(iv, Sc):
                inits.append(T.C(0) if dt not in FLOATS else T.fconst(0.0, FLOATS[dt]))
            else:
                inits.append(self._tostore(dt, iv).n)
            bv = bodyval[ck]
            bodies.append(self._tostore(dt, bv).n if normal and isinstance(bv, Sc) else phs[ck])
            plist.append(phs[ck])
        if not outs_new:
            if it is not None:
                trip = T.ite(T.lt(T.C(0), it.n), it.n, T.C(0)) if it.n.lo is None or it.n.lo < 0 else it.n
                k = T.loop(plist + [kph], inits + [T.C(0)], None, bodies + [T.add(kph, T.C(1))], trip, where)
                outs = k[:-1]
                self._index_closed(keys, plist, inits, bodies, outs, trip, comps)
            else:
                tr = self._trip(cond, plist, inits, bodies)
                if tr is not None:
                    trip, vi, fin = tr
                    outs = T.loop(plist, inits, None, bodies, trip, where)
                    outs = list(outs)
                    outs[vi] = fin
                    self._index_closed(keys, plist, inits, bodies, outs, trip, comps, skip=vi)
                else:
                    if cond is T.TRUE:
                        self.unsupported("loop without exit")
                    outs = T.loop(plist, inits, cond, bodies, None, where)
            self._commit(keys, stale, comps, outs)
            return "done"
        # loops with early exits: p says whether the loop goes on, x which exit was taken
        plist, inits, bodies = list(plist), list(inits), list(bodies)
        if it is not None:
            plist.append(kph)
            inits.append(T.C(0))
            bodies.append(T.add(kph, T.C(1)))
            cond = T.lt(kph, it.n)
        ex = T.FALSE
        for i, (c, o) in enumerate(outs_new):
            ex = T.or_(ex, o.cond)
        # flattened exit values
        vals = []
        for i, (c, o) in enumerate(outs_new):
            vals.append(self._flat(o.val))
        p = T.PH(0, 1)
        x = T.PH(0, len(outs_new))
        vphs = []
        xb = T.C(0)
        for i in range(len(outs_new) - 1, -1, -1):
            xb = T.ite(outs_new[i][1].cond, T.C(i + 1), xb)
        bodies0 = list(bodies)
        # state after the iteration, with exits selecting their own state
        for j, ck in enumerate(keys):
            b = bodies[j]
            for i in range(len(outs_new) - 1, -1, -1):
                c, o = outs_new[i]
                ev = exitstates[i].get(ck)
                n = phs[ck] if ev is None or not isinstance(ev, Sc) else self._tostore(comps[ck][0], ev).n
                b = n if (not normal and i == len(outs_new) - 1) else self.ite(o.cond, n, b)
            bodies[j] = b
        r = self._endless(s, env, it, comps, phs, keys, plist, inits, bodies, bodies0, cond, ex, outs_new, normal, where)
        if r is not None:
            self._commit(keys, stale, comps, r)
            return "done"
        nb = {plist[j].id: bodies[j] for j in range(len(plist))}
        nxt = T.subst(cond, nb, {}) if normal else T.FALSE
        pb = T.and_(T.not_(ex), nxt) if normal else T.FALSE
        p0 = T.subst(cond, {plist[j].id: inits[j] for j in range(len(plist))}, {})
        extra_p, extra_i, extra_b = [p, x], [p0, T.C(0)], [pb, xb]
        for i, (struct_, nodes) in enumerate(vals):
            row = []
            for dt, n in nodes:
                v = T.PH(n.lo, n.hi, n.sort)
                extra_p.append(v)
                extra_i.append(T.C(max(n.lo or 0, 0)) if n.sort == "i" else T.fconst(0.0, int(n.sort[1:])))
                extra_b.append(T.ite(outs_new[i][1].cond, n, v))
                row.append(v)
            vphs.append(row)
        allp = plist + extra_p
        outs = T.loop(allp, inits + extra_i, p, bodies + extra_b, None, where)
        m = {allp[j].id: outs[j] for j in range(len(allp))}
        self._commit(keys, stale, comps, outs[:len(keys)])
        xo = m[x.id]
        prev = None
        for i, (c, o) in enumerate(outs_new):
            struct_, nodes = vals[i]
            v = self._unflat(struct_, [Sc(dt, m[vphs[i][q].id]) for q, (dt, n) in enumerate(nodes)])
            ci = T.eq(xo, T.C(i + 1))

            def leave_(o=o, v=v):
                self.leave(o.kind, v)
            self.fork(ci, leave_, lambda: None)
        if it is None and cond is T.TRUE:
            raise Abrupt()
        return "done"

    def _endless(self, s, env, it, comps, phs, keys, plist, inits, bodies, bodies0, cond, ex, outs_new, normal, where):
        """an endless loop left by break, whose test speaks of what the pass has just written:
        one pass, then a loop under the negated test"""
        if it is not None or cond is not T.TRUE or not normal or any(a is not b for a, b in zip(bodies, bodies0)):
            return None
        if any(o.kind != "break" or c is not outs_new[0][0] or self._flat(o.val)[1] for c, o in outs_new):
            return None
        cuts = {}
        saved = [(c, len(c.outs)) for c in self.ctxs]
        ctx0 = len(self.ctxs)
        t = self.push("trial")
        self.trial_depth += 1
        for ck in comps:
            self.setcomp(ck[0], ck[1], STALE if comps[ck] is None else Sc(comps[ck][0], phs[ck]))
        p = self.push("probe")
        was, self.cut = self.cut, (env, cuts)
        test = T.FALSE
        try:
            self.iter_body(s, MISSING, env, ("none",))
        except (Abrupt, Unsupported):
            test = None
        finally:
            self.cut = was
        for c, n in saved:
            for o in c.outs[n:]:
                if test is not None:
                    test = T.or_(test, o.cond)
            del c.outs[n:]
        while len(self.ctxs) > ctx0:
            q = self.ctxs[-1]
            for o, sn in q.j.items():
                o.restore(sn)
            self.pop(q)
        self.trial_depth -= 1
        if test is None:
            return None
        at = {}
        for j, ck in enumerate(keys):
            if ck[0] is env and ck[1] in cuts:
                at[cuts[ck[1]].id] = j
        own = set()
        for j, q in enumerate(plist):
            if bodies[j] is not q:
                own |= q.phs
        known = set()
        for n in cuts.values():
            if n.id in at:
                known |= n.phs
            else:
                own |= n.phs
        if test.phs & own:
            return None
        if T.subst(test, {n.id: bodies[at[n.id]] for n in cuts.values() if n.id in at}, {}) is not ex:
            return None
        cond2 = T.not_(T.subst(test, {n.id: plist[at[n.id]] for n in cuts.values() if n.id in at}, {}))
        m0 = {plist[j].id: inits[j] for j in range(len(plist))}
        inits2 = [T.subst(b, dict(m0), {}) for b in bodies]
        tr = self._trip(cond2, plist, inits2, bodies)
        if tr is not None:
            trip, vi, fin = tr
            outs = list(T.loop(plist, inits2, None, bodies, trip, where))
            outs[vi] = fin
            self._index_closed(keys, plist, inits2, bodies, outs, trip, comps, skip=vi)
            return outs
        return T.loop(plist, inits2, cond2, bodies, None, where)

    def _flat(self, v):
        nodes = []

        def go(v):
            if isinstance(v, Sc):
                nodes.append((v.dt, v.n))
                return ("s", len(nodes) - 1, v.dt)
            if isinstance(v, tuple):
                return ("t", [go(x) for x in v])
            if v is None or isinstance(v, (str, Exc, Mut, Opq)):
                return ("k", v)
            self.unsupported("value leaving a symbolic loop")
        return go(v), nodes

    def _unflat(self, st, vals):
        if st[0] == "s":
            return vals[st[1]]
        if st[0] == "t":
            return tuple(self._unflat(x, vals) for x in st[1])
        return st[1]

    def _commit(self, keys, stale, comps, outs):
        for ck, n in zip(keys, outs):
            self.setcomp(ck[0], ck[1], Sc(comps[ck][0], n))
        for ck in stale:
            self.setcomp(ck[0], ck[1], STALE)

    def _index_closed(self, keys, plist, inits, bodies, outs, trip, comps, skip=None):
        """closed form of plain counters"""
        for j, (p, i0, b) in enumerate(zip(plist, inits, bodies)):
            if j == skip or p.sort != "i":
                continue
            if b.op == "add" and b.args[0] is p and b.args[1].op == "c":
                outs[j] = T.add(i0, T.mul(trip, b.args[1]))
            elif b.op == "wrap" and b.args[0].op == "add" and b.args[0].args[0] is p and b.args[0].args[1].op == "c":
                outs[j] = T.wrap(T.add(i0, T.mul(trip, b.args[0].args[1])), b.args[1], b.args[2])

    def _trip(self, cond, plist, inits, bodies):
        """trip count of a counting loop: (trip, index of counter, final value)"""
        own = set()
        for p in plist:
            own |= p.phs

        def invariant(n):
            return not (n.phs & own)

        def step(p, b):
            if b.op == "wrap":
                # no wrap is certain only under the loop condition; the
                # interpreter already removed it where that holds
                return None
            if b.op == "add" and b.args[0] is p and b.args[1].op == "c":
                return b.args[1].args[0]
            return None
        c = cond
        negd = False
        if c.op == "xor" and c.args[1].op == "c":
            c, negd = c.args[0], True
        for j, p in enumerate(plist):
            if p.sort != "i":
                continue
            d = step(p, bodies[j])
            if not d:
                continue
            v0 = inits[j]
            if c.op == "lt" and not negd and c.args[0] is p and invariant(c.args[1]) and d > 0:
                n = c.args[1]
                diff = T.sub(n, v0)
                trip = diff if d == 1 else T.floordiv(T.add(diff, T.C(d - 1)), T.C(d))
                trip = self._clip(T.lt(v0, n), trip)
                return trip, j, T.add(v0, T.mul(trip, T.C(d)))
            if c.op == "lt" and not negd and c.args[1] is p and invariant(c.args[0]) and d < 0:
                n = c.args[0]
                d = -d
                diff = T.sub(v0, n)
                trip = diff if d == 1 else T.floordiv(T.add(diff, T.C(d - 1)), T.C(d))
                trip = self._clip(T.lt(n, v0), trip)
                return trip, j, T.sub(v0, T.mul(trip, T.C(d)))
            if c.op == "lt" and negd and c.args[0] is p and invariant(c.args[1]) and d < 0:
                n = c.args[1]
                d = -d
                if n.op == "c" and n.args[0] == d and v0.lo is not None and v0.lo >= 0:
                    return T.floordiv(v0, T.C(d)), j, T.mod(v0, T.C(d))
                trip = T.add(T.floordiv(T.sub(v0, n), T.C(d)), T.C(1))
                trip = self._clip(T.ge(v0, n), trip)
                return trip, j, T.sub(v0, T.mul(trip, T.C(d)))
            if c.op == "lt" and negd and c.args[1] is p and invariant(c.args[0]) and d > 0:
                n = c.args[0]
                trip = T.add(T.floordiv(T.sub(n, v0), T.C(d)), T.C(1))
                trip = self._clip(T.ge(n, v0), trip)
                return trip, j, T.add(v0, T.mul(trip, T.C(d)))
            if c.op == "eq" and negd and c.args[0] is p and c.args[1] is T.C(0) and d == -1 and \
                    v0.lo is not None and v0.lo >= 0:
                return v0, j, T.C(0)
            if c.op == "eq" and negd and d == 1:
                other = c.args[1] if c.args[0] is p else c.args[0] if c.args[1] is p else None
                if other is not None and invariant(other):
                    diff = T.sub(other, v0)
                    if diff.lo is not None and diff.lo >= 0:
                        return diff, j, other
        return None

    def _clip(self, c, trip):
        if trip.lo is not None and trip.lo >= 0 or self.known(c):
            return trip
        return T.ite(c, trip, T.C(0))

    # ------------------------------------------------------------ names
    def find_env(self, name, env):
        e = env
        while e is not None:
            if name in e.d:
                return e
            e = e.parent
        return None

    def load(self, name, env):
        e = env
        while e is not None:
            if name in e.d:
                v = e.d[name]
                if v is UNDEF:
                    self.raise_("UnboundLocalError", name)
                if isinstance(v, Alt) and (v.a is UNDEF or v.b is UNDEF):
                    cu = v.c if v.a is UNDEF else T.not_(v.c)
                    self.cond_raise(cu, "UnboundLocalError", name)
                    v = v.b if v.a is UNDEF else v.a
                    return v
                if v is STALE:
                    self.unsupported("loop-local value %s read outside its iteration" % name)
                return v
            if e.kind == "func" and name in e.nonloc:
                self.raise_("UnboundLocalError", name)
            e = e.parent
            while e is not None and e.kind == "class":
                e = e.parent
        v = self.builtins.get(name, MISSING)
        if v is MISSING:
            self.raise_("NameError", name)
        return v

    def store(self, name, v, env):
        e = env
        while e.kind == "comp" and name not in e.d and False:
            e = e.parent
        if e.kind == "func":
            if name in e.glob:
                e2 = e
                while e2.kind != "module":
                    e2 = e2.parent
                self.touch(e2)
                e2.d[name] = v
                return
            if name not in e.nonloc:
                # nonlocal statement: nonloc holds the local names of the frame
                p = e.parent
                while p is not None:
                    if p.kind == "func" and name in p.nonloc:
                        self.touch(p)
                        p.d[name] = v
                        return
                    p = p.parent
            fl = self.frames[-1].locals
            if fl and e is self.frames[-1].env and name in fl and isinstance(v, Sc):
                v = A.cast(self, Sc(TONB.get(v.dt, v.dt), v.n), fl[name])
            if self.cut is not None and e is self.cut[0] and isinstance(v, Sc) and v.n.sort == "i" and v.n.op != "c":
                n = T.PH(v.n.lo, v.n.hi)
                self.cut[1][name] = n
                v = Sc(v.dt, n)
        self.touch(e)
        e.d[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.sa(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.si(o, self.ev_index(t.slice, env), v)
        else:
            self.unsupported("assignment target")

    def unpack(self, elts, v, env):
        vals = self.iterate(v) if not isinstance(v, Alt) else None
        if vals is None:
            v = self.normal_alt(v)
            if not isinstance(v, tuple):
                self.unsupported("unpacking of a conditional value")
            vals = list(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            n = len(elts) - 1
            mid = vals[i:len(vals) - (n - i)]
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(e, x, env)
            self.assign(elts[i].value, PList(mid), env)
            for e, x in zip(elts[i + 1:], vals[len(vals) - (n - i):]):
                self.assign(e, x, env)
            return
        if len(vals) != len(elts):
            self.raise_("ValueError", "unpack")
        for e, x in zip(elts, vals):
            self.assign(e, x, env)

    def normal_alt(self, v):
        if isinstance(v, Alt):
            a, b = self.normal_alt(v.a), self.normal_alt(v.b)
            return self.merge(v.c, a, b)
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = self._ed.get(type(e))
        if m is None:
            m = getattr(type(self), "e_" + type(e).__name__, None)
            if m is None:
                self.unsupported("expression " + type(e).__name__)
            self._ed[type(e)] = m
        return m(self, e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            return I(v)
        if isinstance(v, float):
            return Sc("float", T.fconst(v, 64))
        if v is Ellipsis:
            return Opq("...")
        return v

    def e_Name(self, e, env):
        return self.load(e.id, env)

    def e_Attribute(self, e, env):
        return self.ga(self.ev(e.value, env), e.attr)

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return Slice(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        return self.ev(s, env)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.gi(o, self.ev_index(e.slice, env))

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, env):
        a = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return Sc("bool" if self.jit else "pybool", T.not_(self.truth(a)))
        op = {ast.USub: "-", ast.Invert: "~", ast.UAdd: "+"}[type(e.op)]
        return self.dist(a, lambda x: self.unary(op, x))

    def unary(self, op, x):
        if isinstance(x, Sc):
            return A.unop(self, op, x, self.jit)
        if isinstance(x, Arr) and x.dtype.dt:
            return Arr(x.dtype, x.shape, [A.unop(self, op, Sc(x.dtype.dt, n), False).n for n in x.data])
        self.unsupported("unary %s on %s" % (op, type(x).__name__))

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        vals = e.values

        def go(i):
            v = self.ev(vals[i], env)
            if i == len(vals) - 1:
                return v
            c = self.fold(self.truth(v))
            if self.jit and isinstance(v, Sc):
                pass
            if is_and:
                return self.fork(c, lambda: go(i + 1), lambda: v)
            return self.fork(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def cond_expr(self, e, env):
        return self.truth(self.ev(e, env))

    def e_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        return self.fork(c, lambda: self.ev(e.body, env), lambda: self.ev(e.orelse, env))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)

        def go(i, left):
            right = self.ev(e.comparators[i], env)
            r = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.fold(self.truth(r))
            return self.fork(c, lambda: go(i + 1, right), lambda: r)
        return go(0, left)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, PDict):
                    for kk, (kv, vv) in v.d.items():
                        kw[kv] = vv
                elif isinstance(v, dict):
                    kw.update(v)
                else:
                    self.unsupported("** of " + type(v).__name__)
            else:
                kw[k.arg] = v
        if self.frames:
            self.frames[-1].node = e
        if isinstance(f, Builtin) and f.name == "super" and not args:
            return self.make_super(env)
        return self.call(f, args, kw)

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return PList(self._elts(e.elts, env))

    def e_Set(self, e, env):
        return Opq("set", self._elts(e.elts, env))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, env)
                d.d.update(src.d)
                continue
            kv = self.ev(k, env)
            d.d[self.hashkey(kv)] = (kv, self.ev(v, env))
        return d

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    sv = self.ev(v.format_spec, env)
                    if not isinstance(sv, str):
                        self.unsupported("format specification")
                    spec = sv
                conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
                parts.append(self.format(x, spec, conv))
        return self.concat_strs(parts)

    def e_ListComp(self, e, env):
        return PList(self.comp(e.generators, lambda en: self.ev(e.elt, en), env))

    def e_SetComp(self, e, env):
        return Opq("set", self.comp(e.generators, lambda en: self.ev(e.elt, en), env))

    def e_GeneratorExp(self, e, env):
        return PList(self.comp(e.generators, lambda en: self.ev(e.elt, en), env))

    def e_DictComp(self, e, env):
        d = PDict()
        for k, v in self.comp(e.generators, lambda en: (self.ev(e.key, en), self.ev(e.value, en)), env):
            d.d[self.hashkey(k)] = (k, v)
        return d

    def comp(self, gens, f, env):
        cenv = Env(env, "comp", env.name)
        cenv.jit = env.jit
        out = []

        def go(i):
            if i == len(gens):
                out.append(f(cenv))
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, env if i == 0 else cenv)):
                self.assign(g.target, v, cenv)
                ok = True
                for t in g.ifs:
                    c = self.known(self.truth(self.ev(t, cenv)))
                    if c is None:
                        self.unsupported("symbolic comprehension filter")
                    if not c:
                        ok = False
                        break
                if ok:
                    go(i + 1)
        go(0)
        return out

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        t = env
        while t.kind == "comp":
            t = t.parent
        self.store(e.target.id, v, t)
        return v

    def e_Starred(self, e, env):
        self.unsupported("starred expression")

    # ------------------------------------------------------------ calls
    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_("TypeError", "%s() takes %d positional arguments" % (f.name, len(names)))
            d[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for n, v in zip(names, args):
            d[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in d:
                    self.raise_("TypeError", "%s() got multiple values for %s" % (f.name, k))
                d[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                self.raise_("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, k))
        if a.kwarg is not None:
            pd = PDict()
            for k, v in rest.items():
                pd.d[self.hashkey(k)] = (k, v)
            d[a.kwarg.arg] = pd
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in d:
                j = i - (len(names) - nd)
                if j < 0:
                    self.raise_("TypeError", "%s() missing argument %s" % (f.name, n))
                d[n] = f.defaults[j]
        for n, dv in zip(kwonly, f.kwdefaults):
            if n not in d:
                if dv is None:
                    self.raise_("TypeError", "%s() missing keyword argument %s" % (f.name, n))
                d[n] = dv
        return d

    def call_func(self, f, args, kw):
        self.stats["calls"] += 1
        self.stats["functions"].add(f.qual)
        if len(self.frames) > 180:
            self.unsupported("call depth")
        tojit = f.jit is not None
        caller = self.jit
        if caller and f.ir is not None:
            return self.call_ir(f, args)
        if caller and not tojit:
            self.raise_("TypingError", "call of the uncompiled function %s from compiled code" % f.qual)
        if tojit and not caller:
            args = [self.unbox(x) for x in args]
            kw = {k: self.unbox(v) for k, v in kw.items()}
        d = self.bind(f, args, kw)
        if tojit:
            for k, v in d.items():
                if isinstance(v, Sc) and (v.dt in PYNUM or v.en):
                    d[k] = self.unbox(v)
            sig = f.jit.sig
            if sig is not None and sig.args is not None:
                names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                for n, ty in zip(names, sig.args):
                    d[n] = self.coerce(d[n], ty)
        env = Env(f.env, "func", f.qual)
        env.jit = tojit
        ln, gl, nl, inner = local_names(f.node)
        env.nonloc = ln
        env.glob = gl
        fr = Frame(f.qual, env, tojit, f.node)
        fr.node = f.node if not isinstance(f.node, ast.Lambda) else f.node
        if tojit and f.jit.locals:
            fr.locals = f.jit.locals
        R = self.push("call")
        R.frame = env if not inner else None
        self.frames.append(fr)
        oldjit = self.jit
        self.jit = tojit
        try:
            for k, v in d.items():
                if fr.locals and k in fr.locals and isinstance(v, Sc):
                    v = A.cast(self, v, fr.locals[k])
                env.d[k] = v
            val = None
            normal = True
            try:
                if isinstance(f.node, ast.Lambda):
                    val = self.ev(f.node.body, env)
                else:
                    self.block(f.node.body, env)
            except FastReturn:
                val = self._retval
                self._retval = None
            except Abrupt:
                normal = False
            alive, kind, val = self.finish(R, normal, val)
            if tojit:
                val = self.normal_alt(val)
                if f.jit.sig is not None and f.jit.sig.ret is not None:
                    val = self.coerce(val, f.jit.sig.ret)
        finally:
            self.jit = oldjit
            self.frames.pop()
        if tojit and not caller:
            val = self.box(val)
        return val

    def unbox(self, v):
        if isinstance(v, Sc):
            if v.dt == "int":
                lo, hi = self.rng(v.n)
                if lo is not None and hi is not None and lo >= 0 and hi >= 1 << 63 and hi < 1 << 64 and lo >= 1 << 63:
                    return Sc("u64", v.n)
                if lo is None or hi is None or lo < -(1 << 63) or hi >= 1 << 63:
                    if lo is not None and hi is not None and lo >= 0 and hi < 1 << 64:
                        return Sc("u64", v.n)
                    bad = T.or_(T.lt(v.n, T.C(-(1 << 63))), T.ge(v.n, T.C(1 << 63)))
                    self.cond_raise(bad, "OverflowError")
                return Sc("i64", v.n)
            if v.dt in TONB:
                return Sc(TONB[v.dt], v.n)
            if v.en:
                return Sc(v.dt, v.n)
            return v
        if isinstance(v, tuple):
            return tuple(self.unbox(x) for x in v)
        if isinstance(v, Alt):
            return Alt(v.c, self.unbox(v.a), self.unbox(v.b))
        return v

    def box(self, v):
        if isinstance(v, Sc):
            if v.dt in FLOATS:
                return Sc("float", T.f2f(v.n, 64) if v.n.sort == "f32" else v.n)
            if v.dt in BOOLS:
                return Sc("pybool", v.n)
            return Sc("int", v.n)
        if isinstance(v, tuple):
            return tuple(self.box(x) for x in v)
        if isinstance(v, Alt):
            return self.merge(v.c, self.box(v.a), self.box(v.b))
        return v

    def coerce(self, v, ty):
        """convert to an explicit numba signature type"""
        if isinstance(ty, NbType):
            if ty.kind == "scalar":
                v = self.normal_alt(v)
                if isinstance(v, Alt):
                    return self.dist(v, lambda x: self.coerce(x, ty))
                if isinstance(v, Sc):
                    return A.cast(self, Sc(TONB.get(v.dt, v.dt), v.n), ty.dt)
                self.raise_("TypingError", "cannot convert %s to %s" % (type(v).__name__, ty.dt))
            if ty.kind == "tuple" and isinstance(v, tuple):
                return tuple(self.coerce(x, t) for x, t in zip(v, ty.args))
            if ty.kind == "unituple" and isinstance(v, tuple):
                if len(v) != ty.args[1]:
                    self.raise_("TypingError", "tuple length")
                return tuple(self.coerce(x, ty.args[0]) for x in v)
        return v

    # ------------------------------------------------------------ entry point
    def run(self, thunk):
        """evaluate thunk at top level; returns Result"""
        R = Ctx("top")
        saved = self.ctxs
        self.ctxs = [R]
        sf, self.frames = self.frames, list(self.frames)
        sj = self.jit
        km, rm = self.knownmap, self.rmap
        self.knownmap, self.rmap = dict(km), dict(rm)
        res = Result()
        try:
            try:
                res.value = thunk()
                res.normal = True
            except Abrupt:
                res.normal = False
            res.raises = [(o.cond, o.val) for o in R.outs]
            res.touched = dict(R.j)
            res.states = [o.state for o in R.outs]
        finally:
            self.ctxs = saved
            self.frames = sf
            self.jit = sj
            self.knownmap, self.rmap = km, rm
            # make the changes visible to enclosing contexts
            for o, s in R.j.items():
                c = self.ctxs[-1]
                if o.birth <= c.birth and o not in c.j:
                    c.j[o] = s
        return res


class Result:
    value = None
    normal = False
    raises = ()
    touched = None


class FastReturn(Exception):
    pass


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.Div: "/", ast.LShift: "<<",
       ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.Pow: "**", ast.MatMult: "@"}
