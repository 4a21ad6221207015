"""Abstract values handled by the analyser."""

import json
import os
from . import term as T

_tab = json.load(open(os.path.join(os.path.dirname(__file__), "tables.json")))
NB, NBU, NP, NPU, UNI = _tab["numba"], _tab["numba_un"], _tab["numpy"], _tab["numpy_un"], _tab["unify"]

WIDTH = {"u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False),
         "i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True)}
FLOATS = {"f32": 32, "f64": 64, "float": 64}
BOOLS = ("bool", "pybool")
PYNUM = ("int", "pybool", "float")
TONB = {"int": "i64", "pybool": "bool", "float": "f64"}


def dt_range(dt):
    if dt in WIDTH:
        w, s = WIDTH[dt]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if dt in BOOLS:
        return 0, 1
    return None, None


class Unsupported(Exception):
    """construct outside the analysed language"""


class Abrupt(Exception):
    """the current abstract path has ended (return, raise, break, continue)"""


class Sc:
    """scalar: dynamic type tag + value-graph node"""
    __slots__ = ("dt", "n", "en")

    def __init__(self, dt, n, en=None):
        self.dt, self.n, self.en = dt, n, en

    def __repr__(self):
        return "%s:%s" % (self.dt, T.show(self.n, 3))

    @property
    def const(self):
        if self.dt in FLOATS:
            return T.fval(self.n)
        return T.cval(self.n)


def I(v):
    return Sc("int", T.C(v))


def B(v):
    return Sc("pybool", v if isinstance(v, T.N) else T.C(1 if v else 0))


_birth = [0]


class Mut:
    """mutable abstract object; changes are journalled by the machine"""
    __slots__ = ("birth", "owner")

    def __init__(self):
        _birth[0] += 1
        self.birth = _birth[0]
        self.owner = None


def birth_now():
    return _birth[0]


class Env(Mut):
    __slots__ = ("d", "parent", "kind", "jit", "glob", "nonloc", "name")

    def __init__(self, parent, kind, name=""):
        Mut.__init__(self)
        self.d = {}
        self.parent, self.kind, self.name = parent, kind, name
        self.jit = False
        self.glob = self.nonloc = ()

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = dict(s)

    def getc(self, k):
        return self.d.get(k, UNDEF)

    def setc(self, k, v):
        self.d[k] = v


class Obj(Mut):
    """instance of an interpreted class"""
    __slots__ = ("cls", "d", "label")

    def __init__(self, cls, label=None):
        Mut.__init__(self)
        self.cls = cls
        self.d = {}
        self.label = label

    snap = Env.snap
    restore = Env.restore
    getc = Env.getc
    setc = Env.setc

    def __repr__(self):
        return "<%s object>" % (self.cls.name,)


class Rec(Mut):
    """numpy record"""
    __slots__ = ("dtype", "d", "recarr")

    def __init__(self, dtype, recarr=False):
        Mut.__init__(self)
        self.dtype = dtype
        self.d = {}
        self.recarr = recarr

    snap = Env.snap
    restore = Env.restore
    getc = Env.getc
    setc = Env.setc


class PList(Mut):
    """list; items are (guard, value), guard is TRUE for unconditional items"""
    __slots__ = ("items", "typed")

    def __init__(self, vals=(), typed=False):
        Mut.__init__(self)
        self.items = [(T.TRUE, v) for v in vals]
        self.typed = typed

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items = list(s)

    def vals(self):
        if any(g is not T.TRUE for g, _ in self.items):
            raise Unsupported("iteration over a conditionally populated list")
        return [v for _, v in self.items]


class PDict(Mut):
    __slots__ = ("d", "typed", "log")

    def __init__(self, typed=False):
        Mut.__init__(self)
        self.d = {}          # key -> (keyvalue, value)
        self.typed = typed

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = dict(s)


class Arr(Mut):
    """numpy array: flat list of nodes (scalar dtype), Rec (record dtype), or str"""
    __slots__ = ("dtype", "shape", "data", "readonly", "recarr")

    def __init__(self, dtype, shape, data, readonly=False, recarr=False):
        Mut.__init__(self)
        self.dtype, self.shape, self.data = dtype, tuple(shape), data
        self.readonly, self.recarr = readonly, recarr

    def snap(self):
        return list(self.data)

    def restore(self, s):
        self.data = list(s)

    def getc(self, k):
        v = self.data[k]
        return Sc(self.dtype.dt, v) if isinstance(v, T.N) else v

    def setc(self, k, v):
        self.data[k] = v.n if isinstance(v, Sc) else v

    def __repr__(self):
        return "<array %r %r>" % (self.shape, self.dtype)


class ArrView:
    """row of a multi-dimensional array: fixed leading index nodes"""
    __slots__ = ("arr", "prefix")

    def __init__(self, arr, prefix):
        self.arr, self.prefix = arr, tuple(prefix)


class ColView:
    """field column of a record array, optionally with a fixed sub-index"""
    __slots__ = ("arr", "field", "sub")

    def __init__(self, arr, field, sub=None):
        self.arr, self.field, self.sub = arr, field, sub


class RecSel:
    """element of a record array at a symbolic index"""
    __slots__ = ("idx", "recs")

    def __init__(self, idx, recs):
        self.idx, self.recs = idx, tuple(recs)


class ExtArr(Mut):
    """uninterpreted external array of records; `over` are the writes made into it"""

    def __init__(self, name, dtype, length, reader=None, recarr=True, base=None):
        Mut.__init__(self)
        self.name, self.dtype, self.length, self.reader, self.recarr = name, dtype, length, reader, recarr
        self.over, self.base = [], base

    def snap(self):
        return list(self.over)

    def restore(self, s):
        self.over = list(s)

    def field(self, idx, fname):
        r = self.initial(idx, fname)
        for g, i, f, v in (self.base or self).over:
            if f == fname and isinstance(r, Sc):
                r = Sc(r.dt, T.ite(T.and_(g, T.eq(i, idx)), v, r.n))
        return r

    def initial(self, idx, fname):
        d = dict(self.dtype.fields).get(fname)
        if d is None:
            return None
        if self.reader is not None:
            r = self.reader(idx, fname, d)
            if r is not None:
                return r
        if d.dt is None:
            return Opq("field", (self.name, fname))
        lo, hi = dt_range(d.dt)
        if d.dt in FLOATS:
            return Sc(d.dt, T.ext("%s.%s" % (self.name, fname), (idx,), None, None, "f%d" % FLOATS[d.dt]))
        return Sc(d.dt, T.ext("%s.%s" % (self.name, fname), (idx,), lo, hi))

    def __repr__(self):
        return "<external array %s>" % self.name


class ExtRec:
    __slots__ = ("arr", "idx")

    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx


class Alt:
    """a if c else b, for values that cannot be merged into one node"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "<alt %s ? %r : %r>" % (T.show(self.c, 2), self.a, self.b)


class Char:
    """one character known through its code point"""
    __slots__ = ("code",)

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return "Char(%s)" % T.show(self.code, 3)


class Dec:
    """text of a number under a format specification"""
    __slots__ = ("n", "spec")

    def __init__(self, n, spec):
        self.n, self.spec = n, spec


class Pick:
    """one of several strings, chosen by index"""
    __slots__ = ("idx", "table")

    def __init__(self, idx, table):
        self.idx, self.table = idx, tuple(table)


class SStr:
    """symbolic string: sequence of str | Char | Dec | Pick"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Char) and p.code.op == "c":
                p = chr(p.code.args[0])
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)


class SymStr:
    """symbolic input string with symbolic length"""
    __slots__ = ("name", "len")

    def __init__(self, name, length):
        self.name, self.len = name, length

    def char(self, idx):
        return SStr([Char(T.ext("strchar@" + self.name, (idx,), 0, 0x10FFFF))])


class Opq:
    """uninterpreted external value: a head symbol applied to argument values"""
    __slots__ = ("head", "args")

    def __init__(self, head, args=()):
        self.head, self.args = head, tuple(args)

    def __repr__(self):
        return "Opq(%s%s)" % (self.head, ", %r" % (self.args,) if self.args else "")


class Cls(Mut):
    __slots__ = ("name", "bases", "d", "module", "node", "ann", "jitspec", "members", "kind", "orig", "env")

    def __init__(self, name, bases, d, module, node=None):
        Mut.__init__(self)
        self.name, self.bases, self.d, self.module, self.node = name, bases, d, module, node
        self.ann = []          # [(name, ast, env, future)]
        self.jitspec = None
        self.members = None    # enum members in definition order
        self.kind = None       # 'exc' | 'enum' | builtin kinds
        self.orig = None
        self.env = None

    snap = Env.snap
    restore = Env.restore
    getc = Env.getc
    setc = Env.setc

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.d:
                return c.d[name]
        return None

    def is_a(self, other):
        return any(c is other for c in self.mro())

    def __repr__(self):
        return "<class %s>" % self.name


class Func:
    def __init__(self, node, env, module, name, defaults, kwdefaults):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.jit = None        # None | JitInfo
        self.ir = None
        self.attrs = {}
        self.qual = name

    def clone(self):
        f = Func(self.node, self.env, self.module, self.name, self.defaults, self.kwdefaults)
        f.jit, f.ir, f.attrs, f.qual = self.jit, self.ir, dict(self.attrs), self.qual
        return f

    def __repr__(self):
        return "<function %s>" % self.qual


class JitInfo:
    def __init__(self, sig=None, locals_=None):
        self.sig, self.locals = sig, locals_ or {}
        self.options = {}


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Builtin:
    """modelled external callable"""

    def __init__(self, name, f, attrs=None, istype=False, jitok=True):
        self.name, self.f, self.attrs, self.istype, self.jitok = name, f, attrs or {}, istype, jitok

    def __repr__(self):
        return "<builtin %s>" % self.name


class Static:
    __slots__ = ("f", "kind")

    def __init__(self, f, kind="static"):
        self.f, self.kind = f, kind


class Module:
    def __init__(self, name, path=None, pkg=False):
        self.name, self.path, self.pkg = name, path, pkg
        self.env = None
        self.attrs = {}
        self.future = False

    def __repr__(self):
        return "<module %s>" % self.name


class NpType:
    """numpy scalar type object (np.uint32, ...)"""

    def __init__(self, dt):
        self.dt = dt

    def __eq__(self, o):
        return isinstance(o, NpType) and o.dt == self.dt

    def __hash__(self):
        return hash(("NpType", self.dt))

    def __repr__(self):
        return "np.%s" % self.dt


class DType:
    """numpy dtype: scalar dt, record fields, or subarray"""
    big = False       # stored in big-endian order

    def __init__(self, dt=None, fields=None, sub=None):
        self.dt, self.fields, self.sub = dt, fields, sub

    @property
    def size(self):
        if self.dt is not None:
            if self.dt in BOOLS:
                return 1
            if self.dt in FLOATS:
                return FLOATS[self.dt] // 8
            if self.dt == "str":
                return 0
            return WIDTH[self.dt][0] // 8
        if self.fields is not None:
            return sum(d.size for _, d in self.fields)
        d, shape = self.sub
        k = d.size
        for s in shape:
            k *= s
        return k

    def key(self):
        if self.dt is not None:
            return ">" + self.dt if self.big else self.dt
        if self.fields is not None:
            return ("rec",) + tuple((n, d.key()) for n, d in self.fields)
        return ("sub", self.sub[0].key(), self.sub[1])

    def __eq__(self, o):
        return isinstance(o, DType) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "dtype(%s)" % (self.key(),)


class NbType:
    """numba type"""

    def __init__(self, kind, dt=None, args=()):
        self.kind, self.dt, self.args = kind, dt, args

    def __eq__(self, o):
        return isinstance(o, NbType) and (o.kind, o.dt, o.args) == (self.kind, self.dt, self.args)

    def __hash__(self):
        return hash((self.kind, str(self.dt)))

    def __repr__(self):
        return "nb.%s(%s)" % (self.kind, self.dt or self.args)


class AnnotT:
    """typing construct with a subscript"""

    def __init__(self, head, args):
        self.head, self.args = head, args


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Range:
    __slots__ = ("start", "stop", "step", "dt")

    def __init__(self, start, stop, step, dt):
        self.start, self.stop, self.step, self.dt = start, stop, step, dt


class Exc:
    """exception instance"""
    __slots__ = ("cls", "args", "where")

    def __init__(self, cls, args=(), where=None):
        self.cls, self.args, self.where = cls, tuple(args), where

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return "%s at %s" % (self.name, self.where)


class Undef:
    def __repr__(self):
        return "<unbound>"


UNDEF = Undef()


class Stale:
    """value of a loop-local object after a summarised loop"""

    def __repr__(self):
        return "<loop-local>"


STALE = Stale()
