"""Object protocol of the analyser: attributes, items, calls, strings."""

import ast
import os
from . import term as T
from .values import *
from . import arith as A
from .interp import MachineBase, SymIter, MISSING, OPS
from .numeric import exact_diff

CMPN = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


class Sig:
    """explicit signature of a compiled function"""

    def __init__(self, ret, args):
        self.ret, self.args = ret, args

    def __eq__(self, o):
        return isinstance(o, Sig) and self.ret == o.ret and list(self.args) == list(o.args)

    def __hash__(self):
        return hash((self.ret, tuple(self.args)))

    def __repr__(self):
        return "%r(%s)" % (self.ret, ", ".join(map(repr, self.args)))


class Field:
    def __init__(self, name, type_):
        self.name, self.type = name, type_


def scalar_nb(dt):
    return NbType("scalar", dt)


def _no_function():
    pass


class _NoClass:
    def f(self):
        pass


# attributes of numpy arrays and scalars
NDARRAY = frozenset("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data
diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put
ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring
trace transpose var view""".split())


class Machine(MachineBase):
    def __init__(self, mode, root, pyver=(3, 12), package="numba_pokemon_prngs", hooks=None):
        MachineBase.__init__(self, mode, root, pyver, package)
        from . import extern
        self.hooks.update(hooks or {})
        self.exc = {}
        self.missing = []
        self.extwrites = []
        self.unknown_imports = []
        self.fs = PList()
        self.builtins = extern.make_builtins(self)
        self.ext_modules = extern.make_modules(self)
        self.methods = extern.METHODS
        self.props = extern.PROPS

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        if top == self.package or top in self.spec_roots:
            base = self.root if top == self.package else self.spec_roots[top]
            parts = name.split(".")
            if len(parts) > 1:
                parent = self.import_module(".".join(parts[:-1]))
            p = os.path.join(base, *parts)
            if os.path.isdir(p):
                path, pkg = os.path.join(p, "__init__.py"), True
            else:
                path, pkg = p + ".py", False
            if not os.path.exists(path):
                if pkg:
                    m = Module(name, p, True)
                    m.env = Env(None, "module", os.path.relpath(p, base))
                    m.env.glob = m
                    self.modules[name] = m
                    return m
                self.raise_("ModuleNotFoundError", name)
            return self.load_module(name, path, pkg, base)
        if top in ("numba", "llvmlite") and self.hooks.get("no_numba"):
            self.raise_("ModuleNotFoundError", name)
        if name in self.ext_modules:
            m = self.ext_modules[name]
            self.modules[name] = m
            return m
        parts = name.split(".")
        if len(parts) > 1 and ".".join(parts[:-1]) in self.ext_modules or parts[0] in self.ext_modules:
            v = self.import_module(parts[0])
            for p in parts[1:]:
                v = self.ga(v, p)
            return v
        self.unknown_imports.append(name)
        v = Opq("module " + name)
        self.modules[name] = v
        return v

    def load_module(self, name, path, pkg, base):
        m = Module(name, path, pkg)
        m.env = Env(None, "module", os.path.relpath(path, base))
        m.env.glob = m
        m.env.nonloc = ()
        self.modules[name] = m
        src = self.hooks.get("source", _read)(path)
        tree = ast.parse(src, path)
        m.future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" for s in tree.body)
        m.env.d["__name__"] = name
        m.env.d["__file__"] = path
        from .interp import Frame
        fr = Frame("<module %s>" % name, m.env, False)
        fr.node = tree.body[0] if tree.body else None
        self.frames.append(fr)
        oj = self.jit
        self.jit = False
        try:
            self.block(tree.body, m.env)
        finally:
            self.frames.pop()
            self.jit = oj
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            pm = self.modules.get(par)
            if isinstance(pm, Module) and pm.env is not None:
                pm.env.d.setdefault(leaf, m)
        return m

    def import_name(self, mod, name):
        if isinstance(mod, Module):
            if mod.env is not None:
                if name in mod.env.d:
                    return mod.env.d[name]
                sub = mod.name + "." + name
                base = self.root if mod.name.split(".")[0] == self.package else self.spec_roots.get(mod.name.split(".")[0])
                p = os.path.join(base, *sub.split("."))
                if os.path.isdir(p) or os.path.exists(p + ".py"):
                    return self.import_module(sub)
                self.raise_("ImportError", "cannot import name %s from %s" % (name, mod.name))
            if name in mod.attrs:
                return mod.attrs[name]
            full = mod.name + "." + name
            if full in self.ext_modules:
                return self.import_module(full)
            return Opq("import", (mod.name, name))
        return self.ga(mod, name)

    # ------------------------------------------------------------ exceptions
    def exc_class(self, name):
        c = self.exc.get(name)
        if c is None:
            base = {"KeyError": "LookupError", "IndexError": "LookupError", "ZeroDivisionError": "ArithmeticError",
                    "OverflowError": "ArithmeticError", "ModuleNotFoundError": "ImportError",
                    "NotImplementedError": "RuntimeError", "FileNotFoundError": "OSError", "FileExistsError": "OSError",
                    "PermissionError": "OSError", "UnboundLocalError": "NameError", "UnicodeDecodeError": "ValueError",
                    "TypingError": "Exception", "Exception": "BaseException", "EOFError": "Exception",
                    "UnpicklingError": "Exception"}.get(name)
            if name == "BaseException":
                bases = []
            else:
                bases = [self.exc_class(base or "Exception")]
            c = Cls(name, bases, {}, None)
            c.kind = "exc"
            self.exc[name] = c
        return c

    def exc_match(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(exc, t) for t in typ)
        if isinstance(typ, Builtin) and typ.name in ("OSError", "IOError"):
            typ = self.exc_class("OSError")
        if isinstance(typ, Cls) and isinstance(exc.cls, Cls):
            return exc.cls.is_a(typ)
        if isinstance(typ, Opq):
            return False
        self.unsupported("exception handler type")

    # ------------------------------------------------------------ classes
    def make_super(self, env):
        e = env
        while e is not None and e.kind != "func":
            e = e.parent
        fr = self.frames[-1]
        # the defining class is found through the qualified name of the running function
        node = None
        selfv = None
        for f in reversed(self.frames):
            if f.env is e:
                selfv = e.d.get(self._first_arg(f))
                node = f
                break
        owner = None
        c = selfv.cls if isinstance(selfv, Obj) else selfv
        if isinstance(c, Cls):
            for k in c.mro():
                for v in k.d.values():
                    fn = v.f if isinstance(v, Static) else v
                    if isinstance(fn, Func) and fn.qual == node.func and fn.env is e.parent:
                        owner = k
                        break
                if owner:
                    break
        if owner is None:
            return Opq("super")
        return Super(owner, selfv)

    def _first_arg(self, frame):
        for f in (frame,):
            n = f.env
        for k in n.d:
            return k

    def finish_class(self, c, kw):
        env = c.env
        mod = c.module
        if any(isinstance(b, Cls) and b.kind == "exc" for b in c.bases):
            c.kind = "exc"
        isenum = any(isinstance(b, Builtin) and b.attrs.get("enum") or isinstance(b, Cls) and b.kind == "enum"
                     for b in c.bases)
        if isenum:
            c.kind = "enum"
            members = {}
            last = 0
            for k, v in list(c.d.items()):
                if k.startswith("__") or isinstance(v, (Func, Static)):
                    continue
                if isinstance(v, Opq) and v.head == "auto":
                    v = I(last + 1)
                if isinstance(v, Sc) and v.const is not None:
                    s = Sc("int", v.n, c)
                    c.d[k] = s
                    members[k] = s
                    last = v.const
                elif isinstance(v, (str, tuple)):
                    members[k] = v
            c.members = members

    def annotations(self, c):
        """own annotations of a class, evaluated"""
        out = []
        for name, node in c.ann:
            if isinstance(node, ast.Constant) and isinstance(node.value, str):
                node = ast.parse(node.value, mode="eval").body
            out.append((name, self.ev(node, c.env if c.env is not None else c.module.env)))
        return out

    def instantiate(self, c, args, kw):
        if c.kind == "exc":
            return Exc(c, tuple(args), self.where())
        if c.kind == "enum":
            return self.dist(args[0], lambda v: self.enum_value(c, v))
        if self.jit and c.jitspec is None:
            self.raise_("TypingError", "construction of the plain class %s in compiled code" % c.name)
        o = Obj(c)
        if c.jitspec is not None and not self.jit:
            pass
        init = c.lookup("__init__")
        if isinstance(init, Func):
            self.call_func(init, [o] + list(args), kw)
        elif isinstance(init, Builtin):
            init.f(self, [o] + list(args), kw)
        elif args or kw:
            self.raise_("TypeError", "%s() takes no arguments" % c.name)
        return o

    def enum_value(self, c, v):
        if isinstance(v, Sc) and v.dt not in FLOATS:
            vals = {m.const: m for m in c.members.values() if isinstance(m, Sc)}
            if v.const is not None:
                m = vals.get(v.const)
                if m is None:
                    self.raise_("ValueError", "%r is not a valid %s" % (v.const, c.name))
                return m
            bad = T.TRUE
            for k in vals:
                bad = T.and_(bad, T.not_(T.eq(v.n, T.C(k))))
            self.cond_raise(bad, "ValueError", "not a valid " + c.name)
            return Sc("int", v.n, c)
        if isinstance(v, Opq):
            return Opq("call", (c, v))
        self.raise_("ValueError", "not a valid " + c.name)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self] + list(args), kw)
            return f.func.f(self, [f.self] + list(args), kw)
        if isinstance(f, Builtin):
            if any(isinstance(a, Alt) for a in args) and f.name in DISTRIBUTED:
                i = next(i for i, a in enumerate(args) if isinstance(a, Alt))
                return self.dist(args[i], lambda v: self.call(f, list(args[:i]) + [v] + list(args[i + 1:]), kw))
            return f.f(self, list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Alt):
            return self.dist(f, lambda g: self.call(g, args, kw))
        if isinstance(f, NpType):
            if not args:
                return Sc(f.dt, T.C(0) if f.dt not in FLOATS else T.fconst(0.0, FLOATS[f.dt]))
            return self.dist(args[0], lambda v: self.np_cast(v, f.dt))
        if isinstance(f, NbType):
            if f.kind == "scalar" and self.jit:
                return self.dist(args[0], lambda v: self.np_cast(v, f.dt))
            return Sig(f, list(args))
        if isinstance(f, Static):
            return self.call(f.f, args, kw)
        if isinstance(f, Opq):
            if self.jit:
                self.unsupported("call of unmodelled %s in compiled code" % f.head)
            return Opq("call", (f,) + tuple(args))
        if isinstance(f, Obj):
            c = f.cls.lookup("__call__")
            if isinstance(c, Func):
                return self.call_func(c, [f] + list(args), kw)
        if isinstance(f, AnnotT):
            return Opq("call", (f.head,) + tuple(args))
        if f is None or isinstance(f, (Sc, str, tuple, PList, PDict, Module, Arr, Sig, Obj)):
            self.raise_("TypeError", "%s is not callable" % _tn(f))
        self.unsupported("call of " + type(f).__name__)

    def call_ir(self, f, args):
        from . import irmodel
        return irmodel.run(self, f, args)

    def np_cast(self, v, dt):
        if isinstance(v, Sc):
            if self.jit and v.dt in PYNUM:
                v = self.unbox(v)
            return A.cast(self, v, dt)
        if isinstance(v, Arr) and v.dtype.dt:
            if self.jit:
                self.raise_("TypingError", "scalar type applied to an array")
            return Arr(DType(dt), v.shape, [A.cast(self, Sc(v.dtype.dt, n), dt).n for n in v.data])
        if isinstance(v, (PList, tuple)):
            return self.np_array(v, DType(dt))
        if isinstance(v, Opq):
            return Opq("np." + dt, (v,))
        if v is None:
            if self.jit:
                self.raise_("TypingError", "None converted to a number")
            if dt in FLOATS:
                return Sc(dt, T.fconst(float("nan"), FLOATS[dt]))
            self.raise_("TypeError", "int() argument must not be NoneType")
        if isinstance(v, str):
            try:
                return A.cast(self, I(int(v)), dt)
            except ValueError:
                self.raise_("ValueError", "invalid literal")
        self.misfit("TypeError", "cannot convert %s to %s" % (_tn(v), dt), v)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Sc):
            return A.truth_node(self, v)
        if v is None:
            return T.FALSE
        if isinstance(v, str):
            return T.C(1 if v else 0)
        if isinstance(v, (tuple, bytes)):
            return T.C(1 if len(v) else 0)
        if isinstance(v, Alt):
            return T.ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, PList):
            if self.jit:
                pass
            return T.truthy(self.length(v).n)
        if isinstance(v, PDict):
            return T.C(1 if v.d else 0)
        if isinstance(v, Arr):
            if len(v.data) == 1:
                return T.truthy(v.data[0])
            self.raise_("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (SStr, SymStr)):
            return T.truthy(self.length(v).n)
        if isinstance(v, Opq):
            if v.head == "nomatch":
                return T.FALSE
            if v.head == "match":
                return T.TRUE
            return T.ext("truth@" + self.opq_key(v), (), 0, 1)
        if isinstance(v, (Obj, Func, Cls, Builtin, Module, Bound, Rec, NpType, DType, Exc, ExtArr)):
            if isinstance(v, Obj):
                ln = v.cls.lookup("__len__") or v.cls.lookup("__bool__")
                if ln:
                    return self.truth(self.call(Bound(ln, v), [], {}))
            return T.TRUE
        self.unsupported("truth of " + type(v).__name__)

    def opq_key(self, v):
        if isinstance(v, Opq):
            return "%s(%s)" % (v.head, ",".join(self.opq_key(a) for a in v.args))
        if isinstance(v, Sc):
            return "n%d" % v.n.id
        if isinstance(v, tuple):
            return "(%s)" % ",".join(self.opq_key(a) for a in v)
        if isinstance(v, SStr):
            return "s(%s)" % ",".join(self.opq_key(a) for a in v.parts)
        if isinstance(v, Char):
            return "ch%d" % v.code.id
        if isinstance(v, Dec):
            return "dec%d%s" % (v.n.id, v.spec)
        if isinstance(v, Pick):
            return "pick%d" % v.idx.id
        if isinstance(v, (Cls, Module)):
            return v.name
        if isinstance(v, Func):
            return v.qual
        return repr(v)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, Sc) and isinstance(b, Sc):
            return A.binop(self, op, a, b, self.jit)
        if isinstance(a, Alt):
            return self.dist(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Alt):
            return self.dist(b, lambda x: self.binop(op, a, x))
        if isinstance(a, (ColView, ArrView, SliceView)):
            a = self.materialise(a)
        if isinstance(b, (ColView, ArrView, SliceView)):
            b = self.materialise(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(op, a, b)
        if op == "/" and isinstance(a, Opq) and a.head == "path":
            return self.methods[("opq:path", "__truediv__")](self, [a, b], {})
        if op == "+":
            if isinstance(a, (str, SStr, Pick)) and isinstance(b, (str, SStr, Pick)):
                return self.concat_strs([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PList) and isinstance(b, PList):
                r = PList()
                r.items = list(a.items) + list(b.items)
                return r
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a + b
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Sc) and y.const is not None:
                    if isinstance(x, tuple) or isinstance(x, str):
                        return x * y.const
                    if isinstance(x, PList):
                        return PList(x.vals() * y.const)
        if op == "%" and isinstance(a, str):
            if not isinstance(b, tuple):
                b = (b,)
            vals = [self.pyval(x) for x in b]
            if all(v is not MISSING for v in vals):
                return a % tuple(vals)
            return self.percent(a, list(b))
        if op == "|" and (isinstance(a, (AnnotT, Cls, NpType, Builtin, Opq)) or a is None):
            return Opq("union", (a, b))
        if op == "|" and isinstance(a, PDict) and isinstance(b, PDict):
            r = PDict()
            r.d.update(a.d)
            r.d.update(b.d)
            return r
        if op == "/" and isinstance(a, Opq):
            return Opq("path/", (a, b))
        if isinstance(a, Obj):
            nm = {"+": "__add__", "-": "__sub__", "*": "__mul__", "|": "__or__", "&": "__and__", "^": "__xor__"}.get(op)
            f = nm and a.cls.lookup(nm)
            if isinstance(f, Func):
                return self.call_func(f, [a, b], {})
        if isinstance(a, Opq) or isinstance(b, Opq):
            if not self.jit:
                return Opq("op" + op, (a, b))
        self.misfit("TypeError", "unsupported operand types for %s: %s and %s" % (op, _tn(a), _tn(b)), a, b)

    def elem_binop(self, op, a, b):
        return A.binop(self, op, a, b, self.jit)

    def arr_binop(self, op, a, b):
        a, b = self.asarr(a), self.asarr(b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.shape != b.shape:
                if len(b.data) == 1:
                    b = Sc(b.dtype.dt, b.data[0])
                elif len(a.data) == 1:
                    a = Sc(a.dtype.dt, a.data[0])
                else:
                    self.raise_("ValueError", "operands could not be broadcast together")
            else:
                if a.dtype.dt is None or b.dtype.dt is None or a.dtype.dt == "str":
                    self.unsupported("record array arithmetic")
                da, db = a.dtype.dt, b.dtype.dt
                pa, pb = [Sc(da, x) for x in a.data], [Sc(db, y) for y in b.data]
                if self.jit and (da in FLOATS) != (db in FLOATS) and op != "/":
                    # compiled array operations convert integers of any width to the other operand's real type
                    if da in FLOATS:
                        pb = [A.cast(self, y, da) for y in pb]
                    else:
                        pa = [A.cast(self, x, db) for x in pa]
                out = [A.binop(self, op, x, y, self.jit) for x, y in zip(pa, pb)]
                dt = out[0].dt if out else a.dtype.dt
                return Arr(DType(dt), a.shape, [o.n for o in out])
        arr, sc, left = (a, b, False) if isinstance(a, Arr) else (b, a, True)
        if not isinstance(sc, Sc):
            self.misfit("TypeError", "array arithmetic with " + _tn(sc), sc)
        adt = arr.dtype.dt
        res = None
        if not self.jit and adt in WIDTH and op not in A.CMP:
            # value based casting of scalars against arrays
            if sc.dt in WIDTH or sc.dt in PYNUM and sc.dt != "float":
                lo, hi = self.rng(sc.n)
                al, ah = dt_range(adt)
                if lo is not None and hi is not None and lo >= al and hi <= ah:
                    sc = Sc(adt, sc.n)
            elif sc.dt == "float" and adt in ("u8", "u16", "i8", "i16"):
                pass
        elif not self.jit and adt in FLOATS and sc.dt not in FLOATS:
            sc = A.cast(self, sc, adt)
        elif not self.jit and adt == "f32" and sc.dt in FLOATS and op not in A.CMP:
            sc = A.cast(self, sc, "f32")
        elif not self.jit and adt == "f32" and sc.dt in FLOATS:
            sc = A.cast(self, sc, "f32")
        out = []
        for x in arr.data:
            e = Sc(adt, x)
            out.append(A.binop(self, op, sc, e, self.jit) if left else A.binop(self, op, e, sc, self.jit))
        dt = out[0].dt if out else adt
        if dt == "pybool":
            dt = "bool"
        return Arr(DType(dt), arr.shape, [o.n for o in out])

    def asarr(self, v):
        if isinstance(v, (PList, tuple)) and not isinstance(v, Arr):
            return self.np_array(v, None)
        return v

    def compare(self, op, a, b):
        t = type(op) if not isinstance(op, type) else op
        if t in (ast.Is, ast.IsNot):
            n = self.is_node(a, b)
            return Sc("bool" if self.jit else "pybool", n if t is ast.Is else T.not_(n))
        if t in (ast.In, ast.NotIn):
            n = self.contains(b, a)
            return Sc("bool" if self.jit else "pybool", n if t is ast.In else T.not_(n))
        s = CMPN[t]
        if isinstance(a, Sc) and isinstance(b, Sc):
            return A.binop(self, s, a, b, self.jit)
        if isinstance(a, Alt):
            return self.dist(a, lambda x: self.compare(t, x, b))
        if isinstance(b, Alt):
            return self.dist(b, lambda x: self.compare(t, a, x))
        if isinstance(a, (ColView, ArrView, SliceView)):
            a = self.materialise(a)
        if isinstance(b, (ColView, ArrView, SliceView)):
            b = self.materialise(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if (a.dtype.dt if isinstance(a, Arr) else b.dtype.dt) != "str":
                return self.arr_binop(s, a, b)
        if s in ("==", "!="):
            n = self.eq_node(a, b)
            return Sc("bool" if self.jit else "pybool", n if s == "==" else T.not_(n))
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, str) and isinstance(b, str):
            x, y = self.pyval(a), self.pyval(b)
            if x is not MISSING and y is not MISSING:
                return B({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[s])
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Sc("pybool", T.ext("cmp%s@%s,%s" % (s, self.opq_key(a), self.opq_key(b)), (), 0, 1))
        self.misfit("TypeError", "%s not supported between %s and %s" % (s, _tn(a), _tn(b)), a, b)

    def is_node(self, a, b):
        if isinstance(a, Alt):
            return T.ite(a.c, self.is_node(a.a, b), self.is_node(a.b, b))
        if isinstance(b, Alt):
            return T.ite(b.c, self.is_node(a, b.a), self.is_node(a, b.b))
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.dt in BOOLS and b.dt in BOOLS:
                return T.eq(a.n, b.n)
            self.unsupported("identity of numbers")
        if a is None or b is None:
            if isinstance(a, Opq) or isinstance(b, Opq):
                o = a if isinstance(a, Opq) else b
                if o.head.startswith("ir"):
                    return T.FALSE
                return T.ext("isnone@" + self.opq_key(o), (), 0, 1)
            return T.C(1 if a is b else 0)
        if isinstance(a, (NpType, NbType, DType)):
            return T.C(1 if a == b else 0)
        return T.C(1 if a is b else 0)

    def eq_node(self, a, b):
        if isinstance(a, Alt):
            return T.ite(a.c, self.eq_node(a.a, b), self.eq_node(a.b, b))
        if isinstance(b, Alt):
            return T.ite(b.c, self.eq_node(a, b.a), self.eq_node(a, b.b))
        if isinstance(a, Sc) and isinstance(b, Sc):
            return A.compare(self, "==", a, b, self.jit)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return T.FALSE
            r = T.TRUE
            for x, y in zip(a, b):
                r = T.and_(r, self.eq_node(x, y))
            return r
        if isinstance(a, PList) and isinstance(b, PList):
            return self.eq_node(tuple(a.vals()), tuple(b.vals()))
        strs = (str, SStr, SymStr, Pick)
        if isinstance(a, strs) and isinstance(b, strs):
            if isinstance(a, str) and isinstance(b, str):
                return T.C(1 if a == b else 0)
            return self.streq(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if type(a) is type(b) and a.head == b.head and a.args == b.args:
                return T.TRUE
            if a is None or b is None:
                return self.is_node(a, b)
            k1, k2 = sorted((self.opq_key(a), self.opq_key(b)))
            return T.ext("eq@%s,%s" % (k1, k2), (), 0, 1)
        if isinstance(a, (NpType, DType)) and isinstance(b, (NpType, DType)):
            da = a.dt if isinstance(a, NpType) else a.key()
            db = b.dt if isinstance(b, NpType) else b.key()
            return T.C(1 if da == db else 0)
        if isinstance(a, Obj) and isinstance(a.cls.lookup("__eq__"), Func):
            return self.truth(self.call(Bound(a.cls.lookup("__eq__"), a), [b], {}))
        if isinstance(a, NbType) or isinstance(b, NbType):
            return T.C(1 if a == b else 0)
        return T.C(1 if a is b else 0)

    def streq(self, a, b):
        if isinstance(a, SStr) and isinstance(b, SStr) and a.parts == b.parts:
            return T.TRUE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr) and isinstance(y, str) and all(isinstance(p, (Char, str)) for p in x.parts):
                chars = []
                for p in x.parts:
                    chars.extend(p if isinstance(p, str) else [p])
                if len(chars) != len(y):
                    return T.FALSE
                r = T.TRUE
                for p, q in zip(chars, y):
                    r = T.and_(r, T.C(int(p == q)) if isinstance(p, str) else T.eq(p.code, T.C(ord(q))))
                return r
        k1, k2 = sorted((self.opq_key(a), self.opq_key(b)))
        return T.ext("streq@%s,%s" % (k1, k2), (), 0, 1)

    def contains(self, c, x):
        if isinstance(c, Alt):
            return T.ite(c.c, self.contains(c.a, x), self.contains(c.b, x))
        if isinstance(x, Alt):
            return T.ite(x.c, self.contains(c, x.a), self.contains(c, x.b))
        if isinstance(c, (tuple, PList)):
            if isinstance(c, PList):
                r = T.FALSE
                for g, v in c.items:
                    r = T.or_(r, T.and_(g, self.eq_node(v, x)))
                return r
            r = T.FALSE
            for v in c:
                r = T.or_(r, self.eq_node(v, x))
            return r
        if isinstance(c, Opq) and c.head == "set":
            return self.contains(tuple(c.args), x)
        if isinstance(c, PDict):
            k = self.hashkey(x, soft=True)
            if k is not None:
                if k in c.d:
                    v = c.d[k][1]
                    if isinstance(v, Alt):
                        return self.bound_cond(v)
                    return T.TRUE
                if all(self.hashkey(kv, soft=True) is not None for kv, _ in c.d.values()) and not _symkey(k):
                    return T.FALSE
            r = T.FALSE
            for kv, _ in c.d.values():
                r = T.or_(r, self.eq_node(kv, x))
            return r
        if isinstance(c, str):
            if isinstance(x, str):
                return T.C(1 if x in c else 0)
            if isinstance(x, SStr):
                return T.ext("in@%r,%s" % (c, self.opq_key(x)), (), 0, 1)
        if isinstance(c, Range):
            start, stop, step = c.start, c.stop, c.step
            if T.cval(step) == 1:
                return T.and_(T.ge(x.n, start), T.lt(x.n, stop))
        if isinstance(c, (Opq, SStr, SymStr)):
            return T.ext("in@%s,%s" % (self.opq_key(c), self.opq_key(x)), (), 0, 1)
        if isinstance(c, JsonObj):
            return c.has(x)
        if isinstance(c, Cls) and c.members is not None:
            return self.contains(tuple(c.members.values()), x)
        self.unsupported("membership in " + type(c).__name__)

    def bound_cond(self, v):
        """condition under which a conditional value is bound"""
        if v is UNDEF:
            return T.FALSE
        if isinstance(v, Alt):
            return T.ite(v.c, self.bound_cond(v.a), self.bound_cond(v.b))
        return T.TRUE

    # ------------------------------------------------------------ python constants
    def pyval(self, v):
        """the Python constant equal to v, or MISSING"""
        if isinstance(v, Sc):
            c = v.const
            if c is None:
                return MISSING
            return bool(c) if v.dt in BOOLS else c
        if v is None or isinstance(v, (str, bytes)):
            return v
        if isinstance(v, tuple):
            r = tuple(self.pyval(x) for x in v)
            return MISSING if any(x is MISSING for x in r) else r
        if isinstance(v, PList):
            if any(g is not T.TRUE for g, _ in v.items):
                return MISSING
            r = [self.pyval(x) for _, x in v.items]
            return MISSING if any(x is MISSING for x in r) else r
        if isinstance(v, PDict):
            r = {}
            for k, (kv, x) in v.d.items():
                a, b = self.pyval(kv), self.pyval(x)
                if a is MISSING or b is MISSING:
                    return MISSING
                r[a] = b
            return r
        return MISSING

    def fromjson(self, v):
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            return I(v)
        if isinstance(v, float):
            return Sc("float", T.fconst(v, 64))
        if isinstance(v, (list,)):
            return PList([self.fromjson(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.fromjson(x) for x in v)
        if isinstance(v, dict):
            d = PDict()
            for k, x in v.items():
                kv = self.fromjson(k)
                d.d[self.hashkey(kv)] = (kv, self.fromjson(x))
            return d
        return v

    def hashkey(self, v, soft=False):
        if isinstance(v, Sc):
            c = v.const
            if c is None:
                return ("sym", v.n.id)
            return c
        if isinstance(v, str) or v is None or isinstance(v, bytes):
            return v
        if isinstance(v, tuple):
            return tuple(self.hashkey(x, soft) for x in v)
        if isinstance(v, (Mut, Cls, Module, Func, Builtin)):
            return ("id", id(v))
        if isinstance(v, (SStr, SymStr, Opq)):
            return ("sym", self.opq_key(v))
        if isinstance(v, (NpType, DType)):
            return v
        if isinstance(v, Alt) and soft:
            return None
        self.unsupported("dictionary key %s" % type(v).__name__)

    # ------------------------------------------------------------ sizes, iteration
    def length(self, v):
        if isinstance(v, (tuple, str, bytes)):
            return self.intval(len(v))
        if isinstance(v, PList):
            n = T.C(0)
            k = 0
            for g, _ in v.items:
                if g is T.TRUE:
                    k += 1
                else:
                    n = T.add(n, g)
            return self.intval(T.add(n, T.C(k)))
        if isinstance(v, PDict):
            for kv, x in v.d.values():
                if isinstance(x, Alt) and self.bound_cond(x) is not T.TRUE:
                    self.unsupported("length of a conditionally populated dictionary")
            return self.intval(len(v.d))
        if isinstance(v, Arr):
            return self.intval(v.shape[0])
        if isinstance(v, (ArrView, ColView, SliceView)):
            return self.length(self.materialise(v))
        if isinstance(v, SymStr):
            return self.intval(v.len)
        if isinstance(v, SStr):
            n = T.C(0)
            for p in v.parts:
                if isinstance(p, str):
                    n = T.add(n, T.C(len(p)))
                elif isinstance(p, Char):
                    n = T.add(n, T.C(1))
                elif isinstance(p, Pick) and len({len(s) for s in p.table}) == 1:
                    n = T.add(n, T.C(len(p.table[0])))
                else:
                    return Sc("int", T.ext("strlen@" + self.opq_key(v), (), 0, None))
            return self.intval(n)
        if isinstance(v, Cls) and v.members is not None:
            return I(len({m.const for m in v.members.values()}))
        if isinstance(v, ExtArr):
            return Sc("int", v.length if isinstance(v.length, T.N) else T.C(v.length))
        if isinstance(v, Range):
            it = self.as_iter(v)
            return Sc("int", it.n) if isinstance(it, SymIter) else I(len(it))
        if isinstance(v, Alt):
            return self.dist(v, self.length)
        if isinstance(v, Opq):
            return Sc("int", T.ext("len@" + self.opq_key(v), (), 0, None))
        if isinstance(v, JsonList):
            return Sc("int", v.len)
        if isinstance(v, Obj):
            f = v.cls.lookup("__len__")
            if isinstance(f, Func):
                return self.call_func(f, [v], {})
        self.misfit("TypeError", "object of type %s has no len()" % _tn(v), v)

    def intval(self, n):
        if not isinstance(n, T.N):
            n = T.C(n)
        return Sc("i64" if self.jit else "int", n)

    def as_iter(self, v):
        if isinstance(v, SymIter):
            return v
        if isinstance(v, Range):
            s, e, st = T.cval(v.start), T.cval(v.stop), T.cval(v.step)
            if st is None:
                self.unsupported("range step")
            if s is not None and e is not None:
                return [Sc(v.dt, T.C(k)) for k in range(s, e, st)]
            d = exact_diff(v.stop, v.start)
            if d is not None:
                n = len(range(0, d, st))
                if n <= 4096:
                    return [Sc(v.dt, self.clampdt(T.add(v.start, T.C(k * st)), v.dt)) for k in range(n)]
            diff = T.sub(v.stop, v.start) if st > 0 else T.sub(v.start, v.stop)
            a = abs(st)
            n = diff if a == 1 else T.floordiv(T.add(diff, T.C(a - 1)), T.C(a))
            lo, hi = self.rng(diff)
            if lo is None or lo < 0:
                n = T.ite(T.lt(T.C(0), diff), n, T.C(0))
            return SymIter(n, lambda k: Sc(v.dt, self.clampdt(T.add(v.start, T.mul(k, T.C(st))), v.dt)))
        if isinstance(v, SymStr):
            return SymIter(v.len, v.char)
        if isinstance(v, ExtArr) and T.cval(v.length if isinstance(v.length, T.N) else T.C(v.length)) is None:
            return SymIter(v.length, lambda k: ExtRec(v, k))
        if isinstance(v, JsonList) and T.cval(v.len) is None:
            return SymIter(v.len, v.elem)
        if isinstance(v, Mapped):
            return v.it
        return self.iterate(v)

    def clampdt(self, n, dt):
        if dt in WIDTH:
            return A.wrapx(self, n, dt)
        return n

    def iterate(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PList):
            return v.vals()
        if isinstance(v, str):
            return list(v)
        if isinstance(v, bytes):
            return [I(x) for x in v]
        if isinstance(v, PDict):
            if any(self.bound_cond(x) is not T.TRUE for _, x in v.d.values()):
                self.unsupported("iteration over a conditionally populated dictionary")
            return [kv for kv, _ in v.d.values()]
        if isinstance(v, (Range, SymIter, Mapped)):
            r = self.as_iter(v)
            if isinstance(r, SymIter):
                self.unsupported("iteration of symbolic length")
            return r
        if isinstance(v, Arr):
            if len(v.shape) == 1:
                return [self.arr_elem(v, k) for k in range(v.shape[0])]
            return [ArrView(v, (T.C(k),)) for k in range(v.shape[0])]
        if isinstance(v, (ArrView, ColView, SliceView)):
            return self.iterate(self.materialise(v))
        if isinstance(v, Cls) and v.members is not None:
            seen, out = set(), []
            for m in v.members.values():
                if m.const not in seen:
                    seen.add(m.const)
                    out.append(m)
            return out
        if isinstance(v, SStr):
            out = []
            for p in v.parts:
                if isinstance(p, str):
                    out.extend(p)
                elif isinstance(p, Char):
                    out.append(SStr([p]))
                else:
                    self.unsupported("iteration over formatted text")
            return out
        if isinstance(v, Opq) and v.head == "set":
            return list(v.args)
        if isinstance(v, ExtArr):
            n = T.cval(v.length if isinstance(v.length, T.N) else T.C(v.length))
            if n is not None and n <= 4096:
                return [ExtRec(v, T.C(k)) for k in range(n)]
        if isinstance(v, JsonList) and T.cval(v.len) is not None:
            return [v.elem(T.C(k)) for k in range(T.cval(v.len))]
        if isinstance(v, Alt):
            n = self.normal_alt(v)
            if not isinstance(n, Alt):
                return self.iterate(n)
            if all(isinstance(x, (PList, tuple)) for x in (n.a, n.b)):
                a, b = self.iterate(n.a), self.iterate(n.b)
                if len(a) == len(b):
                    return [self.merge(n.c, x, y) for x, y in zip(a, b)]
            self.unsupported("iteration over a conditional value")
        if isinstance(v, Obj):
            f = v.cls.lookup("__iter__")
            if isinstance(f, Func):
                return self.iterate(self.call_func(f, [v], {}))
        if v is None or isinstance(v, Sc):
            self.raise_("TypeError", "%s is not iterable" % _tn(v))
        self.unsupported("iteration over " + type(v).__name__)

    # ------------------------------------------------------------ strings
    def format(self, x, spec, conv=""):
        if isinstance(x, Alt):
            return self.dist(x, lambda v: self.format(v, spec, conv))
        if isinstance(x, Sc):
            c = x.const
            if c is not None:
                if x.dt in BOOLS:
                    c = bool(c)
                if x.en is not None and not spec and conv == "r":
                    return "<%s>" % x.en.name
                try:
                    return format(c, spec) if not conv else repr(c)
                except ValueError:
                    self.raise_("ValueError", "format")
            return SStr([Dec(x.n, spec)])
        if isinstance(x, str):
            return format(repr(x) if conv == "r" else x, spec)
        if isinstance(x, (SStr,)):
            return x
        if isinstance(x, Pick):
            return SStr([x])
        if isinstance(x, Opq) and x.head == "path" and not spec and not conv:
            return x.args[0]
        p = self.pyval(x)
        if p is not MISSING:
            return format(p, spec) if not conv else repr(p)
        return SStr([Dec(T.ext("str@" + self.opq_key(x), (), 0, None), "opaque")])

    def percent(self, s, vals):
        """printf-style formatting with symbolic values"""
        import re
        out, pos = [], 0
        for x in re.finditer(r"%(?:%|([0#]*)(\d*)([sdixXr]))", s):
            out.append(s[pos:x.start()])
            pos = x.end()
            if x.group(0) == "%%":
                out.append("%")
                continue
            if not vals:
                self.raise_("TypeError", "not enough arguments for format string")
            kind = {"d": "", "i": "", "s": "", "r": ""}.get(x.group(3), x.group(3))
            spec = x.group(1)[:1].replace("-", "") + x.group(2) + kind if x.group(1) or x.group(2) or kind else ""
            v = vals.pop(0)
            out.append(self.format(v, spec, "r" if x.group(3) == "r" else ""))
        out.append(s[pos:])
        if "%" in "".join(x for x in out if isinstance(x, str)).replace("%%", "") and "%%" not in s:
            self.unsupported("format string %s" % s)
        out = [x for x in out if not (isinstance(x, str) and not x)]
        return self.concat_strs(out) if out else ""

    def concat_strs(self, parts):
        for i, p in enumerate(parts):
            if isinstance(p, Alt):
                return self.dist(p, lambda v: self.concat_strs(parts[:i] + [v] + parts[i + 1:]))
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.parts)
            else:
                out.append(p)
        if all(isinstance(p, str) for p in out):
            return "".join(out)
        r = SStr(out)
        if len(r.parts) == 1 and isinstance(r.parts[0], str):
            return r.parts[0]
        return r

    # ------------------------------------------------------------ arrays
    def np_array(self, v, dtype):
        if isinstance(v, Arr):
            r = Arr(dtype or v.dtype, v.shape, list(v.data))
            if dtype is not None and dtype.dt != v.dtype.dt:
                r.data = [A.cast(self, Sc(v.dtype.dt, x), dtype.dt).n for x in v.data]
            return r
        if isinstance(v, (ColView, ArrView, SliceView)):
            return self.np_array(self.materialise(v), dtype)
        if isinstance(v, Range):
            v = PList(self.iterate(v))
        if not isinstance(v, (tuple, PList)):
            self.unsupported("np.array of " + type(v).__name__)
        rows = self.iterate(v)
        shape = [len(rows)]
        flat = rows
        while flat and isinstance(flat[0], (tuple, PList, Arr)):
            n = []
            for r in flat:
                n.extend(self.iterate(r))
            shape.append(len(n) // len(flat))
            flat = n
        if dtype is None:
            if not flat:
                dtype = DType("f64")
            elif all(isinstance(x, str) for x in flat):
                dtype = DType("str")
            else:
                if any(not isinstance(x, Sc) for x in flat):
                    self.unsupported("np.array element")
                dts = {x.dt for x in flat}
                if dts <= {"int", "pybool"} and "int" in dts:
                    dtype = DType("i64")
                elif dts == {"pybool"} or dts == {"bool"}:
                    dtype = DType("bool")
                elif dts <= {"float", "int", "f64"}:
                    dtype = DType("f64")
                elif len(dts) == 1:
                    dtype = DType(next(iter(dts)))
                else:
                    self.unsupported("np.array of mixed types")
        if dtype.dt == "str":
            return Arr(dtype, shape, list(flat))
        if dtype.dt is None:
            self.unsupported("np.array of records")
        data = []
        for x in flat:
            if isinstance(x, Alt):
                x = self.dist(x, lambda y: A.cast(self, y, dtype.dt))
            if not isinstance(x, Sc):
                self.raise_("TypeError", "array element")
            data.append(A.cast(self, x, dtype.dt).n)
        return Arr(dtype, shape, data)

    def blank(self, dtype, label="uninit", zero=False, recarr=False):
        """content of one fresh array element"""
        if dtype.dt == "str":
            return ""
        if dtype.dt is not None:
            if dtype.dt in FLOATS:
                return T.fconst(0.0, FLOATS[dtype.dt]) if zero else \
                    T.ext(label, (), None, None, "f%d" % FLOATS[dtype.dt])
            return T.C(0) if zero else T.ext(label, (), *dt_range(dtype.dt))
        if dtype.fields is not None:
            r = Rec(dtype, recarr)
            for n, d in dtype.fields:
                r.d[n] = self.blank_field(d, label + "." + n, zero, recarr)
            return r
        self.unsupported("array of subarrays")

    def blank_field(self, d, label, zero, recarr):
        if d.sub is not None:
            base, shape = d.sub
            n = 1
            for s in shape:
                n *= s
            return Arr(base, shape, [self.blank(base, "%s[%d]" % (label, i), zero, recarr) for i in range(n)], recarr=recarr)
        v = self.blank(d, label, zero, recarr)
        return Sc(d.dt, v) if isinstance(v, T.N) else v

    def new_array(self, shape, dtype, zero):
        n = 1
        for s in shape:
            n *= s
        self._fresh = getattr(self, "_fresh", 0) + 1
        return Arr(dtype, shape, [self.blank(dtype, "uninit#%d[%d]" % (self._fresh, i), zero) for i in range(n)])

    def arr_elem(self, arr, k):
        v = arr.data[k]
        if isinstance(v, T.N):
            return Sc(arr.dtype.dt, v)
        return v

    def materialise(self, v):
        if isinstance(v, SliceView):
            return Arr(v.arr.dtype, (len(v.r),), [v.arr.data[k] for k in v.r], recarr=v.arr.recarr)
        if isinstance(v, ArrView):
            shape = v.arr.shape[len(v.prefix):]
            n = 1
            for s in shape:
                n *= s
            out = []
            for k in range(n):
                out.append(self.flat_get(v.arr, v.prefix, k))
            return Arr(v.arr.dtype, shape, out)
        if isinstance(v, ColView):
            arr = v.arr
            d = dict(arr.dtype.fields)[v.field]
            vals = [r.d[v.field] for r in arr.data]
            if d.sub is None:
                return Arr(d, (len(vals),), [x.n if isinstance(x, Sc) else x for x in vals], recarr=arr.recarr)
            base, shape = d.sub
            if v.sub is not None:
                out = []
                for x in vals:
                    e = self.gi(x, v.sub)
                    out.append(e.n if isinstance(e, Sc) else e)
                return Arr(base, (len(vals),), out)
            flat = []
            for x in vals:
                flat.extend(x.data)
            return Arr(base, (len(vals),) + tuple(shape), flat)
        return v

    def flat_get(self, arr, prefix, k):
        """node at (prefix..., flat rest k)"""
        rest = 1
        for s in arr.shape[len(prefix):]:
            rest *= s
        idx = T.C(0)
        for p, s in zip(prefix, arr.shape):
            idx = T.add(T.mul(idx, T.C(s)), p)
        c = T.cval(idx)
        if c is not None:
            return arr.data[c * rest + k]
        return T.sel(idx, [arr.data[i * rest + k] for i in range(len(arr.data) // rest)])

    def index_node(self, i, n, what):
        """checked, normalised index node for a sequence of n elements"""
        if isinstance(i, Sc):
            if i.dt in FLOATS:
                self.raise_("TypeError", "index must be an integer")
            x = i.n
        else:
            self.misfit("TypeError", "%s indices must be integers, not %s" % (what, _tn(i)), i)
        c = T.cval(x)
        if c is not None:
            if c < 0 and not (self.jit and i.dt in WIDTH and not WIDTH[i.dt][1]):
                c += n
            if not 0 <= c < n:
                self.raise_("IndexError", "%s index %d out of range %d" % (what, c, n))
            return T.C(c)
        lo, hi = self.rng(x)
        if lo is None or lo < 0:
            self.cond_raise(T.lt(x, T.C(-n)), "IndexError", what)
            neg = T.lt(x, T.C(0))
            k = self.known(neg)
            if k is True:
                x = T.add(x, T.C(n))
            elif k is None:
                x = T.ite(neg, T.add(x, T.C(n)), x)
        if hi is None or hi >= n:
            self.cond_raise(T.ge(x, T.C(n)), "IndexError", what)
        if n == 1:
            return T.C(0)
        return x

    def slice_range(self, s, n):
        def val(x):
            if x is None:
                return None
            c = x.const if isinstance(x, Sc) else MISSING
            if c is None or c is MISSING:
                self.unsupported("slice bound")
            return c
        return range(n)[slice(val(s.lo), val(s.hi), val(s.step))]

    def sel_values(self, idx, vals):
        """vals[idx] for arbitrary values"""
        c = T.cval(idx)
        if c is not None:
            return vals[c]
        if all(isinstance(v, Sc) for v in vals):
            dts = {v.dt for v in vals}
            if len(dts) == 1:
                return Sc(vals[0].dt, T.sel(idx, [v.n for v in vals]))
            if self.jit:
                u = TONB.get(vals[0].dt, vals[0].dt)
                for v in vals[1:]:
                    u = A.unify(u, TONB.get(v.dt, v.dt))
                    if u is None:
                        self.raise_("TypingError", "cannot unify tuple elements")
                return Sc(u, T.sel(idx, [A.cast(self, Sc(TONB.get(v.dt, v.dt), v.n), u).n for v in vals]))
        if all(isinstance(v, str) for v in vals):
            return SStr([Pick(idx, vals)])
        if all(isinstance(v, Rec) for v in vals):
            return RecSel(idx, vals)
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self.sel_values(idx, [v[j] for v in vals]) for j in range(len(vals[0])))
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            if not T.eq(idx, T.C(k)) is T.FALSE:
                r = self.merge(T.eq(idx, T.C(k)), vals[k], r)
        return r

    # ------------------------------------------------------------ items
    def index_const(self, i, n):
        c = T.cval(i.n)
        if c is None:
            return None
        return T.cval(self.index_node(i, n, "array"))

    def gi(self, o, i):
        if isinstance(o, SliceView):
            if isinstance(i, Sc) and self.index_const(i, len(o.r)) is not None:
                return self.arr_get(o.arr, I(o.r[self.index_const(i, len(o.r))]))
            if isinstance(i, Slice):
                return SliceView(o.arr, o.r[i.lo.const if i.lo else None:i.hi.const if i.hi else None:
                                            i.step.const if i.step else None])
            return self.gi(self.materialise(o), i)
        if isinstance(o, Alt):
            return self.dist(o, lambda x: self.gi(x, i))
        if isinstance(i, Alt):
            return self.dist(i, lambda x: self.gi(o, x))
        if isinstance(o, Arr):
            return self.arr_get(o, i)
        if isinstance(o, (tuple, PList)):
            if isinstance(o, PList) and any(g is not T.TRUE for g, _ in o.items):
                return self.guarded_get(o, i)
            vals = o if isinstance(o, tuple) else [v for _, v in o.items]
            if isinstance(i, Slice):
                r = [vals[k] for k in self.slice_range(i, len(vals))]
                return tuple(r) if isinstance(o, tuple) else PList(r)
            if isinstance(i, Sc) and i.dt == "bool" and not self.jit:
                self.raise_("TypeError", "indices must be integers or slices, not numpy.bool_")
            idx = self.index_node(i, len(vals), "tuple" if isinstance(o, tuple) else "list")
            return self.sel_values(idx, list(vals))
        if isinstance(o, PDict):
            return self.dict_get(o, i)
        if isinstance(o, Rec):
            if isinstance(i, str):
                if i not in o.d:
                    self.raise_("ValueError", "no field " + i)
                return o.d[i]
        if isinstance(o, (ExtRec,)) and isinstance(i, str):
            r = o.arr.field(o.idx, i)
            if r is None:
                self.raise_("ValueError", "no field " + i)
            return r
        if isinstance(o, RecSel) and isinstance(i, str):
            return self.recsel_field(o, i)
        if isinstance(o, ExtArr):
            if isinstance(i, Sc):
                n = o.length if isinstance(o.length, T.N) else T.C(o.length)
                c = T.cval(n)
                if c is not None:
                    idx = self.index_node(i, c, o.name)
                else:
                    idx = i.n
                    self.cond_raise(T.ge(idx, n), "IndexError", o.name)
                return ExtRec(o, idx)
            if isinstance(i, str):
                return Opq("column", (o.name, i))
        if isinstance(o, ArrView):
            return self.arr_get(o.arr, i, o.prefix)
        if isinstance(o, ColView):
            if o.sub is None and isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], Slice) and \
                    i[0].lo is None and i[0].hi is None and isinstance(i[1], Sc):
                d = dict(o.arr.dtype.fields)[o.field]
                if d.sub is None:
                    self.raise_("IndexError", "too many indices for array")
                self.index_node(i[1], d.sub[1][0], o.field)
                return ColView(o.arr, o.field, i[1])
            return self.gi(self.materialise(o), i)
        if isinstance(o, str):
            if isinstance(i, Slice):
                r = self.slice_range(i, len(o))
                return "".join(o[k] for k in r)
            idx = self.index_node(i, len(o), "string")
            return self.sel_values(idx, list(o))
        if isinstance(o, bytes):
            if isinstance(i, Slice):
                r = self.slice_range(i, len(o))
                return bytes(o[k] for k in r)
            return I(o[self.index_node(i, len(o), "bytes").args[0]])
        if isinstance(o, SStr):
            if isinstance(i, Slice):
                return self.sstr_slice(o, i)
            chars = self.iterate(o)
            return self.sel_values(self.index_node(i, len(chars), "string"), chars)
        if isinstance(o, SymStr):
            if isinstance(i, Sc):
                self.cond_raise(T.ge(i.n, o.len), "IndexError", "string")
                return o.char(i.n)
        if isinstance(o, Cls) and o.kind == "enum" and isinstance(i, str):
            if i not in o.members:
                self.raise_("KeyError", i)
            return o.members[i]
        if isinstance(o, (NbType,)):
            nd = 1
            layout = "A"
            if isinstance(i, Slice):
                layout = "C" if isinstance(i.step, Sc) and i.step.const == 1 else "A"
            return NbType("array", None, (o, nd, layout, False))
        if isinstance(o, DType):
            if isinstance(i, str):
                d = dict(o.fields or ()).get(i)
            else:
                c = i.const
                d = o.fields[c][1] if o.fields and c is not None and 0 <= c < len(o.fields) else None
            if d is None:
                self.raise_("KeyError", "dtype field")
            return d
        if isinstance(o, (Builtin, AnnotT)) or isinstance(o, Cls) or isinstance(o, NpType):
            head = o.name if isinstance(o, (Builtin, Cls)) else o.dt if isinstance(o, NpType) else o.head
            return AnnotT(head, i if isinstance(i, tuple) else (i,))
        if isinstance(o, JsonObj):
            return o.get(self, i)
        if isinstance(o, JsonList):
            if isinstance(i, Sc):
                self.cond_raise(T.ge(i.n, o.len), "IndexError", "json list")
                return o.elem(i.n)
        if isinstance(o, Opq):
            f = self.methods.get(("opq:" + o.head, "__getitem__"))
            if f is not None:
                return f(self, [o, i], {})
            if o.head == "match" and isinstance(i, Sc) and i.const is not None and i.const < len(o.args):
                return o.args[i.const]
            if isinstance(i, Slice):
                return Opq("slice", (o, i.lo, i.hi, i.step))
            return Opq("item", (o, i))
        if isinstance(o, Obj):
            f = o.cls.lookup("__getitem__")
            if isinstance(f, Func):
                return self.call_func(f, [o, i], {})
        if o is None or isinstance(o, (Sc, Func, Obj)):
            self.raise_("TypeError" if not self.jit else "TypingError", "%s is not subscriptable" % _tn(o))
        self.unsupported("subscript of %s with %s" % (type(o).__name__, type(i).__name__))

    def sstr_slice(self, o, i):
        lo = None if i.lo is None else i.lo.const
        hi = None if i.hi is None else i.hi.const
        parts = list(o.parts)
        if i.step is None and lo in (None, 0) and hi is not None and hi < 0:
            k = -hi
            while k and parts and isinstance(parts[-1], str):
                if len(parts[-1]) > k:
                    parts[-1] = parts[-1][:-k]
                    k = 0
                else:
                    k -= len(parts[-1])
                    parts.pop()
            if not k:
                return self.concat_strs(parts) if parts else ""
        chars = self.iterate(o)
        return self.concat_strs([chars[k] for k in self.slice_range(i, len(chars))])

    def guarded_get(self, o, i):
        if isinstance(i, Slice):
            self.unsupported("slice of a conditionally populated list")
        n = self.length(o).n
        x = i.n
        c = T.cval(x)
        if c is not None and c < 0:
            x = T.add(n, x)
        self.cond_raise(T.or_(T.ge(x, n), T.lt(x, T.C(0))), "IndexError", "list")
        cnt = T.C(0)
        opts = []
        for g, v in o.items:
            opts.append((T.and_(g, T.eq(cnt, x)), v))
            cnt = T.add(cnt, g)
        if all(isinstance(v, Rec) for _, v in opts):
            # position of the selected element among all candidates
            pos = T.C(len(opts) - 1)
            for k in range(len(opts) - 2, -1, -1):
                pos = T.ite(opts[k][0], T.C(k), pos)
            return RecSel(pos, [v for _, v in opts])
        r = opts[-1][1]
        for c_, v in reversed(opts[:-1]):
            r = self.merge(c_, v, r)
        return r

    def dict_get(self, o, i, default=MISSING):
        k = self.hashkey(i)
        if k in o.d and not _symkey(k):
            v = o.d[k][1]
            bc = self.bound_cond(v)
            if bc is not T.TRUE:
                if default is MISSING:
                    self.cond_raise(T.not_(bc), "KeyError", str(k))
                    return self.strip_undef(v)
                return self.merge(bc, self.strip_undef(v), default)
            return v
        if k in o.d:
            return o.d[k][1]
        cands = []
        for kk, (kv, v) in o.d.items():
            c = self.eq_node(kv, i)
            if c is not T.FALSE:
                cands.append((T.and_(c, self.bound_cond(v)), self.strip_undef(v)))
        if not cands:
            if default is not MISSING:
                return default
            self.raise_("KeyError", str(k))
        anyc = T.FALSE
        for c, _ in cands:
            anyc = T.or_(anyc, c)
        if default is MISSING:
            self.cond_raise(T.not_(anyc), "KeyError", str(k))
            r = cands[-1][1]
            rest = cands[:-1]
        else:
            r = default
            rest = cands
        for c, v in reversed(rest):
            r = self.merge(c, v, r)
        return r

    def strip_undef(self, v):
        if isinstance(v, Alt):
            if v.a is UNDEF:
                return self.strip_undef(v.b)
            if v.b is UNDEF:
                return self.strip_undef(v.a)
        return v

    def recsel_field(self, o, name):
        vals = []
        for r in o.recs:
            if name not in r.d:
                self.raise_("AttributeError", name)
            vals.append(r.d[name])
        if all(isinstance(v, Arr) for v in vals):
            shape = vals[0].shape
            if all(isinstance(x, T.N) for v in vals for x in v.data):
                return Arr(vals[0].dtype, shape, [T.sel(o.idx, [v.data[k] for v in vals]) for k in range(len(vals[0].data))],
                           readonly=True)
            self.unsupported("nested records at a symbolic index")
        return self.sel_values(o.idx, vals)

    def gather(self, arr, ix):
        """a copy of the rows that a mask or an array of indices of known content selects"""
        if len(ix.shape) != 1 or len(arr.shape) != 1:
            self.unsupported("fancy indexing")
        n = arr.shape[0]
        ks = [T.cval(x) if isinstance(x, T.N) else None for x in ix.data]
        if any(k is None for k in ks):
            self.unsupported("fancy indexing by unknown values")
        if ix.dtype.dt in ("bool", "pybool"):
            if len(ks) != n:
                self.raise_("IndexError", "boolean index did not match")
            ks = [j for j, k in enumerate(ks) if k]
        elif any(not -n <= k < n for k in ks):
            self.raise_("IndexError", "index out of bounds")
        from .extern import rec_copy
        rows = [arr.data[k] for k in ks]
        return Arr(arr.dtype, (len(rows),), [rec_copy(r) if isinstance(r, Rec) else r for r in rows], recarr=arr.recarr)

    def arr_get(self, arr, i, prefix=()):
        if isinstance(i, str) and arr.dtype.fields is not None:
            if i not in dict(arr.dtype.fields):
                self.raise_("ValueError", "no field of name " + i)
            return ColView(arr, i)
        if isinstance(i, (Arr, ArrView, ColView, SliceView)):
            return self.gather(self.materialise(ArrView(arr, prefix)) if prefix else arr, self.materialise(i))
        shape = arr.shape[len(prefix):]
        if isinstance(i, tuple):
            if len(i) > len(shape):
                self.raise_("IndexError", "too many indices for array")
            if all(isinstance(x, Sc) for x in i):
                r = arr
                p = list(prefix)
                for x, s in zip(i, shape):
                    p.append(self.index_node(x, s, "array"))
                if len(i) == len(shape):
                    v = self.flat_get(arr, p, 0)
                    return Sc(arr.dtype.dt, v) if isinstance(v, T.N) else v
                return ArrView(arr, p)
            if isinstance(i[0], Slice) and i[0].lo is None and i[0].hi is None and i[0].step is None:
                m = self.materialise(ArrView(arr, prefix)) if prefix else arr
                n = m.shape[0]
                rows = [self.arr_get(m, tuple([I(k)] + list(i[1:]))) for k in range(n)]
                if rows and isinstance(rows[0], Sc):
                    return Arr(arr.dtype, (n,), [x.n for x in rows])
                return Arr(arr.dtype, (n,), rows)
            self.unsupported("multi-dimensional slice")
        if isinstance(i, Slice):
            if prefix:
                return self.gi(self.materialise(ArrView(arr, prefix)), i)
            r = self.slice_range(i, shape[0])
            if len(shape) == 1:
                return SliceView(arr, r)
            rest = len(arr.data) // shape[0]
            data = []
            for k in r:
                data.extend(arr.data[k * rest:(k + 1) * rest])
            return Arr(arr.dtype, (len(r),) + tuple(shape[1:]), data, readonly=True)
        idx = self.index_node(i, shape[0], "array")
        p = list(prefix) + [idx]
        if len(shape) > 1:
            return ArrView(arr, p)
        c = T.cval(idx)
        if not prefix:
            if c is not None:
                return self.arr_elem(arr, c)
            if arr.dtype.dt is not None and arr.dtype.dt != "str":
                return Sc(arr.dtype.dt, T.sel(idx, list(arr.data)))
            if arr.dtype.dt == "str":
                return SStr([Pick(idx, arr.data)])
            return RecSel(idx, arr.data)
        v = self.flat_get(arr, p, 0)
        return Sc(arr.dtype.dt, v) if isinstance(v, T.N) else v

    def si(self, o, i, v):
        if isinstance(o, Alt):
            def one(x):
                self.si(x, i, v)
            self.dist(o, one)
            return
        if isinstance(o, ExtRec):
            return self.ext_write(o, i, v)
        if isinstance(o, ExtArr):
            return self.ext_write(ExtRec(o, T.C(0)), None, v)
        if isinstance(o, PDict):
            if o.typed and self.mode == "numba":
                kt, vt = o.typed if isinstance(o.typed, tuple) else (None, None)
                if kt is not None:
                    i = self.coerce(self.unbox(i), kt)
                    i = self.box(i)
            self.touch(o)
            o.d[self.hashkey(i)] = (i, v)
            return
        if isinstance(o, PList):
            self.touch(o)
            if any(g is not T.TRUE for g, _ in o.items):
                self.unsupported("store into a conditionally populated list")
            idx = self.index_node(i, len(o.items), "list")
            c = T.cval(idx)
            if c is not None:
                o.items[c] = (T.TRUE, v)
            else:
                o.items = [(T.TRUE, self.merge(T.eq(idx, T.C(k)), v, x)) for k, (g, x) in enumerate(o.items)]
            return
        if isinstance(o, SliceView):
            for k, x in zip(range(len(o.r)), self.spread(v, len(o.r))):
                self.si(o.arr, I(o.r[k]), x)
            return
        if isinstance(o, Arr):
            return self.arr_set(o, i, v)
        if isinstance(o, ArrView):
            return self.arr_set(o.arr, i, v, o.prefix)
        if isinstance(o, ColView):
            if o.sub is None and isinstance(i, Sc):
                c = self.index_node(i, len(o.arr.data), "array")
                cc = T.cval(c)
                if cc is not None:
                    return self.set_recfield(o.arr.data[cc], o.field, v)
                for k, r in enumerate(o.arr.data):
                    old = r.d[o.field]
                    new = self.field_value(r, o.field, v)
                    self.touch(r)
                    r.d[o.field] = self.merge(T.eq(c, T.C(k)), new, old)
                return
            if isinstance(i, Slice) and i.lo is None and i.hi is None:
                vals = self.spread(v, len(o.arr.data))
                for r, x in zip(o.arr.data, vals):
                    if o.sub is None:
                        self.set_recfield(r, o.field, x)
                    else:
                        self.si(r.d[o.field], o.sub, x)
                return
        if isinstance(o, Rec) and isinstance(i, str):
            return self.set_recfield(o, i, v)
        if isinstance(o, RecSel) and isinstance(i, str):
            for k, r in enumerate(o.recs):
                old = r.d[i]
                new = self.field_value(r, i, v)
                self.touch(r)
                r.d[i] = self.merge(T.eq(o.idx, T.C(k)), new, old)
            return
        if isinstance(o, Obj):
            f = o.cls.lookup("__setitem__")
            if isinstance(f, Func):
                self.call_func(f, [o, i, v], {})
                return
        if isinstance(o, (tuple, str)) or o is None:
            self.raise_("TypeError", "%s does not support item assignment" % _tn(o))
        if isinstance(o, Opq):
            return
        self.unsupported("store into " + type(o).__name__)

    def di(self, o, i):
        if isinstance(o, PDict):
            k = self.hashkey(i)
            if k not in o.d:
                self.raise_("KeyError", str(k))
            self.touch(o)
            del o.d[k]
            return
        if isinstance(o, PList):
            self.touch(o)
            c = T.cval(self.index_node(i, len(o.items), "list"))
            if c is None:
                self.unsupported("symbolic deletion")
            del o.items[c]
            return
        self.unsupported("del item")

    def spread(self, v, n):
        if isinstance(v, Sc):
            return [v] * n
        if isinstance(v, (ColView, ArrView, SliceView)):
            v = self.materialise(v)
        vals = self.iterate(v)
        if len(vals) == 1 and n != 1:
            vals = vals * n
        if len(vals) != n:
            self.raise_("ValueError", "could not broadcast input array from shape (%d,) into shape (%d,)" % (len(vals), n))
        return vals

    def to_elem(self, v, dt):
        if isinstance(v, Alt):
            v = self.dist(v, lambda x: Sc(dt, self.to_elem(x, dt)))
        if isinstance(v, Sc):
            if self.jit and v.dt in PYNUM:
                v = self.unbox(v)
            if not self.jit and v.dt == "int" and dt in WIDTH and self.mode == "numpy" or \
                    not self.jit and v.dt == "int" and dt in WIDTH:
                # out of range Python integers: wrapped with a warning (numpy < 2)
                return A.cast(self, v, dt).n
            return A.cast(self, v, dt).n
        if v is None:
            if dt in FLOATS and not self.jit:
                return T.fconst(float("nan"), FLOATS[dt])
            self.raise_("TypeError", "int() argument must not be NoneType")
        if isinstance(v, Arr) and len(v.data) == 1:
            return A.cast(self, Sc(v.dtype.dt, v.data[0]), dt).n
        if isinstance(v, (Arr, tuple, PList)):
            self.raise_("ValueError", "setting an array element with a sequence")
        if isinstance(v, Opq):
            lo, hi = dt_range(dt)
            return T.ext("num.%s@%s" % (dt, self.opq_key(v)), (), lo, hi, "i" if dt not in FLOATS else "f%d" % FLOATS[dt])
        self.misfit("TypeError", "array element from " + _tn(v), v)

    def arr_set(self, arr, i, v, prefix=()):
        if arr.readonly:
            self.unsupported("store into a temporary selection")
        if isinstance(i, str) and arr.dtype.fields is not None:
            return self.si(ColView(arr, i), Slice(None, None, None), v)
        if arr.dtype.dt is None:
            if isinstance(i, Sc) and isinstance(v, (Rec, RecSel, ExtRec)):
                idx = self.index_node(i, arr.shape[0], "array")
                for k, r in enumerate(arr.data):
                    c = T.eq(idx, T.C(k))
                    if c is T.FALSE:
                        continue
                    for f, d in arr.dtype.fields:
                        nv = self.gi(v, f)
                        if isinstance(nv, Arr):
                            dst = r.d[f]
                            self.touch(dst)
                            dst.data = [self.ite(c, a, b) for a, b in zip(nv.data, dst.data)]
                        else:
                            self.touch(r)
                            r.d[f] = self.merge(c, nv, r.d[f])
                return
            if isinstance(i, Slice) and isinstance(v, Arr):
                for k, r in zip(self.slice_range(i, arr.shape[0]), v.data):
                    self.arr_set(arr, I(k), r)
                return
            self.unsupported("store of a record")
        dt = arr.dtype.dt
        shape = arr.shape[len(prefix):]
        if isinstance(i, tuple) and all(isinstance(x, Sc) for x in i):
            p = list(prefix)
            for x, s in zip(i[:-1], shape):
                p.append(self.index_node(x, s, "array"))
            return self.arr_set(arr, i[-1], v, tuple(p))
        if isinstance(i, Slice):
            r = self.slice_range(i, shape[0])
            if len(shape) == 1:
                vals = self.spread(v, len(r))
                vals = [self.to_elem(x, dt) for x in vals]
                for k, x in zip(r, vals):
                    self.put(arr, prefix, T.C(k), x)
                return
            flat = self.materialise(v) if not isinstance(v, Sc) else v
            rest = 1
            for s in shape[1:]:
                rest *= s
            if isinstance(flat, Sc):
                x = self.to_elem(flat, dt)
                self.touch(arr)
                if prefix:
                    self.unsupported("slice store")
                for k in r:
                    for q in range(rest):
                        arr.data[k * rest + q] = x
                return
            self.unsupported("slice store")
        if isinstance(i, Opq) and i.head == "...":
            i = Slice(None, None, None)
            return self.arr_set(arr, i, v, prefix)
        if isinstance(i, (Arr, ArrView, ColView, SliceView)) and len(shape) == 1:
            mask = self.materialise(i)
            if mask.dtype.dt in ("bool", "pybool"):
                if len(mask.data) != shape[0] or not isinstance(v, Sc):
                    self.unsupported("masked store")
                x = self.to_elem(v, dt)
                for k, g in enumerate(mask.data):
                    old = self.flat_get(arr, list(prefix) + [T.C(k)], 0)
                    self.put(arr, prefix, T.C(k), self.ite(g, x, old))
                return
            self.unsupported("fancy store")
        idx = self.index_node(i, shape[0], "array")
        if len(shape) > 1:
            return self.arr_set(arr, Slice(None, None, None), v, tuple(prefix) + (idx,))
        if dt == "str":
            self.touch(arr)
            arr.data[T.cval(idx)] = v
            return
        self.put(arr, prefix, idx, self.to_elem(v, dt))

    def put(self, arr, prefix, idx, node):
        self.touch(arr)
        flat = T.C(0)
        for p, s in zip(tuple(prefix) + (idx,), arr.shape):
            flat = T.add(T.mul(flat, T.C(s)), p)
        c = T.cval(flat)
        if c is not None:
            arr.data[c] = node
            return
        lo, hi = self.rng(flat)
        n = len(arr.data)
        a, b = max(0, lo or 0), min(n - 1, hi if hi is not None else n - 1)
        data = arr.data
        for k in range(a, b + 1):
            data[k] = self.ite(self.fold(T.eq(flat, T.C(k))), node, data[k])

    def field_value(self, r, name, v):
        d = dict(r.dtype.fields).get(name)
        if d is None:
            self.raise_("AttributeError", name)
        if d.dt is not None:
            return Sc(d.dt, self.to_elem(v, d.dt))
        self.unsupported("conditional store of field " + name)

    def set_recfield(self, r, name, v):
        d = dict(r.dtype.fields).get(name)
        if d is None:
            self.raise_("AttributeError" if not self.jit else "TypingError", "no field " + name)
        if d.dt is not None:
            n = self.to_elem(v, d.dt)
            self.touch(r)
            r.d[name] = Sc(d.dt, n)
            return
        if d.sub is not None:
            arr = r.d[name]
            if arr.dtype.dt is not None:
                vals = self.spread(v, len(arr.data))
                vals = [self.to_elem(x, arr.dtype.dt) for x in vals]
                self.touch(arr)
                arr.data = vals
                return
            if isinstance(v, Arr) and v.dtype == arr.dtype and len(v.data) == len(arr.data):
                for dst, src in zip(arr.data, v.data):
                    for f in src.d:
                        self.set_recfield(dst, f, src.d[f])
                return
        self.unsupported("store into field " + name)

    # ------------------------------------------------------------ attributes
    def ga(self, o, name, default=MISSING):
        if isinstance(o, ClassType):
            if name == "instance_type":
                return NbType("instance", None, (o.cls,))
            if name in ("jit_methods", "jit_static_methods", "methods"):
                d = PDict()
                for k, v in o.cls.d.items():
                    f = v.f if isinstance(v, Static) and v.kind == "static" else v
                    if isinstance(f, Func) and (name == "jit_static_methods") == isinstance(v, Static):
                        d.d[k] = (k, f)
                return d
            return self.noattr(o, name, default)
        if isinstance(o, Obj):
            return self.obj_get(o, name, default)
        if isinstance(o, Alt):
            return self.dist(o, lambda x: self.ga(x, name, default))
        if isinstance(o, Module):
            if o.env is not None:
                v = o.env.d.get(name, MISSING)
                if v is not MISSING:
                    return v
                sub = o.name + "." + name
                if sub in self.modules:
                    return self.modules[sub]
            else:
                v = o.attrs.get(name, MISSING)
                if v is not MISSING:
                    return v
                full = o.name + "." + name
                if full in self.ext_modules:
                    return self.import_module(full)
                if default is MISSING:
                    return Opq("import", (o.name, name))
            return self.noattr(o, name, default)
        if isinstance(o, Cls):
            return self.cls_get(o, name, default)
        if isinstance(o, Rec):
            if name in o.d:
                if not self.jit and not o.recarr:
                    return self.noattr(o, name, default, "numpy.void object has no attribute " + name)
                return o.d[name]
            if name == "dtype":
                return o.dtype
            return self.noattr(o, name, default)
        if isinstance(o, RecSel):
            if not self.jit and not o.recs[0].recarr:
                return self.noattr(o, name, default, "numpy.void object has no attribute " + name)
            return self.recsel_field(o, name)
        if isinstance(o, ExtRec):
            if not self.jit and not o.arr.recarr:
                return self.noattr(o, name, default, "numpy.void object has no attribute " + name)
            r = o.arr.field(o.idx, name)
            if r is not None:
                return r
            return self.noattr(o, name, default)
        if isinstance(o, (Arr, ColView, ArrView, SliceView, ExtArr)):
            r = self.arr_attr(o, name)
            if r is not MISSING:
                return r
            return self.noattr(o, name, default)
        if isinstance(o, Super):
            mro = o.selfv.cls.mro() if isinstance(o.selfv, Obj) else o.selfv.mro()
            k = mro.index(o.owner)
            for c in mro[k + 1:]:
                if name in c.d:
                    return self.bind_attr(c.d[name], o.selfv, c)
            if name == "__init__":
                return Builtin("object.__init__", lambda m, a, kw: None)
            return self.noattr(o, name, default)
        if isinstance(o, Sc):
            return self.sc_attr(o, name, default)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__module__":
                return o.module.name
            if name == "__wrapped__" and "__wrapped__" not in o.attrs:
                return self.noattr(o, name, default)
            if name == "py_func" and o.jit is not None:
                f = o.clone()
                f.jit = None
                return f
            if name == "__call__":
                return o
            return self.noattr(o, name, default)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.ga(o.func, name, default)
        if isinstance(o, Builtin):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name.split(".")[-1]
            if default is MISSING:
                return Opq("attr", (o.name, name))
            return default
        if isinstance(o, NpType):
            if name == "__name__":
                return {"u8": "uint8"}.get(o.dt, o.dt)
            return self.noattr(o, name, default)
        if isinstance(o, DType):
            if name == "itemsize":
                return I(o.size)
            if name == "names":
                return tuple(n for n, _ in o.fields) if o.fields else None
            if name == "type" and o.dt:
                return NpType(o.dt)
            if name == "base":
                return o.sub[0] if o.sub else o
            if name == "shape":
                return tuple(I(s) for s in o.sub[1]) if o.sub else ()
            if name == "fields":
                if not o.fields:
                    return None
                d = PDict()
                off = 0
                for n, dd in o.fields:
                    d.d[n] = (n, (dd, I(off)))
                    off += dd.size
                return d
            return self.noattr(o, name, default)
        if isinstance(o, NbType):
            if name == "dtype" and o.kind == "array":
                return o.args[0]
            if default is MISSING and name in ("__call__",):
                return o
            if default is not MISSING:
                return default
            return Opq("attr", (o, name))
        if isinstance(o, Sig):
            if name == "return_type":
                return o.ret
            if name == "args":
                return tuple(o.args)
            return self.noattr(o, name, default)
        if isinstance(o, Exc):
            if name == "args":
                return tuple(o.args)
            if name in ("__class__",):
                return o.cls
            if default is MISSING:
                return Opq("attr", ("exc", name))
            return default
        if isinstance(o, Field):
            if name in ("name", "type"):
                return getattr(o, name)
            return self.noattr(o, name, default)
        if isinstance(o, AnnotT):
            if o.head == "Annotated" and name == "__metadata__":
                return tuple(o.args[1:])
            if name == "__origin__":
                return o.args[0] if o.head == "Annotated" else Opq(o.head)
            if name == "__args__":
                return o.args
            return self.noattr(o, name, default)
        if isinstance(o, Static):
            if name == "__func__":
                return o.f
            if o.kind == "property" and name in ("setter", "getter"):
                return Builtin("property.setter", lambda m, a, kw: o)
        if isinstance(o, JsonObj):
            if name == "get":
                return Builtin("json.get", lambda m, a, kw: o.get_default(m, a[0], a[1] if len(a) > 1 else None))
        if type(o).__name__ == "VInfo":
            if name in ("major", "minor", "micro"):
                return o[("major", "minor", "micro").index(name)]
            return self.noattr(o, name, default)
        kind = {PList: "list", PDict: "dict", str: "str", SStr: "str", SymStr: "str", tuple: "tuple", bytes: "bytes",
                Range: "range", FileObj: "file"}.get(type(o))
        if kind:
            f = self.methods.get((kind, name))
            if f is not None:
                if isinstance(o, FileObj) and not callable(f):
                    return f
                return Bound(Builtin(kind + "." + name, f), o)
            if kind == "file" and name == "name":
                return o.path
            if name == "__class__":
                return self.builtins.get(kind)
            if name == "__iter__":
                return Bound(Builtin("iter", lambda m, a, kw: a[0]), o)
            return self.noattr(o, name, default)
        if o is None:
            return self.noattr(o, name, default)
        if isinstance(o, Opq):
            f = self.props.get((o.head, name))
            if f is not None:
                return f(self, o)
            f = self.methods.get(("opq:" + o.head, name))
            if f is not None:
                return Bound(Builtin(o.head + "." + name, f), o)
            if default is not MISSING:
                return default
            return Opq("attr", (o, name))
        self.unsupported("attribute %s of %s" % (name, type(o).__name__))

    def misfit(self, exc, msg, *vals):
        """the exception operands of these kinds raise; no answer where their kind is not modelled in full"""
        for v in vals:
            if isinstance(v, Obj) and any(n.startswith("__") and isinstance(f, Func) and n not in ("__init__", "__repr__", "__str__", "__new__")
                                          for c in v.cls.mro() for n, f in c.d.items()):
                self.unsupported("special method of " + v.cls.name)
            if not (v is None or isinstance(v, (str, Sc, tuple, PList, PDict, Func, Cls, Obj, SymStr, SStr))):
                self.unsupported("%s (%s)" % (msg, type(v).__name__))
        self.raise_(exc if not self.jit else "TypingError", msg)

    def noattr(self, o, name, default, msg=None):
        py = (str if isinstance(o, (str, SymStr, SStr)) else list if isinstance(o, PList) else dict if isinstance(o, PDict) else tuple if isinstance(o, tuple)
              else bytes if isinstance(o, bytes) else None)
        if py is not None and hasattr(py, name) or isinstance(o, Sc) and (hasattr(float if o.dt == "float" else int, name) or o.dt not in PYNUM and name in NDARRAY) \
                or isinstance(o, (Arr, ColView, ArrView, SliceView, ExtArr)) and name in NDARRAY \
                or isinstance(o, (Func, Bound)) and (hasattr(_no_function, name) or hasattr(_NoClass().f, name)):
            self.unsupported("attribute %s of %s" % (name, _tn(o)))
        if default is not MISSING:
            return default
        self.raise_("AttributeError" if not self.jit else "TypingError", msg or "%s has no attribute %s" % (_tn(o), name))

    def sc_attr(self, o, name, default):
        if o.en is not None:
            if name == "value":
                return Sc("int", o.n)
            if name == "name":
                if o.const is not None:
                    for k, v in o.en.members.items():
                        if v.const == o.const:
                            return k
                return Opq("enumname", (o.en.name, o))
        if name == "item" and o.dt not in PYNUM:
            return Builtin("item", lambda m, a, kw: self.box(o))
        if name == "dtype" and o.dt not in PYNUM:
            return DType(o.dt)
        if name == "bit_length" and o.dt == "int" and o.const is not None:
            return Builtin("bit_length", lambda m, a, kw: I(o.const.bit_length()))
        if name == "astype" and o.dt not in PYNUM:
            return Builtin("astype", lambda m, a, kw: self.np_cast(o, self.dtype_of(a[0]).dt))
        if name in ("real",):
            return o
        return self.noattr(o, name, default)

    def dtype_of(self, v):
        if isinstance(v, DType):
            return v
        if isinstance(v, NpType):
            return DType(v.dt)
        if isinstance(v, NbType) and v.kind == "scalar":
            return DType(v.dt)
        if isinstance(v, Builtin) and v.name in ("int", "float", "bool", "str"):
            return DType({"int": "i64", "float": "f64", "bool": "bool", "str": "str"}[v.name])
        if isinstance(v, str):
            s = v.lstrip("<=|")
            m = {"u1": "u8", "u2": "u16", "u4": "u32", "u8": "u64", "i1": "i8", "i2": "i16", "i4": "i32", "i8": "i64",
                 "f4": "f32", "f8": "f64", "b1": "bool", "?": "bool", "B": "u8", "uint8": "u8", "uint16": "u16",
                 "uint32": "u32", "uint64": "u64", "int8": "i8", "int16": "i16", "int32": "i32", "int64": "i64",
                 "float32": "f32", "float64": "f64", "bool": "bool"}
            if v.startswith(">") and s[1:] in m:
                r = DType(m[s[1:]])
                r.big = r.size > 1
                return r
            if s in m:
                return DType(m[s])
        if isinstance(v, tuple) and len(v) == 2 and not isinstance(v[0], (tuple, PList)) and isinstance(v[1], (Sc, tuple)):
            shape = [x.const if isinstance(x, Sc) else None for x in (v[1] if isinstance(v[1], tuple) else (v[1],))]
            if None in shape:
                self.unsupported("a data type of unknown shape")
            return DType(sub=(self.dtype_of(v[0]), tuple(shape)))
        if isinstance(v, (PList, tuple)):
            fields = []
            for k, ent in enumerate(self.iterate(v)):
                ent = self.iterate(ent)
                nm = ent[0] or "f%d" % k
                d = self.dtype_of(ent[1])
                if len(ent) > 2:
                    sh = ent[2]
                    shape = tuple(x.const for x in self.iterate(sh)) if isinstance(sh, (tuple, PList)) else (sh.const,)
                    d = DType(sub=(d, shape))
                fields.append((nm, d))
            return DType(fields=tuple(fields))
        if isinstance(v, Cls) and "dtype" in v.d:
            return self.dtype_of(v.d["dtype"])
        if isinstance(v, Opq):
            self.unsupported("dtype " + v.head)
        self.misfit("TypeError", "not a dtype: %s" % _tn(v), v)

    def arr_attr(self, o, name):
        if isinstance(o, ExtArr):
            if name == "view":
                def view(m, a, kw):
                    r = ExtArr(o.name, o.dtype, o.length, o.reader, True, o.base or o)
                    return r
                return Builtin("view", view)
            if name == "dtype":
                return o.dtype
            if name == "shape":
                return (self.intval(o.length),)
            if name == "size":
                return self.intval(o.length)
            return MISSING
        arr = o
        if isinstance(o, (ColView, ArrView)):
            arr = self.materialise(o)
        if isinstance(o, SliceView):
            arr = Arr(o.arr.dtype, (len(o.r),), [o.arr.data[k] for k in o.r])
        if name == "dtype":
            return arr.dtype
        if name == "shape":
            return tuple(self.intval(s) for s in arr.shape)
        if name == "size":
            return self.intval(len(arr.data))
        if name == "ndim":
            return self.intval(len(arr.shape))
        if isinstance(o, Arr) and o.dtype.fields is not None and name in dict(o.dtype.fields):
            if not self.jit and not o.recarr:
                self.raise_("AttributeError", "numpy.ndarray object has no attribute " + name)
            return ColView(o, name)
        f = self.methods.get(("arr", name))
        if f is not None:
            return Bound(Builtin("ndarray." + name, f), o)
        return MISSING

    def bind_attr(self, v, obj, cls):
        if isinstance(v, Func):
            return Bound(v, obj)
        if isinstance(v, Static):
            if v.kind == "static":
                return v.f
            if v.kind == "class":
                return Bound(v.f, obj.cls if isinstance(obj, Obj) else obj)
            return self.call(v.f, [obj], {})
        return v

    def obj_get(self, o, name, default):
        v = o.d.get(name, MISSING)
        if v is not MISSING:
            if v is UNDEF or isinstance(v, Alt) and self.bound_cond(v) is not T.TRUE:
                bc = self.bound_cond(v)
                if bc is T.FALSE:
                    v = MISSING
                else:
                    if default is MISSING:
                        self.cond_raise(T.not_(bc), "AttributeError", name)
                        return self.strip_undef(v)
                    return self.merge(bc, self.strip_undef(v), default)
            if v is not MISSING:
                if v is STALE:
                    self.unsupported("field %s after a summarised loop" % name)
                if o.cls.jitspec is not None and not self.jit:
                    return self.box(v)
                return v
        c = o.cls.lookup(name)
        if c is not None:
            return self.bind_attr(c, o, o.cls)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            d = PDict()
            for k, x in o.d.items():
                d.d[k] = (k, x)
            return d
        if o.cls.jitspec is not None and name in o.cls.jitspec:
            # zero initialised storage of compiled instances
            ty = o.cls.jitspec[name]
            if isinstance(ty, NbType) and ty.kind == "scalar":
                n = T.C(0) if ty.dt not in FLOATS else T.fconst(0.0, FLOATS[ty.dt])
                return self.box(Sc(ty.dt, n)) if not self.jit else Sc(ty.dt, n)
            self.unsupported("field %s read before initialisation" % name)
        for b in o.cls.mro():
            for bb in b.bases:
                if isinstance(bb, Opq):
                    return Opq("attr", (o.cls.name, name))
        h = self.hooks.get("objattr")
        if h is not None:
            r = h(self, o, name)
            if r is not MISSING:
                return r
        return self.noattr(o, name, default, "%s object has no attribute %s" % (o.cls.name, name))

    def cls_get(self, o, name, default):
        if name == "__dict__":
            d = PDict()
            for k, v in o.d.items():
                d.d[k] = (k, v)
            return d
        v = o.lookup(name)
        if v is not None or any(name in c.d for c in o.mro()):
            if isinstance(v, Static):
                if v.kind == "static":
                    return v.f
                if v.kind == "class":
                    return Bound(v.f, o)
            return v
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__module__":
            return o.module.name if o.module else ""
        if name == "__members__" and o.members is not None:
            d = PDict()
            for k, x in o.members.items():
                d.d[k] = (k, x)
            return d
        if name == "__annotations__":
            d = PDict()
            for k, x in self.annotations(o):
                d.d[k] = (k, x)
            return d
        if name == "__mro__":
            return tuple(o.mro())
        if name == "__doc__":
            return None
        if name == "__init__":
            return Builtin("object.__init__", lambda m, a, kw: None)
        if o.jitspec is not None and name == "class_type":
            return ClassType(o)
        if any(isinstance(b, Opq) for c in o.mro() for b in c.bases) and default is MISSING:
            return Opq("attr", (o.name, name))
        return self.noattr(o, name, default)

    def sa(self, o, name, v):
        if isinstance(o, Obj):
            ty = None
            if o.cls.jitspec is not None:
                ty = o.cls.jitspec.get(name)
                if ty is None:
                    self.raise_("TypingError" if self.jit else "AttributeError",
                                "%s has no field %s" % (o.cls.name, name))
                if not self.jit:
                    v = self.unbox(v)
                v = self.field_coerce(v, ty, name)
            else:
                p = o.cls.lookup(name)
                if isinstance(p, Static) and p.kind == "property":
                    self.raise_("AttributeError", "property %s has no setter" % name)
            self.touch(o)
            o.d[name] = v
            return
        if isinstance(o, Alt):
            self.dist(o, lambda x: self.sa(x, name, v))
            return
        if isinstance(o, Cls):
            self.touch(o)
            o.d[name] = v
            return
        if isinstance(o, Rec):
            if not self.jit and not o.recarr:
                self.raise_("AttributeError", "numpy.void object has no attribute " + name)
            return self.set_recfield(o, name, v)
        if isinstance(o, RecSel):
            return self.si(o, name, v)
        if isinstance(o, ExtRec):
            return self.ext_write(o, name, v)
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Module) and o.env is not None:
            self.touch(o.env)
            o.env.d[name] = v
            return
        if isinstance(o, (Opq, Builtin, Module, Exc)):
            return
        if isinstance(o, Arr) and o.dtype.fields is not None and name in dict(o.dtype.fields):
            return self.si(ColView(o, name), Slice(None, None, None), v)
        self.misfit("AttributeError", "cannot set %s on %s" % (name, _tn(o)), o)

    def ext_write(self, o, name, v):
        """a write into an external table, unless it leaves what is there"""
        arr = o.arr.base or o.arr
        old = arr.field(o.idx, name) if isinstance(name, str) else None
        n = self.to_elem(v, old.dt) if isinstance(old, Sc) and isinstance(v, Sc) else None
        if n is not None and n is old.n:
            return
        self.extwrites.append((arr.name, str(name)))
        if n is None:
            self.unsupported("write into %s" % arr.name)
        self.touch(arr)
        arr.over.append((T.TRUE, o.idx, name, n))

    def field_coerce(self, v, ty, name):
        if isinstance(ty, NbType) and ty.kind == "scalar":
            return self.dist(v, lambda x: self.coerce(x, ty))
        if isinstance(ty, NbType) and ty.kind == "array":
            if isinstance(v, Alt):
                return Alt(v.c, self.field_coerce(v.a, ty, name), self.field_coerce(v.b, ty, name))
            if not isinstance(v, (Arr, ExtArr, SliceView, ColView, ArrView)):
                self.raise_("TypingError", "field %s takes an array, not %s" % (name, _tn(v)))
            want = ty.args[0]
            have = v.dtype if isinstance(v, (Arr, ExtArr)) else None
            wk = want.dt if isinstance(want, NbType) and want.kind == "scalar" else None
            if wk is not None and have is not None and have.dt != wk:
                self.raise_("TypingError", "field %s takes an array of %s, not of %s" % (name, wk, have.dt))
            return v
        return v


def _read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def _symkey(k):
    if isinstance(k, tuple):
        return bool(k) and k[0] == "sym" or any(_symkey(x) for x in k)
    return False


def _tn(v):
    if isinstance(v, Sc):
        return v.dt
    if isinstance(v, (Obj,)):
        return v.cls.name
    if v is None:
        return "NoneType"
    return type(v).__name__


DISTRIBUTED = {"len", "int", "str", "bool", "float", "ord", "chr", "abs", "isinstance", "hasattr", "np.sum"}


class ClassType:
    """numba ClassType of a compiled class"""

    def __init__(self, cls):
        self.cls = cls


class Super:
    def __init__(self, owner, selfv):
        self.owner, self.selfv = owner, selfv


class SliceView:
    """1-D slice of an array (writes go through)"""

    def __init__(self, arr, r):
        self.arr, self.r = arr, r


class Mapped:
    """lazily mapped symbolic iteration"""

    def __init__(self, it):
        self.it = it


class FileObj(Mut):
    """open file"""

    def __init__(self, path, mode, real=None):
        Mut.__init__(self)
        self.path, self.mode, self.real = path, mode, real


class JsonObj:
    """JSON object with symbolic members: key -> (presence node, value)"""

    def __init__(self, members, name="json"):
        self.m, self.name = members, name

    def has(self, k):
        if k not in self.m:
            return T.FALSE
        return self.m[k][0]

    def get(self, m, k):
        if not isinstance(k, str):
            m.unsupported("json key")
        if k not in self.m:
            m.raise_("KeyError", k)
        p, v = self.m[k]
        m.cond_raise(T.not_(p), "KeyError", k)
        return v

    def get_default(self, m, k, d):
        if k not in self.m:
            return d
        p, v = self.m[k]
        return m.merge(p, v, d)


class JsonList:
    def __init__(self, length, elem):
        self.len, self.elem = length, elem
