"""Model of llvmlite's IR builder and an abstract interpreter for the IR it records.

The Python function that emits IR is interpreted with a recording builder; the
recorded basic blocks are then interpreted over a word-addressed memory whose
cells are value-graph nodes."""

from . import term as T
from .values import *

M32 = (1 << 32) - 1


class ITy:
    def __init__(self, kind, w=0, elem=None, n=0):
        self.kind, self.w, self.elem, self.n = kind, w, elem, n

    @property
    def size(self):
        if self.kind == "int":
            return self.w // 8
        if self.kind == "vec":
            return self.elem.size * self.n
        return 8

    def key(self):
        return (self.kind, self.w, self.elem.key() if self.elem else None, self.n)

    def __eq__(self, o):
        return isinstance(o, ITy) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())


class IRV:
    """operand: constant, argument or instruction result"""

    def __init__(self, op, ty, args=(), data=None):
        self.op, self.ty, self.args, self.data = op, ty, args, data


class Block:
    def __init__(self):
        self.ins = []
        self.term = None


def ptr(t):
    return ITy("ptr", elem=t)


def meth(head):
    def deco(f):
        from .extern import METHODS
        METHODS[("opq:" + head, f.__name__.rstrip("_") if f.__name__ != "and_" else "and_")] = f
        return f
    return deco


def val(m, v):
    if isinstance(v, Opq) and v.head in ("irval", "irconst"):
        return v.args[0]
    m.unsupported("IR operand %r" % (v,))


def ty(m, v):
    if isinstance(v, Opq) and v.head == "irtype":
        return v.args[0]
    m.unsupported("IR type %r" % (v,))


def wrapv(x):
    return Opq("irval", (x,))


def fill_module(m, mod):
    def inttype(m, a, kw):
        return Opq("irtype", (ITy("int", a[0].const),))

    def vectype(m, a, kw):
        return Opq("irtype", (ITy("vec", elem=ty(m, a[0]), n=a[1].const),))

    def const(m, a, kw):
        t = ty(m, a[0])
        v = a[1]
        if t.kind == "int":
            if not isinstance(v, Sc) and v is not None:
                m.unsupported("IR constant")
            return Opq("irconst", (IRV("const", t, data=(v.const if v is not None else 0) & ((1 << t.w) - 1)),))
        if isinstance(v, (tuple, PList)):
            vals = [x.const for x in m.iterate(v)]
            if len(vals) != t.n:
                m.raise_("ValueError", "vector constant length")
        else:
            vals = [0 if v is None else v.const] * t.n
        if None in vals:
            m.unsupported("IR constant")
        return Opq("irconst", (IRV("const", t, data=[x & ((1 << t.elem.w) - 1) for x in vals]),))
    mod.attrs.update(IntType=Builtin("ir.IntType", inttype), VectorType=Builtin("ir.VectorType", vectype),
                     Constant=Builtin("ir.Constant", const), IRBuilder=Opq("ir.IRBuilder"))
    from .extern import METHODS
    METHODS[("opq:irtype", "as_pointer")] = lambda m, a, kw: Opq("irtype", (ptr(a[0].args[0]),))
    METHODS[("opq:irval", "type")] = lambda m, a, kw: m.unsupported("IR value type")
    for n in ("add", "sub", "mul", "and_", "or_", "xor", "shl", "lshr", "ashr"):
        METHODS[("opq:irbuilder", n)] = binary(n)
    for n, f in (("extract_value", extract_value), ("alloca", alloca), ("store", store), ("load", load),
                 ("bitcast", bitcast), ("gep", gep), ("shuffle_vector", shuffle_vector),
                 ("icmp_unsigned", icmp("u")), ("icmp_signed", icmp("s")), ("cbranch", cbranch), ("branch", branch),
                 ("append_basic_block", append_block), ("goto_block", goto_block),
                 ("position_at_end", position_at_end), ("zext", conv("zext")), ("trunc", conv("trunc")),
                 ("extract_element", extract_element), ("insert_element", insert_element), ("phi", unsup("phi")),
                 ("not_", not_), ("select", select)):
        METHODS[("opq:irbuilder", n)] = f
    METHODS[("opq:irgoto", "__enter__")] = goto_enter
    METHODS[("opq:irgoto", "__exit__")] = goto_exit


class State:
    def __init__(self):
        self.blocks = [Block()]
        self.cur = self.blocks[0]


def unsup(n):
    def f(m, a, kw):
        m.unsupported("IR builder method " + n)
    return f


def emit(m, b, v):
    st = b.args[0]
    if st.cur.term is not None:
        m.unsupported("instruction after the terminator of a block")
    st.cur.ins.append((v, m.where()))
    return wrapv(v)


def binary(n):
    def f(m, a, kw):
        x, y = val(m, a[1]), val(m, a[2])
        if x.ty != y.ty:
            m.raise_("ValueError", "Operands must be the same type")
        return emit(m, a[0], IRV(n, x.ty, (x, y)))
    return f


def extract_value(m, a, kw):
    x = val(m, a[1])
    k = a[2].const
    if x.op != "arg" or k != 4:
        m.unsupported("extract_value of field %r" % k)
    return emit(m, a[0], IRV("dataptr", ptr(ITy("int", 32)), (x,)))


def alloca(m, a, kw):
    return emit(m, a[0], IRV("alloca", ptr(ty(m, a[1]))))


def store(m, a, kw):
    v, p = val(m, a[1]), val(m, a[2])
    if p.ty.kind != "ptr" or p.ty.elem != v.ty:
        m.raise_("TypeError", "cannot store %r to %r" % (v.ty.key(), p.ty.key()))
    return emit(m, a[0], IRV("store", None, (v, p)))


def load(m, a, kw):
    p = val(m, a[1])
    if p.ty.kind != "ptr":
        m.raise_("TypeError", "cannot load from a value that is not a pointer")
    return emit(m, a[0], IRV("load", p.ty.elem, (p,)))


def bitcast(m, a, kw):
    return emit(m, a[0], IRV("bitcast", ty(m, a[2]), (val(m, a[1]),)))


def gep(m, a, kw):
    idx = [val(m, i) for i in m.iterate(a[2])]
    p = val(m, a[1])
    if len(idx) != 1:
        m.unsupported("gep with several indices")
    return emit(m, a[0], IRV("gep", p.ty, (p, idx[0])))


def shuffle_vector(m, a, kw):
    x, y, k = val(m, a[1]), val(m, a[2]), val(m, a[3])
    return emit(m, a[0], IRV("shuffle", ITy("vec", elem=x.ty.elem, n=k.ty.n), (x, y, k)))


def icmp(s):
    def f(m, a, kw):
        x, y = val(m, a[2]), val(m, a[3])
        return emit(m, a[0], IRV("icmp", ITy("int", 1), (x, y), (s, a[1])))
    return f


def conv(n):
    def f(m, a, kw):
        return emit(m, a[0], IRV(n, ty(m, a[2]), (val(m, a[1]),)))
    return f


def extract_element(m, a, kw):
    x = val(m, a[1])
    return emit(m, a[0], IRV("extract_element", x.ty.elem, (x, val(m, a[2]))))


def insert_element(m, a, kw):
    x = val(m, a[1])
    return emit(m, a[0], IRV("insert_element", x.ty, (x, val(m, a[2]), val(m, a[3]))))


def not_(m, a, kw):
    x = val(m, a[1])
    ones = IRV("const", x.ty, data=(1 << x.ty.w) - 1 if x.ty.kind == "int" else [(1 << x.ty.elem.w) - 1] * x.ty.n)
    return emit(m, a[0], IRV("xor", x.ty, (x, ones)))


def select(m, a, kw):
    c, x, y = (val(m, v) for v in a[1:4])
    return emit(m, a[0], IRV("select", x.ty, (c, x, y)))


def terminate(m, b, t):
    st = b.args[0]
    if st.cur.term is not None:
        m.unsupported("two terminators in one block")
    st.cur.term = t


def blk(m, v):
    if isinstance(v, Opq) and v.head == "irblock":
        return v.args[0]
    m.unsupported("IR block")


def cbranch(m, a, kw):
    terminate(m, a[0], ("cbr", val(m, a[1]), blk(m, a[2]), blk(m, a[3])))


def branch(m, a, kw):
    terminate(m, a[0], ("br", blk(m, a[1])))


def append_block(m, a, kw):
    b = Block()
    a[0].args[0].blocks.append(b)
    return Opq("irblock", (b,))


def goto_block(m, a, kw):
    return Opq("irgoto", (a[0].args[0], blk(m, a[1]), [None]))


def goto_enter(m, a, kw):
    st, b, save = a[0].args
    save[0] = st.cur
    st.cur = b


def goto_exit(m, a, kw):
    st, b, save = a[0].args
    st.cur = save[0]


def position_at_end(m, a, kw):
    a[0].args[0].cur = blk(m, a[1])


# ---------------------------------------------------------------- abstract execution
class Mem:
    """word-addressed region"""

    def __init__(self, words):
        self.w = words


def run(m, f, args):
    irf, sig = f.ir
    arr = args[0]
    if not isinstance(arr, Arr) or arr.dtype.dt != "u32":
        m.raise_("TypingError", "IR function argument is not a uint32 array")
    if len(args) != 1:
        m.unsupported("IR function arity")
    st = State()
    b = Opq("irbuilder", (st,))
    oj = m.jit
    m.jit = False
    try:
        m.call(irf, [Opq("ircontext"), b, Opq("irsignature"), (wrapv(IRV("arg", None, (), 0)),)], {})
    finally:
        m.jit = oj
    m.touch(arr)
    nodes = list(arr.data)
    region = Mem(nodes)
    env = {}
    block = st.blocks[0]
    steps = 0
    nins = 0
    while True:
        for v, where in block.ins:
            nins += 1
            step(m, v, env, region, where)
        steps += 1
        if steps > 100000:
            m.unsupported("IR loop does not terminate")
        t = block.term
        if t is None:
            break
        if t[0] == "br":
            block = t[1]
        else:
            c = T.cval(get(env, t[1]))
            if c is None:
                m.unsupported("IR branch on a symbolic condition")
            block = t[2] if c else t[3]
    m.stats["ir_instructions"] = m.stats.get("ir_instructions", 0) + nins
    m.stats["functions"].add(irf.qual)
    arr.data = region.w
    return None


def get(env, v):
    if v.op == "const":
        if v.ty.kind == "int":
            return T.C(v.data)
        return [T.C(x) for x in v.data]
    return env[id(v)]


def step(m, v, env, region, where):
    op = v.op
    if op == "dataptr":
        env[id(v)] = (region, 0)
        return
    if op == "alloca":
        n = (v.ty.elem.size + 3) // 4
        m._fresh = getattr(m, "_fresh", 0) + 1
        env[id(v)] = (Mem([T.ext("uninit.alloca#%d[%d]" % (m._fresh, i), (), 0, M32) for i in range(n)]), 0)
        return
    if op == "store":
        x, (reg, off) = get(env, v.args[0]), get(env, v.args[1])
        write(m, reg, off, v.args[0].ty, x, where)
        return
    if op == "load":
        reg, off = get(env, v.args[0])
        env[id(v)] = read(m, reg, off, v.ty, where)
        return
    if op == "bitcast":
        if v.args[0].ty.kind == "ptr":
            env[id(v)] = get(env, v.args[0])
            return
        x = get(env, v.args[0])
        t0, t1 = v.args[0].ty, v.ty
        tmp = Mem([T.C(0)] * ((t0.size + 3) // 4))
        write(m, tmp, 0, t0, x, where)
        env[id(v)] = read(m, tmp, 0, t1, where)
        return
    if op == "gep":
        reg, off = get(env, v.args[0])
        i = T.cval(get(env, v.args[1]))
        if i is None:
            m.unsupported("IR address depends on a symbolic index")
        w = v.args[1].ty.w
        if i >> (w - 1):
            i -= 1 << w
        env[id(v)] = (reg, off + i * v.ty.elem.size)
        return
    if op == "shuffle":
        x, y = get(env, v.args[0]), get(env, v.args[1])
        mask = v.args[2].data
        both = list(x) + list(y)
        if any(k >= len(both) for k in mask):
            m.raise_("ValueError", "shuffle mask out of range")
        env[id(v)] = [both[k] for k in mask]
        return
    if op == "icmp":
        x, y = get(env, v.args[0]), get(env, v.args[1])
        s, o = v.data
        if o == "==":
            env[id(v)] = T.eq(x, y)
        elif o == "!=":
            env[id(v)] = T.not_(T.eq(x, y))
        else:
            if s == "s":
                w = v.args[0].ty.w
                x, y = T.wrap(x, w, True), T.wrap(y, w, True)
            env[id(v)] = {"<": T.lt(x, y), ">": T.lt(y, x), "<=": T.not_(T.lt(y, x)), ">=": T.not_(T.lt(x, y))}[o]
        return
    if op in ("zext", "trunc"):
        x = get(env, v.args[0])
        env[id(v)] = x if op == "zext" else T.wrap(x, v.ty.w, False)
        return
    if op == "select":
        c, x, y = (get(env, z) for z in v.args)
        env[id(v)] = T.ite(c, x, y)
        return
    if op == "extract_element":
        x, k = get(env, v.args[0]), T.cval(get(env, v.args[1]))
        env[id(v)] = x[k]
        return
    if op == "insert_element":
        x, e, k = get(env, v.args[0]), get(env, v.args[1]), T.cval(get(env, v.args[2]))
        x = list(x)
        x[k] = e
        env[id(v)] = x
        return
    x, y = get(env, v.args[0]), get(env, v.args[1])
    if v.ty.kind == "vec":
        env[id(v)] = [arith(m, op, p, q, v.ty.elem.w) for p, q in zip(x, y)]
    else:
        env[id(v)] = arith(m, op, x, y, v.ty.w)


def arith(m, op, x, y, w):
    if op == "add":
        return T.wrap(T.add(x, y), w, False)
    if op == "sub":
        return T.wrap(T.sub(x, y), w, False)
    if op == "mul":
        return T.wrap(T.mul(x, y), w, False)
    if op == "and_":
        return T.and_(x, y)
    if op == "or_":
        return T.or_(x, y)
    if op == "xor":
        return T.xor(x, y)
    k = T.cval(y)
    if k is None or k >= w:
        m.unsupported("IR shift amount")
    if op == "shl":
        return T.wrap(T.shl(x, y), w, False)
    if op == "lshr":
        return T.shr(x, y)
    if op == "ashr":
        return T.wrap(T.shr(T.wrap(x, w, True), y), w, False)
    m.unsupported("IR operation " + op)


def read(m, reg, off, t, where):
    if off % 4:
        m.unsupported("unaligned IR access")
    i = off // 4
    n = (t.size + 3) // 4
    if i < 0 or i + n > len(reg.w):
        m.raise_("MemoryError", "IR access outside the state array (word %d)" % i)
    ws = reg.w[i:i + n]
    if t.kind == "int":
        if t.w == 32:
            return ws[0]
        if t.w == 64:
            return T.or_(ws[0], T.shl(ws[1], T.C(32)))
        return T.wrap(ws[0], t.w, False)
    ew = t.elem.w
    if ew == 32:
        return list(ws)
    if ew == 64:
        return [T.or_(ws[2 * k], T.shl(ws[2 * k + 1], T.C(32))) for k in range(t.n)]
    per = 32 // ew
    return [T.wrap(T.shr(ws[k // per], T.C(ew * (k % per))), ew, False) for k in range(t.n)]


def write(m, reg, off, t, x, where):
    if off % 4:
        m.unsupported("unaligned IR access")
    i = off // 4
    n = (t.size + 3) // 4
    if i < 0 or i + n > len(reg.w):
        m.raise_("MemoryError", "IR access outside the state array (word %d)" % i)
    if t.kind == "int":
        if t.w == 32:
            reg.w[i] = x
        elif t.w == 64:
            reg.w[i] = T.wrap(x, 32, False)
            reg.w[i + 1] = T.shr(x, T.C(32))
        else:
            m.unsupported("narrow IR store")
        return
    ew = t.elem.w
    if ew == 32:
        reg.w[i:i + n] = x
        return
    if ew == 64:
        for k in range(t.n):
            reg.w[i + 2 * k] = T.wrap(x[k], 32, False)
            reg.w[i + 2 * k + 1] = T.shr(x[k], T.C(32))
        return
    per = 32 // ew
    for k in range(n):
        w = T.C(0)
        for j in range(per):
            w = T.or_(w, T.shl(x[k * per + j], T.C(ew * j)))
        reg.w[i + k] = w
