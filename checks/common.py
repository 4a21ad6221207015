"""Shared vocabulary of the checks."""
from sa import term as T
from sa.values import *  # noqa
from sa.values import Sc, I, B
from sa.harness import MODES, Anchor, tree, Side  # noqa

M32 = (1 << 32) - 1
M64 = (1 << 64) - 1


def sym(name, lo, hi, dt="int"):
    return Sc(dt, T.V(name, lo, hi))


def u(name, bits, dt="int"):
    return sym(name, 0, (1 << bits) - 1, dt)


def variants(name, bits, mode=None, np_scalar=True, lo=0, hi=None):
    """(label, symbolic argument) for each way a caller passes an unsigned integer of `bits` bits"""
    hi = (1 << bits) - 1 if hi is None else hi
    out = []
    if bits < 64:
        out.append(("int", sym(name, lo, hi)))
    else:
        out.append(("int<2^63", sym(name, lo, min(hi, (1 << 63) - 1))))
        if hi >= 1 << 63:
            out.append(("int>=2^63", sym(name, 1 << 63, hi)))
    if np_scalar:
        out.append(("np.uint%d" % bits, sym(name, lo, hi, "u%d" % bits)))
    return out


class Impl:
    """handle on an interpreted class: construct and drive symbolic instances"""

    def __init__(self, ck, m, module, cls):
        self.ck, self.m = ck, m
        self.mod = ck.module(m, module)
        self.cls = ck.attr(self.mod, cls)
        self.name = cls

    def new(self, *args):
        return self.m.call(self.cls, list(args), {})

    def do(self, o, meth, *args):
        return self.m.call(self.m.ga(o, meth), list(args), {})

    def where(self, meth=None):
        f = self.cls.lookup(meth) if meth else None
        n = getattr(f, "node", None)
        if n is not None:
            env = f.env
            while env.parent is not None and env.kind != "module":
                env = env.parent
            return "%s:%d %s.%s" % (env.name, n.lineno, self.name, meth)
        return "%s %s" % (self.mod.env.name, self.name)

    def has(self, meth):
        return self.cls.lookup(meth) is not None


def field(m, o, name):
    d = getattr(o, "d", None)
    return d.get(name) if d is not None else None


def set_state(m, o, vals, name="state"):
    """replace the words of a generator's state array by fresh symbols"""
    st = field(m, o, name)
    if not isinstance(st, Arr) or len(st.data) != len(vals):
        return False
    m.touch(st)
    st.data = list(vals)
    return True


def get_state(m, o, name="state"):
    st = field(m, o, name)
    return tuple(Sc("int", x) for x in st.data)


def slist(nodes):
    return PList([Sc("int", n) for n in nodes])
