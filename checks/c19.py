"""C19: FNV-1(a), byte order, rotations, stat modification and hexadecimal display are their documented functions."""
from .common import *


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        fnv, util = ck.module(m, "fnv"), ck.module(m, "util")

        def check(mod, name, args, ref, refargs, label, **kw):
            f = ck.attr(mod, name)
            key = "%s/%s(%s)" % (mode, name, label)
            where = "%s:%d %s" % (mod.env.name, getattr(getattr(f, "node", None), "lineno", 0), name)
            if not callable(args):
                a0 = args
                args = lambda: a0  # noqa
            ck.guard(key, lambda: ck.equiv(key, where, ck.run(m, lambda: m.call(f, list(args()), {})),
                                           ck.run(m, lambda: ck.spec(m, "helpers", ref, *refargs)), **kw))
        # ---- hashes of texts of any length, and of each short length (unrolled)
        for name, ref in (("fnv1_64", "fnv1"), ("fnv1a_64", "fnv1a")):
            t = SymStr("text", T.V("length", 0, 1 << 20))
            check(fnv, name, [t], ref, [t], "text of any length", n=30)
            for k in (0, 1, 2, 3, 5, 8, 13) + ((21, 34) if ck.thorough else ()):
                s = SStr([Char(T.V("c%d" % i, 0, 127)) for i in range(k)]) if k else ""
                check(fnv, name, [s], ref, [s], "%d ASCII characters" % k)
        # ---- byte order and rotations
        for label, v in variants("value", 32):
            check(util, "change_endian_u32", [v], "bswap32", [Sc("int", v.n)], label)
            for name, ref in (("rotate_left_u32", "rotl"), ("rotate_right_u32", "rotr")):
                for k in range(0, 32):
                    for kl, kv in (("int", I(k)), ("np.uint8", Sc("u8", T.C(k)))):
                        check(util, name, [v, kv], ref, [Sc("int", v.n), I(k), I(32)], "%s, %s %d" % (label, kl, k))
                c = sym("count", 1, 31)
                check(util, name, [v, Sc("u8", c.n)], ref, [Sc("int", v.n), c, I(32)], label + ", any count", prove=False)
        for label, v in variants("value", 64):
            for name, ref in (("rotate_left_u64", "rotl"), ("rotate_right_u64", "rotr")):
                for k in range(1, 64):
                    for kl, kv in (("int", I(k)), ("np.uint8", Sc("u8", T.C(k)))):
                        check(util, name, [v, kv], ref, [Sc("int", v.n), I(k), I(64)], "%s, %s %d" % (label, kl, k))
        # ---- stats after the nature's modification: every nature, every stat
        top = 1100 if ck.thorough else 750
        for nature in range(25):
            for index in range(1, 6):
                for dt in ("int", "np") if nature in (0, 8, 13, 21) or ck.thorough else ("np",):
                    v = sym("stat", 5, top, "u16" if dt == "np" else "int")
                    n = Sc("u8", T.C(nature)) if dt == "np" else I(nature)
                    check(util, "compute_stat", [v, n, I(index)], "stat", [Sc("int", v.n), I(nature), I(index)],
                          "%s stat, nature %d, stat %d" % (dt, nature, index))
        # ---- hexadecimal display
        for label, v in variants("value", 32):
            check(util, "hex_32", [v], "hex32", [Sc("int", v.n)], label)
