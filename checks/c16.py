"""C16: an RNG list is a sliding window over the outputs of its generator."""
from .common import *
from .c01 import PARAMS, affine
from .states import *
from sa.values import Abrupt

# (module, generator, output function, stored type, constructor arguments)
KINDS = [("lcrng", "PokeRNGMod", "next_u16", "u16"), ("lcrng", "PokeRNGMod", "next_u16", "u32"), ("lcrng", "PokeRNGDiv", "next", "u32"),
         ("lcrng", "XDRNGR", "next", "u32"), ("lcrng", "BWRNG", "next_u32", "u32"), ("lcrng", "BWRNG", "next", "u64"),
         ("mersenne_twister", "TinyMersenneTwister", "next", "u32"), ("xorshift", "Xorshift128", "next", "u32"),
         ("xorshift", "Xoroshiro128PlusRejection", "next", "u64"), ("xorshift", "SplitMixXoroshiro128Plus", "next", "u32"),
         ("mersenne_twister", "MersenneTwister", "next", "u32"), ("mersenne_twister", "SIMDFastMersenneTwister", "next", "u64")]
BITS = {"u16": 16, "u32": 32, "u64": 64}


class Kind:
    def __init__(self, ck, m, module, cls, fn, dt, size):
        self.ck, self.m, self.size, self.fn, self.dt, self.name = ck, m, size, fn, dt, cls
        self.g = Impl(ck, m, module, cls)
        mod = ck.module(m, "rng_list")
        build = ck.attr(mod, "build_rnglist")
        np_ = m.import_module("numpy")
        state_type = m.ga(np_, "uint%d" % BITS[dt])
        self.cls = m.call(build, [], {"rng_class": self.g.cls, "next_function_name": fn, "state_type": state_type, "size": I(size)})
        self.where = "%s build_rnglist" % mod.env.name

    def gen(self, tag="seed"):
        if self.name in PARAMS:
            bits = PARAMS[self.name][0]
            return self.g.new(sym(tag, 0, (1 << min(bits, 63)) - 1))
        return self.g.new(*[Sc("int", x.n) for x in seed_args(self.name, tag)[0][1]])

    def new(self, rng):
        return self.m.call(self.cls, [rng], {})

    def do(self, o, meth, *a):
        return self.m.call(self.m.ga(o, meth), list(a), {})

    def outputs(self, n, tag="seed", skip=0):
        """the first n outputs of a separate instance of the generator"""
        g = self.gen(tag)
        out = [self.g.do(g, self.fn) for _ in range(skip + n)]
        return out[skip:]


HISTORIES = [
    ("read", []), ("read 3", [("r", 3)]), ("slide", [("s",)]), ("slide 3, read 2, slide", [("s",), ("s",), ("s",), ("r", 2), ("s",)]),
    ("slides n", [("S", "size")]), ("slides n+1, read", [("S", "size+1"), ("r", 1)]), ("skip", [("a", 3)]),
    ("skip past the end", [("a", "size+1"), ("r", 1)]), ("read, skip, slide, skip", [("r", 2), ("a", 5), ("s",), ("a", 2)]),
    ("skip a lot", [("a", 0xFFFFFFFF)]), ("slides 0", [("r", 2), ("S", 0)]), ("read all and again", [("r", "size+2")]),
    ("restart", [("r", 1), ("s",), ("i",)]), ("slide after restart", [("i",), ("S", 2), ("r", 1)]),
    ("slide, restart, slide", [("s",), ("i",), ("s",)]), ("skip, slide, restart, read, slide", [("a", 1), ("s",), ("i",), ("r", 1), ("s",), ("r", 1)]),
    ("restart twice, slides", [("S", 3), ("i",), ("a", 1), ("i",), ("S", 1), ("r", 2), ("s",)]),
]
BIG = [h for h in HISTORIES if h[0] in ("read", "read 3", "slide", "slide, restart, slide")]


def amount(x, size):
    return {"size": size, "size+1": size + 1, "size+2": size + 2}.get(x, x)


def histories(ck, m, kind, key, cases):
    size = kind.size
    for label, ops in cases:
        k = "%s/%s" % (key, label)

        def impl():
            o = kind.new(kind.gen())
            out = []
            for op in ops:
                if op[0] == "r":
                    out += [kind.do(o, "get_value") for _ in range(amount(op[1], size))]
                elif op[0] == "s":
                    kind.do(o, "advance_state")
                elif op[0] == "S":
                    kind.do(o, "advance_states", I(amount(op[1], size)))
                elif op[0] == "a":
                    kind.do(o, "advance", I(amount(op[1], size)))
                else:
                    kind.do(o, "re_init")
            return tuple(out + [kind.do(o, "get_value") for _ in range(size + 1)])

        def ref():
            stream = kind.outputs(6 * size + 12)
            start, pos, drawn = 0, 0, size      # window = stream[start:start+size]
            out = []

            def rd():
                nonlocal pos
                v = stream[start + pos % size]
                pos += 1
                return v
            for op in ops:
                if op[0] == "r":
                    out += [rd() for _ in range(amount(op[1], size))]
                elif op[0] in "sS":
                    n = 1 if op[0] == "s" else amount(op[1], size)
                    start += n
                    drawn += n
                    if n:
                        pos = 0
                elif op[0] == "a":
                    pos = (pos + amount(op[1], size)) % size
                else:
                    start, pos = drawn, 0
                    drawn += size
            return tuple(out + [rd() for _ in range(size + 1)])
        ck.guard(k, lambda: ck.equiv(k, kind.where, ck.run(m, impl), ck.run(m, ref), n=30))


def arbitrary(kind, bufs, head, pointer):
    o = kind.new(kind.gen())
    m = kind.m
    if not (set_state(m, o, bufs, "list") and field(m, o, "head") is not None and field(m, o, "pointer") is not None):
        raise Unsupported("window representation changed")
    m.sa(o, "head", head)
    m.sa(o, "pointer", pointer)
    return o


def observe_list(kind, o):
    m = kind.m
    return get_state(m, o, "list") + (Sc("int", m.ga(o, "head").n), Sc("int", m.ga(o, "pointer").n))


def steps(ck, m, kind, key):
    """every operation from an arbitrary window, head and read position"""
    size = kind.size
    hi = (1 << BITS[kind.dt]) - 1
    bufs = [T.V("w%d" % i, 0, hi) for i in range(size)]
    head, pointer = sym("head", 0, size - 1), sym("pointer", 0, size - 1)

    def spec(fn, *a):
        return ck.spec(m, "rnglist", fn, *a)

    def after(op):
        def go():
            o = arbitrary(kind, bufs, head, pointer)
            r = op(o)
            return (r,) + observe_list(kind, o)
        return go

    def plain(buf, h, p, r=None):
        return (r,) + tuple(Sc("int", x.n) for x in buf.vals()) + (Sc("int", h.n), Sc("int", p.n))

    def r_read():
        b = slist(bufs)
        v = spec("read", b, I(size), pointer)
        return plain(b, head, v[1], v[0])

    def r_slide():
        b = slist(bufs)
        v = spec("slide", b, I(size), head, Sc("int", kind.outputs(1, skip=size)[0].n))
        return plain(b, v[0], v[1])

    def r_restart():
        return plain(slist([x.n for x in kind.outputs(size, skip=size)]), I(0), I(0))
    todo = [("re_init", lambda o: (kind.do(o, "re_init"), None)[1], r_restart), ("get_value", lambda o: kind.do(o, "get_value"), r_read), ("advance_state", lambda o: kind.do(o, "advance_state"), r_slide)]
    for label, adv in variants("adv", 32):
        def r_skip(adv=adv):
            return plain(slist(bufs), head, Sc("int", T.mod(T.add(pointer.n, adv.n), T.C(size))))
        todo.append(("advance(%s)" % label, lambda o, adv=adv: kind.do(o, "advance", adv), r_skip))
        if kind.name in PARAMS and kind.fn in ("next", "next_u16", "next_u32"):
            bits, mult, add = affine(kind.name)

            def r_slides(adv=adv):
                b = slist(bufs)
                g = kind.gen()
                for _ in range(size):
                    kind.g.do(g, "next")
                shift = 0 if kind.fn == "next" else bits // 2
                v = spec("lcg_stream_slide", b, I(size), head, pointer, Sc("int", m.ga(g, "seed").n), I(mult), I(add),
                         I((1 << bits) - 1), I(shift), Sc("int", adv.n))
                return plain(b, v[0], v[1])
            todo.append(("advance_states(%s)" % label, lambda o, adv=adv: kind.do(o, "advance_states", adv), r_slides))

    def small(rng, env, k):
        if "adv" in env:
            env["adv"] = (0, 1, 2, size - 1, size, size + 1, 3 * size, (1 << 32) - 1)[k % 8] if k < 32 else rng.randrange(200)
            if "states" in small.key and env["adv"] > 1000:
                env["adv"] = 200
    for label, op, ref in todo:
        k = "%s/%s from any window" % (key, label)
        small.key = label

        def go():
            try:
                a = ck.run(m, after(op))
            except Unsupported as e:
                if "representation" not in str(e):
                    raise
                ck.count("representation changed")
                return None
            # the ring may be laid out differently: decide on the histories instead
            return ck.equiv(k, kind.where, a, ck.run(m, ref), vary=[small], n=40,
                            confirm=lambda first: histories(ck, m, kind, key + "/histories", HISTORIES))
        ck.guard(k, go)


def large(ck, mode):
    """the ends of windows that are longer than the range of a narrow index"""
    m = ck.machine(mode)
    for size in (512, 1 << 17):
        key = "%s/PokeRNGMod.next_u16, size %d" % (mode, size)

        def go():
            kind = Kind(ck, m, "lcrng", "PokeRNGMod", "next_u16", "u16", 8)
            long = Kind(ck, m, "lcrng", "PokeRNGMod", "next_u16", "u16", size)
            proto = kind.new(kind.gen())
            nodes = [T.C(i & 0xFFFF) for i in range(size)]
            for pos in sorted({0, 254, 255, 256, size // 2 - 1, size // 2, size - 2, size - 1}):
                for label, op, want in (
                        ("get_value", lambda o: kind.do(o, "get_value"), (None, (pos + 1) % size)),
                        ("advance_state", lambda o: (kind.do(o, "advance_state"), None)[1], ((pos + 1) % size, (pos + 1) % size)),
                        ("advance(300)", lambda o: (kind.do(o, "advance", I(300)), None)[1], (None, (pos + 300) % size))):
                    k = "%s/%s at %d" % (key, label, pos)

                    def act():
                        # a list as built, without drawing its window
                        o = Obj(long.cls)
                        for f in ("rng", "list", "head", "pointer"):
                            if field(m, proto, f) is None:
                                raise Unsupported("window representation changed")
                        arr = Arr(m.ga(proto, "list").dtype, (size,), list(nodes))
                        m.sa(o, "rng", m.ga(proto, "rng"))
                        m.sa(o, "list", arr)
                        m.sa(o, "head", I(pos))
                        m.sa(o, "pointer", I(pos))
                        return o

                    def impl():
                        o = act()
                        r = op(o)
                        return (None if r is None else Sc("int", r.n),) + tuple(Sc("int", m.ga(o, f).n) for f in ("head", "pointer"))
                    read = I(pos & 0xFFFF) if label == "get_value" else None
                    head = pos if want[0] is None else want[0]
                    ck.equiv(k, long.where, ck.run(m, impl), ck.run(m, lambda: (read, I(head), I(want[1]))))
        ck.guard(key, go)


def run(ck):
    for mode in MODES:
        large(ck, mode)
        m = ck.machine(mode)
        for number, (module, cls, fn, dt) in enumerate(KINDS):
            big = cls in SPEC
            for size in ((4,) if big else (2 if number % 2 else 8,) if not ck.thorough else (1, 2, 4, 8, 16, 32)):
                key = "%s/%s.%s as %s, size %d" % (mode, cls, fn, dt, size)

                def go():
                    try:
                        kind = Kind(ck, m, module, cls, fn, dt, size)
                    except Abrupt:
                        return ck.fact(key, False, "rng_list build_rnglist", "building the list class always raises",
                                       "a list can be built from every output function")
                    histories(ck, m, kind, key, BIG if big else HISTORIES)
                    steps(ck, m, kind, key)
                ck.guard(key, go)
