"""C31: no seed or state of a linear generator lies on a short cycle."""
from sa import canon as K
from sa import evalt
from sa import linear as L
from .c01 import PARAMS
from .common import *
from .states import *

# 2**128 - 1
FACTORS = (3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721)
STEPS = {"Xorshift128": 128, "Xoroshiro128PlusRejection": 128, "SplitMixXoroshiro128Plus": 128, "TinyMersenneTwister": 127}


def congruential(ck, m, name):
    g = Impl(ck, m, "lcrng", name)
    bits = PARAMS[name][0]
    key = "%s/%s steps through all seeds" % (m.mode, name)
    s = T.V("seed", 0, (1 << bits) - 1)
    where = g.where("next")

    def impl():
        o = g.new(Sc("u%d" % bits, s))
        g.do(o, "next")
        return m.ga(o, "seed")
    side = ck.run(m, impl)
    if not side.normal or side.raises or not isinstance(side.value, Sc):
        return ck.record(key, "unproven", where, "the step has no single outcome", "Hull-Dobell")
    step = side.value.n
    ev = evalt.Evaluator([step])
    add, second = ev({"seed": 0})[0], ev({"seed": 1})[0]
    mult = (second - add) & ((1 << bits) - 1)
    if K.canon(step) is not K.canon(T.wrap(T.add(T.mul(s, T.C(mult)), T.C(add)), bits)):
        # the step is not an affine map: C01 decides whether it is the documented one
        return ck.record(key, "unproven", where, "the step is not recognised as an affine map", "Hull-Dobell")
    ok = add & 1 == 1 and mult & 3 == 1
    ck.fact(key, ok, where, "with multiplier %#x and increment %#x the period is shorter than 2**%d" % (mult, add, bits), "affine map extracted from the value graph; Hull-Dobell")


def bijective(n, v):
    """the value of n determines the value of v (chains of invertible operations on words)"""
    for _ in range(200):
        if n is v:
            return True
        w = (n.hi or 0).bit_length()
        if n.op == "wrap":
            x = n.args[0]
            if x is v and v.hi < 1 << n.args[1]:
                return True
            if x.op in ("add", "mul"):
                p, q = x.args if x.args[1].op == "c" else x.args[::-1]
                if q.op == "c" and (x.op == "add" or q.args[0] & 1) and (p.hi or 0).bit_length() <= n.args[1] and (p.lo or 0) >= 0:
                    n = p
                    continue
            n = x
            if x.op not in ("xor", "wrap"):
                return False
            continue
        if n.op == "xor":
            leaf = next((p for p, q in (n.args, n.args[::-1]) if q.op == "c" or q.op in ("shr", "shl") or q.op == "wrap" and q.args[0].op == "shl"), None)
            if leaf is None:
                return False
            d = L.Domain([leaf], w)
            try:
                if (leaf.hi or 0).bit_length() > w:
                    return False
                d.memo[leaf.id] = L.Bits([1 << i for i in range(w)])
                rows = d.bits(d.get(n)).rows
            except L.NotLinear:
                return False
            if L.rank([r & ~d.one for r in rows]) != w:
                return False
            n = leaf
            continue
        return False
    return False


def linear(ck, m, name):
    g = gen(ck, m, name)
    ws = wordvars(name)
    width = WORDS[name][2]
    n = STEPS[name]
    key = "%s/%s steps through all states but the empty one" % (m.mode, name)
    where = g.where("next")
    rule = "bitwise-linear map extracted from the value graph; order of its matrix"

    def impl():
        o = fresh(ck, m, g, ws)
        if o is None:
            raise Unsupported("state representation changed")
        g.do(o, "next")
        return observe(m, o)
    side = ck.run(m, impl)
    if not side.normal or side.raises:
        return ck.record(key, "unproven", where, "the step has no single outcome", rule)
    try:
        a, const = L.matrix(ws, width, [x.n for x in side.value])
    except L.NotLinear as e:
        return ck.record(key, "unproven", where, "the step is not recognised as a linear map (%s)" % e, rule)
    if const:
        return ck.record(key, "unproven", where, "the step is affine", rule)
    sq = L.squares(a, 128)
    full = (1 << n) - 1
    if n == 128:
        ok = L.power(sq, full) == L.identity(128) and all(L.power(sq, full // p) != L.identity(128) for p in FACTORS)
    else:
        # one bit of the state is never read: the map is looked at on its image; the period is a prime
        ok = L.rank(a) == n and sq[n] == a and sq[1] != a
    ck.fact(key, ok, where, "the period of some state is shorter than 2**%d - 1" % n, rule)


def seeded(ck, m):
    """no seed gives the empty state"""
    name = "SplitMixXoroshiro128Plus"
    g = gen(ck, m, name)
    key = "%s/%s is never empty" % (m.mode, name)
    s = T.V("seed", 0, M64)
    side = ck.run(m, lambda: observe(m, g.new(Sc("u64", s))))
    words = [x.n for x in side.value] if side.normal and not side.raises else []
    rule = "preimages of zero under a chain of invertible operations"
    from sa import aim
    import random
    pre = []
    for w in words:
        if not bijective(w, s):
            return ck.record(key, "unproven", g.where("re_init"), "not recognised as a chain of invertible operations", rule)
        val = evalt.Plan([w]).run({}, {"seed": 0x123456789}, [1 << 30])
        got = [x["seed"] for x in aim.solve(w, 0, None, val, random.Random(1)) if "seed" in x]
        got = [x for x in got if evalt.Evaluator([w])({"seed": x})[0] == 0]
        if not got:
            return ck.record(key, "unproven", g.where("re_init"), "no preimage found", rule)
        pre.append(got[0])
    ck.fact(key, len(pre) == 2 and pre[0] != pre[1], g.where("re_init"), "the seed %#x gives the state 0, 0, which never changes" % (pre[0] if pre else 0), rule)


def defaulted(ck, m):
    name = "Xoroshiro128PlusRejection"
    g = gen(ck, m, name)
    key = "%s/%s is never empty with the default second word" % (m.mode, name)
    s = T.V("seed", 0, M64)
    side = ck.run(m, lambda: observe(m, g.new(Sc("u64", s))))
    if not side.normal or side.raises or len(side.value) != 2:
        return ck.record(key, "unproven", g.where("re_init"), "no single outcome", "constant propagation")
    w = side.value[1].n
    if w.op != "c":
        return ck.record(key, "unproven", g.where("re_init"), "the second word is not constant", "constant propagation")
    ck.fact(key, w.args[0] != 0, g.where("re_init"), "the second word is zero", "constant propagation")


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        for name in PARAMS:
            ck.guard("%s/%s steps through all seeds" % (mode, name), lambda: congruential(ck, m, name))
        for name in STEPS:
            ck.guard("%s/%s" % (mode, name), lambda: linear(ck, m, name))
        ck.guard("%s/seeded" % mode, lambda: seeded(ck, m))
        ck.guard("%s/defaulted" % mode, lambda: defaulted(ck, m))
