"""C12: stepping back undoes stepping forward, and the other way round."""
from .common import *
from .states import *


def words_for(name, tag):
    return wordvars(name, tag)


def run(ck):
    found = 0
    for mode in MODES:
        m = ck.machine(mode)
        for name in WORDS:
            g = gen(ck, m, name)
            if not g.has("previous"):
                continue
            found += 1
            ws = wordvars(name)
            before = tuple(Sc("int", w) for w in ws)
            for first, second in (("next", "previous"), ("previous", "next")):
                key = "%s/%s/%s then %s" % (mode, name, first, second)

                def impl():
                    o = fresh(ck, m, g, ws)
                    if o is None:
                        raise Unsupported("state representation changed")
                    a = g.do(o, first)
                    b = g.do(o, second)
                    return (a, b) + observe(m, o)

                def ref():
                    """the value both return is the reference output belonging to the undone or redone step"""
                    o = fresh(ck, m, g, ws)
                    if first == "next":
                        v = ref_next(ck, m, name, slist(ws), None)[0]
                    elif name == "Xorshift128":
                        v = Sc("int", ws[3])
                    else:
                        f = ck.spec(m, "generators", "xoroshiro_previous", slist(ws))
                        v = f[0]
                        if name == "SplitMixXoroshiro128Plus":
                            v = Sc("int", T.shr(v.n, T.C(32)))
                    return (v, v) + before

                def outputs():
                    lab, args, rargs = seed_args(name)[0]

                    def impl2():
                        o = g.new(*args)
                        a = [g.do(o, "next") for _ in range(3)]
                        b = [g.do(o, "previous") for _ in range(2)]
                        c = [g.do(o, "next") for _ in range(4)]
                        return tuple(a + b + c)

                    def ref2():
                        st = ref_init(ck, m, name, rargs)
                        o = []
                        for _ in range(5):
                            v, st, _i = ref_next(ck, m, name, st, None)
                            o.append(v)
                        return tuple(o[:3] + [o[2], o[1]] + o[1:])
                    return ck.equiv(key + ": outputs", g.where(second), ck.run(m, impl2), ck.run(m, ref2), prove=False, n=40)

                def go():
                    try:
                        a = ck.run(m, impl)
                    except Unsupported as e:
                        if "representation" not in str(e):
                            raise
                        return outputs()
                    return ck.equiv(key, g.where(second), a, ck.run(m, ref), n=60)
                ck.guard(key, go)
    if not found:
        raise Anchor("no generator can step backwards any more")
