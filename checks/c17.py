"""C17: the initial seed is SHA-1 of the documented message, however the message was assembled."""
from .common import *

GAMES = ("BLACK", "WHITE", "BLACK2", "WHITE2")


def date_syms(tag="", dt=("int",) * 4):
    return [sym("year" + tag, 2000, 2099), sym("month" + tag, 1, 12), sym("day" + tag, 1, 31), sym("weekday" + tag, 0, 6)]


def time_syms(tag=""):
    return [sym("hour" + tag, 0, 23), sym("minute" + tag, 0, 59), sym("second" + tag, 0, 59)]


class Setup:
    def __init__(self, ck, m, game="WHITE2", lang="FRENCH", console="DSI", np_types=False):
        self.ck, self.m = ck, m
        self.g = Impl(ck, m, "sha1", "SHA1")
        en = ck.module(m, "enums")
        self.game = m.ga(ck.attr(en, "Game"), game)
        self.lang = m.ga(ck.attr(en, "Language"), lang)
        self.console = m.ga(ck.attr(en, "DSType"), console)
        self.three = console == "DS3"
        self.np = np_types
        self.mac = self.u("mac", 48, "u64")
        self.vframe = self.u("vframe", 8, "u8")
        self.gx = self.u("gx", 8, "u8")

    def u(self, name, bits, dt):
        return u(name, bits, dt if self.np else "int")

    def values(self, tag=""):
        """a full set of settable values; `tag` distinguishes several"""
        d, t = date_syms(tag), time_syms(tag)
        if self.np:
            d = [Sc(dt, x.n) for dt, x in zip(("u16", "u8", "u8", "u8"), d)]
            t = [Sc("u8", x.n) for x in t]
        return {"button": [self.u("button" + tag, 32, "u32")], "timer0": [self.u("timer" + tag, 16, "u32"), self.u("vcount" + tag, 8, "u8")],
                "date": d, "time": t}

    def new(self, soft):
        return self.g.new(self.game, self.lang, self.console, self.mac, B(soft), self.vframe, self.gx)

    def set(self, o, vals, order=("button", "timer0", "date", "time")):
        for k in order:
            self.g.do(o, "set_" + k, *vals[k])

    def seed(self, o):
        return self.g.do(o, "hash_seed", self.g.do(o, "precompute"))

    def nazo(self):
        f = self.ck.attr(self.g.mod, "get_nazo")
        a = self.m.call(f, [self.game, self.lang, self.console], {})
        return PList([Sc("int", self.m.gi(a, I(i)).n) for i in range(5)])

    def ref(self, vals, soft):
        i = lambda x: Sc("int", x.n)
        w = self.ck.spec(self.m, "sha1", "message", self.nazo(), i(vals["timer0"][1]), i(vals["timer0"][0]), i(self.mac), B(soft),
                         i(self.vframe), i(self.gx), PList([i(x) for x in vals["date"]]), PList([i(x) for x in vals["time"]]),
                         i(vals["button"][0]), B(self.three))
        return self.ck.spec(self.m, "sha1", "seed_of", w)


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        for game, lang, console in (("WHITE2", "FRENCH", "DSI"), ("BLACK", "KOREAN", "DS3"), ("WHITE", "JAPANESE", "DS")):
            for soft in (False, True):
                for np_types in (False, True):
                    s = Setup(ck, m, game, lang, console, np_types)
                    key = "%s/%s %s %s%s%s" % (mode, lang, game, console, ", soft reset" if soft else "", ", NumPy arguments" if np_types else "")

                    def plain():
                        o = s.new(soft)
                        s.set(o, s.values())
                        return s.seed(o)
                    ck.guard(key, lambda: ck.equiv(key, s.g.where("hash_seed"), ck.run(m, plain), ck.run(m, lambda: s.ref(s.values(), soft)), n=40))
        s = Setup(ck, m)
        a, b = s.values(), s.values("'")

        def check(key, impl, ref):
            key = mode + "/" + key
            ck.guard(key, lambda: ck.equiv(key, s.g.where("hash_seed"), ck.run(m, impl), ck.run(m, ref), n=40))
        import itertools
        orders = list(itertools.permutations(("button", "timer0", "date", "time")))
        for order in orders if ck.thorough else orders[1::4]:
            def setters():
                o = s.new(False)
                s.set(o, a, order)
                return s.seed(o)
            check("set in the order " + ", ".join(order), setters, lambda: s.ref(a, False))

        # partial results: button and time may change after precomputation
        for what in (("time",), ("button",), ("button", "time"), ("time", "button")):
            def reuse():
                o = s.new(False)
                s.set(o, a)
                alpha = s.g.do(o, "precompute")
                s.g.do(o, "hash_seed", alpha)
                s.set(o, b, what)
                return s.g.do(o, "hash_seed", alpha)
            check("partial result reused after changing " + " and ".join(what), reuse,
                  lambda: s.ref({k: (b if k in what else a)[k] for k in a}, False))

        def late():
            o = s.new(False)
            s.set(o, a, ("timer0", "date"))
            alpha = s.g.do(o, "precompute")
            s.set(o, a, ("time", "button"))
            return s.g.do(o, "hash_seed", alpha)
        check("partial result taken before time and button are set", late, lambda: s.ref(a, False))

        for what in (("timer0",), ("date",), ("timer0", "date", "time", "button")):
            def again():
                o = s.new(False)
                s.set(o, a)
                s.seed(o)
                s.set(o, b, what)
                return s.seed(o)
            check("object reused after changing " + ", ".join(what), again,
                  lambda: s.ref({k: (b if k in what else a)[k] for k in a}, False))

        def two():
            o, p = s.new(False), s.new(True)
            s.set(o, a)
            s.set(p, b)
            x = s.g.do(o, "precompute")
            y = s.g.do(p, "precompute")
            return s.g.do(o, "hash_seed", x), s.g.do(p, "hash_seed", y)
        check("two hashes interleaved", two, lambda: (s.ref(a, False), s.ref(b, True)))

