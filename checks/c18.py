"""C18: every released combination of version, language and console type selects its documented constants."""
from .common import *

# load addresses documented for each release: language -> (B, W, B DSi, W DSi, B2, W2, B2 DSi, W2 DSi) and the two code addresses of B2 / W2
ADDRESSES = {
    "ENGLISH": ((0x022160B0, 0x022160D0, 0x02760190, 0x027601B0, 0x02200010, 0x02200050, 0x027A5F70, 0x027A5E90),
                (0x0209AEE8, 0x02039DE9), (0x0209AF28, 0x02039E15)),
    "JAPANESE": ((0x02215F10, 0x02215F30, 0x02761150, 0x02761150, 0x021FF9B0, 0x021FF9D0, 0x027AA730, 0x027AA5F0),
                 (0x0209A8DC, 0x02039AC9), (0x0209A8FC, 0x02039AF5)),
    "GERMAN": ((0x02215FF0, 0x02216010, 0x027602F0, 0x027602F0, 0x021FFF50, 0x021FFF70, 0x027A6110, 0x027A6010),
               (0x0209AE28, 0x02039D69), (0x0209AE48, 0x02039D95)),
    "SPANISH": ((0x02216070, 0x02216070, 0x027601F0, 0x027601F0, 0x021FFFD0, 0x021FFFF0, 0x027A6070, 0x027A5FB0),
                (0x0209AEA8, 0x02039DB9), (0x0209AEC8, 0x02039DE5)),
    "FRENCH": ((0x02216030, 0x02216050, 0x02760230, 0x02760250, 0x02200030, 0x02200050, 0x027A5F90, 0x027A5EF0),
               (0x0209AF08, 0x02039DF9), (0x0209AF28, 0x02039E25)),
    "ITALIAN": ((0x02215FB0, 0x02215FD0, 0x027601D0, 0x027601D0, 0x021FFF10, 0x021FFF50, 0x027A5F70, 0x027A5ED0),
                (0x0209ADE8, 0x02039D69), (0x0209AE28, 0x02039D95)),
    "KOREAN": ((0x022167B0, 0x022167B0, 0x02761150, 0x02761150, 0x02200750, 0x02200770, 0x02200770, 0x027A57B0),
               (0x0209B60C, 0x0203A4D5), (0x0209B62C, 0x0203A501)),
}
GAMES = ("BLACK", "WHITE", "BLACK2", "WHITE2")


def run(ck):
    for mode in MODES:
        m = ck.machine(mode)
        en = ck.module(m, "enums")
        sha = ck.module(m, "sha1")
        get = ck.attr(sha, "get_nazo")
        cls = Impl(ck, m, "sha1", "SHA1")
        game, lang, console = ck.attr(en, "Game"), ck.attr(en, "Language"), ck.attr(en, "DSType")
        where = "%s get_nazo" % sha.env.name

        def words(o):
            return PList([Sc("int", m.gi(o, I(i)).n) for i in range(5)])

        def want(ln, gi, dsi):
            addr, c0, c1 = ADDRESSES[ln]
            n = I(addr[(gi // 2) * 4 + (2 if dsi else 0) + gi % 2])
            if gi < 2:
                return ck.spec(m, "sha1", "nazo_bw", n)
            a, b = (c0, c1)[gi - 2]
            return ck.spec(m, "sha1", "nazo_bw2", n, I(a), I(b))
        for ln in ADDRESSES:
            for gi, gn in enumerate(GAMES):
                for cn in ("DS", "DSI", "DS3"):
                    key = "%s/%s %s %s" % (mode, ln, gn, cn)
                    args = [m.ga(game, gn), m.ga(lang, ln), m.ga(console, cn)]
                    ck.guard(key, lambda: ck.equiv(key, where, ck.run(m, lambda: words(m.call(get, args, {}))),
                                                   ck.run(m, lambda: want(ln, gi, cn != "DS"))))

                    def message():
                        o = cls.new(*args, u("mac", 48), B(True), I(6), I(6))
                        return words(m.ga(o, "data"))
                    key += ", message"
                    ck.guard(key, lambda: ck.equiv(key, cls.where("__init__"), ck.run(m, message), ck.run(m, lambda: want(ln, gi, cn != "DS"))))
        # hashing does not modify the constants (the tables are shared by every instance)

        def used():
            args = [m.ga(game, "BLACK2"), m.ga(lang, "KOREAN"), m.ga(console, "DS3")]
            o = cls.new(*args, u("mac", 48), B(True), I(6), I(6))
            cls.do(o, "set_button", u("button", 32))
            cls.do(o, "set_timer0", u("timer0", 16), u("vcount", 8))
            cls.do(o, "set_date", I(2020), I(3), I(4), I(5))
            cls.do(o, "set_time", I(6), I(7), I(8))
            cls.do(o, "hash_seed", cls.do(o, "precompute"))
            return words(m.call(get, args, {}))
        key = mode + "/constants unchanged by hashing"
        ck.guard(key, lambda: ck.equiv(key, where, ck.run(m, used), ck.run(m, lambda: want("KOREAN", 2, True))))
