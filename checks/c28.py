"""C28: typestate of the cache file over every prefix of the writer's event trace, and provenance of the entry's path."""
from sa import extern
from .g3 import *

READY = b"\x80entry"
MOVES = ("replace", "rename", "move")


def text(m, p):
    """printable path"""
    p = extern.pstr(p)
    if isinstance(p, str):
        return p
    if isinstance(p, SStr):
        return "".join(x if isinstance(x, str) else "<%s>" % T.show(x.n, 2) if isinstance(x, Dec) else "<?>" for x in p.parts)
    return m.opq_key(p)


def origin(p):
    """names of the run-time sources a path is made of"""
    out = set()
    if isinstance(p, SStr):
        for x in p.parts:
            if isinstance(x, Dec):
                n = x.n
                out.add(str(n.args[0]) if n.op in ("x", "ext", "v") and n.args else repr(n))
                out.add(T.show(n, 3))
    elif isinstance(p, Opq):
        out.add(p.head)
        for x in p.args:
            out |= origin(x) if isinstance(x, (SStr, Opq)) else set()
    return out


class Trace:
    """one call of a cached function in a given situation"""

    def __init__(self, m, entry, fail=None, codec=True, probe=None):
        self.m, self.entry, self.events = m, entry, []
        self.reads, self.writes = [], []
        m.hooks.update({"event": self.event, "exists": self.exists, "read": self.read, "open": self.open})
        self.fail, self.codec = fail, codec
        self.result = None

    def event(self, m, ev):
        self.events.append((ev, m.where()))

    def state(self, path):
        return self.entry

    def exists(self, m, path):
        self.reads.append(extern.pstr(path))
        return B(self.entry is not None)

    def open(self, m, f):
        if isinstance(f.mode, str) and f.mode.startswith("r"):
            self.reads.append(f.path)
            if self.entry is None:
                m.raise_("FileNotFoundError", "missing")
        return None

    def read(self, m, f):
        return self.entry


def scenario(ck, enc, m, entry, fail=None, codec=True):
    t = Trace(m, entry, fail, codec)

    def thing(name):
        def f(m, a, kw):
            if fail == name:
                m.raise_("MemoryError", name)
            return Opq(name, tuple(a))
        return Builtin(name, f)

    def go():
        kw = {"encode": thing("encoded"), "decode": thing("decoded")} if codec else {}
        deco = m.call(ck.attr(enc, "pickle_cached"), ["name_{}.pkl"], kw)
        return m.call(m.call(deco, [thing("result")], {}), [sym("game", 0, 31)], {})
    t.res = m.run(go)
    return t


def run(ck):
    for mode in MODES:
        def one(mode=mode):
            m = machine(ck, mode)
            enc = ck.module(m, "data.encounter")
            fn = ck.attr(enc, "pickle_cached")
            where = "%s:%d pickle_cached" % (enc.env.name, fn.node.lineno) if hasattr(fn, "node") else enc.name
            arg = sym("game", 0, 31)
            result = Opq("result", (arg,))
            same = lambda a, b: m.opq_key(a) == m.opq_key(b)  # noqa
            for codec in (True, False):
                stored = Opq("pickle.dumps", (Opq("encoded", (result,)) if codec else result,))
                what = "%s/%s" % (mode, "with a packing function" if codec else "plain")
                back = lambda v: Opq("decoded", (v,)) if codec else v  # noqa
                loaded = back(Opq("pickle.loads", (READY,)))
                direct = back(Opq("encoded", (result,))) if codec else result

                # an entry that exists
                hit = scenario(ck, enc, m, READY, codec=codec)
                final = None
                for (ev, w) in hit.events:
                    if ev[0] == "open":
                        final = ev[1]
                key = "%s: a complete entry is served" % what
                ok = hit.res.normal and same(hit.res.value, loaded)
                ck.fact(key, ok, where, None if ok else "with a complete entry the call gives %s" % show(m, hit.res), "value graph of the hit path")
                if final is None:
                    continue
                changed = [(ev, w) for ev, w in hit.events if ev[0] in ("write", "remove") + MOVES or (ev[0] == "open" and ev[2][:1] in "wax")]
                ck.fact("%s: serving an entry changes no file" % what, not changed, changed[0][1] if changed else where,
                        "a hit %s" % describe(m, changed[0][0]) if changed else None, "typestate of the cache files")

                for situation, entry in (("no entry", None), ("an empty entry", b"")):
                    tag = "%s/%s" % (what, situation)
                    t = scenario(ck, enc, m, entry, codec=codec)
                    ok = t.res.normal and (same(t.res.value, result) or same(t.res.value, direct))
                    ck.fact("%s: the computed result is returned" % tag, ok, where,
                            None if ok else "with %s the call gives %s" % (situation, show(m, t.res)), "value graph of the miss path")
                    walk(ck, m, tag, t, final, stored, where, same, must=True)
                    for f in ("result",) + (("encoded",) if codec else ()):
                        t = scenario(ck, enc, m, entry, fail=f, codec=codec)
                        walk(ck, m, "%s/%s fails" % (tag, "the computation" if f == "result" else "packing"), t, final, stored, where, same, must=False)
            # ---- keys
            src = origin(final)
            arg_in = any("game" in x for x in src)
            ck.fact("%s/the entry's name depends on the argument" % mode, arg_in, where, "entry path %s does not mention the argument" % text(m, final),
                    "provenance of the path")
            path = text(m, final)
            versioned = any("version" in x or "digest" in x or "hash" in x or "crc" in x for x in src) or any(ver in path for ver in versions())
            ck.fact("%s/the entry's name depends on the library version or the data set" % mode, versioned, where,
                    "entry path %s is the same for every library version" % path, "provenance of the path")
        ck.guard("%s/cache files" % mode, one)
    ck.guard("distinct entries", lambda: names(ck))


def versions():
    import os
    import re
    from sa.harness import REPO
    out = []
    try:
        with open(os.path.join(REPO, "pyproject.toml"), encoding="utf-8") as fh:
            out += re.findall(r'^version\s*=\s*"([^"]+)"', fh.read(), re.M)
    except OSError:
        pass
    return out


def show(m, r):
    if not r.normal:
        return "; ".join("%s" % e.cls.name if hasattr(e, "cls") else str(e) for _, e in r.raises) or "nothing"
    return m.opq_key(r.value)


def describe(m, ev):
    return "%s %s" % (ev[0], " -> ".join(text(m, x) for x in ev[1:3] if isinstance(x, (str, SStr, Opq)) and x is not ev[0]))


def walk(ck, m, tag, t, final, stored, where, same, must):
    """state of every file after each event; the entry may only be in its first state, absent or complete"""
    fin = m.opq_key(final)
    state, bad, private, folder = {}, None, None, None
    done = False
    for ev, w in t.events:
        kind = ev[0]
        if kind == "open":
            path, mode = m.opq_key(ev[1]), ev[2]
            if mode[:1] in "wax" or "+" in mode:
                old = state.get(path, [None, []])
                state[path] = ["partial", list(old[1]) if mode[:1] == "a" else []]
                if mode[:1] == "x" and not unique(ev[1]):
                    private = private or ("a file left behind by an interrupted run makes every later write fail", w)
                if mode[:1] == "a":
                    private = private or ("data is appended to whatever an interrupted run left", w)
                if path != fin and not unique(ev[1]):
                    private = private or ("%s is written by every process that misses the entry" % text(m, ev[1]), w)
        elif kind == "write":
            path = m.opq_key(ev[1])
            state.setdefault(path, ["partial", []])
            state[path] = ["partial", state[path][1] + [ev[4]]]
        elif kind == "close":
            path = m.opq_key(ev[1])
            if path in state:
                state[path] = ["closed", state[path][1]]
        elif kind in MOVES:
            a, b = m.opq_key(ev[1]), m.opq_key(ev[2])
            if b == fin or a == fin:
                for p in ev[1:3]:
                    if not isinstance(p, (str, SStr)):
                        m.unsupported("path %s" % text(m, p))
                pa, pb = extern.path_parent(m, ev[1]), extern.path_parent(m, ev[2])
                if m.opq_key(pa) != m.opq_key(pb):
                    folder = folder or ("%s and %s are in different folders, the move is not atomic" % (text(m, ev[1]), text(m, ev[2])), w)
            state[b] = state.pop(a, ["missing", []])
        elif kind == "remove":
            state.pop(m.opq_key(ev[1]), None)
        else:
            continue
        s = state.get(fin)
        if s is not None:
            full = s[0] == "closed" and len(s[1]) == 1 and same(s[1][0], stored)
            if not full:
                bad = bad or (ev, w, s)
            done = full
    n = len(t.events)
    ck.count("crash points", n + 1)
    rule = "typestate of the cache files after every prefix of the trace"
    ck.fact("%s: the entry is absent or complete at every point" % tag, bad is None, bad[1] if bad else where,
            None if bad is None else "after '%s' the entry %s is %s" % (
                describe(m, bad[0]), text(m, final), "not the packed result" if bad[2][0] == "closed" else "incomplete"), rule)
    ck.fact("%s: the file being written is private to the process" % tag, private is None, private[1] if private else where, private[0] if private else None, rule)
    ck.fact("%s: the entry is published within its folder" % tag, folder is None, folder[1] if folder else where, folder[0] if folder else None, rule)
    if must:
        ck.fact("%s: the result is published" % tag, done, where, "no complete entry at the end of the call", rule)
    else:
        ck.fact("%s: nothing is published" % tag, m.opq_key(final) not in state, where, "an entry is published although the call failed", rule)
        ck.fact("%s: the failure is reported" % tag, not t.res.normal, where, "the call succeeds", rule)


def unique(p):
    return any(("pid" in x or "unique" in x) for x in origin(p))


class Captured(Exception):
    pass


def names(ck):
    """paths of the entries of every argument of every cached function"""
    m = machine(ck, "numpy")
    enc = ck.module(m, "data.encounter")
    en = ck.module(m, "enums")
    seen = {}
    for fn, cls in (("load_encounter_3", "Game"), ("load_encounter_tables_la", "LAArea")):
        members = ck.attr(en, cls).members
        for name in members:
            got = []

            def exists(m, p, got=got):
                got.append(extern.pstr(p))
                raise Captured

            def opened(m, f, got=got):
                got.append(f.path)
                raise Captured
            mm = machine(ck, "numpy") if False else m
            mm.hooks.update({"exists": exists, "open": opened})
            try:
                mm.run(lambda: mm.call(ck.attr(enc, fn), [mm.ga(ck.attr(en, cls), name)], {}))
            except Captured:
                pass
            if not got:
                continue
            k = mm.opq_key(got[0])
            other = seen.get(k)
            ck.fact("entry of %s(%s.%s) is its own" % (fn, cls, name), other is None, enc.name,
                    "%s(%s) and %s(%s) share the entry %s" % (fn, name, other[0], other[1], text(mm, got[0])) if other else None, "provenance of the path")
            seen[k] = (fn, name)
