"""C30: every resource access reached from any module of the package, and every third-party import, resolved against the tree."""
import ast
import os
import sys

from sa import harness
from .g3 import *

ACCESS = ("read_text", "read_binary", "open_text", "open_binary", "files", "path")
# the library's own optional dependency brings this one along
WITH = {"llvmlite": "numba"}


def modules(pkg):
    out = []
    for d, subs, files in os.walk(pkg):
        subs[:] = sorted(x for x in subs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), os.path.dirname(pkg))[:-3].replace(os.sep, ".")
                out.append((rel[:-9] if rel.endswith(".__init__") else rel, os.path.join(d, f)))
    return out


def declared():
    import re
    import tomllib
    with open(os.path.join(harness.REPO, "pyproject.toml"), "rb") as fh:
        d = tomllib.load(fh)
    deps = set(d.get("tool", {}).get("poetry", {}).get("dependencies", {}))
    for x in d.get("project", {}).get("dependencies", []):
        deps.add(re.match(r"[A-Za-z0-9_.-]+", x).group(0))
    return {x.lower().replace("-", "_") for x in deps}


def run(ck):
    pkg = os.path.join(harness.REPO, "numba_pokemon_prngs")
    mods = modules(pkg)
    # ---- third-party imports
    deps = declared()
    seen, sites = {}, {}
    for name, path in mods:
        with open(path, encoding="utf-8") as fh:
            src = ast.parse(fh.read())
        rel = os.path.relpath(path, harness.REPO)
        for n in ast.walk(src):
            tops = []
            if isinstance(n, ast.Import):
                tops = [a.name.split(".")[0] for a in n.names]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                tops = [(n.module or "").split(".")[0]]
            for t in tops:
                if t and t not in sys.stdlib_module_names and t != "numba_pokemon_prngs":
                    seen.setdefault(t, "%s:%d" % (rel, n.lineno))
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                fn = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
                if fn in ACCESS[:4]:
                    sites["%s:%d" % (rel, n.lineno)] = (rel, n.lineno, n.end_lineno)
    for t, w in sorted(seen.items()):
        ck.fact("third-party module %s is a declared dependency" % t, WITH.get(t, t).lower() in deps, w,
                "%s is imported but not among the dependencies of the package" % t, "imports against the declared dependencies")
    # ---- resources
    for mode in tuple(MODES) + ("compiler not installed",):
        def one(mode=mode):
            m = machine(ck, mode) if mode in MODES else machine(ck, "numpy", option=None, no_numba=True)
            m.resources = []
            for name, path in mods:
                r = m.run(lambda: m.import_module(name))
                bad = [e for c, e in r.raises if c is T.TRUE] if not r.normal else []
                e = bad[0] if bad else None
                ck.fact("%s/module %s can be imported" % (mode, name), r.normal, os.path.relpath(path, harness.REPO),
                        "importing it raises %s" % (getattr(getattr(e, "cls", None), "name", e),), "value graph of the module body")
            if mode not in MODES:
                return
            missing = {}
            reached = set()
            for p, w, kind in m.resources:
                w = str(w)
                reached.add(w.split(" ")[0])
                label = os.path.relpath(p, os.path.join(pkg, "resources")) if isinstance(p, str) else m.opq_key(p)
                if label in missing:
                    continue
                missing[label] = True
                if not isinstance(p, str):
                    ck.undecide("%s/resource %s" % (mode, label), "the name of the file is not constant at %s" % w)
                    continue
                there = os.path.isfile(p) and os.path.basename(p) in os.listdir(os.path.dirname(p))
                ck.fact("%s/resource %s is bundled" % (mode, label), there, w, "%s is opened but not in the package" % label, "constant propagation of resource names")
                if there:
                    ck.fact("%s/resource %s has contents" % (mode, label), os.path.getsize(p) > 0, w, "%s is empty" % label, "constant propagation of resource names")
            ck.count("resource accesses", len(m.resources))
            for s, (rel, lo, hi) in sorted(sites.items()):
                hit = any(x.rpartition(":")[0] == rel and lo <= int(x.rpartition(":")[2] or 0) <= hi for x in reached if x.rpartition(":")[2].isdigit())
                if hit:
                    ck.record("%s/access at line %s is reached" % (mode, s), "proven", s, None, "reachability from module bodies")
                else:
                    ck.record("%s/access at line %s is reached" % (mode, s), "unproven", s, None, "reachability from module bodies")
        ck.guard("%s/resources" % mode, one)
