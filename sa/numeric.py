"""Small exact helpers over terms."""

from . import term as T


def lin(n, scale, acc, depth=0):
    """linear decomposition into {atom id: (node, coefficient)} and a constant"""
    op = n.op
    if op == "c":
        acc[None] = acc.get(None, 0) + scale * n.args[0]
        return
    if depth < 60:
        if op == "add":
            lin(n.args[0], scale, acc, depth + 1)
            lin(n.args[1], scale, acc, depth + 1)
            return
        if op == "mul" and n.args[1].op == "c":
            lin(n.args[0], scale * n.args[1].args[0], acc, depth + 1)
            return
    k = n.id
    c = acc.get(k)
    acc[k] = (n, (c[1] if c else 0) + scale)


def exact_diff(a, b):
    """constant a - b, or None"""
    acc = {}
    lin(a, 1, acc)
    lin(b, -1, acc)
    k = acc.pop(None, 0)
    if any(c for _, c in acc.values()):
        return None
    return k
