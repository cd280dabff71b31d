"""Full observable state of a server through the wire."""
import json
from .client import *
from .model import tclass


def users(c):
    return set(json.loads(c.q("inspect global").v).get("users", []))


def canon(cell):
    if cell.t == 14:
        return ("l", tuple(canon(x) for x in cell.v))
    if cell.t in (10, 11):
        return ("f", repr(cell.v))
    return (tclass(cell.t), cell.v)


def dump(c, limit=10**7):
    """{(space, model): (decl, nrows, frozenset of canonical rows)}, plus spaces and users"""
    g = json.loads(c.q("inspect global").v)
    out = {"spaces": frozenset(g["spaces"]), "users": frozenset(g.get("users", []))}
    for s in g["spaces"]:
        ms = json.loads(c.q("inspect space " + s).v)["models"]
        out["space:" + s] = frozenset(ms)
        for m in ms:
            r = c.q("inspect model %s.%s" % (s, m))
            d = json.loads(r.v)
            rows = c.q("select all * from %s.%s limit ?" % (s, m), limit)
            if not isinstance(rows, Rows):
                raise ProtoError("select all of %s.%s gave %r" % (s, m, rows))
            out["model:%s.%s" % (s, m)] = (d["decl"], d["rows"], len(rows),
                                           frozenset(tuple(canon(x) for x in row) for row in rows))
    return out


def diff(a, b):
    """human readable first differences"""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) == b.get(k):
            continue
        x, y = a.get(k), b.get(k)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[:3] != y[:3]:
                out.append("%s: decl/rows %r -> %r" % (k, x[:3], y[:3]))
            only_a, only_b = list(x[3] - y[3])[:3], list(y[3] - x[3])[:3]
            if only_a or only_b:
                out.append("%s: only before: %r; only after: %r" % (k, only_a, only_b))
        else:
            out.append("%s: %r -> %r" % (k, x if not isinstance(x, tuple) else "present", y if not isinstance(y, tuple) else "present"))
    return "; ".join(out)[:4000]


def nrows(d):
    return sum(v[2] for k, v in d.items() if k.startswith("model:"))
