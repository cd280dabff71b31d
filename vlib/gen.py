"""Generators for schemas, values and parameters."""
import struct
from .client import S
from .model import *

WORDS = ["", "a", "A", "b", "aa", "ab", "é", "☃", "𝄞", "0", "-1", "null", "true", "'", '"', "\\", "\n", "\r\n", "\x00",
         "a\x00b", "?", "; drop space x;", "%s", "{}", "[", "]", "k", " ", "  ", "S5\n", "\x7f"]
BYTES = [b"", b"\x00", b"\xff", b"\n", b"a", b"\x00\x00", b"\x0e", b"\xc3\x28", b"S3\n", b"\x80\x81"]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1.5, 1e-300, -1e300, 1e300, 5e-324, 1.7976931348623157e308, 3.4e38, 3.5e38,
          3.4028234663852886e38, -3.4028234663852886e38, 1e10, 123456.789, 2.0**53, 1e-45, 2.5, -2.5, 1e38, -1e38]


def rstr(rng, big=False):
    r = rng.random()
    if r < 0.4:
        return rng.choice(WORDS)
    n = rng.choice([1, 2, 3, 5, 8, 13, 31, 64, 65, 200]) if not big else rng.choice([1000, 4096, 9999, 10000, 20000, 70000])
    al = "abcxyzABC019_ \n\t\x00\"'\\?{}[]()é☃𝄞"
    return "".join(rng.choice(al) for _ in range(n))


def rbytes(rng, big=False):
    r = rng.random()
    if r < 0.35:
        return rng.choice(BYTES)
    n = rng.choice([1, 2, 3, 7, 8, 9, 33, 64, 200]) if not big else rng.choice([1000, 4096, 9999, 10000, 20000, 70000])
    return rng.randbytes(n)


def good(ty, rng, big=0.0):
    """a parameter that fits ty"""
    if isinstance(ty, tuple):
        depth = 0
        n = rng.choice([0, 0, 1, 1, 2, 3, 5])
        return [good(ty[1], rng) for _ in range(n)]
    if ty == "bool":
        return rng.random() < 0.5
    if ty in INT:
        lo, hi = INT[ty]
        r = rng.random()
        if r < 0.3:
            v = rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, hi // 2])
        elif r < 0.8:
            v = rng.randint(max(lo, -10), min(hi, 20))
        elif r < 0.9:
            # where the number of digits or bits changes
            b = rng.choice([10, 10, 2, 10000])
            v = b ** rng.randrange(1, 64) + rng.choice([0, 0, -1, 1])
            while v > hi:
                v = b ** rng.randrange(0, 20 if b == 2 else 5) + rng.choice([0, 0, -1, 1])
            if lo and rng.random() < .5:
                v = -v
        else:
            v = rng.randint(lo, hi)
        return S(v) if ty[0] == "s" else v
    if ty == "float32":
        r = rng.random()
        v = rng.choice(FLOATS) if r < 0.5 else rng.uniform(-100, 100)
        return v if abs(v) <= F32MAX else 0.25
    if ty == "float64":
        return rng.choice(FLOATS) if rng.random() < 0.5 else rng.uniform(-1e6, 1e6)
    if ty == "binary":
        return rbytes(rng, rng.random() < big)
    return rstr(rng, rng.random() < big)


def bad(ty, rng):
    """a parameter that must be refused for type ty (never None)"""
    if isinstance(ty, tuple):
        r = rng.random()
        if r < 0.4:
            return good(rng.choice(SCALARS), rng)
        x = [good(ty[1], rng) for _ in range(rng.choice([0, 1, 2, 4]))]
        x.insert(rng.randint(0, len(x)), bad(ty[1], rng))
        return x
    if ty in INT and rng.random() < 0.65:
        lo, hi = INT[ty]
        if ty == "uint64":
            return S(rng.choice([0, 1, -1, 5]))
        if ty == "sint64":
            return rng.choice([0, 1, 5, 2**63])
        c = [hi + 1, hi + 2, 2 * hi + 2, hi + 256]
        if lo:
            c += [lo - 1, lo - 2, lo * 2]
        v = rng.choice(c)
        return S(v) if ty[0] == "s" else v
    if ty == "float32" and rng.random() < 0.6:
        return rng.choice([3.5e38, -3.5e38, 1e300, -1e300, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan")])
    if ty == "float64" and rng.random() < 0.5:
        return rng.choice([float("inf"), float("-inf"), float("nan")])
    while True:
        t = rng.choice(SCALARS + [("list", "uint8")])
        if cls(t) != cls(ty):
            return good(t, rng)


def rtype(rng, lists=True):
    if lists and rng.random() < 0.22:
        t = rng.choice(SCALARS)
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            t = ("list", t)
        return t
    return rng.choice(SCALARS)


NAMES = ["a", "b", "c", "d", "e1", "f_2", "Gg", "hH", "_i", "j9_", "kk", "longer_field_name_abcdefghijklmnop", "x", "y", "z",
         "name", "val", "id0", "A", "B_", "v", "w"]


def schema(rng, nf=None, pkty=None):
    if nf is None:
        nf = rng.choice([1, 1, 2, 3, 4, 6, 9]) if rng.random() < .96 else rng.choice([16, 17, 33, 70])
    names = rng.sample(NAMES, nf + 1) if nf < len(NAMES) else ["n%d" % i for i in rng.sample(range(300), nf + 1)]
    pk = names[0]
    pkty = pkty or rng.choice(KEYS)
    fields = [Field(n, rtype(rng), rng.random() < 0.4) for n in names[1:]]
    fields.insert(0 if rng.random() < 0.6 else rng.randint(0, len(fields)), Field(pk, pkty, False))
    return Table(fields, pk)


def create_stmt(t, name):
    first = t.fields[0].name == t.pk
    return "create model %s(%s)" % (name, ", ".join(f.decl(primary=(f.name == t.pk and not first)) for f in t.fields))


def lit(p, params):
    """text of a value; scalars become ? parameters"""
    if isinstance(p, list):
        return "[" + ", ".join(lit(x, params) for x in p) + "]"
    params.append(p)
    return "?"


def ins_stmt(t, name, vals, rng):
    params = []
    if rng.random() < 0.6 and set(vals) == {f.name for f in t.fields}:
        txt = ", ".join(lit(vals[f.name], params) for f in t.fields)
        return "insert into %s(%s)" % (name, txt), params
    ks = list(vals)
    rng.shuffle(ks)
    txt = ", ".join("%s: %s" % (k, lit(vals[k], params)) for k in ks)
    return "insert into %s { %s }" % (name, txt), params


def upd_stmt(t, name, key, assigns):
    params = []
    txt = ", ".join("%s %s %s" % (f, op, lit(p, params)) for f, op, p in assigns)
    params.append(key)
    return "update %s set %s where %s = ?" % (name, txt, t.pk), params


def keypool(ty, rng, n):
    out = []
    for _ in range(n * 6):
        k = good(ty, rng, 0.0)
        if not any(k == x for x in out):
            out.append(k)
        if len(out) >= n:
            break
    return out
