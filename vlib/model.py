"""Executable reference model of BlueQL data semantics (independent of the server's code)."""
import math, struct
from .client import Err, EMPTY, ERRC, V, TAGN, Row, Rows, U, S

INT = {"uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1),
       "sint8": (-2**7, 2**7 - 1), "sint16": (-2**15, 2**15 - 1), "sint32": (-2**31, 2**31 - 1),
       "sint64": (-2**63, 2**63 - 1)}
F32MAX = struct.unpack("<f", b"\xff\xff\x7f\x7f")[0]
F64MAX = 1.7976931348623157e308
SCALARS = ["bool", "uint8", "uint16", "uint32", "uint64", "sint8", "sint16", "sint32", "sint64",
           "float32", "float64", "binary", "string"]
KEYS = ["uint8", "uint16", "uint32", "uint64", "sint8", "sint16", "sint32", "sint64", "binary", "string"]


def cls(ty):
    if isinstance(ty, tuple):
        return "list"
    for p in ("uint", "sint", "float"):
        if ty.startswith(p):
            return p
    return ty


def tystr(ty):
    if isinstance(ty, tuple):
        return "list { type: %s }" % tystr(ty[1])
    return ty


def pclass(p):
    """class of a parameter as the wire carries it"""
    if p is None:
        return "null"
    if isinstance(p, bool):
        return "bool"
    if isinstance(p, S):
        return "sint"
    if isinstance(p, int):
        return "sint" if p < 0 else "uint"
    if isinstance(p, float):
        return "float"
    if isinstance(p, (bytes, bytearray)):
        return "binary"
    if isinstance(p, str):
        return "string"
    if isinstance(p, list):
        return "list"
    raise TypeError(p)


def fits(ty, p):
    """is parameter p (not None) a legal value of type ty?"""
    if isinstance(ty, tuple):
        return isinstance(p, list) and all(x is not None and fits(ty[1], x) for x in p)
    c = pclass(p)
    if c != cls(ty):
        return False
    if ty in INT:
        lo, hi = INT[ty]
        return lo <= int(p) <= hi
    if ty == "float32":
        return -F32MAX <= p <= F32MAX          # NaN fails
    if ty == "float64":
        return -F64MAX <= p <= F64MAX
    return True


def norm(ty, p):
    """python value as stored"""
    if p is None:
        return None
    if isinstance(ty, tuple):
        return [norm(ty[1], x) for x in p]
    if ty in INT:
        return int(p)
    if isinstance(p, bytearray):
        return bytes(p)
    return p


def cell(ty, v):
    """expected response cell"""
    if v is None:
        return V(0, None)
    if isinstance(ty, tuple):
        return V(TAGN["list"], [cell(ty[1], x) for x in v])
    return V(TAGN[ty], v)


def same(exp, got, loose=False):
    """compare an expected cell with a received one; loose: width may differ (widened fields)"""
    if not isinstance(got, V):
        return False
    if exp.t != got.t:
        if not (loose and exp.t and got.t and tclass(exp.t) == tclass(got.t)):
            return False
    if exp.t == TAGN["list"]:
        return len(exp.v) == len(got.v) and all(same(a, b, loose) for a, b in zip(exp.v, got.v))
    if isinstance(exp.v, float):
        return exp.v == got.v and math.copysign(1, exp.v) == math.copysign(1, got.v)
    return type(exp.v) is type(got.v) and exp.v == got.v


def tclass(t):
    if 2 <= t <= 5:
        return "u"
    if 6 <= t <= 9:
        return "s"
    if 10 <= t <= 11:
        return "f"
    return t


class Field:
    __slots__ = ("name", "ty", "null", "loose")

    def __init__(self, name, ty, null=False, loose=False):
        self.name, self.ty, self.null, self.loose = name, ty, null, loose

    def decl(self, primary=False):
        return "%s%s%s: %s" % ("primary " if primary else "", "null " if self.null else "", self.name, tystr(self.ty))

    def __repr__(self):
        return self.decl()


OK, DUP, NOTFOUND, BAD = "ok", "dup", "notfound", "bad"


class Table:
    """fields in declaration order; pk is one of them"""

    def __init__(self, fields, pk):
        self.fields = list(fields)
        self.pk = pk
        self.rows = {}          # key -> {field: value}

    def copy(self):
        t = Table(self.fields, self.pk)
        t.rows = {k: dict(v) for k, v in self.rows.items()}
        return t

    def field(self, n):
        for f in self.fields:
            if f.name == n:
                return f
        return None

    def pkf(self):
        return self.field(self.pk)

    def key_ok(self, p):
        """may p be used as a key in a where clause (class match only)"""
        return p is not None and pclass(p) == cls(self.pkf().ty)

    # -- statements: return (status, expected payload)
    def insert(self, vals):
        """vals: dict field -> param"""
        if set(vals) != {f.name for f in self.fields}:
            return BAD
        for f in self.fields:
            v = vals[f.name]
            if v is None:
                if not f.null:
                    return BAD
            elif not fits(f.ty, v):
                return BAD
        k = norm(self.pkf().ty, vals[self.pk])
        if k in self.rows:
            return DUP
        self.rows[k] = {f.name: norm(f.ty, vals[f.name]) for f in self.fields if f.name != self.pk}
        return OK

    def delete(self, key):
        if not self.key_ok(key):
            return BAD
        k = int(key) if cls(self.pkf().ty) in ("uint", "sint") else key
        if k not in self.rows:
            return NOTFOUND
        del self.rows[k]
        return OK

    def get(self, key):
        k = int(key) if cls(self.pkf().ty) in ("uint", "sint") else key
        return self.rows.get(k)

    def update(self, key, assigns):
        """assigns: list of (field, op, param)"""
        if not self.key_ok(key):
            return BAD
        row = self.get(key)
        if row is None:
            return NOTFOUND
        new = dict(row)
        for name, op, p in assigns:
            f = self.field(name)
            if f is None or name == self.pk:
                return BAD
            r = apply(f, new[name], op, p)
            if r is None:
                return BAD
            new[name] = r[0]
        self.rows[int(key) if cls(self.pkf().ty) in ("uint", "sint") else key] = new
        return OK

    def row_cells(self, k, names=None):
        row = self.rows[k]
        out = []
        for n in (names if names is not None else [f.name for f in self.fields]):
            f = self.field(n)
            out.append((cell(f.ty, k if n == self.pk else row[n]), f.loose))
        return out


def apply(f, cur, op, p):
    """returns (newvalue,) or None if it must be refused"""
    ty, c = f.ty, cls(f.ty)
    if p is None:
        return None
    if c == "list":
        if op != "+=" or cur is None or isinstance(p, list) or not fits(ty[1], p):
            return None
        return (cur + [norm(ty[1], p)],)
    if pclass(p) != c:
        return None
    if op == "=":
        return (norm(ty, p),) if fits(ty, p) else None
    if cur is None:
        return None
    if c in ("string", "binary"):
        return (cur + p,) if op == "+=" else None
    if c == "bool":
        return None
    if c in ("uint", "sint"):
        a, b = cur, int(p)
        if op == "+=":
            r = a + b
        elif op == "-=":
            r = a - b
        elif op == "*=":
            r = a * b
        else:
            if b == 0:
                return None
            r = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                r = -r
        lo, hi = INT[ty]
        return (r,) if lo <= r <= hi else None
    # float
    try:
        if op == "+=":
            r = cur + p
        elif op == "-=":
            r = cur - p
        elif op == "*=":
            r = cur * p
        else:
            if p == 0.0:
                return None                    # inf or NaN: outside the type
            r = cur / p
    except OverflowError:
        return None
    return (r,) if fits(ty, r) else None


ERR_FOR = {DUP: "Duplicate", NOTFOUND: "RowNotFound"}


def agrees(status, resp):
    """does the response of a write statement agree with the model's status?"""
    if status == OK:
        return resp is EMPTY
    if status == BAD:
        return isinstance(resp, Err)
    return resp == Err(ERRC[ERR_FOR[status]])
