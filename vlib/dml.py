"""Random DML against a live model with the reference table alongside (the C01/C02 monitor)."""
from .client import *
from .model import *
from . import gen


class Diverged(Exception):
    def __init__(self, sig, what):
        self.sig, self.what = sig, what
        Exception.__init__(self, what)


class Refused(Exception):
    """the server could not make the statement durable"""


class Machine:
    faulty = None           # set where storage may fail: tells whether it may have failed

    def __init__(self, conn, table, name, rng, nkeys=6, trace=400):
        self.c, self.t, self.name, self.rng = conn, table, name, rng
        self.keys = gen.keypool(table.pkf().ty, rng, nkeys)
        self.log = []
        self.ntrace = trace
        self.ops = {}

    def note(self, *a):
        self.log.append(a)
        if len(self.log) > self.ntrace:
            del self.log[:self.ntrace // 2]

    def q(self, q, params):
        self.note(q, [repr(p)[:200] for p in params])
        try:
            r = self.c.q(q, *params)
        except (ConnClosed, RecvTimeout, ProtoError) as e:
            raise Diverged("no-response:" + type(e).__name__, "no well-formed response to %r %r: %r" % (q, params, e))
        self.note("->", repr(r)[:300])
        if self.faulty and r == Err(0) and self.faulty():
            raise Refused()
        return r

    def fail(self, sig, what):
        raise Diverged(sig, what)

    def op(self, kind, status):
        k = kind + ":" + status
        self.ops[k] = self.ops.get(k, 0) + 1

    # -- statements
    def key(self):
        return self.rng.choice(self.keys)

    def insert(self, vals=None, status=None):
        rng, t = self.rng, self.t
        if vals is None:
            vals = {}
            for f in t.fields:
                if f.name == t.pk:
                    vals[f.name] = self.key()
                elif f.null and rng.random() < 0.3:
                    vals[f.name] = None
                else:
                    vals[f.name] = gen.good(f.ty, rng, 0.02)
        q, p = gen.ins_stmt(t, self.name, vals, rng)
        st = t.insert(vals)
        r = self.q(q, p)
        self.op("insert", st)
        if not agrees(st, r):
            self.fail("insert:%s" % st, "insert: model says %s, server says %r: %s %r" % (st, r, q, p))
        return st, r

    def bad_insert(self):
        rng, t = self.rng, self.t
        vals = {}
        for f in t.fields:
            vals[f.name] = self.key() if f.name == t.pk else (None if f.null and rng.random() < 0.2 else gen.good(f.ty, rng))
        r = rng.random()
        if r < 0.6:
            f = rng.choice(t.fields)
            if not f.null and rng.random() < 0.3:
                vals[f.name] = None
            else:
                vals[f.name] = gen.bad(f.ty, rng)
        elif r < 0.8 and len(t.fields) > 1:
            del vals[rng.choice(list(vals))]
        else:
            vals["nosuchfield"] = 1
        return self.insert(vals)

    def assign(self, f):
        rng = self.rng
        c = cls(f.ty)
        if c == "list":
            return (f.name, "+=", gen.good(f.ty[1], rng) if not isinstance(f.ty[1], tuple) else gen.good("string", rng))
        ops = {"bool": ["="], "string": ["=", "+="], "binary": ["=", "+="]}.get(c, ["=", "=", "+=", "-=", "*=", "/="])
        op = rng.choice(ops)
        if op in ("+=", "-=", "*=", "/=") and c in ("uint", "sint", "float") and rng.random() < 0.6:
            v = rng.choice([0, 1, 1, 2, 3])
            v = float(v) if c == "float" else (S(rng.choice([v, -v])) if c == "sint" else v)
        else:
            v = gen.good(f.ty, rng, 0.01)
        return (f.name, op, v)

    def bad_assign(self, f):
        rng = self.rng
        r = rng.random()
        c = cls(f.ty)
        if c == "list":
            if r < 0.25:
                return (f.name, rng.choice(["-=", "*=", "/="]), gen.good("uint8", rng))
            e = f.ty[1]
            v = gen.bad(e, rng)
            if isinstance(v, list):
                v = gen.good("string" if cls(e) != "string" else "uint8", rng)
            return (f.name, "+=", v)
        if r < 0.2:
            return ("nosuchfield", "=", 1)
        if r < 0.3:
            return (self.t.pk, "=", self.key())
        v = gen.bad(f.ty, rng)
        if isinstance(v, list):
            v = gen.good("uint8" if cls(f.ty) != "uint" else "string", rng)
        if c in ("uint", "sint", "float") and r < 0.6:
            row = None
            op = rng.choice(["+=", "-=", "*=", "/="])
            if op == "/=":
                z = {"uint": 0, "sint": S(0), "float": 0.0}[c]
                return (f.name, "/=", z)
            lim = {"float": F64MAX, "uint": 2**63, "sint": S(2**62)}[c]
            if c == "float":
                return (f.name, "*=", lim)
            return (f.name, op, lim)
        return (f.name, "=", v)

    def update(self, assigns=None, key=None):
        rng, t = self.rng, self.t
        cand = [f for f in t.fields if f.name != t.pk]
        if not cand:
            return None
        key = self.key() if key is None else key
        if assigns is None:
            n = rng.choice([1, 1, 1, 2, 2, 3, 4])
            assigns = [self.assign(rng.choice(cand)) for _ in range(n)]
        q, p = gen.upd_stmt(t, self.name, key, assigns)
        before = t.get(key)
        before = dict(before) if before is not None else None
        st = t.update(key, assigns)
        r = self.q(q, p)
        self.op("update", st)
        if not agrees(st, r):
            self.fail("update:%s" % st, "update: model says %s, server says %r: %s %r on row %r" % (st, r, q, p, before))
        return st, r

    def bad_update(self):
        rng, t = self.rng, self.t
        cand = [f for f in t.fields if f.name != t.pk]
        if not cand:
            return None
        k = rng.choice([0, 0, 1, 1, 2, 3])
        # NB: the same field may be assigned several times before the failing assignment
        assigns = [self.assign(rng.choice(cand)) for _ in range(k)]
        assigns.append(self.bad_assign(rng.choice(cand)))
        for _ in range(rng.choice([0, 0, 1, 2])):
            assigns.append(self.assign(rng.choice(cand)))
        return self.update(assigns)

    def delete(self):
        key = self.key()
        st = self.t.delete(key)
        r = self.q("delete from %s where %s = ?" % (self.name, self.t.pk), [key])
        self.op("delete", st)
        if not agrees(st, r):
            self.fail("delete:%s" % st, "delete of %r: model says %s, server says %r" % (key, st, r))

    def select(self, key=None, names=None):
        rng, t = self.rng, self.t
        key = self.key() if key is None else key
        if names is None and rng.random() < 0.4:
            names = [rng.choice(t.fields).name for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        q = "select %s from %s where %s = ?" % ("*" if names is None else ", ".join(names), self.name, t.pk)
        r = self.q(q, [key])
        row = t.get(key)
        if row is None:
            self.op("select", "notfound")
            if r != Err(ERRC["RowNotFound"]):
                self.fail("select:notfound", "select of missing key %r gave %r" % (key, r))
            return
        self.op("select", "ok")
        k = int(key) if cls(t.pkf().ty) in ("uint", "sint") else key
        exp = t.row_cells(k, names)
        got = list(r) if isinstance(r, Row) else None
        # keys are reported with the 64-bit class tag: compare them by class
        if got is None or len(got) != len(exp) or not all(same(e, g, lo or self._iskey(i, names)) for i, ((e, lo), g) in enumerate(zip(exp, got))):
            self.fail("select:value", "select %r of key %r: expected %r, got %r" % (names, key, [e for e, _ in exp], r))

    def _iskey(self, i, names):
        n = names[i] if names is not None else self.t.fields[i].name
        return n == self.t.pk

    def bad_select(self):
        rng, t = self.rng, self.t
        r = rng.random()
        if r < 0.4:
            # an unknown field, alone or among known ones
            names = [rng.choice(t.fields).name for _ in range(rng.choice([0, 0, 1, 2]))]
            names = names[:max(0, len(t.fields) - 1)]
            names.insert(rng.randint(0, len(names)), "nosuchfield")
            if rng.random() < .4:
                q, p = "select all %s from %s limit ?" % (", ".join(names), self.name), [rng.choice([0, 1, 3, 1000])]
            else:
                q, p = "select %s from %s where %s = ?" % (", ".join(names), self.name, t.pk), [self.key()]
                if t.get(p[0]) is None:
                    return
        elif r < 0.7:
            other = [f for f in t.fields if f.name != t.pk and cls(f.ty) != "list"]
            if not other:
                return
            f = rng.choice(other)
            q, p = "select * from %s where %s = ?" % (self.name, f.name), [gen.good(f.ty, rng)]
        else:
            k = gen.bad(t.pkf().ty, rng)
            if t.key_ok(k) or isinstance(k, list):
                return
            q, p = "select * from %s where %s = ?" % (self.name, t.pk), [k]
        x = self.q(q, p)
        self.op("select", "bad")
        if not isinstance(x, Err) or "nosuchfield" in q and x != Err(ERRC["UnknownField"]):
            self.fail("select:bad", "%s %r: expected an error, got %r" % (q, p, x))

    def select_all(self, limit=None):
        rng, t = self.rng, self.t
        names = None
        if rng.random() < 0.4:
            names = [rng.choice(t.fields).name for _ in range(rng.choice([1, 2, 3]))]
            names = names[:len(t.fields)]
            if t.pk not in names:
                names[0] = t.pk
        if limit is None:
            limit = rng.choice([0, 1, 2, 3, 5, 10, 1000, 2**32, 2**63]) if rng.random() < 0.3 else len(t.rows) + 10
        r = self.q("select all %s from %s limit ?" % ("*" if names is None else ", ".join(names), self.name), [limit])
        self.op("select_all", "ok")
        self.check_rows(r, names, limit)

    def check_rows(self, r, names, limit):
        t = self.t
        cols = names if names is not None else [f.name for f in t.fields]
        if not isinstance(r, Rows):
            self.fail("select_all:type", "select all limit %d gave %r" % (limit, r))
        if len(r) != min(limit, len(t.rows)):
            self.fail("select_all:count", "select all limit %d returned %d rows, table has %d" % (limit, len(r), len(t.rows)))
        ki = cols.index(t.pk)
        seen = set()
        for row in r:
            if len(row) != len(cols):
                self.fail("select_all:width", "row of %d columns, expected %d: %r" % (len(row), len(cols), row))
            k = row[ki].v
            if k in seen or k not in t.rows:
                self.fail("select_all:key", "select all returned key %r %s" % (k, "twice" if k in seen else "that does not exist"))
            seen.add(k)
            exp = t.row_cells(k, cols)
            if not all(same(e, g, lo or n == t.pk) for (e, lo), g, n in zip(exp, row, cols)):
                self.fail("select_all:value", "row %r: expected %r, got %r" % (k, [e for e, _ in exp], row))

    def verify(self):
        """full comparison of the table"""
        names = None
        n = len(self.t.rows) + 10
        r = self.q("select all * from %s limit ?" % self.name, [n])
        self.check_rows(r, None, n)
