import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, gen
from vlib.dml import Machine, Diverged


def episode(sub, c, n, steps):
    rng = sub.rng
    t = gen.schema(rng)
    name = "s%d.m%d" % (sub.idx, n)
    st = gen.create_stmt(t, name)
    r = c.q(st)
    if r is not EMPTY:
        sub.violation("create", "valid model refused: %s -> %r" % (st, r), stop=True)
    m = Machine(c, t, name, rng, nkeys=rng.choice([1, 2, 4, 8, 40, 300]))
    for f in t.fields:
        sub.count("type:" + tystr(f.ty) if not isinstance(f.ty, tuple) else "type:list")
    try:
        for i in range(steps):
            x = rng.random()
            if x < 0.30:
                m.insert()
            elif x < 0.55:
                m.update()
            elif x < 0.63:
                m.delete()
            elif x < 0.83:
                m.select()
            elif x < 0.88:
                m.select_all()
            elif x < 0.91:
                m.bad_select()
            elif x < 0.95:
                m.bad_insert()
            else:
                m.bad_update()
            sub.case()
        m.verify()
        for k in list(t.rows)[:50]:
            kk = S(k) if cls(t.pkf().ty) == "sint" else k
            m.select(key=kk)
    except Diverged as e:
        sub.violation(e.sig, e.what, dict(create=st, trace=m.log[-60:]), stop=True)
    for k, v in m.ops.items():
        sub.count(k, v)
    sub.case(("ep", st, tuple(sorted(m.ops.items()))), n=0)
    sub.sample(dict(model=st, ops=m.ops, rows=len(t.rows), last=m.log[-2:]))
    c.q("drop model allow not empty %s" % name)


def bulk(sub, c):
    """a large table: every level of the index, then delete half, re-insert, verify"""
    rng = sub.rng
    ty = rng.choice(["uint64", "string", "sint32", "binary"])
    t = Table([Field("k", ty), Field("v", "uint32"), Field("s", "string", True)], "k")
    name = "s%d.bulk" % sub.idx
    assert c.q(gen.create_stmt(t, name)) is EMPTY
    m = Machine(c, t, name, rng, nkeys=1, trace=40)
    N = 4000 if sub.tier == "quick" else 20000
    base = rng.randint(0, 2**20)
    def mk(i):
        if ty == "uint64":
            return (i * 0x9E3779B97F4A7C15 & (2**64 - 1)) if i % 2 else base + i
        if ty == "sint32":
            return S((base + i) * (-1 if i % 2 else 1))
        if ty == "string":
            return "key-%d" % i if i % 3 else "%d" % i * 3 + "é"
        return b"%d\x00" % i + bytes([i & 255])
    try:
        keys = []
        for i in range(N):
            k = mk(i)
            m.insert(dict(k=k, v=i, s=None if i % 5 == 0 else "r%d" % i))
            keys.append(k)
        m.keys = keys
        for i in range(N // 2):
            x = rng.random()
            if x < .5:
                m.delete()
            elif x < .8:
                m.update([("v", "+=", 1), ("s", "=", "u%d" % i)])
            else:
                m.insert()
        m.verify()
        for l in (0, 1, 7, 64, N // 2):
            m.select_all(limit=l)
        for k in keys[::7]:
            m.select(key=k)
    except Diverged as e:
        sub.violation(e.sig, e.what, dict(trace=m.log[-30:]), stop=True)
    sub.case(("bulk", ty, len(t.rows)), n=N * 2)
    sub.count("bulk_rows", N)
    c.q("drop model allow not empty %s" % name)


def worker(sub, srv):
    c = srv.conn()
    assert c.q("create space s%d" % sub.idx) is EMPTY
    n = 0
    if sub.idx < 2 or sub.tier == "thorough":
        bulk(sub, c)
    while sub.left() > 0:
        episode(sub, c, n, sub.rng.choice([30, 150, 600]))
        n += 1
        sub.count("episodes")
    c.close()


def main(c):
    b = binary(c)
    s = server(c, b)
    c.start_clock()
    par.run(c, 4, worker, s)
    health(c, s, "after DML workload")


run("C01", main, quick=25, thorough=1200,
    rule="random schemas (all types, nested lists, all key types) x random statement sequences; every response compared with the "
         "reference table; distinct = distinct (schema, per-operation outcome counts) episodes")
