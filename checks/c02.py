import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, gen
from vlib.dml import Machine, Diverged


def guarded(sub, m, st, fn):
    try:
        fn()
    except Diverged as e:
        sub.violation(e.sig, e.what, dict(create=st, trace=m.log[-40:]), stop=True)


def reread(m, key):
    """after a rejected statement: the row it named, by every route"""
    t = m.t
    m.select(key=key, names=[f.name for f in t.fields])
    m.select(key=key)


def episode(sub, c, n, steps):
    rng = sub.rng
    t = gen.schema(rng, nf=rng.choice([1, 2, 3, 5, 8]))
    name = "s%d.m%d" % (sub.idx, n)
    st = gen.create_stmt(t, name)
    if c.q(st) is not EMPTY:
        sub.violation("create", "valid model refused: %s" % st, stop=True)
    m = Machine(c, t, name, rng, nkeys=rng.choice([1, 2, 3, 5]))

    def body():
        for _ in range(4):
            m.insert()
        for i in range(steps):
            x = rng.random()
            if x < 0.15:
                m.insert()
                continue
            if x < 0.25:
                m.update()
                continue
            if x < 0.28:
                m.delete()
                continue
            if x < 0.75:
                r = m.bad_update()
            elif x < 0.95:
                r = m.bad_insert()
            else:
                m.bad_select()
                continue
            if r is not None and r[0] != OK:
                sub.count("rejected")
                for k in (m.keys if len(m.keys) <= 2 else [m.key()]):
                    reread(m, k)
                if rng.random() < 0.1:
                    m.verify()
            sub.case()
        m.verify()
    guarded(sub, m, st, body)
    for k, v in m.ops.items():
        sub.count(k, v)
    sub.case(("ep", st, tuple(sorted(m.ops.items()))), n=0)
    sub.sample(dict(model=st, ops=m.ops, last=m.log[-3:]))
    return name, st, m


CUR = {"uint": lambda lo, hi: [0, 1, 2, hi // 2, hi - 1, hi],
       "sint": lambda lo, hi: [lo, lo + 1, lo // 2, -1, 0, 1, hi // 2, hi - 1, hi]}


def sweep(sub, c):
    """every type x operator x boundary operand, in single and in multi-assignment position"""
    rng = sub.rng
    types = [x for i, x in enumerate(SCALARS) if i % 4 == sub.idx % 4]
    for ty in types:
        for null in (False, True):
            k = cls(ty)
            name = "s%d.w_%s_%d" % (sub.idx, ty, null)
            t = Table([Field("k", "uint8"), Field("a", ty, null), Field("g", "uint64"), Field("z", "string", True)], "k")
            st = gen.create_stmt(t, name)
            if c.q(st) is not EMPTY:
                sub.violation("create", "valid model refused: %s" % st, stop=True)
            m = Machine(c, t, name, rng, nkeys=1)
            m.keys = [7]
            if k in CUR:
                cur = CUR[k](*INT[ty])
                opd = sorted(set(cur + [0, 1, 2, 3, 16, 255, 256, 65535, 65536, 2**31, 2**32]))
                opd = [v for v in opd if v < 2**64]
                if k == "sint":
                    opd = [v for v in opd + [-2, -3, -256, -2**31, -2**63] if -2**63 <= v < 2**63]
                wrap = S if k == "sint" else int
                ops = ["=", "+=", "-=", "*=", "/="]
            elif k == "float":
                cur = [0.0, 1.0, -1.5, 1e38, -3.4e38, 3.4028234663852886e38] + ([1e308, -1.7e308] if ty == "float64" else [])
                opd = [0.0, -0.0, 1.0, -2.0, 1e-40, 1e38, 3.5e38, 1e300, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan")]
                wrap = float
                ops = ["=", "+=", "-=", "*=", "/="]
            else:
                cur = [gen.good(ty, rng) for _ in range(2)]
                opd = [gen.good(ty, rng) for _ in range(2)]
                wrap = lambda v: v
                ops = ["=", "+=", "-=", "*=", "/="]
            cur = cur + [None] if null else cur
            foreign = [True, 3, S(-3), 1.5, b"b", "s"]

            def body():
                for cv in cur:
                    for op in ops:
                        todo = [wrap(v) for v in opd] + [v for v in foreign if pclass(v) != k]
                        if sub.tier == "quick" and len(todo) > 9:
                            todo = rng.sample(todo, 9)
                        for ov in todo:
                            r = m.c.q("delete from %s where k = ?" % name, 7)
                            t.rows.pop(7, None)
                            m.insert(dict(k=7, a=None if cv is None else wrap(cv), g=5, z="q"))
                            shape = rng.choice([0, 0, 1, 2, 3])
                            asg = [("a", op, ov)]
                            if shape & 1:
                                asg = [("g", "+=", 1), ("z", "+=", "w")] + asg
                            if shape & 2:
                                asg = asg + [("g", "*=", 3)]
                            s, _ = m.update(asg, 7)
                            reread(m, 7)
                            sub.case((ty, null, cv, op, ov, shape))
                            sub.count("sweep:" + s)
            guarded(sub, m, st, body)
            c.q("drop model allow not empty %s" % name)


def worker(sub, srv):
    c = srv.conn()
    assert c.q("create space s%d" % sub.idx) is EMPTY
    sweep(sub, c)
    keep, n = [], 0
    while n < 3 or sub.left(0.8) > 0:
        keep.append(episode(sub, c, n, sub.rng.choice([20, 60, 200])))
        n += 1
        if len(keep) > 25:
            nm, _, _ = keep.pop(sub.rng.randrange(len(keep)))
            c.q("drop model allow not empty %s" % nm)
    sub.count("episodes", n)
    sub.result = [(nm, st, m.t, m.keys) for nm, st, m in keep]
    c.close()


def recheck(sub, srv, tables):
    """after the restart: the same rows, and the rows are still usable"""
    c = srv.conn()
    for nm, st, t, keys in tables[sub.idx]:
        m = Machine(c, t, nm, sub.rng, nkeys=1)
        m.keys = keys

        def body():
            m.verify()
            for k in keys:
                m.select(key=k)
            for _ in range(3):
                m.bad_update()
                m.update()
            m.verify()
        guarded(sub, m, st, body)
        sub.count("models_rechecked_after_restart")
        sub.case(("restart", st, len(t.rows)))


def main(c):
    b = binary(c)
    s = server(c, b)
    c.start_clock()
    tables = par.run(c, 4, worker, s)
    if not health(c, s, "after the workload") or c.viol:
        return
    rc = s.stop()
    if rc != 0:
        c.violation("stop", "graceful stop ended with %r" % rc, s.log()[-2000:], stop=True)
    try:
        s.start()
    except StartFailed as e:
        c.violation("restart", "server does not start on its own data: %s" % e, stop=True)
    par.run(c, 4, recheck, s, tables)
    health(c, s, "after restart")


run("C02", main, quick=25, thorough=900,
    rule="reject-heavy random statements (k-th assignment failing) and type x operator x boundary sweep; each rejected statement "
         "followed by re-reads of the row; distinct = distinct sweep points and episodes")
