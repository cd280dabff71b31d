import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, gen
from vlib.dml import Diverged
from vlib.ddl import DMachine


def drive(sub, c, m, st, steps, palter):
    rng = sub.rng
    nalt = 0
    try:
        for _ in range(steps):
            if rng.random() < palter:
                m.any_alter()
                nalt += 1
                x = rng.random()
                if x < 0.3:
                    m.verify()
                elif x < 0.6:
                    m.select()
                elif x < 0.7:
                    m.inspect()
            else:
                m.dml()
            sub.case()
        m.inspect()
        m.verify()
        for k in m.keys[:20]:
            m.select(key=k)
    except Diverged as e:
        sub.violation(e.sig, e.what, dict(create=st, trace=m.log[-80:]), stop=True)
    sub.count("alterations", nalt)


def start(sub, c, n):
    rng = sub.rng
    t = gen.schema(rng, nf=rng.choice([2, 3, 4, 6]))
    name = "s%d.m%d" % (sub.idx, n)
    st = gen.create_stmt(t, name)
    if c.q(st) is not EMPTY:
        sub.violation("create", "valid model refused: %s" % st, stop=True)
    return DMachine(c, t, name, rng, nkeys=rng.choice([2, 6, 20, 60])), st


def phase(sub, srv, state, secs):
    """one server lifetime; state: per worker list of (name, stmt, table, keys, removed)"""
    rng = sub.rng
    rng.seed("%s/%d/%d" % (sub.seed, sub.idx, state["round"]))
    c = srv.conn()
    if state["round"] == 0:
        assert c.q("create space s%d" % sub.idx) is EMPTY
        live = []
    else:
        live = []
        for nm, st, t, keys, removed in state["tables"][sub.idx]:
            m = DMachine(c, t, nm, rng, nkeys=1)
            m.keys, m.removed = keys, removed
            live.append((m, st))
            try:
                m.inspect()
                if rng.random() < 0.7:
                    m.verify()
            except Diverged as e:
                sub.violation("after-restart:" + e.sig, "after restart: " + e.what, dict(create=st, trace=m.log[-80:]), stop=True)
            sub.count("models_restored")
            drive(sub, c, m, st, rng.choice([5, 40]), 0.15)
            sub.case(("restart", st, len(t.rows), len(t.fields)), n=0)
    n = state["round"] * 100000
    end = sub.left() - secs
    while len(live) < 2 or sub.left() > end:
        m, st = start(sub, c, n)
        n += 1
        drive(sub, c, m, st, rng.choice([15, 60, 200]), rng.choice([0.05, 0.15, 0.4]))
        for k, v in m.ops.items():
            sub.count(k, v)
        sub.case(("ep", st, tuple(sorted(m.ops.items()))), n=0)
        sub.sample(dict(model=st, fields=repr(m.t.fields), ops=m.ops, tail=m.log[-2:]))
        live.append((m, st))
        while len(live) > 30:
            m, st = live.pop(rng.randrange(len(live)))
            c.q("drop model allow not empty %s" % m.name)
    sub.result = [(m.name, st, m.t, m.keys, getattr(m, "removed", [])) for m, st in live]
    c.close()


def main(c):
    b = binary(c)
    s = server(c, b)
    c.start_clock()
    rounds = 4 if c.tier == "quick" else 25
    tables = None
    for r in range(rounds):
        tables = par.run(c, 4, phase, s, dict(round=r, tables=tables), c.budget / rounds)
        if not health(c, s, "round %d" % r) or c.viol:
            return
        rc = s.stop()
        if rc != 0:
            c.violation("stop", "graceful stop ended with %r" % rc, s.log()[-2000:], stop=True)
        try:
            s.start()
        except StartFailed as e:
            c.violation("restart", "server does not start on its own data: %s" % e, stop=True)
        c.count("restarts")
    par.run(c, 4, phase, s, dict(round=rounds, tables=tables), 0)
    health(c, s, "after the last restart")


run("S01", main, quick=30, thorough=1200,
    rule="random ALTER ADD/REMOVE/UPDATE (legal and illegal) interleaved with DML and restarts, every response compared with a model of "
         "fields and rows; distinct = distinct (schema, outcome counts) episodes and restored models")
