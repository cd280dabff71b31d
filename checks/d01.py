import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, gen, dump
from vlib.dml import Diverged
from vlib.ddl import DMachine


def newmodel(sub, c, space, name):
    rng = sub.rng
    t = gen.schema(rng, nf=rng.choice([1, 2, 4, 8]))
    full = "%s.%s" % (space, name)
    st = gen.create_stmt(t, full)
    r = c.q(st)
    if r is not EMPTY:
        sub.violation("create", "valid model refused: %s: %r" % (st, r), stop=True)
    return DMachine(c, t, full, rng, nkeys=rng.choice([1, 3, 10, 60, 400]))


def big(m, sub):
    """values around and beyond the buffer sizes of the storage layer"""
    rng, t = sub.rng, m.t
    x = rng.random()
    if x < 0.25 and t.pkf().ty in ("string", "binary") and len(m.keys) < 500:
        n = rng.choice([255, 256, 4095, 4096, 4097, 40000, 65535, 65536, 66000])
        a = rng.choice("abc")
        m.keys.append((a * (n - 1) + rng.choice("xyz")) if t.pkf().ty == "string" else rng.randbytes(n))
        vals = {f.name: m.keys[-1] if f.name == t.pk else gen.good(f.ty, rng) for f in t.fields}
        m.insert(vals)
        sub.count("big_keys")
        return
    for f in t.fields:
        if x < 0.5 and isinstance(f.ty, tuple):
            # long lists, also of long or many inner lists
            vals = {g.name: m.key() if g.name == t.pk else gen.good(g.ty, rng) for g in t.fields}
            n = rng.choice([17, 64, 255, 256, 257, 1023, 1024, 1025, 3000, 5000])
            v = [gen.good(f.ty[1], rng) for _ in range(n)]
            vals[f.name] = v
            m.t.delete(vals[t.pk])
            m.c.q("delete from %s where %s = ?" % (m.name, t.pk), vals[t.pk])
            m.insert(vals)
            sub.count("big_lists")
            return
        if f.name != t.pk and f.ty in ("string", "binary"):
            n = rng.choice([4095, 4096, 4097, 65535, 65536, 300000])
            v = ("x" * n) if f.ty == "string" else rng.randbytes(n)
            m.update([(f.name, "=", v)])
            sub.count("big_values")
            return


def phase(sub, srv, st):
    rng = sub.rng
    rng.seed("D01/%s/%d/%d" % (sub.seed, sub.idx, st["round"]))
    c = srv.conn()
    sp = ["d%d" % sub.idx, "e%d" % sub.idx]
    live = {}
    prev = st["data"][sub.idx] if st["data"] else {}
    for s in sp:
        if st["round"] == 0:
            assert c.q("create space " + s) is EMPTY
    for nm, (t, keys, removed) in prev.items():
        m = DMachine(c, t, nm, rng, nkeys=1)
        m.keys, m.removed = keys, removed
        live[nm] = m
    m = None
    try:
        if st["round"] == 0:
            # every type at some depth of lists in lists
            fs = [Field("k", rng.choice(["uint64", "string"]), False)]
            for i, ty in enumerate(gen.SCALARS):
                for _ in range(rng.choice([1, 2, 3, 3, 4])):
                    ty = ("list", ty)
                fs.append(Field("l%d" % i, ty, rng.random() < .3))
            t = Table(fs, "k")
            m = live[sp[0] + ".deep"] = DMachine(c, t, sp[0] + ".deep", rng, nkeys=5)
            if c.q(gen.create_stmt(t, m.name)) is not EMPTY:
                sub.violation("create", "model with deep lists refused", repr(fs), stop=True)
        for m in live.values():
            m.inspect()
            m.verify()
            sub.case(("restored", m.name, repr(m.t.fields), len(m.t.rows)))
            sub.count("models_restored")
            sub.count("rows_restored", len(m.t.rows))
        if st["idle"]:
            sub.result = {nm: (m.t, m.keys, getattr(m, "removed", [])) for nm, m in live.items()}
            return
        end = time.time() + st["secs"]
        while time.time() < end:
            s, n = rng.choice(sp), "m%d" % rng.randint(0, 3)
            if rng.random() < .15:
                s, n = sp[0], "deep"
            nm = "%s.%s" % (s, n)
            m = live.get(nm)
            if m is None:
                m = live[nm] = newmodel(sub, c, s, n)
                sub.count("models_created")
            x = rng.random()
            if x < 0.06:
                r = c.q("drop model allow not empty " + nm)
                if r is not EMPTY:
                    sub.violation("drop", "drop of %s gave %r" % (nm, r), stop=True)
                del live[nm]
                sub.count("models_dropped")
                continue
            if x < 0.07:
                if c.q("drop space allow not empty " + s) is not EMPTY or c.q("create space " + s) is not EMPTY:
                    sub.violation("drop", "drop/create of space %s failed" % s, stop=True)
                for k in [k for k in live if k.startswith(s + ".")]:
                    del live[k]
                sub.count("spaces_recreated")
                continue
            if x < 0.2:
                m.any_alter()
            if x > 0.97:
                big(m, sub)
            for _ in range(rng.choice([1, 10, 80])):
                m.dml()
                sub.case()
            if st["window"] == 1 and rng.random() < 0.02:
                time.sleep(rng.choice([0.1, 1.2]))      # lets the background flush run between changes
                sub.count("pauses")
        for m in live.values():
            m.verify()
            for k, v in m.ops.items():
                sub.count(k, v)
    except Diverged as e:
        sub.violation(("after-restart:" if st["round"] else "") + e.sig, ("round %d: " % st["round"]) + e.what,
                      dict(trace=m.log[-80:], fields=repr(m.t.fields)), stop=True)
    sub.sample({nm: dict(fields=repr(m.t.fields), rows=len(m.t.rows)) for nm, m in live.items()}, 1)
    sub.result = {nm: (m.t, m.keys, getattr(m, "removed", [])) for nm, m in live.items()}


def main(c):
    b = binary(c)
    data, have_users = None, {"root": None}
    s = server(c, b, rs_window=1)
    s0 = s.conn(timeout=60)
    # lists in lists as deep as they can be; names as long as they can be
    assert s0.q("create space pit") is EMPTY
    for n in (70, 100, 128):
        for q, p in (("create model pit.d%d(k: uint64, l: " % n + "list { type: " * n + "string" + " }" * n + ")", ()),
                     ("insert into pit.d%d(?, " % n + "[" * n + "?, ?" + "]" * n + ")", (1, "x", "yy"))):
            if s0.q(q, *p) is not EMPTY:
                c.violation("deep", "%r refused" % q[:80], stop=True)
    for n in (255, 256, 257, 600, 65535, 65536, 70000):
        f, g = "f" + "n" * (n - 1), "g" + "m" * (n - 1)
        for q, p in (("create model pit.n%d(k: uint64, %s: string, null %s: uint8)" % (n, f, g), ()),
                     ("insert into pit.n%d(?, ?, null)" % n, (n, "v")), ("alter model pit.n%d add %s { type: string, nullable: true }" % (n, "h" * n), ()),
                     ("update pit.n%d set %s = ? where k = ?" % (n, "h" * n), ("w", n)),
                     ("alter space pit with { env: { %s: ?, d%d: { %s: ? } } }" % ("e" * n, n, "E" * n), (n, "z"))):
            if s0.q(q, *p) is not EMPTY:
                c.violation("long-name", "%r refused" % q[:80], stop=True)
    s0.close()
    c.start_clock()
    rounds = 6 if c.tier == "quick" else 40
    idle = 0
    for r in range(rounds + 1):
        idle = r > 0 and (r == rounds or r % 3 == 2)         # some restarts without any change in between
        data = par.run(c, 4, phase, s, dict(round=r, data=data, window=s.rs_window, idle=idle,
                                            secs=max(1.0, c.budget / (rounds + 1) * (1.4 if s.rs_window == 1 else 0.8))))
        if not health(c, s, "round %d" % r) or c.viol:
            return
        root = s.conn(timeout=60)
        if not idle:
            u = "u%d" % r
            if root.q("sysctl create user %s with { password: ? }" % u, "password-%d" % r) is not EMPTY:
                c.violation("create-user", "user %s refused" % u, stop=True)
            have_users[u] = "password-%d" % r
            if r % 3 == 1:
                v = c.rng.choice([x for x in have_users if x != "root"])
                if root.q("sysctl drop user " + v) is not EMPTY:
                    c.violation("drop-user", "user %s not dropped" % v, stop=True)
                del have_users[v]
        before = dump.dump(root)
        root.close()
        t0 = time.time()
        rc = s.stop()
        if rc != 0:
            c.violation("stop", "graceful stop ended with %r" % rc, s.log()[-2000:], stop=True)
        s.rs_window = c.rng.choice([1, 300])
        try:
            s.start()
        except StartFailed as e:
            c.violation("restart", "server does not start on its own data: %s" % e, stop=True)
        root = s.conn(timeout=60)
        after = dump.dump(root)
        root.close()
        c.count("restarts")
        c.count("rows_compared", dump.nrows(after))
        c.case(("dump", r, hash(frozenset(k for k in after))), n=1)
        if before != after:
            c.violation("dump-differs", "state before stop and after start differ: " + dump.diff(before, after), stop=True)
        if after["users"] != set(have_users):
            c.violation("users", "users after restart %r, expected %r" % (after["users"], set(have_users)), stop=True)
        for u, p in list(have_users.items())[-2:]:
            try:
                s.conn(u, p).close()
            except HandshakeError as e:
                c.violation("login", "user %s cannot log in after restart: %s" % (u, e), stop=True)
    health(c, s, "after the last restart")


run("D01", main, quick=36, thorough=1500,
    rule="random histories of DDL, ALTER, DML (all types, large values), user changes, dropped and re-created models and spaces; full wire dump "
         "before every graceful stop equals the one after start, and both equal the model; distinct = distinct restored models and dumps")
