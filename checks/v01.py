import os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib.env import *
from vlib import par, gen, v1, journal, dump as D, fault as F
from vlib.dml import Diverged
from vlib.ddl import DMachine

PW = {"root": ROOTPW, "alice": "alice password 16", "bob": "bob's other pass", "Carol_9": "päßwörd carol ☃", "dave" * 10: "d" * 72, "E" + "e" * 299: "eeee eeee eeee ee"}


def hashes(c, b):
    """password hashes as a server makes them"""
    s = server(c, b, "hashes")
    k = s.conn()
    for u in PW:
        if u != "root":
            r = k.q("sysctl create user %s with { password: ? }" % u, PW[u])
            if r is not EMPTY:
                raise Inconclusive("cannot create users: %r" % (r,))
    k.close()
    if s.stop() != 0:
        raise Inconclusive("cannot stop")
    out = {}
    for _, _, _, kind, pay in journal.gns(s.dir).events:
        if kind == "CreateUser":
            n, m = int.from_bytes(pay[:8], "little"), int.from_bytes(pay[8:16], "little")
            out[pay[24:24 + n].decode()] = pay[24 + n:24 + n + m]
    if set(out) != set(PW):
        raise Inconclusive("cannot find the hashes")
    return out


def look(root):
    """every file of a directory: path -> bytes"""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = journal.read(p)
    return out


def originals(sub, db, root, where):
    """the old files, wherever they are now; None if something is missing"""
    now = look(root)
    out = {}
    for p, b in db.files.items():
        cand = [p] + [q for q in now if q.startswith("backups/") and q.split("/", 2)[2] == p]
        hit = [q for q in cand if q in now and now[q].startswith(b)]
        if not hit:
            sub.violation("original-lost", "%s: the old file %s is neither in place nor in the backup; now: %r"
                          % (where, p, sorted((q, len(x)) for q, x in now.items())), stop=True)
        out[p] = now[hit[0]]
    return out


def put(root, files):
    for p, b in files.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(b)
    os.makedirs(os.path.join(root, "data"), exist_ok=True)


LIVE = []      # servers of this worker


def open_(sub, b, root, **kw):
    s = Server(b, root, **kw)
    LIVE.append(s)
    return s


def panicked(sub, s, where):
    for loc, msg in panics(s.log()):
        sub.violation("panic:" + loc, "%s: panic at %s: %s" % (where, loc, msg), s.log()[-3000:], stop=True)


def compare(sub, k, exp, where):
    try:
        got = D.dump(k)
    except (ProtoError, ConnClosed, RecvTimeout, ValueError, KeyError, AttributeError) as e:
        sub.violation("dump", "%s: the database cannot be read: %r" % (where, e), stop=True)
    if got != exp:
        kind = "rows" if any(a.startswith("model:") and a in got and got[a] != exp[a] for a in exp) else "catalogue"
        sub.violation("differs:" + kind, "%s: %s" % (where, D.diff(exp, got)), stop=True)
    return got


def check_open(sub, b, db, root, exp, where):
    """an upgrade that must succeed and show everything"""
    s = open_(sub, b, root)
    try:
        s.start(timeout=90)
    except StartFailed as e:
        sub.violation("refused", "%s: the upgrade failed: rc=%r %s" % (where, e.rc, e.log[-1500:]), stop=True)
    k = s.conn()
    compare(sub, k, exp, where)
    sub.count("upgrades")
    panicked(sub, s, where)
    return s, k


def env_check(sub, k, db, where):
    for sp in db.spaces.values():
        for d in env_probes(sp.env):
            p = []
            st = "alter space %s with { env: %s }" % (sp.name, env_text(d, p))
            sub.count("env_probes")
            if not isinstance(k.q(st, *p), Err):
                sub.violation("env", "%s: %s %r accepted although env was %r" % (where, st, p, sp.env), stop=True)


def logins(sub, s, db, where):
    for u, pw in PW.items():
        for tryit, want in ((pw, u in db.users), (pw[:-1] + "?", False)):
            if not want and sub.rng.random() < .6:
                continue
            try:
                x = s.conn(u, tryit)
                x.close()
                ok = True
            except (HandshakeError, ConnClosed):
                ok = False
            sub.count("logins")
            if ok != want:
                sub.violation("login", "%s: login of %r with %r %s" % (where, u, tryit, "accepted" if ok else "refused"), stop=True)


def work(sub, k, ms, steps):
    rng = sub.rng
    for m in ms:
        m.c = k
        for _ in range(steps):
            x = rng.random()
            if x < .12:
                m.any_alter()
            elif x < .2:
                # keys that were written by the old server
                old = [k for k in m.keys if norm(m.t.pkf().ty, k) in m.t.rows]
                if old:
                    key = rng.choice(old)
                    m.select(key=key)
                    if rng.random() < .5:
                        m.update()
                    else:
                        m.delete()
            else:
                m.dml()
            sub.case()
        m.inspect()
        m.verify()


def life(sub, b, db, root, where):
    """upgrade, use, restart: nothing may be lost"""
    rng = sub.rng
    exp = db.dump()
    s, k = check_open(sub, b, db, root, exp, where)
    if rng.random() < .5:
        env_check(sub, k, db, where)
    if rng.random() < .3:
        logins(sub, s, db, where)
    orig = originals(sub, db, root, where)
    ms = []
    try:
        for m in db.models():
            dm = DMachine(k, m.t, m.full(), rng, nkeys=1)
            dm.keys = m.keys + gen.keypool(m.t.pkf().ty, rng, 4)
            dm.removed = list(m.removed)
            ms.append(dm)
        rng.shuffle(ms)
        ms = ms[:6]
        work(sub, k, ms, rng.choice([0, 5, 30]))
        for n in range(rng.choice([1, 2])):
            before = D.dump(k)
            k.close()
            rc = s.stop()
            if rc != 0:
                sub.violation("stop", "%s: graceful stop after the upgrade ended with %r" % (where, rc), s.log()[-2000:], stop=True)
            try:
                s.start(timeout=90)
            except StartFailed as e:
                sub.violation("restart", "%s: the upgraded database does not start: rc=%r %s" % (where, e.rc, e.log[-1500:]), stop=True)
            k = s.conn()
            compare(sub, k, before, where + ", restarted after the upgrade")
            sub.count("restarts")
            work(sub, k, ms, rng.choice([2, 10]))
    except Diverged as e:
        sub.violation("after-upgrade:" + e.sig, "%s: %s" % (where, e.what), dict(trace=[m.log[-30:] for m in ms]), stop=True)
    panicked(sub, s, where)
    k.close()
    s.stop()
    if rng.random() < .3:
        # the backup is a complete database of the old format
        r2 = root + "-b"
        put(r2, orig)
        s, k = check_open(sub, b, db, r2, exp, where + ", from the backup")
        k.close()
        s.stop()
        shutil.rmtree(r2, ignore_errors=True)
        sub.count("backups_opened")


def spoil(rng, o, info):
    """a damaged file: (bytes, what, whether it can be mistaken for an intact one)"""
    kind = rng.choice(["cut", "cut", "flip", "flip", "end", "version", "zeros"])
    if kind == "cut":
        n = rng.choice([0, 1, 20, 63, rng.randrange(len(o)), rng.randrange(len(o)), len(o) - 1, len(o) - rng.randint(1, 40)])
        if info is not None and info.bounds and rng.random() < .4:
            n = rng.choice(info.bounds)     # between two entries
        n = max(0, min(n, len(o) - 1))
        if info is not None and n in info.cuts:
            n -= 1
        return o[:n], "cut at %d of %d" % (n, len(o)), False
    if kind == "flip":
        i = rng.randrange(len(o))
        return (o[:i] + bytes([o[i] ^ 1 << rng.randrange(8)]) + o[i + 1:], "bit of byte %d of %d" % (i, len(o)),
                info is None or info.given_up)
    if kind == "end":
        if info is None:
            return o[:-rng.randint(1, 60)], "end cut", False
        return o + rng.choice([b"\0", b"\xff", b"\xfb", b"\0" * 36, rng.randbytes(50)]), "more at the end", False
    if kind == "zeros":
        i = rng.randrange(len(o))
        n = min(len(o) - i, rng.choice([1, 8, 100]))
        return (o[:i] + bytes(n) + o[i + n:], "%d zeros at %d of %d" % (n, i, len(o)), info is None or info.given_up)
    return o[:16] + b"\x33" + o[17:], "version", False


def damaged(sub, b, db, root, where):
    """old files that were damaged: refused as they are, or everything is served; repaired, they are upgraded"""
    rng = sub.rng
    exp = db.dump()
    for i in range(8):
        p = rng.choice(sorted(db.files) + ["sys.db"])
        q = os.path.join(root, p)
        o = journal.read(q)
        bad, how, blind = spoil(rng, o, db.info[p])
        at = "%s (damaged %s: %s)" % (where, p, how)
        with open(q, "wb") as f:
            f.write(bad)
        s = open_(sub, b, root)
        sub.count("damaged")
        sub.case()
        try:
            s.start(timeout=90)
        except StartFailed as e:
            if e.rc == "timeout":
                sub.violation("hang", "%s: the start neither fails nor serves" % at, stop=True)
            panicked(sub, s, at)
            sub.count("damaged:refused")
            s.kill()
            if not os.path.exists(q):
                sub.violation("original-moved", "%s: refused, and the damaged file is gone" % at, stop=True)
            if not journal.read(q).startswith(bad):
                sub.violation("original-changed", "%s: the damaged file was changed" % at, stop=True)
            with open(q, "wb") as f:
                f.write(o)
            originals(sub, db, root, at)
            continue
        if not blind:
            k = s.conn()
            compare(sub, k, exp, at + ", served")
            k.close()
        panicked(sub, s, at)
        s.stop()
        return
    s, k = check_open(sub, b, db, root, exp, where + ", repaired")
    k.close()
    s.stop()


def broken(sub, b, db, root, where):
    """an upgrade that fails or is killed: the old data stay complete, and nothing else is ever served"""
    rng = sub.rng
    exp = db.dump()
    shim = F.Shim(os.path.join(sub.dir, "shim%d" % sub.idx))
    kind = rng.choice(["fault", "kill", "kill", "killtime"])
    s = open_(sub, b, root, env=shim.env())
    if kind == "killtime":
        what = "killed after a while"
    else:
        op = rng.choice([F.WRITE, F.WRITE, F.FSYNC, F.OPEN, F.MKDIR])
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, rng.randrange(60)])
        act = rng.choice([F.KILL, F.KILLPART]) if kind == "kill" else rng.choice([F.FAIL, F.SHORTFAIL])
        if op != F.WRITE and act in (F.KILLPART, F.SHORTFAIL):
            act = F.KILL if kind == "kill" else F.FAIL
        shim.arm(F.GNS | F.MODEL | F.OTHER, op, act, skip=n, count=1, nbytes=rng.choice([0, 1, 20]))
        what = "%s at %s %d" % (F.ACTN[act], F.OPN[op], n)
    where = "%s (%s)" % (where, what)
    served = False
    try:
        s.start(timeout=90, wait=kind != "killtime")
        if kind == "killtime":
            time.sleep(rng.uniform(0.005, 0.12))
            s.kill()
        else:
            served = True
    except StartFailed as e:
        if e.rc == "timeout":
            sub.violation("hang", "%s: the start neither fails nor serves" % where, stop=True)
        if kind != "kill":
            panicked(sub, s, where)
    shim.disarm()
    if served:
        k = s.conn()
        compare(sub, k, exp, where + ", served")
        k.close()
        s.stop()
        sub.count("fault_survived" if shim.get("fired") else "fault_not_reached")
        return
    s.kill()
    sub.count("broken:" + kind)
    orig = originals(sub, db, root, where)
    # again in the same directory: everything or nothing
    s.rmpid()
    s2 = open_(sub, b, root)
    try:
        s2.start(timeout=90)
        k = s2.conn()
        compare(sub, k, exp, where + ", started again")
        k.close()
        s2.stop()
        sub.count("second_start:served")
    except StartFailed as e:
        if e.rc == "timeout":
            sub.violation("hang", "%s: the second start neither fails nor serves" % where, stop=True)
        panicked(sub, s2, where + ", started again")
        sub.count("second_start:refused")
    # the old files, put back by hand, are the whole database
    r2 = root + "-b"
    put(r2, orig)
    s, k = check_open(sub, b, db, r2, exp, where + ", the old files put back")
    k.close()
    s.stop()
    shutil.rmtree(r2, ignore_errors=True)


def worker(sub, b, hs):
    try:
        upgrades(sub, b, hs)
    finally:
        for s in LIVE:
            s.kill()


def upgrades(sub, b, hs):
    rng = sub.rng
    n = 0
    while sub.left() > 0 or n < 3:
        db = v1.Db(rng, hs)
        db.grow(rng.choice([3, 30, 100, 250]))
        db.finish()
        root = os.path.join(sub.dir, "w%dv%d" % (sub.idx, n))
        db.write(root)
        d = db.dump()
        where = "worker %d, database %d" % (sub.idx, n)
        sub.case(("db", tuple(sorted(db.ops.items()))))
        for k, v in db.ops.items():
            sub.count("v1 " + k, v)
        sub.count("v1 rows", D.nrows(d))
        sub.sample(dict(ops=db.ops, models={m.full(): repr(m.t.fields)[:200] for m in db.models()[:3]}, rows=D.nrows(d)))
        x = rng.random()
        [life, broken, damaged][0 if x < .5 or n == 0 else 1 if x < .75 else 2](sub, b, db, root, where)
        shutil.rmtree(root, ignore_errors=True)
        LIVE.clear()
        n += 1


def main(c):
    b = binary(c)
    hs = hashes(c, b)
    c.start_clock()
    par.run(c, 4, worker, b, hs)


run("V01", main, quick=35, thorough=900,
    rule="random databases written in the version 1 format (several lifetimes, ALTERs, recovered records) and upgraded by the real server; "
         "distinct = distinct histories by their operation counts")
