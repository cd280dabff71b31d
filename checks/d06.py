import errno, os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, gen, dump, fault as F
from vlib.dml import Diverged, Refused
from vlib.ddl import DMachine

ERRS = [errno.ENOSPC, errno.EIO, errno.EDQUOT]


def sub_quick(sub):
    return sub.tier == "quick"


class World:
    """one server with the fault shim, and everything its clients were told"""

    def __init__(self, sub, bin, n):
        self.sub, self.rng = sub, sub.rng
        self.dir = os.path.join(sub.dir, "w%d-%d" % (sub.idx, n))
        os.makedirs(self.dir)
        self.sh = F.Shim(os.path.join(self.dir, "ctl"))
        self.s = Server(bin, os.path.join(self.dir, "db"), rs_window=self.rng.choice([1, 1, 300]), env=self.sh.env(), loglevel="info")
        self.live, self.spaces, self.users = {}, set(), {"root"}
        self.n = 0
        self.fired = self.faulty = False
        self.log = []

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def bad(self, sig, what):
        extra = dict(log=self.log[-40:], server=self.s.log()[-3000:])
        self.sub.violation(sig, what, extra, stop=True)

    def isfaulty(self):
        """may a statement that needs the disk be refused now?"""
        if self.sh.get("fired"):
            self.faulty = True
        return self.faulty

    def ddl(self, q, *p):
        try:
            r = self.c.q(q, *p)
        except (ConnClosed, RecvTimeout, ProtoError) as e:
            self.bad("no-response", "no response to %r while storage was failing: %r" % (q, e))
        self.log.append((q, repr(r)))
        if r is EMPTY:
            self.sub.count("ddl:accepted")
            return True
        if r == Err(0):
            if not self.isfaulty():
                self.bad("spurious-error", "%r refused with a server error though no I/O failed" % q)
            self.sub.count("ddl:not-durable")
            return False
        self.bad("ddl-error", "%r gave %r" % (q, r))

    def create_model(self, sp):
        t = gen.schema(self.rng, nf=self.rng.choice([2, 3, 5]))
        nm = "%s.%s" % (sp, self.name("m"))
        if self.ddl(gen.create_stmt(t, nm)):
            m = self.live[nm] = DMachine(self.c, t, nm, self.rng, nkeys=self.rng.choice([3, 20, 200]))
            m.faulty = self.isfaulty

    def step(self):
        rng = self.rng
        x = rng.random()
        if not self.spaces or x < 0.08:
            n = self.name("s")
            if self.ddl("create space " + n):
                self.spaces.add(n)
        elif not self.live or x < 0.2:
            self.create_model(rng.choice(sorted(self.spaces)))
        elif x < 0.26:
            nm = rng.choice(sorted(self.live))
            if self.ddl("drop model allow not empty " + nm):
                del self.live[nm]
        elif x < 0.29 and len(self.spaces) > 1:
            n = rng.choice(sorted(self.spaces))
            if self.ddl("drop space allow not empty " + n):
                self.spaces.discard(n)
                for k in [k for k in self.live if k.startswith(n + ".")]:
                    del self.live[k]
        elif x < 0.33:
            u = self.name("u")
            if self.ddl("sysctl create user %s with { password: ? }" % u, "pw-" + u):
                self.users.add(u)
        elif x < 0.35 and len(self.users) > 1:
            u = rng.choice(sorted(self.users - {"root"}))
            if self.ddl("sysctl drop user " + u):
                self.users.discard(u)
        else:
            m = self.live[rng.choice(sorted(self.live))]
            for _ in range(1 if x < 0.45 else rng.choice([1, 5, 30])):
                # a refused statement has no effect
                rows, fields = {k: dict(v) for k, v in m.t.rows.items()}, list(m.t.fields)
                try:
                    m.any_alter() if x < 0.45 else m.dml()
                except Refused:
                    m.t.rows, m.t.fields = rows, fields
                    self.sub.count("dml:not-durable" if x >= 0.45 else "ddl:not-durable")
        self.sub.case()

    def arm(self, where=None):
        rng = self.rng
        op = rng.choice([F.WRITE, F.WRITE, F.WRITE, F.FSYNC, F.FSYNC, F.OPEN, F.MKDIR])
        cls = rng.choice([F.GNS, F.MODEL, F.GNS | F.MODEL]) if op in (F.WRITE, F.FSYNC) else 7
        act = rng.choice([F.FAIL, F.FAIL, F.SHORT, F.EINTR, F.SHORTFAIL, F.WFAIL]) if op == F.WRITE else \
            rng.choice([F.FAIL, F.FAIL, F.EINTR]) if op == F.FSYNC else F.FAIL
        err = rng.choice(ERRS)
        skip = rng.choice([0, 0, 0, 1, 2, 3, 5])
        cnt = rng.choice([1, 1, 2]) if where else 10**6 if rng.random() < (0.03 if sub_quick(self.sub) else 0.15) else rng.choice([1, 1, 1, 2, 4])
        nb = rng.choice([0, 1, 7, 16, 24, 40, 64, 100, 500, 4096])
        if rng.random() < 0.25 and not where:
            op |= F.TRUNC                            # undoing the failed write fails as well
        self.sh.arm(cls, op, act, err, skip, cnt, nb)
        return (op, cls, F.ACTN[act], errno.errorcode[err], skip, cnt, nb)

    def episode(self):
        rng, sub = self.rng, self.sub
        if self.live:
            for _ in range(rng.choice([0, 3])):
                self.step()
        f = self.arm()
        self.log.append(("arm", f))
        t0 = time.time()
        for _ in range(rng.choice([4, 10, 25])):
            self.step()
            if self.sh.get("fired") and rng.random() < 0.3:
                break
        if self.s.rs_window == 1 and f[1] & F.MODEL and not self.sh.get("fired"):
            while time.time() < t0 + 1.5 and not self.sh.get("fired"):
                self.step()
                time.sleep(0.05)
        fired = self.sh.get("fired")
        self.isfaulty()
        self.sh.disarm()
        sub.count("faults_armed")
        if fired:
            sub.count("faults_fired", fired)
            sub.count("faults_fired_in:%s" % {1: "system log", 2: "model journal", 3: "either log", 7: "directories"}[f[1]])
            sub.count("fault:%s:%s" % ("+".join(v for k, v in F.OPN.items() if f[0] & k), f[2]))
            sub.case(("fault", f[0], f[1], f[2], f[4], f[6]))
        self.log.append(("disarm", fired))
        if not self.s.alive():
            self.bad("server-died", "the server ended while storage was failing (%r)" % (f,))
        if rng.random() < 0.6:
            self.recovered(f)

    def recovered(self, f):
        end = time.time() + 60
        t0 = time.time()
        while True:
            r = self.c.q("sysctl report status")
            if r is EMPTY:
                break
            if time.time() > end:
                self.bad("no-recovery", "still unhealthy (%r) 60 s after %r ended" % (r, f))
            time.sleep(0.02)
        self.faulty = False
        self.sh.set(fired=0)
        self.sub.count("recoveries")
        n = self.name("probe")
        if not self.ddl("create space " + n) or not self.ddl("drop space " + n):
            self.bad("no-recovery", "DDL refused after recovery")
        self.verify()

    def verify(self):
        for m in self.live.values():
            m.inspect()
            m.verify()
            self.sub.count("rows_verified", len(m.t.rows))

    def catalogue(self, d, where):
        if d["spaces"] != self.spaces or d["users"] != self.users:
            self.bad("catalogue", "%s: spaces %r users %r, acknowledged %r %r" %
                     (where, sorted(d["spaces"]), sorted(d["users"]), sorted(self.spaces), sorted(self.users)))
        for s in self.spaces:
            want = {k.split(".")[1] for k in self.live if k.startswith(s + ".")}
            if d["space:" + s] != want:
                self.bad("catalogue", "%s: models of %s %r, acknowledged %r" % (where, s, sorted(d["space:" + s]), sorted(want)))

    def restart(self):
        rng, sub = self.rng, self.sub
        before = dump.dump(self.c)
        self.catalogue(before, "before stop")
        self.c.close()
        f = None
        if rng.random() < 0.3:
            f = self.arm("stop")
            self.log.append(("arm at stop", f))
        rc = self.s.stop(timeout=90)
        fired = self.sh.get("fired") if f else 0
        self.sh.disarm()
        if fired:
            sub.count("faults_fired_at_stop", fired)
        if rc != 0:
            self.bad("stop", "graceful stop after transient failures (%r) ended with %r" % (f, rc))
        self.s.rs_window = rng.choice([1, 300])
        if rng.random() < 0.3:
            f = self.arm("start")
            self.log.append(("arm at start", f))
            try:
                self.s.start()
                self.sh.disarm()
            except StartFailed as e:
                self.sh.disarm()
                sub.count("starts_refused_while_failing")
                if not self.sh.get("fired"):
                    self.bad("restart", "start failed without a failing I/O: %s" % e)
                if e.rc == "timeout" or e.rc < 0 or e.rc == 101:
                    self.bad("start-crash", "start with failing storage (%r) ended with %r" % (f, e.rc))
        if not self.s.alive():
            try:
                self.s.start()
            except StartFailed as e:
                self.bad("restart", "no start after transient failures: %s" % e)
        self.sh.set(fired=0)
        self.faulty = False
        self.c = self.s.conn(timeout=60)
        for m in self.live.values():
            m.c = self.c
        after = dump.dump(self.c)
        sub.count("restarts")
        if before != after:
            self.bad("dump-differs", "state before stop and after start differ: " + dump.diff(before, after))
        self.catalogue(after, "after start")
        self.verify()

    def run(self, end):
        if self.rng.random() < 0.4:
            f = self.arm("start")
            self.log.append(("arm at first start", f))
            try:
                self.s.start()
            except StartFailed as e:
                self.sub.count("first_starts_refused")
                if e.rc == "timeout" or e.rc < 0 or e.rc == 101 or not self.sh.get("fired"):
                    self.bad("start-crash", "first start with failing storage (%r) ended with %r: %s" % (f, e.rc, e))
            self.sh.disarm()
            self.sh.set(fired=0)
        if not self.s.alive():
            try:
                self.s.start()
            except StartFailed as e:
                self.bad("restart", "no start after the first one failed for lack of storage: %s" % e)
        self.c = self.s.conn(timeout=60)
        while time.time() < end:
            for _ in range(self.rng.choice([1, 2, 3])):
                self.episode()
            self.restart()
            if len(self.log) > 4000 or sum(len(m.t.rows) for m in self.live.values()) > 1500:
                break


def several(sub, bin):
    """many models fail at the same time: all of them and the catalogue come back soon after"""
    rng = sub.rng
    w = World(sub, bin, 1000)
    s, sh, k = w.s, w.sh, rng.choice([3, 4, 6])
    try:
        s.rs_window = 1
        s.start()
        c = s.conn(timeout=60)
        if c.q("create space z") is not EMPTY:
            w.bad("setup", "create space refused")
        for i in range(k):
            if c.q("create model z.m%d(k: uint64, v: string)" % i) is not EMPTY:
                w.bad("setup", "create model refused")
        have = [set() for _ in range(k)]
        time.sleep(1.1)
        for rnd in range(2):
            f = (rng.choice([F.GNS | F.MODEL, F.MODEL]), rng.choice([F.WRITE, F.WRITE | F.TRUNC, F.FSYNC]), F.FAIL, rng.choice(ERRS), 0, 10 ** 6, 0)
            sh.arm(*f)
            end = time.time() + rng.choice([2, 3])
            n = 10000 * rnd
            while time.time() < end:
                for i in range(k):
                    n += 1
                    if c.q("insert into z.m%d(?, ?)" % i, n, "x" * (n % 50)) is EMPTY:
                        have[i].add(n)
                if rnd and n % 7 == 0 and c.q("create space y%d" % n) is EMPTY:
                    c.q("drop space y%d" % n)
                time.sleep(.02)
            fired = sh.get("fired")
            sh.disarm()
            sub.count("several:fired", 1 if fired else 0)
            t0 = time.time()
            while c.q("sysctl report status") is not EMPTY:
                if time.time() - t0 > 25:
                    w.bad("no-recovery:several", "still unhealthy 25 s after storage works again; %d models had failed (%r)" % (k, f))
                time.sleep(.02)
            for i in range(k):
                if c.q("insert into z.m%d(?, ?)" % i, n + 500 + i, "y") is not EMPTY:
                    w.bad("no-recovery:several", "insert into a model refused after recovery (%r)" % (f,))
                have[i].add(n + 500 + i)
            if c.q("create space z%d" % rnd) is not EMPTY:
                w.bad("no-recovery:several", "DDL refused after recovery (%r)" % (f,))
            sub.count("several:recovered", k)
            sub.case(("several", k, f[:3]))
            sh.set(fired=0)
        rc = s.stop(timeout=90)
        if rc != 0:
            w.bad("stop", "graceful stop after transient failures of several models ended with %r" % rc)
        s.start()
        c = s.conn(timeout=60)
        for i in range(k):
            r = c.q("select all k from z.m%d limit ?" % i, 100000)
            got = {x[0].v for x in r} if isinstance(r, Rows) else r
            if got != have[i]:
                w.bad("lost:several", "model %d of %d after the restart: missing %r, extra %r" % (i, k, sorted(have[i] - set(got))[:5], sorted(set(got) - have[i])[:5]))
        s.stop()
        for loc, msg in panics(s.log()):
            w.bad("panic:" + loc, "server thread panicked at %s: %s" % (loc, msg))
    finally:
        s.kill()
        sh.close()
        shutil.rmtree(w.dir, ignore_errors=True)


def worker(sub, bin, secs):
    end = time.time() + secs
    n = 0
    if sub.idx == 0:
        several(sub, bin)
    while time.time() < end:
        w = World(sub, bin, n)
        n += 1
        try:
            w.run(end)
            for loc, msg in panics(w.s.log()):
                w.bad("panic:" + loc, "server thread panicked at %s: %s" % (loc, msg))
        except Diverged as e:
            w.bad(e.sig, e.what)
        finally:
            w.s.kill()
            w.sh.close()
            shutil.rmtree(w.dir, ignore_errors=True)


def main(c):
    b = binary(c)
    F.so()
    c.start_clock()
    par.run(c, 6, worker, b, c.budget)


run("D06", main, quick=45, thorough=1500,
    rule="random I/O faults (failed, short, interrupted, cut short then failed, written but reported failed; write, fsync, create, mkdir, "
         "truncate; system log and model journals; while serving, stopping and starting) under random DDL/DML with a reference model; "
         "distinct = distinct faults that fired")
