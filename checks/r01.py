import errno, os, shutil, signal, socket, ssl, struct, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.client import handshake_bytes, enc_query, HandshakeError
from vlib.server import free_port
from vlib import par, dump, tls, fault

SLOW = 40                                   # how long a start that must fail, or a stop, may take on a loaded machine


def snapshot(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            if f != ".sky_pid":
                with open(os.path.join(p, f), "rb") as h:
                    out[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return out


def same(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


class W:
    """one worker: scenarios in fresh directories"""

    def __init__(self, sub, binary, template, want, tlsm):
        self.sub, self.rng, self.bin, self.template, self.want, self.tls = sub, sub.rng, binary, template, want, tlsm
        self.n, self.live = 0, []

    def fresh(self, template=True):
        self.n += 1
        self.dir = os.path.join(self.sub.dir, "w%d-%d" % (self.sub.idx, self.n))
        if template:
            shutil.copytree(self.template, self.dir)
        else:
            os.makedirs(self.dir)
        self.ns = 0
        return self.dir

    def srv(self, **kw):
        kw.setdefault("rs_window", 300)
        s = Server(self.bin, self.dir, loglevel=kw.pop("loglevel", "info"), **kw)
        self.ns += 1
        s.logpath = self.dir + ".%d.log" % self.ns
        self.live.append(s)
        return s

    def clear(self):
        for s in self.live:
            try:
                s.kill()
            except Exception:
                pass
            if os.path.exists(s.logpath):
                os.unlink(s.logpath)
        self.live = []
        shutil.rmtree(self.dir, ignore_errors=True)

    def bad(self, sig, what, *servers):
        self.sub.violation(sig, what, {i: s.log()[-2500:] for i, s in enumerate(servers)}, stop=True)

    def panics(self, where, *servers):
        for s in servers:
            for loc, msg in panics(s.log()):
                self.bad("panic:" + loc, "%s: panicked at %s: %s" % (where, loc, msg), s)

    def start(self, where, **kw):
        """a start that must succeed"""
        for i in range(4):
            s = self.srv(**kw)
            try:
                return s.start(timeout=SLOW)
            except StartFailed as e:
                if "in use" in e.log and i < 3:
                    continue
                self.bad("start", "%s: the server does not start (rc %s): %s" % (where, e.rc, e.log[-1500:]))

    def dump(self, s, where):
        try:
            c = s.conn(timeout=SLOW)
            d = dump.dump(c)
            c.close()
            return d
        except (ConnClosed, RecvTimeout, OSError, HandshakeError) as e:
            self.bad("serve", "%s: the server does not answer: %r" % (where, e), s)

    def holds(self, s, want, where):
        d = dump.diff(want, self.dump(s, where))
        if d:
            self.bad("data", "%s: the data differs: %s" % (where, d), s)

    def stop(self, s, where, sigs=None):
        """a stop that must be clean"""
        t0 = time.time()
        for i, (wait, sig) in enumerate(sigs or [(0, signal.SIGTERM)]):
            time.sleep(wait)
            try:
                s.proc.send_signal(sig)
            except ProcessLookupError:
                break
        try:
            rc = s.proc.wait(SLOW)
        except Exception:
            self.bad("stop-hang", "%s: still running %.0fs after the signal" % (where, time.time() - t0), s)
        s.proc = None
        if rc != 0:
            self.bad("stop-rc", "%s: the server ended with %r after the signal" % (where, rc), s)
        if os.path.exists(os.path.join(self.dir, ".sky_pid")):
            self.bad("pid-left", "%s: the PID file is still there after a clean stop" % where, s)
        self.panics(where, s)

    def again(self, want, where):
        s = self.start(where + ", next start")
        self.holds(s, want, where + ", next start")
        self.stop(s, where + ", next start, stop")
        return s

    def must_fail(self, s, where):
        """the start of s must be refused: no zero, no hang, an explanation, no panic"""
        try:
            rc = s.proc.wait(SLOW)
        except Exception:
            self.bad("start-accepted", "%s: the start was not refused" % where, s)
        s.proc = None
        s.logf.close()
        if rc == 0 or rc < 0:
            self.bad("start-rc", "%s: the refused start ended with %r" % (where, rc), s)
        self.panics(where, s)
        log = s.log()
        if "ERROR" not in log and "error" not in log.lower():
            self.bad("start-silent", "%s: the refused start explains nothing" % where, s)
        self.sub.count("starts_refused")

    # ---- scenarios
    def second(self):
        rng = self.rng
        self.fresh()
        a = self.start("first")
        c = a.conn(timeout=SLOW)
        for i in range(rng.randint(1, 30)):
            assert c.q("insert into a.t(?, ?)", 10**6 + i, "unflushed") is EMPTY
        want = self.dump(a, "first")
        snap = snapshot(self.dir)
        bs = []
        for i in range(rng.choice([1, 1, 2, 3])):
            kw = {}
            what = rng.choice(["plain", "plain", "password", "port", "window"])
            if what == "password":
                kw["rootpw"] = "another-root-password"
            if what == "window":
                kw["rs_window"] = 1
            b = self.srv(**kw)
            if what == "port":
                b.args += ["--endpoint", "tcp@127.0.0.1:%d" % a.port]
            bs.append((what, b))
            b.start(wait=False)
            if rng.random() < .3:
                time.sleep(rng.random() * .3)
        for what, b in bs:
            self.must_fail(b, "second server (%s) in a directory in use" % what)
            self.sub.case(("second", what, len(bs)))
        d = same(snap, snapshot(self.dir))
        if d:
            self.bad("second-touched", "a refused second server changed %s" % d, a)
        if not os.path.exists(os.path.join(self.dir, ".sky_pid")):
            self.bad("second-pid", "a refused second server removed the PID file of the first", a)
        self.holds(a, want, "first server after refused seconds")
        if c.q("insert into a.t(?, ?)", 10**7, "after") is not EMPTY:
            self.bad("first-hurt", "the first server no longer accepts an insert", a)
        want = self.dump(a, "first")
        self.stop(a, "first server after refused seconds")
        self.again(want, "after refused seconds")

    def race(self):
        rng = self.rng
        tmpl = rng.random() < .6
        self.fresh(tmpl)
        k = rng.randint(2, 5)
        ss = []
        for i in range(k):
            env = dict(LD_PRELOAD=fault.so(), SKYV_FLOCK_DELAY=str(rng.randint(0, 60000))) if rng.random() < .5 else {}
            ss.append(self.srv(env=env))
        for s in ss:
            s.start(wait=False)
            if rng.random() < .4:
                time.sleep(rng.random() * .05)
        win = self.survivor(ss, "%d servers started together" % k)
        if win is None:
            self.bad("race-none", "%d servers started together and none of them serves" % k, *ss)
        want = self.want if tmpl else self.dump(win, "winner")
        self.holds(win, want, "winner of %d" % k)
        self.stop(win, "winner of %d" % k)
        self.again(want, "after a race of %d" % k)
        self.sub.case(("race", k, tmpl))

    def survivor(self, ss, where):
        """wait until every server has either ended or serves; at most one may serve"""
        end = time.time() + SLOW
        up = {}
        while time.time() < end and any(s.proc.poll() is None and s not in up for s in ss):
            for s in ss:
                if s not in up and s.proc.poll() is None:
                    try:
                        s.conn(timeout=5).close()
                        up[s] = 1
                    except (OSError, ConnClosed, RecvTimeout, HandshakeError):
                        time.sleep(.02)
        time.sleep(.1)
        alive = [s for s in ss if s.proc.poll() is None]
        if len(alive) > 1:
            self.bad("two-servers", "%s: %d of them are alive in one directory (%d serve)" % (where, len(alive), len(up)), *alive)
        for s in ss:
            if s not in alive:
                self.must_fail(s, where)
        return alive[0] if alive else None

    def handover(self):
        """starts while the previous server is on its way out"""
        rng = self.rng
        self.fresh()
        slow = rng.random() < .7
        shim, watch = fault.Shim(self.dir + ".ctl"), fault.Shim(self.dir + ".ctl2")
        shim.trace()
        watch.trace()
        a = self.start("old server", env=shim.env())
        c = a.conn(timeout=SLOW)
        for i in range(rng.randint(1, 30)):
            assert c.q("insert into a.t(?, ?)", 10**6 + i, "unflushed") is EMPTY
        want = self.dump(a, "old server")
        c.close()
        if slow:
            shim.arm(fault.GNS | fault.MODEL, fault.WRITE | fault.FSYNC, fault.DELAY, 0, 0, 10**6, rng.choice([20000, 60000, 150000, 300000]))
        a.proc.send_signal(signal.SIGTERM)
        t0 = time.time()
        tries, cur = 0, []
        while time.time() < t0 + SLOW:
            time.sleep(rng.choice([0, 0, .002, .02, .1]))
            env = watch.env()
            if rng.random() < .6:
                env["SKYV_FLOCK_DELAY"] = str(rng.choice([1000, 10000, 50000, 200000]))
            s = self.srv(env=env)
            s.start(wait=False)
            tries += 1
            cur.append(s)
            if len([x for x in cur if x.proc.poll() is None]) >= 4:
                time.sleep(.05)
            if a.proc.poll() is not None and tries >= 3:
                break
        new = self.survivor(cur, "starts during a shutdown")
        arc = a.proc.poll()
        if new and arc is None:
            self.bad("two-servers", "a new server serves while the old one is still running", a, new)
        if arc is None:
            self.bad("stop-hang", "the old server is still running %.0fs after the signal" % (time.time() - t0), a)
        if arc != 0:
            self.bad("stop-rc", "the old server ended with %r during a hand-over" % arc, a)
        self.panics("hand-over", a)
        # the storage has one owner at a time: no new server opened a journal before the old one's last write
        opens = [e["t"] for e in watch.events() if e["op"] == fault.OPEN]
        writes = [e["t"] for e in shim.events() if e["op"] in (fault.WRITE, fault.FSYNC, fault.TRUNC)]
        if writes and not shim.full() and opens and max(writes) > min(opens):
            self.bad("two-owners", "a new server opened a journal %.3fs before the old one's last write to the storage (%d writes seen)" % (max(writes or [0]) - min(opens or [0]), len(writes)), a)
        self.sub.count("handover_writes", len(writes))
        self.sub.count("handover_opens", len(opens))
        if new is None:
            new = self.start("after a hand-over nobody won")
        self.holds(new, want, "after the hand-over")
        if not os.path.exists(os.path.join(self.dir, ".sky_pid")):
            self.bad("pid-missing", "after a hand-over the running server has no PID file", a, new)
        z = self.srv()
        z.start(wait=False)
        self.must_fail(z, "another start after the hand-over")
        self.stop(new, "new server after the hand-over")
        self.again(want, "after the hand-over")
        for x, e in ((shim, ".ctl"), (watch, ".ctl2")):
            x.close()
            os.unlink(self.dir + e)
        self.sub.count("handover_starts", tries)
        self.sub.case(("handover", slow, tries))

    def signals(self):
        """termination with clients in every state"""
        rng = self.rng
        self.fresh()
        cert, key, pp = self.tls
        tport = free_port()
        a = self.start("server", rs_window=rng.choice([1, 300]),
                       args=["--endpoint", "tls@127.0.0.1:%d" % tport, "--tlscert", cert, "--tlskey", key, "--tls-passphrase", pp])
        kinds, keep = [], []
        load = []
        for i in range(rng.randint(0, 6)):
            k = rng.choice(["tcp", "half-handshake", "idle", "half-query", "half-body", "stalled-reader", "tls-tcp", "tls-half", "tls-idle", "tls-query", "load", "load"])
            kinds.append(k)
            try:
                if k == "tcp":
                    keep.append(Conn(a.port, handshake=False))
                elif k == "half-handshake":
                    c = Conn(a.port, handshake=False)
                    h = handshake_bytes("root", ROOTPW)
                    c.send(h[:rng.randint(1, len(h) - 1)])
                    keep.append(c)
                elif k == "tls-tcp":
                    keep.append(socket.create_connection(("127.0.0.1", tport)))
                elif k == "tls-half":
                    s = socket.create_connection(("127.0.0.1", tport))
                    s.sendall(b"\x16\x03\x01\x02\x00\x01\x00"[:rng.randint(1, 7)])
                    keep.append(s)
                elif k in ("tls-idle", "tls-query"):
                    c = Conn(tport, "root", ROOTPW, tls=tls.ctx(cert), timeout=SLOW)
                    if k == "tls-query":
                        c.send(enc_query("select * from a.t where k = ?", [1])[:-1])
                    keep.append(c)
                elif k == "load":
                    load.append((a.conn(timeout=SLOW), 10**6 * (i + 1)))
                else:
                    c = a.conn(timeout=SLOW)
                    q = enc_query("select * from a.t where k = ?", [1])
                    if k == "half-query":
                        c.send(q[:rng.randint(1, 3)])
                    elif k == "half-body":
                        c.send(q[:rng.randint(5, len(q) - 1)])
                    elif k == "stalled-reader":
                        c.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
                        c.s.settimeout(.3)
                        q = enc_query("select all * from a.big limit ?", [1000])
                        try:
                            for _ in range(40):
                                c.send(q)
                        except RecvTimeout:
                            pass
                    keep.append(c)
            except (OSError, ConnClosed, RecvTimeout, ssl.SSLError) as e:
                self.bad("client", "a client (%s) cannot connect: %r" % (k, e), a)
        want = self.dump(a, "server")
        stop = threading.Event()
        acked = {}

        def work(c, base):
            n = 0
            try:
                while not stop.is_set():
                    r = c.q("insert into a.t(?, ?)", base + n, "load")
                    if r is not EMPTY:
                        acked[base] = (n, r)
                        return
                    n += 1
                    acked[base] = (n, None)
            except (ConnClosed, RecvTimeout):
                pass
        ths = [threading.Thread(target=work, args=x, daemon=True) for x in load]
        for t in ths:
            t.start()
        if load:
            time.sleep(rng.random() * .3)
        sigs = [(0, rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT]))]
        for _ in range(rng.choice([0, 0, 1, 3])):
            sigs.append((rng.choice([0, .001, .01, .05]), rng.choice([signal.SIGTERM, signal.SIGINT])))
        self.stop(a, "signal with clients %s" % kinds, sigs)
        stop.set()
        for t in ths:
            t.join(SLOW)
        for x in keep:
            x.close()
        b = self.start("after a signal with clients %s" % kinds)
        if load:
            c = b.conn(timeout=SLOW)
            got = set(r[0].v for r in c.q("select all k from a.t limit ?", 10**7))
            for _, base in load:
                n, r = acked.get(base, (0, None))
                if r is not None:
                    self.bad("load-refused", "an insert during the shutdown gave %r" % (r,), a)
                mine = sorted(k - base for k in got if base <= k < base + 10**6)
                if mine not in (list(range(n)), list(range(n + 1))):
                    self.bad("load-lost", "%d inserts were acknowledged before the shutdown, after the restart there are %d (%s...)" % (n, len(mine), mine[-3:]), a, b)
                self.sub.count("acknowledged_under_load", n)
        else:
            self.holds(b, want, "after a signal with clients %s" % kinds)
        self.stop(b, "idle stop")
        for k in kinds or ["none"]:
            self.sub.case(("signal", k, len(sigs)))
        self.sub.count("signals", len(sigs))

    def early(self):
        """a signal at any moment of a start"""
        rng = self.rng
        tmpl = rng.random() < .6
        self.fresh(tmpl)
        for i in range(rng.randint(2, 5)):
            a = self.srv()
            a.start(wait=False)
            if rng.random() < .5:
                t, end = 0, time.time() + 5
                while time.time() < end and not os.path.exists(os.path.join(self.dir, ".sky_pid")):
                    pass
                time.sleep(rng.choice([0, 0, .001, .003]))
                where = "signal as soon as a start has its PID file"
            else:
                t = rng.choice([rng.random() * .35, rng.random() * .05, .2 + rng.random() * .15])
                time.sleep(t)
                where = "signal %.3fs into a start" % t
            a.proc.send_signal(rng.choice([signal.SIGTERM, signal.SIGINT]))
            try:
                rc = a.proc.wait(SLOW)
            except Exception:
                self.bad("stop-hang", "%s: still running" % where, a)
            a.proc = None
            if rc not in (0, -signal.SIGTERM, -signal.SIGINT):
                self.bad("stop-rc", "%s: ended with %r" % (where, rc), a)
            self.panics(where, a)
            if os.path.exists(os.path.join(self.dir, ".sky_pid")):
                self.bad("pid-left", "%s: the PID file is still there" % where, a)
            self.sub.count("early:rc%d" % rc)
            self.sub.case(("early", tmpl, round(t, 2), rc))
        b = self.start("after early signals")
        want = self.want if tmpl else self.dump(b, "fresh")
        self.holds(b, want, "after early signals")
        self.stop(b, "after early signals")
        self.again(want, "after early signals")

    def faulty(self):
        """a start that meets an I/O error may fail, but only that start (a storage that refuses every write from then on can't
        take the close events either, a next start is refused like after a crash: not tested)"""
        rng = self.rng
        tmpl = rng.random() < .4
        self.fresh(tmpl)
        sh = fault.Shim(self.dir + ".ctl")
        try:
            for i in range(rng.randint(1, 3)):
                op = rng.choice([fault.WRITE, fault.FSYNC, fault.OPEN, fault.MKDIR])
                cls = rng.choice([fault.GNS, fault.GNS, fault.MODEL, fault.GNS | fault.MODEL | fault.OTHER])
                skip = rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(12)])
                sh.arm(cls, op, fault.FAIL, rng.choice([errno.EIO, errno.ENOSPC]), skip, 1, 0)
                a = self.srv(env=sh.env())
                where = "start with an I/O error (files %d, operation %d, skip %d)" % (cls, op, skip)
                try:
                    a.start(timeout=SLOW)
                except StartFailed as e:
                    rc = e.rc
                else:
                    sh.disarm()
                    self.stop(a, where + ", stop")
                    rc = None
                sh.disarm()
                self.panics(where, a)
                if rc is not None and (rc == 0 or not isinstance(rc, int) or rc < 0):
                    self.bad("start-rc", "%s: ended with %r" % (where, rc), a)
                if os.path.exists(self.dir + "/.sky_pid"):
                    self.bad("pid-left", "%s left the PID file" % where, a)
                self.sub.case(("faulty", tmpl, cls, op, skip, rc is None))
                self.sub.count("faulty:" + ("refused" if rc is not None else "served"))
        finally:
            sh.close()
            os.unlink(self.dir + ".ctl")
        b = self.start("after a %s" % where)
        want = self.want if tmpl else self.dump(b, "fresh")
        self.holds(b, want, "after a %s" % where)
        self.stop(b, "after a %s" % where)
        self.again(want, "after a %s" % where)

    def failing(self):
        """starts that must be refused and leave everything as it was"""
        rng = self.rng
        tmpl = rng.random() < .75
        self.fresh(tmpl)
        for i in range(rng.randint(1, 3)):
            kinds = ["port", "port", "tls-key", "tls-missing", "tls-pass", "password", "window", "endpoint", "option", "config", "pid-dir", "pid-lock"]
            if tmpl:
                kinds += ["gns-gone-dir", "gns-cut", "gns-flip", "journal-gone", "journal-cut"] * 2
            k = rng.choice(kinds)
            s, undo, frozen = self.srv(), None, True
            cert, key, pp = self.tls
            if k == "port":
                x = socket.socket()
                x.bind(("127.0.0.1", 0))
                x.listen(1)
                s.args += ["--endpoint", "tls@127.0.0.1:%d" % x.getsockname()[1], "--tlscert", cert, "--tlskey", key, "--tls-passphrase", pp]
                undo, frozen = x.close, False
            elif k.startswith("tls"):
                bad = self.dir + ".bad"
                with open(bad, "w") as f:
                    f.write("not a key" if k == "tls-key" else "wrong pass")
                s.args += ["--endpoint", "tls@127.0.0.1:%d" % free_port(), "--tlscert", cert,
                           "--tlskey", bad if k == "tls-key" else (bad + ".none" if k == "tls-missing" else key), "--tls-passphrase", bad if k == "tls-pass" else pp]
                undo, frozen = (lambda: os.unlink(bad)), False
            elif k == "password":
                s.rootpw = rng.choice(["short", "x" * 15, "y" * 73])
            elif k == "window":
                s.args += ["--service-window", rng.choice(["0", "-1", "abc", ""])]
                s.rs_window = rng.choice(["0", "-1", "abc"])
                s.args = []
            elif k == "endpoint":
                s.args += ["--endpoint", rng.choice(["udp@127.0.0.1:2004", "tcp@127.0.0.1", "tcp@127.0.0.1:99999", "127.0.0.1:2003"])]
            elif k == "option":
                s.args += [rng.choice(["--no-such-option", "--mode"]), "x"]
            elif k == "config":
                s.args += ["--config", self.dir + "/none.yaml"]
            elif k == "pid-dir":
                os.mkdir(self.dir + "/.sky_pid")
                undo = lambda: os.rmdir(self.dir + "/.sky_pid")
            elif k == "pid-lock":
                import fcntl
                f = open(self.dir + "/.sky_pid", "w")
                fcntl.flock(f, fcntl.LOCK_EX)

                def undo():
                    f.close()
                    os.unlink(self.dir + "/.sky_pid")
            else:
                g = self.dir + "/gns.db-tlog"
                if k == "gns-gone-dir":
                    os.rename(g, g + ".away")
                    os.mkdir(g)

                    def undo():
                        os.rmdir(g)
                        os.rename(g + ".away", g)
                else:
                    if k.startswith("journal"):
                        frozen = False          # the journals opened before it are closed again, in writing
                        js = sorted(os.path.join(p, f) for p, _, fs in os.walk(self.dir + "/data") for f in fs if f.endswith(".db-btlog"))
                        g = rng.choice(js)
                    orig = open(g, "rb").read()
                    if k == "journal-gone":
                        os.unlink(g)
                    else:
                        new = bytearray(orig)
                        if k.endswith("cut"):
                            new = new[:rng.randint(70, len(new) - 1)]
                        else:
                            # the events follow the header of 64 bytes
                            new[rng.randint(70, len(new) - 1)] ^= 1 << rng.randint(0, 7)
                        open(g, "wb").write(new)

                    def undo():
                        open(g, "wb").write(orig)
            before = snapshot(self.dir)
            s.start(wait=False)
            where = "start that must fail (%s)" % k
            self.must_fail(s, where)
            if frozen:
                d = same(before, snapshot(self.dir))
                if d:
                    self.bad("failed-touched", "%s changed %s" % (where, d), s)
            if k not in ("pid-dir", "pid-lock") and os.path.exists(self.dir + "/.sky_pid"):
                self.bad("pid-left", "%s left the PID file" % where, s)
            if undo:
                undo()
            self.sub.case(("failing", k, tmpl))
            self.sub.count("failed:" + k)
        b = self.start("after failed starts (last: %s)" % k)
        want = self.want if tmpl else self.dump(b, "fresh")
        self.holds(b, want, "after failed starts (last: %s)" % k)
        self.stop(b, "after failed starts")
        self.again(want, "after failed starts")


def worker(sub, binary, template, want, tlsm):
    w = W(sub, binary, template, want, tlsm)
    kinds = ["second", "race", "handover", "signals", "early", "failing", "faulty"]
    i = sub.idx
    while sub.left() > 0:
        k = kinds[i % 7] if i < sub.idx + 7 else sub.rng.choice(kinds + ["handover", "signals", "failing", "faulty", "early"])
        i += 1
        try:
            getattr(w, k)()
            sub.count(k)
        finally:
            w.clear()


def main(c):
    b = binary(c)
    fault.so()
    s = server(c, b, "template", rs_window=1, loglevel="error")
    k = s.conn()
    for q in ("create space a", "create space b", "create space empty", "create model a.t(k: uint64, v: string)",
              "create model a.big(k: uint64, v: binary)", "create model b.l(k: string, n: sint64, null x: float64, l: list { type: string })",
              "create model b.none(k: uint8, v: bool)"):
        assert k.q(q) is EMPTY, q
    for i in range(40):
        assert k.q("insert into a.t(?, ?)", i, "v%d" % i) is EMPTY
        assert k.q("insert into a.big(?, ?)", i, bytes([i]) * 20000) is EMPTY
        assert k.q("insert into b.l(?, ?, ?, [?, ?])", "k%d" % i, S(-i), None if i % 2 else i / 7, "a", "b" * i) is EMPTY
    assert k.q("sysctl create user alice with { password: ? }", "alice-password-1") is EMPTY
    want = dump.dump(k)
    k.close()
    if s.stop() != 0:
        c.violation("template-stop", "an idle server does not stop cleanly", stop=True)
    tlsm = tls.make(os.path.join(c.dir, "tls"))
    c.start_clock()
    par.run(c, 6, worker, b, s.dir, want, tlsm)


run("R01", main, quick=40, thorough=1200,
    rule="random sequences of second and simultaneous starts, hand-overs with delayed locks and slow shutdowns, signals with clients in every state and at every "
         "moment of a start, and failing starts, each against snapshots of the directory and dumps before and after; distinct = (scenario, variant)")
