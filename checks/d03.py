import hashlib, os, random, shutil, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, dump, journal, fault as F

KIND = {"cs": "CreateSpace", "as": "AlterSpace", "ds": "DropSpace", "cm": "CreateModel", "dm": "DropModel", "aa": "AlterModelAdd",
        "ar": "AlterModelRemove", "au": "AlterModelUpdate", "cu": "CreateUser", "xu": "AlterUser", "du": "DropUser"}
ACKED, REFUSED, UNKNOWN = "acked", "refused", "unknown"


class Client(threading.Thread):
    """issues DDL on its own spaces, models and users, one statement at a time"""

    def __init__(self, idx, srv, rng, cat):
        threading.Thread.__init__(self, daemon=True)
        self.idx, self.srv, self.rng, self.cat = idx, srv, rng, cat
        self.ops = []               # (kind, token, inv, res, status, effect)
        self.err = None
        self.ready = threading.Event()
        self.n = cat.get("n", 0)

    def tok(self, p):
        self.n += 1
        return "%s%d%04dz" % (p, self.idx, self.n)

    def pick(self):
        """(kind, token, statement, params, effect on the catalogue) ; cat: spaces {name: {model: {field: type}}}, users {name: pw}"""
        rng, sp, us = self.rng, self.cat["spaces"], self.cat["users"]
        x = rng.random()
        if not sp or x < 0.12:
            # names of dropped spaces come back
            gone = [g for g in self.cat["gone"] if g not in sp]
            n = rng.choice(gone) if gone and rng.random() < 0.5 else self.tok("sp")
            return "cs", n, "create space " + n, (), lambda: sp.__setitem__(n, {})
        s = rng.choice(sorted(sp))
        if x < 0.17:
            def ap():
                del sp[s]
                self.cat["gone"].append(s)
            return "ds", s, "drop space allow not empty " + s, (), ap
        if x < 0.2:
            return "as", s, "alter space %s with { env: { a: ? } }" % s, (self.n,), lambda: None
        if x < 0.32:
            u = self.tok("us")
            return "cu", u, "sysctl create user %s with { password: ? }" % u, ("pw" + u,), lambda: us.__setitem__(u, "pw" + u)
        if x < 0.38 and us:
            u = rng.choice(sorted(us))
            return "du", u, "sysctl drop user " + u, (), lambda: us.pop(u)
        if x < 0.42 and us:
            u, p = rng.choice(sorted(us)), self.tok("pw")
            return "xu", u, "sysctl alter user %s with { password: ? }" % u, (p,), lambda: us.__setitem__(u, p)
        ms = [(a, b) for a in sp for b in sp[a]]
        if not ms or x < 0.62:
            m = self.tok("md")
            return "cm", m, "create model %s.%s(k: uint64, v: string)" % (s, m), (), lambda: sp[s].__setitem__(m, {"k": "UInt64", "v": "String"})
        s, m = rng.choice(ms)
        fl = sp[s][m]
        if x < 0.7:
            return "dm", m, "drop model allow not empty %s.%s" % (s, m), (), lambda: sp[s].pop(m)
        if x < 0.85 or len(fl) < 3:
            f = self.tok("fd")
            return "aa", m, "alter model %s.%s add %s { type: uint8, nullable: true }" % (s, m, f), (), lambda: fl.__setitem__(f, "UInt8")
        f = rng.choice([a for a in fl if a not in "kv"])
        if x < 0.92 and fl[f] == "UInt8":
            return "au", m, "alter model %s.%s update %s { type: uint16, nullable: true }" % (s, m, f), (), lambda: fl.__setitem__(f, "UInt16")
        return "ar", m, "alter model %s.%s remove %s" % (s, m, f), (), lambda: fl.pop(f)

    def run(self):
        try:
            c = self.srv.conn(timeout=60)
            self.ready.set()
            while True:
                kind, tok, q, p, eff = self.pick()
                op = [kind, tok, time.monotonic(), None, UNKNOWN, eff, q]
                self.ops.append(op)
                r = c.q(q, *p)
                op[3] = time.monotonic()
                if r is EMPTY:
                    op[4] = ACKED
                    eff()
                else:
                    op[4] = REFUSED
                    if isinstance(r, Err) and r.code == 0:
                        continue
                    self.err = "%r gave %r" % (q, r)
                    return
        except (ConnClosed, RecvTimeout, OSError):
            pass
        except Exception as e:
            self.err = repr(e)
        finally:
            self.ready.set()


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.md5(h.read()).hexdigest()
    return out


def durable_at(ev, ends):
    """end offset -> time at which a completed sync covered it"""
    out, wrote, j = {}, 0, 0
    for e in ev:
        if e["cls"] != F.GNS or e["err"]:
            continue
        if e["op"] == F.WRITE and e["len"] > 0:
            wrote = max(wrote, e["off"] + e["len"])
        elif e["op"] == F.FSYNC:
            while j < len(ends) and ends[j] <= wrote:
                out[ends[j]] = e["t"]
                j += 1
    return out


def expected(cats):
    sp, us = {}, {"root": None}
    for c in cats:
        sp.update(c["spaces"])
        us.update(c["users"])
    return sp, us


def compare(sub, c, cats, what, detail, srv):
    sp, us = expected(cats)
    d = dump.dump(c)
    bad = []
    if d["spaces"] != set(sp):
        bad.append("spaces %r" % sorted(d["spaces"] ^ set(sp)))
    if d["users"] != set(us):
        bad.append("users %r" % sorted(d["users"] ^ set(us)))
    for s in set(sp) & d["spaces"]:
        if d["space:" + s] != set(sp[s]):
            bad.append("models of %s %r" % (s, sorted(d["space:" + s] ^ set(sp[s]))))
            continue
        for m, fl in sp[s].items():
            decl = d["model:%s.%s" % (s, m)][0]
            got = {x.split(":")[0].strip("*!?"): x.split(":")[1] for x in decl.strip("{}").split(",")}
            if got != fl:
                bad.append("fields of %s.%s %r" % (s, m, sorted(set(got.items()) ^ set(fl.items()))))
    for u in sorted(us)[-3:]:
        if us[u] is not None:
            try:
                srv.conn(u, us[u]).close()
            except HandshakeError:
                bad.append("login of " + u)
    if bad:
        sub.violation("misread", "%s: differs from the accepted history in %s" % (what, "; ".join(bad)), detail, stop=True)
    sub.count("entities_compared", len(sp) + len(us) + sum(map(len, sp.values())))


def crash(sub, bin, n):
    rng = sub.rng
    base = os.path.join(sub.dir, "w%d-%d" % (sub.idx, n))
    os.makedirs(base)
    db = os.path.join(base, "db")
    sh = F.Shim(os.path.join(base, "ctl"))
    s = Server(bin, db, rs_window=rng.choice([1, 300]), env=sh.env(), loglevel="info")
    cats = [dict(spaces={}, users={}, gone=[]) for _ in range(3)]
    try:
        s.start()
        runs = rng.choice([1, 1, 2, 3])
        for r in range(runs):
            sh.trace()
            t0 = time.monotonic()
            how = rng.choice(["signal", "kill", "kill", "partial", "partial"])
            cl = [Client(i, s, random.Random("%s/%d/%d/%d/%d" % (sub.seed, sub.idx, n, r, i)), cats[i]) for i in range(rng.choice([1, 3, 3]))]
            [x.start() for x in cl]
            [x.ready.wait(30) for x in cl]
            last = r == runs - 1
            time.sleep(rng.choice([0.02, 0.1, 0.3, 0.6]))
            if not last or how == "signal":
                time.sleep(rng.random() * 0.2)
                if last:
                    s.proc.kill()
            else:
                op = F.WRITE if how == "partial" else rng.choice([F.WRITE, F.FSYNC, F.WRITE | F.FSYNC, F.OPEN, F.MKDIR])
                cls = F.GNS if op & (F.WRITE | F.FSYNC) and rng.random() < 0.8 else 7
                sh.arm(cls, op, F.KILL if how == "kill" else F.KILLPART, skip=rng.randint(0, 12),
                       nbytes=rng.choice([1, 8, 15, 16, 23, 24, 31, 32, 39, 40, 41, 45, 60, 10**6]))
                try:
                    s.proc.wait(3)
                    sub.count("killed_inside_io")
                except Exception:
                    s.proc.kill()
            if last:
                s.proc.wait()
                sub.count("kills:" + how)
            else:
                rc = s.stop()
                if rc != 0:
                    sub.violation("stop", "graceful stop under DDL gave %r" % rc, s.log()[-2000:], stop=True)
                sub.count("graceful_stops")
            [x.join(30) for x in cl]
            for x in cl:
                if x.err:
                    sub.violation("ddl-error", x.err, stop=True)
            sh.disarm()
            lg = journal.gns(db)
            check_log(sub, lg, cl, cats, sh, t0, last, r)
            for i, x in enumerate(cl):
                cats[i]["n"] = x.n
            if not last:
                s.start()
                compare(sub, s.conn(timeout=60), cats, "after a graceful restart", None, s)
        s.kill()
        # the server either refuses the directory or serves exactly that history
        before = tree(db)
        try:
            s.start()
            sub.count("started_on_killed_directory")
            compare(sub, s.conn(timeout=60), cats, "server started on the killed directory", None, s)
            s.kill()
        except StartFailed as e:
            sub.count("refused_killed_directory")
            if e.rc == "timeout" or e.rc < 0 or e.rc == 101:
                sub.violation("start-crash", "start on the killed directory ended with %r" % e.rc, e.log[-2000:], stop=True)
            s.rmpid()
            if tree(db) != before:
                sub.violation("refused-but-changed", "a refused start on the killed directory changed its files", stop=True)
        # what the intact part of the log says, as the server reads it
        logs = journal.close_all(db)
        try:
            s.start()
        except StartFailed as e:
            sub.violation("log-unreadable", "the intact part of the log is refused: %s" % e,
                          dict(logs={os.path.relpath(k, db): (v.end, v.why) for k, v in logs.items()}), stop=True)
        compare(sub, s.conn(timeout=60), cats, "intact part of the log", None, s)
        s.stop()
        sub.count("crashes")
    finally:
        s.kill()
        sh.close()
        shutil.rmtree(base, ignore_errors=True)


def check_log(sub, lg, cl, cats, sh, t0, killed, r):
    start = getattr(sub, "base_end", 0) if r else 0
    ev = [e for e in lg.events if e[0] >= start]
    sub.base_end = lg.end
    if not killed and (lg.why or not lg.closed):
        sub.violation("log-not-closed", "system log not intact after a graceful stop: %s" % lg.why, stop=True)
    mine = []
    want = {}
    for x in cl:
        for o in x.ops:
            want.setdefault((KIND[o[0]], o[1]), []).append(o)
    pos = {}
    order = []
    for a, b, txn, kind, pay in ev:
        toks = [k for k in want if k[0] == kind and k[1].encode() in pay]
        if kind == "CreateUser" and b"root" in pay and not toks:
            continue
        if len(toks) != 1:
            sub.violation("log-extra", "the log holds a %s event that no client asked for: %r" % (kind, pay[:200]), stop=True)
        k = toks[0]
        i = pos.get(k, 0)
        # statements refused for storage reasons leave nothing behind
        while i < len(want[k]) and want[k][i][4] == REFUSED:
            i += 1
        if i >= len(want[k]):
            sub.violation("log-extra", "the log holds %s %s more often than it was accepted" % k, stop=True)
        pos[k] = i + 1
        order.append((want[k][i], b))
    logged = {id(o): n for n, (o, _) in enumerate(order)}
    nacked = nunk = 0
    for x in cl:
        for o in x.ops:
            if o[4] == ACKED:
                nacked += 1
                if id(o) not in logged:
                    sub.violation("acked-lost", "%r was acknowledged but is not in the intact part of the log (%s)" % (o[6], lg.why), stop=True)
            elif o[4] == UNKNOWN:
                nunk += 1
                if id(o) in logged:
                    sub.count("unacknowledged_but_logged")
                    o[5]()
    # the log is a linearisation: an operation that ended before another began comes first
    worst = None
    for o, b in reversed(order):
        if o[3] is not None and worst is not None and o[2] > worst[0]:
            sub.violation("log-order", "%r was acknowledged before %r was sent but comes after it in the log" % (worst[1][6], o[6]), stop=True)
        end = o[3] if o[3] is not None else float("inf")
        if worst is None or end < worst[0]:
            worst = (end, o)
    # on stable storage before the response
    tr = sh.events()
    if not sh.full():
        dur = durable_at(tr, [b for _, b in order])
        for o, b in order:
            if o[4] == ACKED:
                if b not in dur or dur[b] > o[3]:
                    sub.violation("acked-before-durable", "%r was acknowledged %s its log entry was synced"
                                  % (o[6], "although never" if b not in dur else "%.1f ms before" % (1e3 * (dur[b] - o[3]))), stop=True)
                sub.count("synced_before_ack")
    sub.case(("log", len(order), nacked, nunk, lg.why, tuple(o[0] for o, _ in order[-6:])), n=max(1, len(order)))
    sub.count("acked", nacked)
    sub.count("in_flight_at_kill", nunk)
    sub.count("log_events", len(ev))
    if lg.why:
        sub.count("torn_tails")
    sub.sample(dict(events=len(order), acked=nacked, in_flight=nunk, tail=lg.why))


def worker(sub, bin, secs):
    end = time.time() + secs
    n = 0
    while time.time() < end:
        crash(sub, bin, n)
        n += 1


def main(c):
    b = binary(c)
    F.so()
    c.start_clock()
    par.run(c, 6, worker, b, c.budget)


run("D03", main, quick=40, thorough=1200,
    rule="1-3 clients issue DDL and user statements, the server is killed from outside or inside a chosen write, sync or file creation "
         "(also after part of the bytes); log prefix decoded independently and compared with the acknowledged history, sync-before-response "
         "from the I/O trace, then read by the real server; distinct = distinct logs (length, acknowledged, in flight, tail, last kinds)")
