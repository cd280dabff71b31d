import bisect, os, random, shutil, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, dump, journal, fault as F

SLACK = 3.0


class Lag(threading.Thread):
    """how late this machine runs things that should run now (added to every deadline)"""

    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.worst, self.go = 0.0, True

    def run(self):
        while self.go:
            t = time.monotonic()
            time.sleep(0.01)
            self.worst = max(self.worst, time.monotonic() - t - 0.01)


class Writer(threading.Thread):
    """the only writer of one model; values grow, so every logged row says which statement it comes from"""

    def __init__(self, srv, model, rng, style, stop):
        threading.Thread.__init__(self, daemon=True)
        self.srv, self.m, self.rng, self.style, self.stopev = srv, model, rng, style, stop
        self.ops = []           # (key, version, deleted, sent, acked)
        self.err = None

    def run(self):
        try:
            c = self.srv.conn(timeout=60)
            rng, m = self.rng, self.m
            have, v = set(), 0
            nk = dict(one=1, few=8, idle=40, burst=400, flood=1000)[self.style]
            ins, upd, dele = ["insert into %s(?, ?, ?)" % m, "update %s set v = ?, p = ? where k = ?" % m, "delete from %s where k = ?" % m]
            while not self.stopev.is_set():
                v += 1
                k = rng.randrange(nk)
                pad = "p" * rng.choice([0, 10, 10, 300, 5000] if self.style != "flood" else [0, 10])
                t = time.monotonic()
                if k not in have:
                    r = c.q(ins, U(k), U(v), pad)
                    have.add(k)
                    d = False
                elif rng.random() < 0.15:
                    r = c.q(dele, U(k))
                    have.discard(k)
                    d = True
                else:
                    r = c.q(upd, U(v), pad, U(k))
                    d = False
                if r is not EMPTY:
                    self.err = "%s: statement refused: %r" % (m, r)
                    return
                self.ops.append((k, v, d, t, time.monotonic()))
                if self.style == "idle":
                    self.stopev.wait(rng.choice([0.2, 0.9, 1.7]))
                elif self.style == "burst":
                    if rng.random() < 0.01:
                        self.stopev.wait(rng.choice([0.3, 1.5]))
                elif self.style != "flood":
                    time.sleep(0.003)
        except (ConnClosed, RecvTimeout, ProtoError, OSError) as e:
            if not self.stopev.is_set():
                self.err = "%s: %r" % (self.m, e)


class Churn(threading.Thread):
    """other models coming and going all the time"""

    def __init__(self, srv, rng, stop):
        threading.Thread.__init__(self, daemon=True)
        self.srv, self.rng, self.stopev, self.n, self.err = srv, rng, stop, 0, None

    def run(self):
        try:
            c = self.srv.conn(timeout=60)
            while not self.stopev.is_set():
                self.n += 1
                x = self.rng.random()
                q = ["create model a.x%d(k: uint64, v: uint64)" % self.n] + \
                    ["insert into a.x%d(?, ?)" % self.n] * (x < .5) + ["drop model allow not empty a.x%d" % self.n]
                for s in q:
                    r = c.q(s, *([U(1), U(1)] if "?" in s else []))
                    if r is not EMPTY:
                        self.err = "%r gave %r" % (s, r)
                        return
                self.stopev.wait(self.rng.choice([0.05, 0.2, 0.4]))
        except (ConnClosed, RecvTimeout, OSError) as e:
            if not self.stopev.is_set():
                self.err = repr(e)


def durable_times(tr, ino):
    """[(offset, time)]: everything before offset was synced at time"""
    wrote, out = 0, []
    for e in tr:
        if e["ino"] != ino or e["err"]:
            continue
        if e["op"] == F.WRITE:
            wrote = max(wrote, e["off"] + max(0, e["len"]))
        elif e["op"] == F.TRUNC:
            wrote = min(wrote, e["off"])
        elif e["op"] == F.FSYNC and (not out or out[-1][0] < wrote):
            out.append((wrote, e["t"]))
    return out


def session(sub, bin, n):
    rng = sub.rng
    base = os.path.join(sub.dir, "w%d-%d" % (sub.idx, n))
    os.makedirs(base)
    db = os.path.join(base, "db")
    sh = F.Shim(os.path.join(base, "ctl"))
    env = sh.env()
    cache = (n + sub.idx) % 3 == 2
    limit = None
    if cache:
        # the server holds back at most 2% of the free memory it sees; at least 16 bytes per change
        limit = rng.choice([60, 250, 600])
        env["SKYV_FREERAM"] = str(limit * 16 * 50)
    W = 300 if cache else rng.choice([1, 1, 2, 3])
    s = Server(bin, db, rs_window=W, env=env, loglevel="info")
    stop = threading.Event()
    lag = Lag()
    try:
        s.start()
        c = s.conn(timeout=60)
        assert c.q("create space a") is EMPTY
        styles = ["flood", "few"] if cache else rng.sample(["one", "few", "idle", "idle", "burst"], 3)
        ws = []
        for i, st in enumerate(styles):
            m = "a.m%d" % i
            assert c.q("create model %s(k: uint64, v: uint64, p: string)" % m) is EMPTY
            ws.append(Writer(s, m, random.Random("%s/%d/%d/%d" % (sub.seed, sub.idx, n, i)), st, stop))
        ch = Churn(s, random.Random(n), stop) if not cache and rng.random() < 0.8 else None
        sh.trace(F.MODEL)
        lag.start()
        t0 = time.monotonic()
        [w.start() for w in ws]
        if ch:
            ch.start()
        T = (4.0 if cache else W + SLACK + rng.choice([2.0, 3.5]))
        end = t0 + T
        while time.monotonic() < end and not sh.full():
            time.sleep(0.05)
        killed = time.monotonic()
        full = sh.full()
        s.proc.kill()                   # nothing that was still pending may be flushed by a shutdown
        stop.set()
        s.proc.wait()
        [w.join(30) for w in ws]
        lag.go = False
        for x in ws + ([ch] if ch else []):
            if x.err and "ConnClosed" not in x.err:
                sub.violation("dml-error", x.err, s.log()[-1500:], stop=True)
        ps = panics(s.log())
        if ps:
            sub.violation("panic:" + ps[0][0], repr(ps[0]), stop=True)
        log = s.log()
        s.kill()
        tr = sh.events()
        slack = SLACK + 3 * lag.worst
        sub.count("sessions")
        sub.count("models_churned", ch.n if ch else 0)
        mp = {os.path.basename(os.path.dirname(p))[4:-37]: p for p in journal.model_paths(db)}
        logged = {}
        for w in ws:
            p = mp[w.m.split(".")[1]]
            lg = journal.parse(journal.read(p), True)
            dt = durable_times(tr, os.stat(p).st_ino)
            logged[w.m] = check(sub, w, lg, dt, W, limit, slack, min(killed, tr[-1]["t"]) if full and tr else killed, log)
        # the real server agrees with what the journals hold
        journal.close_all(db)
        s2 = Server(bin, db, rs_window=300)
        try:
            s2.start()
        except StartFailed as e:
            sub.violation("unreadable", "the intact parts of the journals are refused: %s" % e, stop=True)
        try:
            c = s2.conn(timeout=60)
            for w in ws:
                r = c.q("select all k, v from %s limit ?" % w.m, U(10**6))
                got = {x[0].v: x[1].v for x in r}
                if got != logged[w.m]:
                    d = [(k, got.get(k), logged[w.m].get(k)) for k in set(got) | set(logged[w.m]) if got.get(k) != logged[w.m].get(k)][:5]
                    sub.violation("restored", "%s: server restores %r rows, journal says %r; (key, restored, logged) %r"
                                  % (w.m, len(got), len(logged[w.m]), d), stop=True)
                sub.count("rows_restored", len(got))
        finally:
            s2.kill()
    finally:
        stop.set()
        lag.go = False
        s.kill()
        sh.close()
        shutil.rmtree(base, ignore_errors=True)


def check(sub, w, lg, dt, W, limit, slack, until, log):
    perkey, idx = {}, {}
    for i, o in enumerate(w.ops):
        perkey.setdefault(o[0], []).append((i, o))
        if not o[2]:
            idx[o[1]] = i
    offs = [o for o, _ in dt]
    cover = {}                  # key -> [(time durable, op index)]
    state = {}
    last = {}
    for a, b, txn, kind, batch in lg.events:
        j = bisect.bisect_left(offs, b)
        t = dt[j][1] if j < len(dt) else None
        for ty, ver, key, row in sorted(batch["events"], key=lambda e: e[1]):
            if ty == 0:
                state.pop(key, None)
                cand = [i for i, o in perkey.get(key, ()) if o[2] and i > last.get(key, -1) and (t is None or o[3] < t)]
                i = cand[-1] if cand else last.get(key, -1)
            else:
                v = int.from_bytes(row[0][1], "little")
                i = idx.get(v)
                state[key] = v
                if i is None:
                    # sent, but the server was killed before it answered
                    if w.ops and v <= w.ops[-1][1]:
                        sub.violation("invented", "%s: journal holds %d for key %d, which was never written" % (w.m, v, key), stop=True)
                    continue
                if w.ops[i][0] != key:
                    sub.violation("mixed", "%s: journal holds value %d under key %d, it was written to key %d" % (w.m, v, key, w.ops[i][0]), stop=True)
            if t is not None and i >= 0:
                cover.setdefault(key, []).append((t, i))
            last[key] = max(i, last.get(key, -1))
        sub.count("batches")
    late = 0
    acks = [o[4] for o in w.ops]
    for key, ops in perkey.items():
        cv = cover.get(key, [])
        for i, o in ops:
            if limit is None:
                dl = o[4] + W + slack
            elif i + limit < len(acks):
                dl = acks[i + limit] + slack
            else:
                continue
            if dl >= until:
                continue
            sub.count("deadlines_checked")
            hit = [t for t, n in cv if n >= i]
            if not hit or min(hit) > dl:
                sub.violation("late:cache" if limit else "late:window",
                              "%s (%s): change %d of key %d acknowledged at +%.2f s was %s; due after %s (+%.1f s slack)"
                              % (w.m, w.style, i, key, 0.0, "never synced" if not hit else "synced %.2f s later" % (min(hit) - o[4]),
                                 "%d s" % W if limit is None else "%d further changes" % limit, slack), log[-2500:], stop=True)
            late = max(late, min(hit) - o[4])
    sub.count("changes", len(w.ops))
    sub.case((w.style, W, limit, len(lg.events), len(w.ops)), n=len(w.ops))
    sub.result = max(sub.result or 0, late)
    return state


def worker(sub, bin, secs):
    end = time.time() + secs
    n = 0
    while time.time() < end:
        session(sub, bin, n)
        n += 1


def main(c):
    b = binary(c)
    F.so()
    c.start_clock()
    res = par.run(c, 5, worker, b, c.budget)
    c.notes.append("longest time from acknowledgement to sync: %.2f s" % max([r or 0 for r in res] + [0]))


run("D04", main, quick=36, thorough=900,
    rule="paced, bursty, idle and flooding writers while other models come and go; I/O trace gives the time every journal batch was synced, "
         "decoded batches say which acknowledged change each row carries; deadline = window (or cache limit) + slack; distinct = distinct writer logs")
