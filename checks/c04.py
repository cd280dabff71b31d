import bisect, multiprocessing as mp, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par

ENC = {"uint64": lambda k: U(k), "string": lambda k: "key-%d" % k, "binary": lambda k: b"\x00%d" % k, "sint32": lambda k: S(-k)}
DEC = {"uint64": lambda x: x, "string": lambda x: int(x[4:]), "binary": lambda x: int(x[1:]), "sint32": lambda x: -x}


def pad(uid):
    return "%d" % uid * (1 + uid % 23)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def load(c, m, enc, keys, uid0):
    """insert many rows through one connection"""
    for part in chunks(keys, 200):
        c.send(b"".join(enc_query("insert into %s(?, ?, ?, ?, [?, ?])" % m, [enc(k), U(uid0 + k), pad(uid0 + k), U(uid0 + k), U(uid0 + k), U(uid0 + k)]) for k in part))
        for _ in part:
            r = c.resp()
            if r is not EMPTY:
                return r
    return None


class Writer:
    """owns its keys: the exact history of each is known up to the time in flight"""

    def __init__(self, sub, c, cfg, keys):
        self.rng, self.c, self.m, self.enc, self.cfg = sub.rng, c, cfg["model"], ENC[cfg["kty"]], cfg
        self.keys = keys
        self.cur = {k: cfg["uid0"] + k for k in keys if k <= cfg["loaded"]}
        self.hist = {k: [(0, 0, self.cur.get(k))] for k in keys}         # key -> [(inv, res, value after)]
        self.uid = cfg["uid0"] + (sub.idx + 2) * 10**7

    def batch(self, n):
        rng, m = self.rng, self.m
        ops, buf = [], []
        for _ in range(n):
            k = rng.choice(self.keys)
            self.uid += 1
            u = self.uid
            kind = k % 3                # 0 churned, 1 updated; keys of class 2 belong to nobody and never change
            p = pad(u)
            if self.cur.get(k) is None:
                buf.append(enc_query("insert into %s(?, ?, ?, ?, [?, ?])" % m, [self.enc(k), U(u), p, U(u), U(u), U(u)]))
                v = u
            elif kind == 0:
                buf.append(enc_query("delete from %s where k = ?" % m, [self.enc(k)]))
                v = None
            else:
                buf.append(enc_query("update %s set v = ?, p = ?, w = ? where k = ?" % m, [U(u), p, U(u), self.enc(k)]))
                v = u
            self.cur[k] = v
            ops.append((k, v))
        inv = time.monotonic_ns()
        self.c.send(b"".join(buf))
        for k, v in ops:
            r = self.c.resp()
            if r is not EMPTY:
                return r
            self.hist[k].append((inv, time.monotonic_ns(), v))
        return None


def scan(c, cfg, limit, form):
    m = cfg["model"]
    q = ["select all k, v, p, w, l from %s limit ?", "select all * from %s limit ?", "select all w, k, p, l, v from %s limit ?"][form] % m
    inv = time.monotonic_ns()
    r = c.q(q, U(limit))
    return inv, time.monotonic_ns(), r


def cells(cfg, form, row):
    """(key, v, p, w, l)"""
    if len(row) != 5:
        raise ValueError("%d cells" % len(row))
    x = [y.v for y in row]
    if form == 0:
        k, v, p, w, l = x
    elif form == 1:
        k, v, p, w, l = x
    else:
        w, k, p, l, v = x
    return DEC[cfg["kty"]](k), v, p, w, [y.v for y in l]


def take(sub, cfg, res, limit, form, where):
    """the scan's rows as a dict; torn or repeated rows are reported"""
    inv, end, r = res
    if not isinstance(r, Rows):
        sub.violation("scan-answer", "%s: SELECT ALL gave %r" % (where, r), stop=True)
    got = {}
    for row in r:
        try:
            k, v, p, w, l = cells(cfg, form, row)
        except Exception as e:
            sub.violation("scan-row", "%s: row %r cannot be read: %s" % (where, row, e), stop=True)
        if k in got:
            sub.violation("scan-twice", "%s: key %d twice in one SELECT ALL (%r and %r)" % (where, k, got[k], v), stop=True)
        if v != w or p != pad(v) or len(l) != 2 or l[0] != l[1] or l[0] > v:
            sub.violation("scan-torn", "%s: half-updated row: k %d v %d w %d p %r l %r" % (where, k, v, w, p[:40], l), stop=True)
        got[k] = v
    if len(got) > limit:
        sub.violation("scan-limit", "%s: %d rows for limit %d" % (where, len(got), limit), stop=True)
    return got


def client(sub, srv, cfg, bar):
    sub.rng.seed("C04/%s/%d/%d" % (sub.seed, cfg["round"], sub.idx))
    rng = sub.rng
    try:
        c = srv.conn(timeout=90)
        bar.wait(90)
        end = time.monotonic() + cfg["secs"]
        if sub.idx < cfg["writers"]:
            mine = [k for k in range(1, cfg["keys"] + 1) if k % 3 != 2 and (k // 3) % cfg["writers"] == sub.idx]
            w = Writer(sub, c, cfg, mine)
            n = 0
            hot = 0
            while time.monotonic() < end:
                if n % 20 == 0 and rng.random() < .5:           # stay on a few keys for a while
                    w.keys = mine if hot else rng.sample(mine, min(6, len(mine)))
                    hot = not hot
                n += 1
                r = w.batch(rng.choice([1, 2, 8]))
                if r is not None:
                    sub.violation("dml", "statement refused: %r" % (r,), stop=True)
            sub.result = ("w", {k: h for k, h in w.hist.items()})
            sub.count("writes", sum(len(h) - 1 for h in w.hist.values()))
        else:
            out = []
            while time.monotonic() < end:
                form = rng.randrange(3)
                lim = rng.choice([10**6, 10**6, 2**63, cfg["keys"], cfg["keys"] // 2, 7, 1, 0])
                res = scan(c, cfg, lim, form)
                got = take(sub, cfg, res, lim, form, "with %d writers" % cfg["writers"])
                out.append((res[0], res[1], lim, got))
                sub.count("scans")
                sub.count("rows_scanned", len(got))
                if cfg["pause"]:
                    time.sleep(rng.random() * cfg["pause"])
                if len(out) >= cfg["maxscans"]:
                    time.sleep(max(0, end - time.monotonic()))
                    break
            sub.result = ("s", out)
        c.close()
    except (ConnClosed, RecvTimeout, ProtoError) as e:
        sub.violation("no-response", "connection failed: %r" % e)
        bar.abort()


def analyse(sub, cfg, hist, scans):
    inv_ix = {k: [x[0] for x in h] for k, h in hist.items()}
    res_ix = {k: [x[1] for x in h] for k, h in hist.items()}
    base = {k: cfg["uid0"] + k for k in range(1, cfg["loaded"] + 1) if k % 3 == 2}
    order = {k: {x[2]: i for i, x in enumerate(h) if x[2] is not None} for k, h in hist.items()}
    for ci, sc in enumerate(scans):
        if ci % cfg["nproc"] != sub.idx:
            continue
        seen = {}                       # key -> index of the newest value an earlier scan of this client returned
        for a, b, lim, got in sc:
            stable = 0
            changing = 0
            missing = []
            for k, h in hist.items():
                # values between the last one surely in place at a and the first one surely after b
                lo = bisect.bisect_right(res_ix[k], a) - 1
                hi = bisect.bisect_right(inv_ix[k], b)
                poss = [x[2] for x in h[max(lo, 0):hi]]
                if len(poss) > 1:
                    changing += 1
                if k in got:
                    if got[k] not in poss:
                        old = order[k].get(got[k])
                        sub.violation("scan-ghost" if None in poss and len(poss) == 1 else "scan-stale",
                                      "key %d: SELECT ALL returned %r, which it had at no moment of the statement (possible: %r; %s)"
                                      % (k, got[k], poss[:6], "never written" if old is None else "version %d, expected %d to %d" % (old, lo, hi - 1)), stop=True)
                    i = order[k].get(got[k], 0)
                    if i < seen.get(k, -1):
                        sub.violation("scan-back", "key %d: a later SELECT ALL returned version %d after version %d" % (k, i, seen[k]), stop=True)
                    seen[k] = i
                elif None not in poss:
                    missing.append(k)
                if None not in poss:
                    stable += 1
            for k, v in base.items():
                if k in got:
                    if got[k] != v:
                        sub.violation("scan-stale", "key %d never changed from %d, SELECT ALL returned %r" % (k, v, got[k]), stop=True)
                else:
                    missing.append(k)
            stable += len(base)
            ghost = [k for k in got if k not in hist and k not in base]
            if ghost:
                sub.violation("scan-ghost", "SELECT ALL returned keys never inserted: %r" % ghost[:5], stop=True)
            if len(got) < lim and missing:
                sub.violation("scan-missing", "SELECT ALL limit %d returned %d rows without %d rows that existed throughout, e.g. %r"
                              % (lim, len(got), len(missing), sorted(missing)[:5]), stop=True)
            if len(got) < min(lim, stable):
                sub.violation("scan-short", "SELECT ALL limit %d returned %d rows, %d existed throughout" % (lim, len(got), stable), stop=True)
            sub.count("keys_changing_during_scans", changing)
            sub.count("scans_judged")
            sub.case((cfg["round"], a, lim, len(got), changing), n=len(got))


def quiet(c, cfg, conn, want, where):
    """nothing changes: exact rows, exact counts"""
    class X:
        def violation(self, *a, **k):
            c.violation(*a, **k)
    n = len(want)
    for form, lim in [(0, 2**64 - 1), (1, n), (2, n + 1), (1, max(0, n - 1)), (2, n // 3), (0, 1), (1, 0)]:
        got = take(X(), cfg, scan(conn, cfg, lim, form), lim, form, where)
        if len(got) != min(lim, n):
            c.violation("quiet-count", "%s: SELECT ALL limit %d of %d rows returned %d" % (where, lim, n, len(got)), stop=True)
        bad = [(k, v, want.get(k)) for k, v in got.items() if want.get(k) != v]
        if bad:
            c.violation("quiet-rows", "%s: (key, returned, expected) %r" % (where, bad[:5]), stop=True)
        c.count("quiet_scans")
        c.case(("quiet", cfg["round"], form, lim, n), n=len(got))


def pin(pid, cpus):
    for t in os.listdir("/proc/%d/task" % pid):
        try:
            os.sched_setaffinity(int(t), cpus)
        except OSError:
            pass


def main(c):
    b = binary(c)
    s = server(c, b, rs_window=1, loglevel="info")
    root = s.conn(timeout=90)
    assert root.q("create space s") is EMPTY
    c.start_clock()
    cpus = sorted(os.sched_getaffinity(0))
    rng, rnd = c.rng, 0
    NC = 8
    while c.left() > 0 and not c.viol:
        kty = rng.choice(sorted(ENC))
        keys = rng.choice([24, 60, 400, 3000, 9000])
        cfg = dict(round=rnd, model="s.m%d" % rnd, kty=kty, keys=keys, loaded=rng.choice([keys, keys, keys * 2 // 3]), uid0=(rnd + 1) * 10**9,
                   writers=rng.choice([3, 4, 5, 6]), secs=rng.choice([0.8, 1.6]), nproc=NC, pause=rng.choice([0, .004, .02, .05]), maxscans=60 if keys > 1000 else 150)
        if root.q("create model %s(k: %s, v: uint64, p: string, w: uint64, l: list { type: uint64 })" % (cfg["model"], kty)) is not EMPTY:
            c.violation("create", "create model refused", stop=True)
        r = load(root, cfg["model"], ENC[kty], list(range(1, cfg["loaded"] + 1)), cfg["uid0"])
        if r is not None:
            c.violation("load", "insert gave %r" % (r,), stop=True)
        quiet(c, cfg, root, {k: cfg["uid0"] + k for k in range(1, cfg["loaded"] + 1)}, "after loading")
        x = rng.random()
        pin(s.proc.pid, cpus if x < .5 else (cpus[:2] if x < .8 else cpus[:1]))
        bar = mp.get_context("fork").Barrier(NC)
        res = par.run(c, NC, client, s, cfg, bar)
        if c.viol or not health(c, s, "round %d" % rnd):
            return
        hist, scans = {}, []
        for kind, x in res:
            if kind == "w":
                hist.update(x)
            else:
                scans.append(x)
        par.run(c, NC, analyse, cfg, hist, scans)
        if c.viol:
            return
        want = {k: h[-1][2] for k, h in hist.items() if h[-1][2] is not None}
        want.update({k: cfg["uid0"] + k for k in range(1, cfg["loaded"] + 1) if k % 3 == 2})
        quiet(c, cfg, root, want, "after the writers stopped")
        root.q("drop model allow not empty %s" % cfg["model"])
        rnd += 1
        c.count("rounds")
    health(c, s, "at the end")


run("C04", main, quick=32, thorough=1200,
    rule="scanners with several limits and column orders against writers that update, delete and reinsert their own keys among rows that never "
         "change, server threads free or squeezed; every scan judged against the recorded timeline of every key; distinct = judged scans")
