import os, random, shutil, signal, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib.server import free_port
from vlib import par, lin, tls

BIG = 2**64 - 1
NF, DU = ERRC["RowNotFound"], ERRC["Duplicate"]
PENDING = "pending"


def applied(st, k, a):
    """state after the statement if it succeeds, or None when it cannot"""
    if k == "ins":
        return None if st else [(a, a, 0, ())]
    if st is None:
        return None
    if k == "del":
        return [None]
    v, w, n, l = st
    if k in ("set", "swp"):
        return [(a, a, n + 1, l)]
    if k == "inc":
        return [(v, w, n + a, l)]
    if k == "app":
        return [(v, w, n, l + (a,))]
    return None


def step(st, op):
    """st: None or (v, w, n, l).  op: (kind, arg, outcome)"""
    k, a, r = op
    if k == "sel":
        if r == PENDING:
            return [st]
        return [st] if (r == NF if st is None else r == st) else []
    x = applied(st, k, a)
    if r == PENDING:
        return [st] + (x or [])
    if r == "ok":
        return x or []
    if k == "ins":
        return [st] if st is not None and r == DU else []
    if st is None:
        return [st] if r == NF else []
    return [st] if k == "bad" and r == "err" else []


def pure(op):
    return op[0] in ("sel", "bad") or op[2] not in ("ok", PENDING)


def outcome(kind, resp):
    if kind == "sel":
        if isinstance(resp, Row) and len(resp) == 4:
            return (resp[0].v, resp[1].v, resp[2].v, tuple(x.v for x in resp[3].v))
        return resp.code if isinstance(resp, Err) else repr(resp)
    if resp is EMPTY:
        return "ok"
    if isinstance(resp, Err):
        return "err" if kind == "bad" and resp.code != NF else resp.code
    return repr(resp)


MIXES = [
    dict(ins=.45, **{"del": .45}, sel=.1),
    dict(ins=.3, **{"del": .3}, inc=.2, set=.1, sel=.1),
    dict(set=.35, swp=.35, sel=.1, ins=.1, **{"del": .1}),
    dict(inc=.8, ins=.1, sel=.1),
    dict(ins=.2, **{"del": .1}, set=.2, app=.2, bad=.2, sel=.1),
    dict(bad=.4, inc=.3, ins=.2, **{"del": .1}),
]
ENC = {"uint64": lambda k: U(k), "string": lambda k: "key-%d" % k, "binary": lambda k: b"\x00%d" % k, "sint16": lambda k: S(-k)}


class Table:
    def __init__(self, name, kty):
        self.name, self.kty, self.enc = name, kty, ENC[kty]
        self.known = {}             # key -> state at the last restart

    def stmt(self, kind, uid, key):
        m, k = self.name, self.enc(key)
        if kind == "ins":
            return uid, enc_query("insert into %s { k: ?, v: ?, w: ?, n: ?, l: [] }" % m, [k, U(uid), U(uid), U(0)])
        if kind == "set":
            return uid, enc_query("update %s set v = ?, n += ?, w = ? where k = ?" % m, [U(uid), U(1), U(uid), k])
        if kind == "swp":
            return uid, enc_query("update %s set w = ?, n += ?, v = ? where k = ?" % m, [U(uid), U(1), U(uid), k])
        if kind == "inc":
            return 1, enc_query("update %s set n += ? where k = ?" % m, [U(1), k])
        if kind == "app":
            return uid, enc_query("update %s set l += ? where k = ?" % m, [U(uid), k])
        if kind == "bad":
            return uid, enc_query("update %s set v = ?, w = ?, n += ?, n += ? where k = ?" % m, [U(uid), U(99), U(1), U(BIG), k])
        if kind == "del":
            return None, enc_query("delete from %s where k = ?" % m, [k])
        return None, enc_query("select v, w, n, l from %s where k = ?" % m, [k])


class Hot:
    """the few keys everybody is working on right now; moves on after some statements"""

    def __init__(self, rng, tables, width, every):
        self.rng, self.tables, self.width, self.every, self.n, self.next = rng, tables, width, every, 0, 0
        self.mix = self.keys = None
        self.lock = threading.Lock()
        self.move()

    def move(self):
        rng = self.rng
        self.keys = []
        for _ in range(self.width):
            t = rng.choice(self.tables)
            if t.known and rng.random() < 0.5:
                k = rng.choice(sorted(t.known))
            else:
                self.next += 1
                k = 1 + (self.base + self.next if hasattr(self, "base") else self.next)
            self.keys.append((t, k))
        self.mix = rng.choice(MIXES)

    def get(self, n):
        with self.lock:
            self.n += n
            if self.n >= self.every:
                self.n = 0
                self.move()
            return self.keys, self.mix


class Client(threading.Thread):
    def __init__(self, srv, hot, rng, uid, pipe, vanish, connect):
        threading.Thread.__init__(self, daemon=True)
        self.connect = connect
        self.srv, self.hot, self.rng, self.uid, self.pipe, self.vanish = srv, hot, rng, uid, pipe, vanish
        self.hists = []             # one program order per connection: [(table, key, inv, res or None, kind, arg, outcome)]
        self.stop = False
        self.err = None
        self.ready = threading.Event()

    def run(self):
        rng = self.rng
        try:
            c = self.connect()
        except Exception as e:
            self.err = "no connection: %r" % e
            self.ready.set()
            return
        h = []
        self.hists.append(h)
        self.ready.set()
        while not self.stop:
            keys, mix = self.hot.get(self.pipe)
            ks, ws = list(mix), list(mix.values())
            ops = []
            for _ in range(self.pipe):
                t, k = rng.choice(keys)
                kind = rng.choices(ks, ws)[0]
                self.uid += 1
                ops.append((t, k, kind) + t.stmt(kind, self.uid, k))
            gone = self.vanish and rng.random() < 0.02
            inv = time.monotonic_ns()
            i = 0
            try:
                c.send(b"".join(o[4] for o in ops))
                for t, k, kind, arg, _ in ops:
                    if gone and i >= self.pipe // 2:
                        break
                    r = c.resp()
                    h.append((t.name, k, inv, time.monotonic_ns(), kind, arg, outcome(kind, r)))
                    i += 1
            except (ConnClosed, RecvTimeout, OSError) as e:
                if isinstance(e, RecvTimeout):
                    self.err = "no answer: %r" % e
                self.stop = True
            except ProtoError as e:
                self.err = "malformed answer: %r" % e
                self.stop = True
            for t, k, kind, arg, _ in ops[i:]:
                h.append((t.name, k, inv, None, kind, arg, PENDING))
            if gone and not self.stop:
                c.close()
                try:
                    c = self.connect()
                except Exception:
                    return
                h = []
                self.hists.append(h)


def bigload(sub, s, c, rng, rnd):
    """statements that take the server long to execute, cut off by the shutdown: the acknowledged ones are there"""
    if c.q("create model a.big%d(k: uint64, v: list { type: uint64 })" % rnd) is not EMPTY:
        sub.violation("create", "create model refused", stop=True)
    n = rng.choice([3000, 10000, 20000])
    txt = ("insert into a.big%d(?, [%s])" % (rnd, ",".join(["?"] * n))).encode()
    tail = b"\x021\n" * n

    def q(k):
        body = b"%d\n" % len(txt) + txt + b"\x02%d\n" % k + tail
        return b"S%d\n" % len(body) + body
    acked, errs = [], []

    def cl(i, cc):
        k = i * 10**6
        try:
            while True:
                cc.send(q(k))
                r = cc.resp()
                (acked if r is EMPTY else errs).append(k if r is EMPTY else r)
                k += 1
        except (ConnClosed, OSError, RecvTimeout):
            return
    cs = [s.conn(timeout=60) for _ in range(5)]
    ts = [threading.Thread(target=cl, args=(i, x), daemon=True) for i, x in enumerate(cs)]
    [t.start() for t in ts]
    time.sleep(0.4 + rng.random())
    rc = s.stop()
    [t.join(60) for t in ts]
    if errs:
        sub.violation("big-refused", "insert gave %r" % errs[0], stop=True)
    stopped(sub, s, rc, "while executing long statements")
    s.start()
    c = s.conn(timeout=60)
    r = c.q("select all k from a.big%d limit ?" % rnd, U(10**6))
    have = {x[0].v for x in r}
    miss = [k for k in acked if k not in have]
    if miss:
        sub.violation("lost-big", "%d of %d acknowledged inserts are gone after a termination signal, e.g. %r" % (len(miss), len(acked), miss[:5]), stop=True)
    sub.count("long_statements_acknowledged", len(acked))
    sub.count("long_statements_applied_unacknowledged", len(have) - len(acked))
    sub.case(("big", n, len(acked), len(have)), n=len(acked))
    c.q("drop model allow not empty a.big%d" % rnd)
    return c


def stopped(sub, s, rc, where):
    log = s.log()
    p = panics(log)
    if p:
        sub.violation("panic:" + p[0][0], "panic %s: %r" % (where, p[0]), log[-2000:], stop=True)
    if rc != 0:
        sub.violation("shutdown", "shutdown %s ended with %r" % (where, rc), log[-2000:], stop=True)


def overlap(per):
    ev = sorted((inv, res, c) for c, h in enumerate(per) for inv, res, _ in h)
    return sum(1 for i in range(len(ev)) for j in range(i + 1, min(i + 9, len(ev))) if ev[j][0] <= ev[i][1] and ev[j][2] != ev[i][2])


def judge(sub, tables, hists, sent, ended, reads, note):
    """hists: lists of program-ordered ops; the read after the restart is the last operation on every key"""
    per = {}
    for ci, h in enumerate(hists):
        for t, k, inv, res, kind, arg, out in h:
            per.setdefault((t, k), {}).setdefault(ci, []).append((inv, res if res is not None else ended, (kind, arg, out)))
    for t in tables:
        for k in t.known:
            per.setdefault((t.name, k), {})
    tb = {t.name: t for t in tables}
    for (tn, k), m in per.items():
        t = tb[tn]
        init = t.known.get(k)
        fin = reads[tn].get(k)
        hl = list(m.values())
        n = sum(map(len, hl))
        npend = sum(1 for h in hl for x in h if x[2][2] == PENDING)
        post = (ended + 1, ended + 2, ("sel", None, NF if fin is None else fin))
        sub.count("operations", n)
        sub.count("pending", npend)
        if not n:
            if fin != init:
                sub.violation("untouched", "%s key %r was not touched, but was %r before and %r after the restart" % (tn, k, init, fin), stop=True)
            continue
        ov = overlap(hl)
        sub.count("overlapping_pairs", ov)
        try:
            ok, info = lin.check(hl + [[post]], [init], step, pure)
        except lin.Limit:
            sub.count("search_limit")
            continue
        sub.count("linearized")
        sub.case((note, tn, k, ov, fin, hash(tuple(o for h in hl for _, _, o in h))), n=n)
        if not ok:
            # is it the read after the restart that does not fit?
            try:
                ok2, _ = lin.check(hl, [init], step, pure)
            except lin.Limit:
                ok2 = False
            sub.violation("restored-state" if ok2 else "nonlinearizable",
                          "%s key %r (%s): %s; %d operations, %d unanswered; state before %r, after the restart %r; linearized %d, state %s, stuck at %r"
                          % (tn, k, note, "the state after the restart fits no order of the statements" if ok2 else "the answers fit no order",
                             n, npend, init, fin, info["linearized"], info["state"][:200], repr(info["pending"])[:500]),
                          dict(info=info, history=hl if n < 300 else None), stop=True)
    for t in tables:
        extra = set(reads[t.name]) - {k for tn, k in per if tn == t.name}
        if extra:
            sub.violation("invented", "%s holds keys nobody wrote: %r" % (t.name, sorted(extra)[:5]), stop=True)
        t.known = dict(reads[t.name])


def readall(sub, c, t):
    inv = {t.enc(k): k for k in ()}
    r = c.q("select all k, v, w, n, l from %s limit ?" % t.name, U(10**6))
    if not isinstance(r, Rows):
        sub.violation("select", "select all from %s gave %r" % (t.name, r), stop=True)
    out = {}
    for row in r:
        x = row[0].v
        k = {"uint64": lambda: x, "string": lambda: int(x[4:]), "binary": lambda: int(x[1:]), "sint16": lambda: -x}[t.kty]()
        if k in out:
            sub.violation("twice", "%s holds key %r twice" % (t.name, k), stop=True)
        out[k] = (row[1].v, row[2].v, row[3].v, tuple(y.v for y in row[4].v))
    return out


def pin(pid, cpus):
    for t in os.listdir("/proc/%d/task" % pid):
        try:
            os.sched_setaffinity(int(t), cpus)
        except OSError:
            pass


def session(sub, bin, n, tlsm):
    rng = sub.rng
    d = os.path.join(sub.dir, "w%d-%d" % (sub.idx, n))
    s = Server(bin, d, rs_window=rng.choice([1, 1, 300]), loglevel="info")
    tport = None
    connect = lambda: s.conn(timeout=90)
    if rng.random() < .35:
        # some or all writers over TLS
        cert, key, pp = tlsm
        tport = free_port()
        s.args += ["--endpoint", "tls@127.0.0.1:%d" % tport, "--tlscert", cert, "--tlskey", key, "--tls-passphrase", pp]
        share = rng.choice([.5, 1])
        sub.count("sessions_with_tls")
        pool = threading.Lock()

        def connect():
            with pool:
                x = rng.random()
            return Conn(tport, "root", ROOTPW, tls=tls.ctx(cert), timeout=90) if x < share else s.conn(timeout=90)
    cpus = sorted(os.sched_getaffinity(0))
    try:
        s.start()
        c = s.conn(timeout=60)
        assert c.q("create space a") is EMPTY
        tables = []
        for i in range(rng.choice([1, 2])):
            kty = rng.choice(list(ENC))
            assert c.q("create model a.t%d(k: %s, v: uint64, w: uint64, n: uint64, l: list { type: uint64 })" % (i, kty)) is EMPTY
            tables.append(Table("a.t%d" % i, kty))
        next_key = 0
        for rnd in range(rng.choice([2, 3])):
            if rng.random() < 0.12:
                c = bigload(sub, s, c, rng, rnd)
                continue
            hot = Hot(rng, tables, rng.choice([1, 1, 2, 4]), rng.choice([60, 150, 300]))
            hot.base = next_key
            nc = rng.choice([2, 3, 4, 6])
            pipe = rng.choice([1, 4, 10, 20])
            sq = rng.random()
            pin(s.proc.pid, cpus if sq < .5 else (rng.sample(cpus, 2) if sq < .8 else rng.sample(cpus, 1)))
            cls = [Client(s, hot, random.Random("%s/%d/%d/%d/%d" % (sub.seed, sub.idx, n, rnd, i)), i * 10**7 + rnd * 10**6, pipe, i == 0 and rng.random() < .4, connect)
                   for i in range(nc)]
            [x.start() for x in cls]
            [x.ready.wait(60) for x in cls]
            time.sleep(rng.choice([0.05, 0.2, 0.5, 1.2]) * rng.random())
            sent = time.monotonic_ns()
            early = rng.random() < .15
            if early:               # everything acknowledged before the signal
                for x in cls:
                    x.stop = True
                [x.join(60) for x in cls]
            rc = s.stop()
            ended = time.monotonic_ns()
            for x in cls:
                x.stop = True
            [x.join(60) for x in cls]
            next_key = hot.base + hot.next
            note = "%d clients, %d statements at once, window %d" % (nc, pipe, s.rs_window)
            for x in cls:
                if x.err:
                    sub.violation("no-response", x.err + " (%s)" % note, s.log()[-1500:], stop=True)
            stopped(sub, s, rc, "under load")
            s.start()
            c = s.conn(timeout=60)
            reads = {t.name: readall(sub, c, t) for t in tables}
            sub.count("shutdowns")
            judge(sub, tables, [h for x in cls for h in x.hists], sent, ended, reads, note)
            pin(s.proc.pid, cpus)
        stopped(sub, s, s.stop(), "at the end")
        sub.count("sessions")
    finally:
        s.kill()
        shutil.rmtree(d, ignore_errors=True)


def worker(sub, bin, secs, tlsm):
    end = time.time() + secs
    n = 0
    while time.time() < end:
        session(sub, bin, n, tlsm)
        n += 1


def main(c):
    b = binary(c)
    c.start_clock()
    par.run(c, 7, worker, b, c.budget, tls.make(os.path.join(c.dir, "tls")))


run("D02", main, quick=40, thorough=1200,
    rule="pipelined writers on the same few keys, termination signal at a random moment (also while clients vanish or long statements run), "
         "restart, 2-3 times per directory; every key's answered and unanswered statements plus the read after the restart must have one order; "
         "distinct = distinct key histories with their restored state")
