import json, os, random, shutil, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, lin, dump

NF, EX, NE, DU, RNF, VE = (ERRC[x] for x in ("ObjectNotFound", "AlreadyExists", "NotEmpty", "Duplicate", "RowNotFound", "ValidationError"))
PENDING = "pending"
NOFIELD = "nofield"

# state of one space: None or a frozenset of (model, has extra field, frozenset of (key, value))


def get(st, m):
    for x in st or ():
        if x[0] == m:
            return x
    return None


def put(st, old, new):
    return frozenset((st - {old} if old else st) | ({new} if new else set()))


def ideal(st, op):
    """(outcome, state after) of the statement executed alone"""
    k, m, a, _ = op
    if k in ("cs", "cs?"):
        if st is None:
            return ("ok" if k == "cs" else True), frozenset()
        return (EX if k == "cs" else False), st
    if k in ("ds", "ds?", "dsf"):
        if st is None:
            return (False if k == "ds?" else NF), st
        if st and k != "dsf":
            return NE, st
        return (True if k == "ds?" else "ok"), None
    if k == "is":
        return (NF if st is None else frozenset(x[0] for x in st)), st
    x = get(st, m)
    if k in ("cm", "cm?"):
        if st is None:
            return NF, st
        if x:
            return (EX if k == "cm" else False), st
        return ("ok" if k == "cm" else True), put(st, None, (m, False, frozenset()))
    if k in ("dm", "dm?", "dmf") and st is not None and not x:
        return (False if k == "dm?" else NF), st
    if not x:
        return NF, st
    _, ext, rows = x
    d = dict(rows)
    if k in ("dm", "dm?", "dmf"):
        if rows and k != "dmf":
            return NE, st
        return (True if k == "dm?" else "ok"), put(st, x, None)
    if k == "add":
        return ("err", st) if ext else ("ok", put(st, x, (m, True, rows)))
    if k == "rem":
        return ("ok", put(st, x, (m, False, rows))) if ext else ("err", st)
    if k == "im":
        return (ext, len(rows)), st
    if k == "all":
        return rows, st
    if k in ("ins2", "ins3"):
        if ext != (k == "ins3"):
            return VE, st
        if a[0] in d:
            return DU, st
        return "ok", put(st, x, (m, ext, rows | {a}))
    if k == "selx":
        if a[0] not in d:
            return (RNF if ext else (RNF, NOFIELD)), st
        return ("x" if ext else NOFIELD), st
    if a[0] not in d:
        return RNF, st
    if k == "sel":
        return d[a[0]], st
    if k == "upd":
        return "ok", put(st, x, (m, ext, (rows - {(a[0], d[a[0]])}) | {a}))
    if k == "del":
        return "ok", put(st, x, (m, ext, rows - {(a[0], d[a[0]])}))
    raise ValueError(k)


def step(st, op):
    k, r = op[0], op[3]
    if k == "final":
        return [st] if r == st else []
    want, nx = ideal(st, op)
    if r == PENDING:
        return [st, nx] if nx != st else [st]
    if type(r) is type(want) and r == want or isinstance(want, tuple) and NOFIELD in want and r in want:
        return [nx]
    return []


def pure(op):
    return op[0] in ("final", "is", "im", "all", "sel", "selx") or op[3] is False or op[3] == "err" or type(op[3]) is int


def text(op, s, rng):
    k, m, a = op
    e = "%s.%s" % (s, m)
    if k in ("cs", "cs?"):
        return "create space %s%s" % ("if not exists " * (k == "cs?"), s), []
    if k in ("ds", "ds?", "dsf"):
        return "drop space %s%s%s" % ("if exists " * (k == "ds?"), "allow not empty " * (k == "dsf"), s), []
    if k == "is":
        return "inspect space " + s, []
    if k in ("cm", "cm?"):
        return "create model %s%s(k: uint64, v: uint64)" % ("if not exists " * (k == "cm?"), e), []
    if k in ("dm", "dm?", "dmf"):
        return "drop model %s%s%s" % ("if exists " * (k == "dm?"), "allow not empty " * (k == "dmf"), e), []
    if k == "add":
        return "alter model %s add x { type: string, nullable: true }" % e, []
    if k == "rem":
        return "alter model %s remove x" % e, []
    if k == "im":
        return "inspect model " + e, []
    if k == "all":
        return "select all k, v from %s limit ?" % e, [U(1000)]
    if k == "ins2":
        return "insert into %s(?, ?)" % e, [U(a[0]), U(a[1])]
    if k == "ins3":
        return "insert into %s(?, ?, ?)" % e, [U(a[0]), U(a[1]), "x"]
    if k == "selx":
        return "select k, x from %s where k = ?" % e, [U(a[0])]
    if k == "sel":
        return "select k, v from %s where k = ?" % e, [U(a[0])]
    if k == "upd":
        return "update %s set v = ? where k = ?" % e, [U(a[1]), U(a[0])]
    return "delete from %s where k = ?" % e, [U(a[0])]


def outcome(op, r):
    k = op[0]
    if r is EMPTY:
        return "ok"
    if isinstance(r, Err):
        if r.code == ERRC["UnknownField"]:
            return NOFIELD if k == "selx" else "err"
        if k in ("add", "rem") and r.code not in (NF, 0):
            return "err"
        return r.code
    try:
        if isinstance(r, V):
            if r.t == 1:
                return r.v
            j = json.loads(r.v)
            if k == "is":
                return frozenset(j["models"])
            return {"{*k:UInt64,!v:UInt64}": False, "{*k:UInt64,!v:UInt64,?x:String}": True}[j["decl"]], j["rows"]
        if k == "all":
            l = [(x[0].v, x[1].v) for x in r]
            if len(set(l)) == len(l):
                return frozenset(l)
        elif isinstance(r, Row) and k == "sel" and r[0].v == op[2][0]:
            return r[1].v
        elif isinstance(r, Row) and k == "selx" and r[0].v == op[2][0] and (r[1].v in (None, "x")):
            return "x"
    except Exception as e:
        return "unreadable %r (%r)" % (r, e)
    return repr(r)


MIXES = [
    dict(cs=2, ds=1, dsf=1, cm=6, dm=3, dmf=3, ins2=6, sel=4, all=2, **{"is": 2}),
    dict(cs=3, **{"cs?": 2, "ds?": 2, "cm?": 4, "dm?": 3, "is": 3}, ds=2, dsf=1, dm=1, ins2=2, im=2),
    dict(cs=1, cm=3, dmf=3, ins2=12, sel=8, upd=6, all=3, im=2, **{"del": 4}),
    dict(cs=1, cm=3, dmf=1, add=6, rem=6, ins2=6, ins3=6, sel=4, selx=6, upd=4, im=4, all=2, **{"del": 2}),
    dict(cs=1, cm=2, dm=6, ins2=6, **{"del": 6}, im=2, all=2),
    dict(cs=4, dsf=4, cm=6, ins2=6, sel=3, all=2, **{"is": 3}),
    dict(cs=1, cm=2, add=5, rem=5, dmf=1, upd=8, ins2=4, ins3=4, all=4, selx=4, sel=4),
]


class Client(threading.Thread):
    def __init__(self, srv, rng, mix, uid, models, nspaces, pipe, n, bar):
        threading.Thread.__init__(self, daemon=True)
        self.srv, self.rng, self.mix, self.uid, self.models, self.nspaces, self.pipe, self.n, self.bar = srv, rng, mix, uid, models, nspaces, pipe, n, bar
        self.hist, self.err, self.conn = [], None, None
        self.late = 0

    def run(self):
        rng = self.rng
        ks, ws = list(self.mix), list(self.mix.values())
        try:
            c = self.conn = self.srv.conn(timeout=60)
            self.bar.wait(60)
        except Exception as e:
            self.err = "no connection: %r" % e
            return
        done = 0
        while done < self.n:
            ops = []
            for _ in range(self.pipe):
                self.uid += 1
                s = rng.randrange(self.nspaces)
                op = (rng.choices(ks, ws)[0], rng.choice(self.models), (rng.randint(1, 3), self.uid))
                q, p = text(op, "s%d" % s, rng)
                ops.append((s, op, enc_query(q, p)))
            inv = time.monotonic_ns()
            i = 0
            try:
                c.send(b"".join(o[2] for o in ops))
                for s, op, _ in ops:
                    r = c.resp()
                    t = time.monotonic_ns()
                    self.hist.append((s, inv, t, op + (outcome(op, r),)))
                    self.late = max(self.late, t - inv)
                    i += 1
            except RecvTimeout as e:
                self.err = "no answer within 60 s to %r" % (ops[i][1],)
            except (ConnClosed, OSError, ProtoError) as e:
                self.err = "connection failed: %r" % e
            for s, op, _ in ops[i:]:
                self.hist.append((s, inv, None, op + (PENDING,)))
            if self.err:
                return
            done += self.pipe


def observe(sub, c, nspaces):
    """state of every space through the wire; the three views of the catalogue must agree"""
    out = []
    g = json.loads(c.q("inspect global").v)["spaces"]
    for i in range(nspaces):
        s = "s%d" % i
        r = c.q("inspect space " + s)
        if isinstance(r, Err):
            if s in g or r.code != NF:
                sub.violation("catalogue", "inspect space %s gives %r, inspect global lists %r" % (s, r, g), stop=True)
            out.append(None)
            continue
        if s not in g:
            sub.violation("catalogue", "space %s can be inspected, inspect global lists %r" % (s, g), stop=True)
        ms = json.loads(r.v)["models"]
        if len(set(ms)) != len(ms):
            sub.violation("catalogue", "inspect space %s lists a model twice: %r" % (s, ms), stop=True)
        st = set()
        for m in ms:
            im = outcome(("im", m, None), c.q("inspect model %s.%s" % (s, m)))
            al = outcome(("all", m, None), c.q("select all k, v from %s.%s limit ?" % (s, m), U(1000)))
            if not isinstance(im, tuple) or not isinstance(al, frozenset) or im[1] != len(al):
                sub.violation("catalogue", "%s.%s is listed; inspect model gives %r, select all %r" % (s, m, im, al), stop=True)
            st.add((m, im[0], al))
        out.append(frozenset(st))
    return out


def dead(sub, s, rc, where):
    p = panics(s.log())
    if p:
        sub.violation("panic:" + p[0][0], "panic %s: %r" % (where, p[0]), s.log()[-2000:], stop=True)
    if rc != 0:
        sub.violation("shutdown", "shutdown %s ended with %r" % (where, rc), s.log()[-2000:], stop=True)


def pin(pid, cpus):
    for t in os.listdir("/proc/%d/task" % pid):
        try:
            os.sched_setaffinity(int(t), cpus)
        except OSError:
            pass


def session(sub, bin, n):
    rng = sub.rng
    d = os.path.join(sub.dir, "w%d-%d" % (sub.idx, n))
    s = Server(bin, d, rs_window=rng.choice([1, 300]), loglevel="info")
    cpus = sorted(os.sched_getaffinity(0))
    nspaces = rng.choice([1, 2, 3])
    try:
        s.start()
        state = [None] * nspaces
        for rnd in range(4):
            nc = rng.choice([2, 3, 4, 6])
            mix = rng.choice(MIXES)
            models = ["m", "n", "M"][:rng.choice([1, 1, 2, 3])]
            sq = rng.random()
            pin(s.proc.pid, cpus if sq < .6 else (rng.sample(cpus, 2) if sq < .8 else rng.sample(cpus, 1)))
            bar = threading.Barrier(nc + 1)
            pipe = rng.choice([1, 1, 2, 4])
            cut = rng.random() < .3
            cls = [Client(s, random.Random("%s/%d/%d/%d/%d" % (sub.seed, sub.idx, n, rnd, i)), mix, (rnd * 10 + i + 1) * 10**6, models, nspaces, pipe,
                          10**9 if cut else rng.choice([30, 60]), bar) for i in range(nc)]
            [x.start() for x in cls]
            try:
                bar.wait(60)
            except threading.BrokenBarrierError:
                sub.violation("no-connection", "; ".join(x.err or "?" for x in cls), s.log()[-2000:], stop=True)
            rc = None
            if cut:
                time.sleep(rng.random() * rng.choice([.05, .3]))
                rc = s.stop()
                if rc == "hang":
                    sub.violation("hang", "the server did not end within 60 s of a termination signal during DDL", s.log()[-2000:], stop=True)
            [x.join(100) for x in cls]
            ended = time.monotonic_ns()
            note = "%d clients, mix %s" % (nc, sorted(mix))
            for x in cls:
                if x.err and not (cut and "connection failed" in x.err):
                    sub.violation("no-answer", "%s (%s)" % (x.err, note), dict(log=s.log()[-2000:], last=[h[-1:] for h in (y.hist for y in cls)]), stop=True)
            if cut:
                dead(sub, s, rc, "during DDL and DML")
                s.start()
            c = s.conn(timeout=60)
            fin = observe(sub, c, nspaces)
            for i in range(nspaces):
                per = [[(inv, res or ended, op) for sp, inv, res, op in x.hist if sp == i] for x in cls]
                tot = sum(map(len, per))
                for h in per:
                    for _, _, op in h:
                        sub.count("%s:%s" % (op[0], op[3] if isinstance(op[3], (str, bool)) else op[3] if type(op[3]) is int and op[0] != "sel" else "data"))
                        if type(op[3]) is int and op[3] == 0 and op[0] != "sel":
                            sub.violation("server-error", "%r was answered with a server error" % (op,), s.log()[-1500:], stop=True)
                post = (ended + 1, ended + 2, ("final", None, None, fin[i]))
                try:
                    ok, info = lin.check(per + [[post]], [state[i]], step, pure, limit=150000)
                except lin.Limit:
                    sub.count("search_limit")
                    continue
                sub.count("linearized")
                sub.case((nc, pipe, cut, hash(tuple(op for h in per for _, _, op in h)), fin[i]), n=tot)
                if not ok:
                    sub.violation("nonlinearizable" if not cut else "nonlinearizable-restart",
                                  "space s%d (%s%s): no order explains the answers and the final state: before %r, finally %r; linearized %d of %d, state %s, stuck at %s"
                                  % (i, note, ", cut off by a termination signal" if cut else "", state[i], fin[i], info["linearized"], tot, info["state"][:300],
                                     repr(info["pending"])[:700]), dict(info=info, history=per if tot < 200 else None), stop=True)
            state = fin
            sub.count("rounds_cut" if cut else "rounds")
            if not cut and rng.random() < .4:
                before = dump.dump(c)
                dead(sub, s, s.stop(), "after concurrent DDL")
                try:
                    s.start()
                except StartFailed as e:
                    sub.violation("restart", "restart after concurrent DDL failed: %s" % e, stop=True)
                c = s.conn(timeout=60)
                df = dump.diff(before, dump.dump(c))
                if df:
                    sub.violation("restart-differs", "state changed by a restart after concurrent DDL (%s): %s" % (note, df), stop=True)
                sub.count("restarts_compared")
            sub.result = max(sub.result or 0, max(x.late for x in cls))
        dead(sub, s, s.stop(), "at the end")
    finally:
        s.kill()
        shutil.rmtree(d, ignore_errors=True)


def worker(sub, bin, secs):
    end = time.time() + secs
    n = 0
    while time.time() < end:
        session(sub, bin, n)
        n += 1


def main(c):
    b = binary(c)
    c.start_clock()
    res = par.run(c, 7, worker, b, c.budget)
    c.notes.append("slowest answer: %.2f s" % (max(r or 0 for r in res) / 1e9))


run("S02", main, quick=34, thorough=1200,
    rule="2-6 connections create, alter, drop and inspect the same spaces and models while inserting, updating, reading and scanning them, some "
         "rounds cut off by a termination signal; every answer and the final (restarted) state of a space must fit one order; distinct = distinct space histories")
