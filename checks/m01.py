import os, random, re, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib import par, gen, ddl
from vlib.model import Field
from vlib.heap import Heap

ASAN = dict(ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
FRAME = re.compile(r" in [^\n]*?(server/src/[\w/]+\.rs)")


def look(sub, s, where, trace):
    """what the instrumentation said so far"""
    log = s.log()
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log)
    if m:
        at = m.start()
        f = FRAME.search(log, at)
        f = f.group(1) if f else "?"
        sub.violation("asan:%s:%s" % (m.group(1), f), "%s: AddressSanitizer: %s at %s" % (where, m.group(1), f), dict(report=log[at:at + 8000], trace=trace[-40:]), stop=True)
    for loc, msg in panics(log):
        sub.violation("panic:" + loc, "%s: panic at %s: %s" % (where, loc, msg), dict(log=log[-4000:], trace=trace[-40:]), stop=True)
    if not s.alive() and s.proc is not None:
        sub.violation("server-died", "%s: the server ended with %r" % (where, s.proc.poll()), dict(log=log[-4000:], trace=trace[-40:]), stop=True)


class Load:
    """statements from several connections over a few shared models, without caring what they answer"""

    def __init__(self, s, rng, counts, trace):
        self.s, self.rng, self.counts, self.trace = s, rng, counts, trace
        self.tabs = {}
        self.stop = False

    def name(self, rng):
        return "w.m%d" % rng.randrange(3)

    def schema(self, rng):
        t = gen.schema(rng)
        # lists and strings are the cells with memory of their own
        for i in range(rng.choice([0, 1, 2])):
            n = [x for x in gen.NAMES if x not in {f.name for f in t.fields}]
            t.fields.append(Field(rng.choice(n), rng.choice(["string", "binary", ("list", "string"), ("list", ("list", "binary"))]), rng.random() < .4))
        return t

    def val(self, f, rng):
        r = rng.random()
        if r < 0.03 or f.null and r < 0.1:
            return None
        if r < 0.05 or r > 0.99:
            return gen.bad(f.ty, rng)
        return gen.good(f.ty, rng, 0.04)

    def key(self, t, rng):
        r = random.Random(rng.randrange(6))
        return gen.good(t.pkf().ty, r)

    def one(self, c, rng):
        name = self.name(rng)
        t = self.tabs.get(name)
        x = rng.random()
        ps = []
        if t is None or x < 0.015:
            if t is not None:
                q = "drop model %s%s" % ("allow not empty " if rng.random() < 0.8 else "", name)
                if "allow" in q:
                    self.tabs.pop(name, None)
            else:
                t = self.schema(rng)
                self.tabs[name] = t
                q = gen.create_stmt(t, name)
                self.counts["create"] = self.counts.get("create", 0) + 1
        elif x < 0.05:
            y = rng.random()
            n = rng.choice(gen.NAMES)
            if y < 0.4:
                f = Field(n, gen.rtype(rng), rng.random() < .7)
                q = "alter model %s add %s" % (name, ddl.fdef(f.name, f.ty, f.null, rng))
                t.fields = t.fields if n in {z.name for z in t.fields} else t.fields + [f]
            elif y < 0.7:
                n = n if rng.random() < .3 else rng.choice(t.fields).name
                q = "alter model %s remove %s" % (name, n)
                if n != t.pk and len(t.fields) > 2:
                    t.fields = [z for z in t.fields if z.name != n]
            else:
                f = rng.choice(t.fields)
                q = "alter model %s update %s" % (name, ddl.fdef(f.name, ddl.wider(f.ty) or f.ty, True, rng))
            self.counts["alter"] = self.counts.get("alter", 0) + 1
        elif x < 0.35:
            vals = {f.name: self.val(f, rng) for f in t.fields}
            vals[t.pk] = self.key(t, rng)
            q, ps = gen.ins_stmt(t, name, {k: v for k, v in vals.items()}, rng) if None not in vals.values() else self.ins_null(t, name, vals)
        elif x < 0.6:
            fs = [f for f in t.fields if f.name != t.pk] or t.fields
            asg = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = rng.choice(fs)
                op = rng.choice(["=", "=", "+=", "-=", "*=", "/="])
                if isinstance(f.ty, tuple):
                    v, op = gen.good(f.ty[1], rng), "+="
                    if isinstance(v, list) and len(v) > 3:
                        v = v[:3]
                else:
                    v = self.val(f, rng)
                asg.append("%s %s %s" % (f.name, op, "null" if v is None else gen.lit(v, ps)))
            q = "update %s set %s where %s = ?" % (name, ", ".join(asg), t.pk)
            ps.append(self.key(t, rng))
        elif x < 0.7:
            q, ps = "delete from %s where %s = ?" % (name, t.pk), [self.key(t, rng)]
        elif x < 0.85:
            q = "select %s from %s where %s = ?" % (rng.choice(["*", rng.choice(t.fields).name]), name, t.pk)
            ps = [self.key(t, rng)]
        elif x < 0.95:
            q, ps = "select all * from %s limit ?" % name, [rng.choice([0, 1, 3, 100])]
        elif x < 0.97:
            q = rng.choice(["create space x%d" % rng.randrange(3), "drop space allow not empty x%d" % rng.randrange(3),
                            "alter space x%d with { env: { a: ?, d: { b%d: ? } } }" % (rng.randrange(3), rng.randrange(3))])
            ps = [1, "z" * rng.randrange(40)] if "?" in q else []
        elif x < 0.98:
            q = rng.choice(["inspect model %s" % name, "inspect space w", "inspect global", "use w", "use null"])
        else:
            q = "select * from %s where %s = ?" % (name, t.pk)
            q = list(q)
            for _ in range(rng.choice([1, 2, 5])):
                q[rng.randrange(len(q))] = rng.choice("?'\"\\{}[](),;:.*= \n\0aé0")
            q, ps = "".join(q), [gen.good(rng.choice(["string", "binary", "uint64"]), rng)] * q.count("?")
        return q, ps

    def ins_null(self, t, name, vals):
        ps = []
        return "insert into %s { %s }" % (name, ", ".join("%s: %s" % (k, "null" if v is None else gen.lit(v, ps)) for k, v in vals.items())), ps

    def client(self, seed, until):
        rng = random.Random(seed)
        c = None
        while time.time() < until and not self.stop:
            try:
                if c is None:
                    c = self.s.conn()
                batch = [self.one(c, rng) for _ in range(rng.choice([1, 1, 4, 30]))]
                self.trace.extend((q, repr(p)[:200]) for q, p in batch)
                del self.trace[:-60]
                c.send(b"".join(enc_query(q, p) for q, p in batch))
                x = rng.random()
                if x < 0.01:
                    # gone in the middle of its answers, or of a request
                    if rng.random() < .5:
                        c.send(enc_query("insert into w.m0(?, ?)", ("a" * 5000, 1))[:-7])
                    c.close()
                    c = None
                    self.counts["vanished"] = self.counts.get("vanished", 0) + 1
                    continue
                if x < 0.02:
                    b = bytearray(enc_query("select * from w.m0 where k = ?", (b"x" * rng.choice([0, 1, 100]),)))
                    for _ in range(rng.choice([1, 2, 4])):
                        b[rng.randrange(len(b))] = rng.randrange(256)
                    c.send(bytes(b))
                    self.counts["mangled"] = self.counts.get("mangled", 0) + 1
                    time.sleep(0.01)
                    c.close()
                    c = None
                    continue
                for _ in batch:
                    r = c.resp()
                    k = "refused" if isinstance(r, Err) else "done"
                    self.counts[k] = self.counts.get(k, 0) + 1
            except (ConnClosed, RecvTimeout, HandshakeError, ProtoError, OSError, TypeError) as e:
                self.counts["broken:" + type(e).__name__] = self.counts.get("broken:" + type(e).__name__, 0) + 1
                c = None
                if not self.s.alive():
                    return
                time.sleep(0.02)
        if c:
            c.close()


def memory(sub, binary):
    rng = sub.rng
    n = 0
    s = Server(binary, os.path.join(sub.dir, "asan%d" % sub.idx), rs_window=1, env=ASAN)
    counts, trace = {}, []
    tabs = {}
    try:
        while sub.left() > 3:
            try:
                s.start(timeout=90)
            except StartFailed as e:
                look_log(sub, e.log, "start", trace)
                sub.violation("restart", "the database written by this workload is not opened again: rc %r" % (e.rc,), dict(log=e.log[-3000:], trace=trace[-40:]), stop=True)
            if n == 0:
                c = s.conn()
                c.q("create space w")
                c.close()
            ld = Load(s, rng, counts, trace)
            ld.tabs = tabs
            until = time.time() + min(sub.left() - 2, rng.choice([3, 5, 9]))
            ths = [threading.Thread(target=ld.client, args=(rng.random(), until)) for _ in range(rng.choice([1, 3, 5]))]
            [t.start() for t in ths]
            if rng.random() < 0.4:
                # stopped in the middle of its work
                time.sleep(max(0, until - time.time() - 1))
                midway = True
            else:
                [t.join() for t in ths]
                midway = False
            look(sub, s, "workload", trace)
            rc = s.stop()
            ld.stop = True
            [t.join() for t in ths]
            s.proc = None
            look_log(sub, s.log(), "workload and shutdown", trace)
            if rc != 0:
                sub.violation("exit:%r" % (rc,), "the server ended with %r instead of 0" % (rc,), dict(log=s.log()[-3000:], trace=trace[-40:]), stop=True)
            n += 1
            sub.case(("life", sub.idx, n, midway))
            sub.count("server_lives")
        sub.sample(dict(statements=trace[-3:]))
    finally:
        for k, v in counts.items():
            sub.count("asan:" + k, v)
        s.kill()


def look_log(sub, log, where, trace):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log)
    if m:
        at = m.start()
        f = FRAME.search(log, at)
        f = f.group(1) if f else "?"
        sub.violation("asan:%s:%s" % (m.group(1), f), "%s: AddressSanitizer: %s at %s" % (where, m.group(1), f), dict(report=log[at:at + 8000], trace=trace[-40:]), stop=True)
    for loc, msg in panics(log):
        sub.violation("panic:" + loc, "%s: panic at %s: %s" % (where, loc, msg), dict(log=log[-4000:], trace=trace[-40:]), stop=True)


# -- memory is given back: the same work over and over, the live heap of the server read when it is idle

def ok(r):
    if isinstance(r, Err):
        raise Inconclusive("a statement of the growth workload was refused: %r" % r)


def g_rows(s, c, i):
    for j in range(700):
        k = "key-%d" % j
        ok(c.q("insert into s.m(?,?,?,[?,?],?)", k, "v" * 200, b"b" * 200, "a" * 50, "b", 7))
        ok(c.q("update s.m set v = ?, n += ? where k = ?", "w" * 100, 1, k))
        ok(c.q("update s.m set l += ?, b = ? where k = ?", "zz" * 20, b"c" * 40, k))
        c.q("select * from s.m where k = ?", k)
    c.q("select all * from s.m limit ?", 1000)
    for j in range(700):
        ok(c.q("delete from s.m where k = ?", "key-%d" % j))
    return 700


def g_bin(s, c, i):
    for j in range(1000):
        ok(c.q("insert into s.b(?,?)", b"k%d" % j, [1.5, True, 3][j % 1]))
    for j in range(1000):
        ok(c.q("delete from s.b where k = ?", b"k%d" % j))
    return 1000


def g_ints(s, c, i):
    """rows that come and go next to rows that stay: the index keeps many integer keys in one leaf"""
    for j in range(300):
        for k in range(8):
            ok(c.q("insert into s.i(?,?)", 1000 + k, "v" * 300))
            if k % 3 == 0:
                c.q("insert into s.i(?,?)", 1000 + k, "w" * 300)
                ok(c.q("update s.i set v = ? where k = ?", "u" * 200, 1000 + k))
        for k in range(8):
            ok(c.q("delete from s.i where k = ?", 1000 + (k * 5 + j) % 8))
        c.q("delete from s.i where k = ?", 1000)
    return 2400


def g_replace(s, c, i):
    """rows that stay while their cells are replaced, refused assignments included"""
    for j in range(700):
        k = "stay%d" % (j % 20)
        ok(c.q("update s.m set v = ?, b = ? where k = ?", "w" * (100 + j % 7), b"c" * 60, k))
        if not isinstance(c.q("update s.m set v = ?, b = ?, n += ? where k = ?", "w" * 90, b"d" * 80, 2 ** 64 - 1, k), Err):
            raise Inconclusive("an overflowing update was accepted")
        c.q("insert into s.m(?,?,?,[?,?],?)", k, "v" * 200, b"b" * 200, "a" * 50, "b", 7)
        c.q("update s.m set l += ?, n += ? where k = ?", "q" * 60, 2 ** 64 - 1, k)
    return 700


def g_models(s, c, i):
    for j in range(25):
        ok(c.q("create model s.t%d(k: uint64, v: string, l: list { type: list { type: uint8 } })" % j))
        for x in range(5):
            ok(c.q("insert into s.t%d(?,?,[])" % j, x, "x" * 100))
        ok(c.q("drop model allow not empty s.t%d" % j))
    return 25


def g_wide(s, c, i):
    """models that never have a row"""
    fs = ", ".join("field_with_a_long_name_%d: list { type: list { type: string } }" % x for x in range(12))
    for j in range(150):
        ok(c.q("create model s.w%d(k: uint64, %s)" % (j % 5, fs)))
        ok(c.q("drop model s.w%d" % (j % 5)))
    return 150


def g_alters(s, c, i):
    for j in range(40):
        ok(c.q("alter model s.m add f%d { type: string, nullable: true }" % j))
        ok(c.q("alter model s.m remove f%d" % j))
    return 80


def g_spaces(s, c, i):
    for j in range(60):
        ok(c.q("create space t%d with { env: { a: ?, d: { x: ? } } }" % j, 1, "y" * 30))
        ok(c.q("alter space t%d with { env: { a: ?, d: { y: ? } } }" % j, 2, "y" * 30))
        ok(c.q("create space if not exists t%d" % j)) if False else c.q("create space t%d" % j)
        ok(c.q("drop space t%d" % j))
    return 60


FAILS = [("selec", ()), ("select * from s.nosuch where k = ?", ("a",)), ("insert into s.m(?,?,?,[?,?],?)", ("k", "v" * 200, b"", 1, "x", 1)),
         ("insert into s.m(?,?,?,[?,?],?)", ("k", "v" * 200, b"", "a" * 50, "x", "no")), ("create model s.m(k: string, v: string)", ()),
         ("alter model s.m remove (nosuch)", ()), ("create model s.t(k: string, v: nosuch)", ()), ("insert into s.m(?, 'unterminated", ("k",)),
         ("alter model s.m add (a1 { type: string, nullable: true }, v { type: string })", ()), ("drop model s.m", ()), ("drop space s", ()),
         ("insert into s.m { k: ?, v: ?, nosuch: ? }", ("k", "v" * 99, "w" * 99)), ("alter space s with { env: ? }", (1,)),
         ("sysctl create user root with { password: ? }", ("p" * 20,)), ("select * from s.m where v = ?", ("x",))]


def g_fails(s, c, i):
    for j in range(80):
        for q, p in FAILS:
            if not isinstance(c.q(q, *p), Err):
                raise Inconclusive("accepted: " + q)
    return 80


def g_conns(s, c, i):
    for j in range(4):
        d = s.conn()
        d.q("use s")
        d.q("select * from s.m where k = ?", "stay1")
        d.close()
    for j in range(120):
        try:
            d = Conn(s.port, handshake=False)
            d.send([b"H\0\0\0" + os.urandom(30), b"H", b"H\0\0\0\0\0" + b"4\n8\nroot"][j % 3])
            d.close()
        except OSError:
            pass
    for j in range(4):
        d = s.conn()
        d.send(enc_query("select * from s.m where k = ?", ("x" * 30000,))[:[50, 20000, 1][j % 3]])
        d.close()
    return 120


def g_users(s, c, i):
    for j in range(5):
        ok(c.q("sysctl create user u%d with { password: ? }" % j, "p" * 20))
        c.q("sysctl create user u%d with { password: ? }" % j, "p" * 20)
        ok(c.q("sysctl alter user u%d with { password: ? }" % j, "q" * 30))
        ok(c.q("sysctl drop user u%d" % j))
    return 5


# workload, and what an operation may keep (the history of field additions and removals is kept by design)
GROW = [(g_rows, 0), (g_replace, 0), (g_models, 0), (g_alters, 200), (g_spaces, 0), (g_fails, 0), (g_conns, 0), (g_users, 0), (g_bin, 0), (g_wide, 0), (g_ints, 0)]
SLACK, BLOCKS = 65536, 500


def growth(sub, binary, which):
    fn, keep = GROW[which]
    h = Heap(os.path.join(sub.dir, "heap%d" % which))
    s = Server(binary, os.path.join(sub.dir, "grow%d" % which), rs_window=1, env=h.env(), loglevel="error")
    s.start(timeout=90)
    try:
        c = s.conn()
        for q in ("create space s", "create model s.m(k: string, v: string, b: binary, l: list { type: string }, null n: uint64)", "create model s.b(k: binary, v: float64)", "create model s.i(k: uint64, v: string)"):
            ok(c.q(q))
        for j in range(5):
            ok(c.q("insert into s.i(?,?)", j, "stays"))
        for j in range(20):
            ok(c.q("insert into s.m(?,?,?,[?,?],?)", "stay%d" % j, "v" * 200, b"b" * 200, "a" * 50, "b", 7))

        def idle():
            """the smallest live heap once the deltas are written and the reclamation had its chances"""
            end = time.time() + 1.2
            best = h.read()
            while time.time() < end:
                c.q("select * from s.m where k = ?", "nosuch")
                c.q("select * from s.b where k = ?", b"nosuch")
                c.q("select * from s.i where k = ?", 77)
                time.sleep(0.02)
                b = h.read()
                best = b if b[0] < best[0] else best
            return best
        seen, ops = [], 0

        def cycle():
            n = fn(s, c, len(seen))
            seen.append(idle()[:2])
            sub.count("growth:" + fn.__name__[2:], n)
            return n
        for _ in range(3):
            cycle()
        for _ in range(5):
            ops += cycle()
        for i, slack, kp, unit in ((0, SLACK, keep, "bytes"), (1, BLOCKS, keep / 200, "blocks")):
            base, now = max(x[i] for x in seen[1:3]), min(x[i] for x in seen[-2:])
            if now - base <= slack + kp * ops:
                continue
            # does it go on?
            base2, ops2 = max(x[i] for x in seen[-2:]), 0
            for _ in range(8):
                ops2 += cycle()
            now2 = min(x[i] for x in seen[-2:])
            if now2 - base2 > slack + kp * ops2:
                sub.violation("growth:" + fn.__name__[2:], "repeating the same %s workload keeps adding to the live heap: %d %s after the first 3 rounds, %d after %d more operations, %d after %d more"
                              % (fn.__name__[2:], base, unit, now, ops, now2, ops2), dict(live=seen), stop=True)
        look_log(sub, s.log(), "growth " + fn.__name__, [])
        if not s.alive():
            sub.violation("server-died", "the server ended in the growth workload", s.log()[-3000:], stop=True)
        sub.sample(dict(workload=fn.__name__[2:], live_bytes=[x[0] for x in seen], live_blocks=[x[1] for x in seen]), cap=9)
        sub.case(("growth", which), n=len(seen))
        sub.count("heap_readings", len(seen))
        c.close()
        rc = s.stop()
        if rc != 0:
            sub.violation("exit:%r" % (rc,), "the server ended with %r after the growth workload" % (rc,), s.log()[-3000:], stop=True)
    finally:
        s.kill()


def worker(sub, asan, plain):
    if sub.idx < len(GROW):
        if plain:
            growth(sub, plain, sub.idx)
    elif asan:
        memory(sub, asan)


def main(c):
    bins, errs = {}, []

    def b(k):
        try:
            bins[k] = binary(c, k)
        except Inconclusive as e:
            errs.append(str(e))
    ths = [threading.Thread(target=b, args=(k,)) for k in ("asan", "plain")]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise Inconclusive(errs[0])
    c.start_clock()
    par.run(c, len(GROW) + 5, worker, bins["asan"], bins["plain"])


if __name__ == "__main__":
    run("M01", main, quick=75, thorough=1500,
        rule="a case is one life of an AddressSanitizer server under a mixed concurrent workload, or one reading of the live heap after a round of a repeated workload")
