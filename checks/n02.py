import os, random, socket, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.client import handshake_bytes
from vlib import par, gen

ST = ["bool", "uint8", "uint16", "uint32", "uint64", "sint8", "sint16", "sint32", "sint64", "float32", "float64", "binary", "string"]


class Tap(Conn):
    """a connection that keeps the raw bytes of each response"""

    def raw(self):
        at = self.pos
        keep, self.buf, self.pos = self.buf[self.pos:], self.buf[self.pos:], 0
        self.taken = b""
        r = self.resp()
        return r, self.buf[:self.pos] if not self.dropped else self.dropped + self.buf[:self.pos]

    dropped = b""

    def resp(self):
        self.dropped = b""
        return Conn.resp(self)

    def _fill(self):
        if self.pos:
            self.dropped += self.buf[:self.pos]
        Conn._fill(self)


def send_split(c, data, cuts, delay):
    at = 0
    for x in sorted(set(cuts)) + [len(data)]:
        if x > at:
            c.send(data[at:x])
            at = x
            if x < len(data) and delay:
                time.sleep(delay)


def sequence(rng, k):
    """requests with a deterministic answer when row k does not exist at the start; the last one restores that"""
    out = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 60])):
        x = rng.random()
        if rng.random() < 0.03:
            # a long query text: padding, or a long list of parameters
            n = rng.choice([255, 256, 4000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 99990, 131072, 200001])
            if rng.random() < 0.7:
                pre, post = rng.choice([("select * from n.m where", "k = ?"), ("select s from n.m", "where k = ?"), ("", "select * from n.m where k = ?"), ("select * from n.m where k = ?", "")])
                t = pre + rng.choice(" \n\t") * max(1, n - len(pre) - len(post)) + post
                out.append(enc_query(t, (k,)))
            else:
                m = max(1, n // 20)
                out.append(enc_query("delete from n.m where k = ?", (k,)))
                out.append(enc_query("insert into n.m(?, ?, ?, [%s])" % ",".join(["?"] * m), [k, "s", b""] + ["%d" % (i % 97) for i in range(m)]))
                out.append(enc_query("select l from n.m where k = ?", (k,)))
            continue
        if x < 0.2:
            out.append(enc_query("insert into n.m(?, ?, ?, [?, ?])", (k, gen.rstr(rng, rng.random() < 0.1), gen.rbytes(rng, rng.random() < 0.1), gen.rstr(rng), "")))
        elif x < 0.45:
            out.append(enc_query(rng.choice(["select * from n.m where k = ?", "select s, l from n.m where k = ?", "select b from n.m where k=?"]), (k,)))
        elif x < 0.6:
            out.append(enc_query("update n.m set s = ?, b = ? where k = ?", (gen.rstr(rng, rng.random() < 0.15), gen.rbytes(rng), k)))
        elif x < 0.7:
            out.append(enc_query("update n.m set l += ? where k = ?", (gen.rstr(rng), k)))
        elif x < 0.78:
            out.append(enc_query("delete from n.m where k = ?", (k,)))
        elif x < 0.84:
            out.append(enc_query(rng.choice(["", "selec", "select * from n.m where", "use nosuch", "use n", "use null", "use $current", "inspect model n.m2", "sysctl report status", "create space n", "create space if not exists n"])))
        elif x < 0.92:
            out.append(enc_query("select * from n.big where k = ?", (rng.randint(0, 3),)))
        else:
            out.append(enc_query("select all * from n.big limit ?", (rng.choice([0, 1, 2, 4, 100]),)))
    out.append(enc_query("delete from n.m where k = ?", (k,)))
    out.append(enc_query("use null"))
    return out


def worker(sub, port, pw):
    rng = sub.rng
    c = Tap(port, "root", pw)
    base = 1000 * (sub.idx + 1)
    hist = []

    def bad(sig, what, det=None):
        sub.violation(sig, what, det or hist[-6:], stop=True)

    def one_by_one(reqs):
        out = []
        for r in reqs:
            c.send(r)
            try:
                out.append(c.raw()[1])
            except (ConnClosed, RecvTimeout, ProtoError) as e:
                bad("no-response", "%r got no well-formed response: %r" % (r[:200], e))
        return out

    def drain(conn, want, what):
        got = b""
        total = sum(map(len, want))
        try:
            while len(got) < total:
                got += conn.take(min(1 << 16, total - len(got))) if False else conn.take(1) + conn.buf[conn.pos:]
                conn.pos = len(conn.buf)
        except (ConnClosed, RecvTimeout) as e:
            bad("missing-response", "%s: %d of %d response bytes, then %r" % (what, len(got), total, e), dict(got=repr(got[:500]), want=repr(b"".join(want)[:500])))
        if got != b"".join(want):
            w = b"".join(want)
            i = next((i for i in range(min(len(got), len(w))) if got[i] != w[i]), min(len(got), len(w)))
            bad("different-response", "%s: responses differ at byte %d of %d: %r instead of %r" % (what, i, len(w), got[max(0, i - 20):i + 40], w[max(0, i - 20):i + 40]), dict(hist=hist[-2:]))

    # connections of this worker that must never see each other's answers
    others = [Tap(port, "root", pw) for _ in range(3)]
    k = base
    rounds = 0
    while sub.left() > 0:
        rounds += 1
        k = base + rng.randint(0, 900)
        reqs = sequence(rng, k)
        want = one_by_one(reqs)
        data = b"".join(reqs)
        hist.append([repr(r[:120]) for r in reqs])
        del hist[:-10]
        # coalesced in one segment, then fragmented in several ways
        for mode in range(4):
            conn = rng.choice(others)
            if mode == 0:
                cuts, delay = [], 0
            elif mode == 1:
                cuts = [rng.randrange(1, len(data)) for _ in range(rng.choice([1, 2, 3]))]
                delay = rng.choice([0.0005, 0.002, 0.005])
            elif mode == 2:
                # cut near the packet boundaries and inside the length fields
                at, cuts = 0, []
                for r in reqs[:20]:
                    hl = r.index(b"\n", r.index(b"\n") + 1) + 1
                    cuts += [at + rng.choice(list(range(hl + 1)) + [len(r) - 1])]
                    if hl > 14:
                        # long packets: each position of the two length fields
                        cuts += [at + x for x in range(1, hl + 1)]
                    at += len(r)
                delay = rng.choice([0, 0.0005, 0.001, 0.002])
            else:
                if len(data) > 3000:
                    continue
                cuts, delay = range(len(data)), 0
            send_split(conn, data, cuts, delay)
            drain(conn, want, "mode %d, cuts %r" % (mode, sorted(set(cuts))[:30]))
            sub.case(("frag", mode, k, len(data), tuple(sorted(set(cuts)))[:50]))
            sub.count("requests_replayed", len(reqs))
            sub.count("mode_%d" % mode)
        # every two-way split of one request (with the tail of another before it)
        if rounds % 3 == 1:
            r = rng.choice([x for x in reqs if len(x) < 200])
            w = one_by_one([r])[0] if not r.split(b"\n", 2)[2].startswith((b"insert", b"update n.m set l", b"delete")) else None
            if w is not None:
                for x in range(1, len(r)):
                    send_split(c, r, [x], 0.0003)
                    drain(c, [w], "split of %r at %d" % (r[:80], x))
                sub.case(("split", r))
                sub.count("splits", len(r) - 1)
        # a long packet whose length fields arrive byte by byte
        if rounds % 2 == 0:
            n = rng.choice([9998, 32768, 65536, 99999, 131072, 250007, 1 << 20])
            pre, post = "select * from n.big where", "k = ?"
            r = enc_query(pre + " " * max(1, n - len(pre) - len(post)) + post, (rng.randint(0, 1),))
            w = one_by_one([r])[0]
            if not w.startswith(b"\x11"):
                bad("padded", "a select padded to %d bytes answered %r" % (n, w[:60]))
            hl = r.index(b"\n", r.index(b"\n") + 1) + 1
            conn = rng.choice(others)
            send_split(conn, r, list(range(1, hl + 1)) + [rng.randrange(hl, len(r))], 0.0007)
            drain(conn, [w], "length fields of a %d byte query byte by byte" % n)
            sub.case(("header", n, rounds))
            sub.count("long_headers")
        # pipelining on several connections at once, read back later
        plan = []
        for i, conn in enumerate(others):
            kk = base + 901 + i
            rq = sequence(rng, kk)
            plan.append((conn, rq, kk))
        wants = [one_by_one(rq) for _, rq, _ in plan]
        for (conn, rq, _) in plan:
            conn.send(b"".join(rq[:len(rq) // 2]))
        for (conn, rq, _) in plan[::-1]:
            conn.send(b"".join(rq[len(rq) // 2:]))
        for (conn, rq, _), w in zip(plan, wants):
            drain(conn, w, "interleaved connections")
            sub.count("requests_replayed", len(rq))
        sub.case(("multi", k, rounds))
        # a parameter of every type comes back exactly
        for ty in rng.sample(ST, 4) + [("list", rng.choice(ST))]:
            v = gen.good(ty, rng, 0.3)
            if rng.random() < 0.12 and ty in ("string", "binary"):
                n = rng.choice([16383, 16384, 16385, 65536, 1 << 20, 3 << 20])
                v = rng.randbytes(n) if ty == "binary" else "é☃a" * (n // 6)
            col = "l_" + ty[1] if isinstance(ty, tuple) else "f_" + ty
            ps = []
            txt = gen.lit(v, ps)
            r1 = others[0].q("update n.t set %s = %s where k = ?" % (col, txt), *(ps + [base])) if not isinstance(v, list) else None
            if isinstance(v, list):
                kk = base + 500
                others[0].q("delete from n.%s where k = ?" % col, kk)
                r1 = others[0].q("insert into n.%s(?, %s)" % (col, txt), *([kk] + ps))
                r2 = others[1].q("select l from n.%s where k = ?" % col, kk)
            else:
                r2 = others[1].q("select %s from n.t where k = ?" % col, base)
            if r1 is not EMPTY:
                bad("echo-refused", "value %r of type %r refused: %r" % (v if len(repr(v)) < 300 else type(v), ty, r1))
            want1 = wire(ty, v)
            if not isinstance(r2, Row) or len(r2) != 1 or not (r2[0] == want1 or f32same(ty, r2[0], want1)):
                bad("echo", "value of type %r sent %s came back as %s" % (ty, repr(want1)[:300], repr(r2)[:300]))
            sub.count("echo")
            sub.case(("echo", repr(ty), repr(v)[:200]))
        # handshakes in fragments
        if rounds % 4 == 0:
            hb = handshake_bytes("root", pw) + enc_query("select * from n.big where k = ?", (1,))
            h2 = Tap(port, handshake=False)
            n = rng.choice([1, 2, 3, 10])
            cuts = sorted(rng.randrange(1, len(hb)) for _ in range(n)) if rng.random() < 0.7 else range(len(hb))
            send_split(h2, hb, cuts, rng.choice([0, 0.0005]))
            try:
                a = h2.take(4)
                r = h2.resp()
            except (ConnClosed, RecvTimeout, ProtoError) as e:
                bad("handshake", "fragmented handshake (cuts %r) got no answer: %r" % (list(cuts)[:20], e))
            if a != b"H\0\0\0" or repr(r) != repr(others[0].q("select * from n.big where k = ?", 1)):
                bad("handshake", "fragmented handshake (cuts %r) answered %r %r" % (list(cuts)[:20], a, repr(r)[:200]))
            h2.close()
            sub.case(("hs", tuple(cuts)[:50]))
            sub.count("handshakes")
    # nothing unread is left: one more request per connection
    for conn in others + [c]:
        if repr(conn.q("use null")) != "Empty" or conn.buf[conn.pos:]:
            bad("extra-response", "extra response bytes %r" % conn.buf[conn.pos:][:80])


def f32same(ty, a, b):
    """a 32-bit float may come back with the precision of its type"""
    import struct
    if isinstance(ty, tuple):
        return ty[1] == "float32" and len(a.v) == len(b.v) and all(f32same(ty[1], x, y) for x, y in zip(a.v, b.v))
    return ty == "float32" and a.t == b.t and struct.pack("<f", a.v) == struct.pack("<f", b.v)


def wire(ty, v):
    if isinstance(ty, tuple):
        return V(14, [wire64(ty[1], x) for x in v])
    return V(TAGN[ty], int(v) if isinstance(v, int) and not isinstance(v, bool) else v)


def wire64(ty, v):
    return wire(ty, v)


def main(c):
    bin = binary(c)
    s = server(c, bin)
    a = s.conn()
    for st in ["create space n", "create model n.m(k: uint64, s: string, b: binary, l: list { type: string })",
               "create model n.m2(k: uint64, s: string)", "create model n.big(k: uint64, s: string)",
               "create model n.t(k: uint64, %s)" % ", ".join("null f_%s: %s" % (t, t) for t in ST)] + \
              ["create model n.l_%s(k: uint64, l: list { type: %s })" % (t, t) for t in ST]:
        r = a.q(st)
        if isinstance(r, Err):
            raise Inconclusive("%s: %r" % (st, r))
    for k, n in enumerate((10, 15000, 17000, 80000)):
        a.q("insert into n.big(?, ?)", k, "%d" % k * n)
    for i in range(8):
        r = a.q("insert into n.t(?, %s)" % ", ".join(["null"] * len(ST)), 1000 * (i + 1))
    c.start_clock()
    par.run(c, 6, worker, s.port, s.rootpw)
    health(c, s, "n02")
    a.close()


if __name__ == "__main__":
    run("N02", main, quick=30, thorough=900,
        rule="a case is one request sequence in one fragmentation, one two-way split of a request, one fragmented handshake or one echoed value")
