import os, random, re, resource, select, socket, ssl, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.client import handshake_bytes
from vlib import par, gen, tls

HUGE = [b"4294967296", b"9223372036854775807", b"9223372036854775808", b"18446744073709551609", b"18446744073709551610", b"18446744073709551614",
        b"18446744073709551615", b"18446744073709551616", b"99999999999999999999999999", b"1" * 300, b"0" * 50 + b"5", b"-1", b"+5", b" 5", b"5 ", b"0x5", b"", b"\x00", b"\xff\xff"]
PW = "verif-root-password-0001"


def rst_close(s):
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
    except OSError:
        pass


def hs_judge(b):
    """('ok', rest) | 'more' | 'bad'; users: root/PW and u/p"""
    if len(b) < 6:
        return "more" if b[:1] in (b"", b"H") or True else "bad"
    if b[:1] != b"H" or any(b[1:6]):
        return "bad"
    i = 6
    ls = []
    for _ in range(2):
        j = b.find(b"\n", i)
        d = b[i:] if j < 0 else b[i:j]
        if d and not d.isdigit():
            return "bad"
        if d and int(d) >= 2**64:
            return "bad"
        if j < 0:
            return "more"
        if not d:
            return "either"          # an empty length: the protocol is silent about it
        ls.append(int(d))
        i = j + 1
    if sum(ls) >= 2**64:
        return "bad"
    if len(b) - i < sum(ls):
        return "more"
    u, p = b[i:i + ls[0]], b[i + ls[0]:i + sum(ls)]
    return ("ok", b[i + sum(ls):]) if (u, p) in ((b"root", PW.encode()), (b"u", b"pw-of-u")) else "bad"


def recv_all(s, timeout):
    """everything until the peer closes; None on timeout"""
    out = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            return None, out
        s.settimeout(left)
        try:
            d = s.recv(65536)
        except (socket.timeout, ssl.SSLWantReadError):
            return None, out
        except OSError:
            return True, out
        if not d:
            return True, out
        out += d


def mutate_bytes(b, rng, n=None):
    b = bytearray(b)
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 8])):
        i = rng.randrange(len(b) + 1)
        x = rng.random()
        if x < 0.35 and i < len(b):
            b[i] = rng.choice([0, 10, 48, 57, 45, 83, 72, 255, rng.randrange(256), (b[i] + 1) & 255, b[i] ^ 128])
        elif x < 0.55:
            b[i:i] = rng.randbytes(rng.choice([1, 1, 2, 5]))
        elif x < 0.75:
            del b[i:i + rng.choice([1, 1, 2, 10])]
        elif x < 0.85:
            del b[i:]
        else:
            b[i:i] = rng.choice(HUGE)
    return bytes(b)


def attack_handshake(sub, port):
    rng = sub.rng
    good = handshake_bytes("root", PW)
    goodu = handshake_bytes("u", "pw-of-u")
    n = 0
    while sub.left() > 0:
        n += 1
        x = rng.random()
        if x < 0.5:
            b = mutate_bytes(rng.choice([good, goodu]), rng)
        elif x < 0.6:
            b = rng.randbytes(rng.choice([1, 5, 6, 7, 20, 100, 5000]))
        elif x < 0.75:
            b = good[:rng.randrange(len(good))]
        elif x < 0.9:
            f = rng.choice([b"H\0\0\0\0\0%s\n%s\n", b"H\0\0\0\0\0%s\n%s", b"H\0\0\0\0\0%s%s"])
            b = f % (rng.choice(HUGE), rng.choice(HUGE + [b"4"])) + rng.choice([b"", b"root", good[9:]])
        else:
            b = b"H" + bytes(rng.choice([0, 0, 1, 2, 255]) for _ in range(5)) + good[6:]
        s = socket.create_connection(("127.0.0.1", port), timeout=20)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        cut = rng.randrange(len(b) + 1) if b else 0
        try:
            s.sendall(b[:cut])
            if rng.random() < 0.5:
                time.sleep(rng.choice([0, 0.0005, 0.002]))
            s.sendall(b[cut:])
        except OSError:
            pass
        sub.case(("hs", b[:400]))
        if rng.random() < 0.25:
            (rst_close if rng.random() < 0.5 else lambda s: s.close())(s)
            sub.count("hs_aborted")
            continue
        try:
            s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        v = hs_judge(b)
        done, out = recv_all(s, 20)
        s.close()
        if done is None:
            sub.violation("hs-hang", "the connection was not closed after a half-closed handshake %r (got %r)" % (b[:200], out[:80]), stop=True)
        sub.count("hs_" + (v if isinstance(v, str) else v[0]))
        if v == "more" and (out == b"" or out[:3] == b"H\0\1"):
            continue
        if v == "either":
            continue
        if v == "bad" and (len(out) == 4 and out[:3] == b"H\0\1" and out[3] <= 5):
            continue
        # the reply to a rejected handshake may be lost when unread input resets the connection
        if v == "bad" and out == b"":
            sub.count("hs_bad_reset")
            if len(b) <= 16384 and x >= 0 and sub.counters["hs_bad_reset"] > max(20, sub.counters.get("hs_bad", 0) // 2):
                sub.violation("hs-noreply", "rejected handshakes such as %r get no reply" % b[:100], stop=True)
            continue
        if isinstance(v, tuple) and out[:4] == b"H\0\0\0":
            continue
        sub.violation("hs-reply", "handshake %r (%s) was answered %r" % (b[:300], v if isinstance(v, str) else "valid", out[:100]), stop=True)


def frame_parse(b):
    """('ok', query, params, rest) | 'more' | 'bad' for the first packet of b"""
    if not b:
        return "more"
    if b[:1] != b"S":
        return "bad"
    i, ns = 1, []
    for k in range(2):
        j = b.find(b"\n", i)
        d = b[i:] if j < 0 else b[i:j]
        if d and (not d.isdigit() or int(d) >= 2**64):
            return "bad"
        if j < 0:
            return "more"
        if not d:
            return "either"
        i = j + 1
        ns.append(int(d))
        if k == 0:
            end = i + ns[0]
            if end >= 2**64:
                return "bad"
        if i > end:
            return "bad"
    if ns[1] > end - i:
        return "bad"
    if len(b) < end:
        return "more"
    return ("ok", b[i:i + ns[1]], b[i + ns[1]:end], b[end:])


def missing(b):
    m = re.match(rb"S(\d+)\n", b)
    return m.end() + int(m.group(1)) - len(b) if m else 0


def attack_frames(sub, port):
    """requests cut off, damaged or mis-framed: exactly the complete ones are executed"""
    rng = sub.rng
    me = Conn(port, "u", "pw-of-u")
    serial = sub.idx * 10**9
    pre = [Conn(port, "u", "pw-of-u") for _ in range(3)]
    while sub.left() > 0:
        serial += 1
        c = pre.pop() if pre else Conn(port, "u", "pw-of-u")
        val = gen.rstr(rng, rng.random() < 0.05)
        req = enc_query("insert into x.a(?, ?)", (serial, val))
        x = rng.random()
        extra = b""
        if x < 0.15:
            b = req[:rng.randrange(len(req))]
        elif x < 0.8:
            b = mutate_bytes(req, rng)
        elif x < 0.9:
            i = req.index(b"\n")
            b = b"S" + rng.choice(HUGE + [b"%d" % max(0, int(req[1:i]) + d) for d in (-30, -5, -2, -1, 1, 2, 5, 100)]) + req[i:]
        else:
            h = req.split(b"\n", 2)
            b = h[0] + b"\n" + rng.choice(HUGE + [b"%d" % max(0, int(h[1]) + d) for d in (-22, -5, -1, 1, 2, 30, 1000)]) + b"\n" + h[2]
        if rng.random() < 0.3:
            b = enc_query("select v from x.canary where k = ?", (1,)) * rng.choice([1, 2]) + b
        cut = 0
        try:
            cut = rng.randrange(len(b) + 1) if rng.random() < 0.1 else 0
            c.s.sendall(b[:cut])
            if cut and rng.random() < 0.4:
                time.sleep(rng.choice([0, 0.0005]))
            c.s.sendall(b[cut:])
        except OSError:
            pass
        if rng.random() < 0.7:
            # fill up an unfinished packet, so that the connection can go on
            rest = b
            while True:
                v = frame_parse(rest)
                if not isinstance(v, tuple):
                    break
                rest = v[3]
            need = missing(rest) if v == "more" and rest else 0
            if 0 < need < 3000:
                fill = bytes(rng.choice(b"\0\n a?5") for _ in range(need))
                b += fill
                try:
                    c.s.sendall(fill)
                except OSError:
                    pass
                sub.count("filled")
        sub.case(("fr", b[:400]))
        # what may have been executed
        rest, may = b, False
        verdicts = []
        while rest:
            v = frame_parse(rest)
            if v == "bad" and len(rest) < 5:
                v = "either"         # too short for the server to look at
            verdicts.append(v if isinstance(v, str) else "ok")
            if isinstance(v, str):
                may = may or (v in ("either", "bad") and (b"insert into x.a(?, ?)" in rest[3:] and rest.count(b"S") > 1 and b"S" in rest[1:]))
                break
            _, q, p, rest = v
            if q.startswith(b"insert"):
                may = True
        sub.count("frame_" + (verdicts[-1] if verdicts else "empty"))
        y = rng.random()
        if verdicts and verdicts[-1] in ("bad", "ok") and y > 0.1 and len(b) < 2000 and not cut:
            # answered at once; the connection may go on
            try:
                for i in range(verdicts.count("ok") + verdicts.count("bad")):
                    r = c.resp()
                    if verdicts[i] == "bad" and not isinstance(r, Err):
                        sub.violation("frame-bad", "the malformed request in %r was answered %r" % (b[:300], r), stop=True)
                if c.q("use x") is EMPTY and c.pos == len(c.buf):
                    pre.append(c)
                    sub.count("reused")
                else:
                    c.close()
            except (ConnClosed, OSError):
                c.close()
            except RecvTimeout:
                sub.violation("frame-hang", "no response to %r (%r)" % (b[:300], verdicts), stop=True)
            except (ProtoError, UnicodeDecodeError) as e:
                sub.violation("frame-reply", "request bytes %r were answered with malformed bytes: %r" % (b[:300], e), stop=True)
        elif y < 0.2:
            rst_close(c.s)
            time.sleep(0.003)
        else:
            try:
                c.s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            done, out = recv_all(c.s, 20)
            c.s.close()
            if done is None:
                sub.violation("frame-hang", "the connection was not closed after a half-closed request %r (got %r)" % (b[:300], out[:100]), stop=True)
            # the answer is a sequence of well-formed responses
            p = Conn.__new__(Conn)
            p.buf, p.pos, n = out, 0, 0

            class Sock:
                def recv(self, n):
                    return b""
            p.s = Sock()
            try:
                while p.pos < len(p.buf):
                    p.resp()
                    n += 1
            except (ProtoError, UnicodeDecodeError) as e:
                sub.violation("frame-reply", "request bytes %r were answered with malformed bytes %r: %r" % (b[:300], out[:200], e), stop=True)
            except ConnClosed:
                sub.violation("frame-reply", "request bytes %r were answered with a cut response %r" % (b[:300], out[:200]), stop=True)
            if n < verdicts.count("ok"):
                sub.violation("frame-missing", "%d complete requests in %r but only %d responses %r" % (verdicts.count("ok"), b[:300], n, out[:200]), stop=True)
            if "bad" in verdicts and n < verdicts.count("ok") + 1:
                sub.count("bad_without_error")
        r = me.q("select v from x.a where k = ?", serial)
        if isinstance(r, Row) and not may:
            sub.violation("half-executed", "the incomplete or malformed request %r inserted the row %r" % (b[:400], r), stop=True)
        if isinstance(r, Row):
            sub.count("executed")
            me.q("delete from x.a where k = ?", serial)
    for c in pre + [me]:
        c.close()


def attack_load(sub, port):
    """stalled, flooding and vanishing clients"""
    rng = sub.rng
    idle = []
    while sub.left() > 0:
        x = rng.random()
        try:
            if x < 0.25:
                # half-sent handshakes and requests, left open
                s = socket.create_connection(("127.0.0.1", port), timeout=20)
                hb = handshake_bytes("root", PW)
                s.sendall(hb[:rng.randrange(len(hb))])
                idle.append(s)
                sub.count("idle")
            elif x < 0.4:
                c = Conn(port, "u", "pw-of-u")
                c.s.sendall(rng.choice([b"S999999999999\n5\nselec", b"S18446744073709551000\n18446744073709550000\n", b"S100\n20\nselect * from x.can", b"S", b"S4000000000\n"]))
                idle.append(c.s)
                sub.count("stalled_requests")
            elif x < 0.6:
                # many requests for large results, none read, then gone
                c = Conn(port, "u", "pw-of-u")
                c.s.settimeout(0.5)
                n = 0
                try:
                    for _ in range(200):
                        c.s.sendall(enc_query("select all * from x.big limit ?", (1000,)) * 20)
                        n += 20
                except OSError:
                    pass
                sub.count("unread_requests", n)
                if rng.random() < 0.5:
                    idle.append(c.s)
                else:
                    rst_close(c.s)
            elif x < 0.8:
                c = Conn(port, "u", "pw-of-u")
                c.s.sendall(enc_query("select all * from x.big limit ?", (1000,)))
                c.s.recv(rng.choice([1, 100, 5000]))
                (rst_close if rng.random() < 0.7 else lambda s: s.close())(c.s)
                sub.count("cut_responses")
            elif x < 0.9:
                ss = [socket.create_connection(("127.0.0.1", port), timeout=20) for _ in range(150)]
                for s in ss:
                    (rst_close if rng.random() < 0.5 else lambda s: s.close())(s)
                sub.count("bursts")
            else:
                # a large request in one piece
                c = Conn(port, "u", "pw-of-u")
                k = rng.randrange(2**40) + 2**50
                n = rng.choice([1 << 20, 4 << 20])
                r = c.q("insert into x.a(?, ?)", k, "z" * n)
                if r is not EMPTY:
                    sub.violation("large-request", "a request of %d bytes gave %r" % (n, r), stop=True)
                r = c.q("select v from x.a where k = ?", k)
                if not isinstance(r, Row) or r[0].v != "z" * n:
                    sub.violation("large-request", "a value of %d bytes was read back as %s" % (n, repr(r)[:80]), stop=True)
                c.q("delete from x.a where k = ?", k)
                c.close()
                sub.count("large")
        except (ConnClosed, RecvTimeout, OSError, ProtoError) as e:
            sub.violation("refused-client", "a well-behaved step of a client failed while others misbehave: %r" % e, stop=True)
        sub.case(("load", int(x * 40), len(idle)))
        while len(idle) > 120:
            s = idle.pop(rng.randrange(len(idle)))
            (rst_close if rng.random() < 0.5 else lambda s: s.close())(s)


def attack_tls(sub, port, cert):
    """TLS clients that stall or send garbage never keep another one from connecting"""
    rng = sub.rng
    ctx = tls.ctx(cert)
    idle = []
    while sub.left() > 0:
        for _ in range(rng.randint(1, 4)):
            s = socket.create_connection(("127.0.0.1", port), timeout=20)
            x = rng.random()
            try:
                if x < 0.4:
                    pass
                elif x < 0.7:
                    s.sendall(rng.choice([b"\x16\x03\x01\x02\x00\x01", b"\x16\x03\x01", b"H\0\0\0\0\0", rng.randbytes(50), handshake_bytes("root", PW)]))
                else:
                    s.sendall(rng.randbytes(rng.choice([1, 500])))
                    rst_close(s)
            except OSError:
                pass
            idle.append(s)
        t0 = time.time()
        try:
            c = Conn(port, "root", PW, tls=ctx, timeout=15)
            r = c.q("select v from x.canary where k = ?", 1)
        except (ConnClosed, RecvTimeout, OSError, ProtoError) as e:
            sub.violation("tls-blocked", "with %d stalled or broken TLS clients a good one cannot connect: %r after %.1fs" % (len(idle), e, time.time() - t0), stop=True)
        if repr(r) != "Row[string:'canary']":
            sub.violation("tls-result", "over TLS the canary read %r" % (r,), stop=True)
        sub.count("tls_served")
        sub.case(("tls", len(idle), sub.counters["tls_served"]))
        # a broken record in the middle of a session
        if rng.random() < 0.5:
            raw = c.s.detach() if False else None
            try:
                socket.socket(fileno=os.dup(c.s.fileno())).send(rng.randbytes(40))
            except OSError:
                pass
        c.close()
        while len(idle) > 40:
            idle.pop(0).close()


def canary(sub, port, pid):
    """a well-behaved client must not notice anything"""
    rng = sub.rng
    c = Conn(port, "root", PW)
    worst, worstc, n = 0.0, 0.0, 0
    while sub.left() > 0:
        t0 = time.time()
        k = rng.randint(1, 50)
        try:
            r = c.q("select v from x.canary where k = ?", k)
            r2 = c.q("update x.canary set n += ? where k = ?", 1, k)
            n += 1
            if n % 25 == 0:
                t1 = time.time()
                d = Conn(port, "u", "pw-of-u")
                d.q("use x")
                r3 = d.q("select v from canary where k = ?", k)
                d.close()
                worstc = max(worstc, time.time() - t1)
                if repr(r3) != repr(r):
                    sub.violation("canary", "a new connection read %r" % (r3,), stop=True)
        except (ConnClosed, RecvTimeout, OSError, ProtoError, HandshakeError) as e:
            sub.violation("canary", "an innocent client was disturbed: %r" % e, stop=True)
        if repr(r) != "Row[string:'canary']" or r2 is not EMPTY:
            sub.violation("canary", "an innocent client got %r and %r" % (r, r2), stop=True)
        sub.count("canary_rounds")
        worst = max(worst, time.time() - t0)
        time.sleep(0.002)
    sub.notes.append("slowest canary round %.2fs, slowest new connection %.2fs" % (worst, worstc))
    sub.case(("canary", n))
    tot = sum(r[0].v for r in (c.q("select n from x.canary where k = ?", k) for k in range(1, 51)))
    if tot != n:
        sub.violation("canary-count", "%d acknowledged increments of an innocent client left a total of %d" % (n, tot))
    c.close()


def status(pid, key):
    for l in open("/proc/%d/status" % pid):
        if l.startswith(key + ":"):
            return int(l.split()[1])
    return 0


def worker(sub, port, tport, cert, pid):
    f = [canary, attack_handshake, attack_frames, attack_frames, attack_load, attack_tls, attack_handshake][sub.idx]
    if f is attack_tls:
        f(sub, tport, cert)
    elif f is canary:
        f(sub, port, pid)
    else:
        f(sub, port)


def fds_exhausted(c, bin):
    """a server out of descriptors drops the excess and serves again when they are closed"""
    s = server(c, bin, "fd", preexec=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (96, 96)))
    a = s.conn()
    a.q("create space x")
    a.q("create model x.a(k: uint64, v: string)")
    a.q("insert into x.a(?, ?)", 1, "canary")
    ss = []
    for _ in range(140):
        try:
            ss.append(socket.create_connection(("127.0.0.1", s.port), timeout=5))
        except OSError:
            break
    time.sleep(0.5)
    r = a.q("select v from x.a where k = ?", 1)
    if repr(r) != "Row[string:'canary']":
        c.violation("fd-limit", "with all descriptors in use an open connection got %r" % (r,))
    for x in ss:
        x.close()
    t0 = time.time()
    try:
        b = Conn(s.port, "root", s.rootpw, timeout=60)
        r = b.q("select v from x.a where k = ?", 1)
        c.count("fd_recovery_s", round(time.time() - t0, 1))
        if repr(r) != "Row[string:'canary']":
            c.violation("fd-limit", "after all descriptors were in use a new connection got %r" % (r,))
    except (ConnClosed, RecvTimeout, OSError, ProtoError) as e:
        c.violation("fd-limit", "after all descriptors were in use no new connection is served: %r" % e)
    c.case(("fd",))
    health(c, s, "fd limit")
    s.stop()


def main(c):
    bin = binary(c)
    cert, key, pp = tls.make(os.path.join(c.dir, "tls"))
    from vlib.server import free_port
    tport = free_port()
    s = server(c, bin, rootpw=PW, loglevel="error", args=["--endpoint", "tls@127.0.0.1:%d" % tport, "--tlscert", cert, "--tlskey", key, "--tls-passphrase", pp])
    a = s.conn()
    for st, p in [("create space x", ()), ("create model x.canary(k: uint64, v: string, n: uint64)", ()), ("create model x.a(k: uint64, v: string)", ()),
                  ("create model x.big(k: uint64, v: string)", ()), ("sysctl create user u with { password: ? }", ("pw-of-u",))]:
        r = a.q(st, *p)
        if isinstance(r, Err):
            raise Inconclusive("%s: %r" % (st, r))
    for k in range(1, 51):
        a.q("insert into x.canary(?, ?, ?)", k, "canary", 0)
    for k in range(60):
        a.q("insert into x.big(?, ?)", k, "y" * 5000)
    pid = s.proc.pid
    rss0 = status(pid, "VmRSS")
    c.start_clock()
    par.run(c, 7, worker, s.port, tport, cert, pid)
    if health(c, s, "hostile clients"):
        hwm = status(pid, "VmHWM")
        c.count("rss_start_kb", rss0)
        c.count("rss_peak_kb", hwm)
        # at most ~130 open connections, each may hold one 300 kB result or one 4 MB request
        if hwm - rss0 > 1500 * 1024:
            c.violation("memory", "peak memory grew from %d kB to %d kB under clients that sent little" % (rss0, hwm))
        try:
            n = a.q("select all k from x.a limit ?", 10)
            if not isinstance(n, Rows):
                c.violation("canary", "a scan after the attacks gave %r" % (n,))
        except (ConnClosed, RecvTimeout, ProtoError) as e:
            c.violation("canary", "the first connection was lost: %r" % e)
    rc = s.stop()
    if rc != 0:
        c.violation("stop", "the server did not stop cleanly after the attacks: %r" % rc, s.log()[-2000:] if os.path.exists(s.logpath) else None)
    fds_exhausted(c, bin)


if __name__ == "__main__":
    run("N01", main, quick=35, thorough=900,
        rule="a case is one hostile byte stream or client behaviour whose outcome was judged by an independent decoder, or one canary observation")
