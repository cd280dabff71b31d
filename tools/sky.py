"""Minimal skyd runner and client for the demonstrations (self-contained)."""
import json, os, random, shutil, signal, socket, struct, subprocess, sys, tempfile, time

PW = "demo-root-password-001"


def binary():
    for p in (os.environ.get("SKYD", ""), "/opt/vp/target/debug/skyd", os.path.join(os.getcwd(), "target/debug/skyd")):
        if p and os.path.exists(p):
            return p
    sys.exit("skyd binary not found")


class S(int):
    pass


def ep(p):
    if p is None:
        return b"\0"
    if isinstance(p, bool):
        return b"\1" + bytes([p])
    if isinstance(p, S) or isinstance(p, int) and p < 0:
        return b"\3%d\n" % p
    if isinstance(p, int):
        return b"\2%d\n" % p
    if isinstance(p, float):
        return b"\4" + repr(p).encode() + b"\n"
    if isinstance(p, bytes):
        return b"\5%d\n" % len(p) + p
    p = p.encode()
    return b"\6%d\n" % len(p) + p


def req(q, *ps):
    q = q.encode()
    b = b"%d\n" % len(q) + q + b"".join(map(ep, ps))
    return b"S%d\n" % len(b) + b


class Err(int):
    def __repr__(self):
        return "Err(%d)" % self


class Conn:
    def __init__(self, port, user="root", pw=PW, timeout=20):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.b = b""
        if user is not None:
            u, p = user.encode(), pw.encode()
            self.s.sendall(b"H\0\0\0\0\0%d\n%d\n" % (len(u), len(p)) + u + p)
            h = self.take(4)
            if h != b"H\0\0\0":
                raise PermissionError(h)

    def take(self, n):
        while len(self.b) < n:
            d = self.s.recv(1 << 16)
            if not d:
                raise ConnectionError("closed")
            self.b += d
        r, self.b = self.b[:n], self.b[n:]
        return r

    def line(self):
        while b"\n" not in self.b:
            d = self.s.recv(1 << 16)
            if not d:
                raise ConnectionError("closed")
            self.b += d
        r, self.b = self.b.split(b"\n", 1)
        return r

    def cell(self, t=None):
        t = self.take(1)[0] if t is None else t
        if t == 0:
            return None
        if t == 1:
            return bool(self.take(1)[0])
        if t <= 9:
            return int(self.line())
        if t <= 11:
            return float(self.line())
        if t == 12:
            return self.take(int(self.line()))
        if t == 13:
            return self.take(int(self.line())).decode()
        if t == 14:
            return [self.cell() for _ in range(int(self.line()))]
        raise ValueError("tag %d" % t)

    def resp(self):
        t = self.take(1)[0]
        if t <= 14:
            return self.cell(t)
        if t == 0x10:
            return Err(struct.unpack("<H", self.take(2))[0])
        if t == 0x11:
            return tuple([self.cell() for _ in range(int(self.line()))])
        if t == 0x12:
            return "ok"
        if t == 0x13:
            n, c = int(self.line()), int(self.line())
            return sorted([tuple(self.cell() for _ in range(c)) for _ in range(n)], key=repr)
        raise ValueError("code %d" % t)

    def q(self, q, *ps):
        self.s.sendall(req(q, *ps))
        return self.resp()

    def close(self):
        self.s.close()


class Server:
    def __init__(self, window=300, env=None, args=()):
        self.dir = tempfile.mkdtemp(prefix="skydemo-")
        self.window, self.env, self.args, self.p = window, env or {}, list(args), None

    def start(self, wait=30):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.log = open(self.dir + ".log", "ab")
        self.p = subprocess.Popen([binary(), "--auth-root-password", PW, "--endpoint", "tcp@127.0.0.1:%d" % self.port, "--service-window",
                                   str(self.window)] + self.args, cwd=self.dir, stdout=self.log, stderr=self.log, env=dict(os.environ, **self.env))
        end = time.time() + wait
        while time.time() < end:
            if self.p.poll() is not None:
                raise RuntimeError("server exited %r: %s" % (self.p.returncode, open(self.dir + ".log").read()[-800:]))
            try:
                socket.create_connection(("127.0.0.1", self.port), timeout=1).close()
                return self
            except OSError:
                time.sleep(0.03)
        raise RuntimeError("server did not start")

    def conn(self, *a, **k):
        return Conn(self.port, *a, **k)

    def stop(self):
        self.p.send_signal(signal.SIGTERM)
        return self.p.wait(60)

    def kill(self):
        if self.p and self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def clean(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)
        try:
            os.unlink(self.dir + ".log")
        except OSError:
            pass


def demo(f, **kw):
    """f(server) raises AssertionError (or anything) when the property is broken"""
    s = Server(**kw)
    try:
        s.start()
        f(s)
    except BaseException as e:
        print("FAILED: %s: %r" % (type(e).__name__, e))
        s.clean()
        sys.exit(1)
    s.clean()
    print("ok")
