import fcntl, json, os, shutil, signal, socket, ssl, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.client import HandshakeError, enc_query
from vlib.server import free_port
from vlib import par, tls, fault, gen
from vlib.ddl import DMachine
from vlib.dml import Diverged

SLOW = 40
ENVK = dict(window="SKYDB_SERVICE_WINDOW", mode="SKYDB_RUN_MODE", plugin="SKYDB_AUTH_PLUGIN", pw="SKYDB_AUTH_ROOT_PASSWORD", endpoint="SKYDB_ENDPOINTS",
            cert="SKYDB_TLS_CERT", key="SKYDB_TLS_KEY", pp="SKYDB_TLS_PRIVATE_KEY_PASSWORD")
CLIK = dict(window="--service-window", mode="--mode", plugin="--auth-plugin", pw="--auth-root-password", endpoint="--endpoint",
            cert="--tlscert", key="--tlskey", pp="--tls-passphrase")
TMPL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_!@#$%^&*()+=,.;:/?|~ \"'\\<>[]{}`"


def baseenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith("SKYDB_")}
    e.update(SKY_LOG="info", RUST_BACKTRACE="0")
    return e


def eps(st):
    return ["%s@%s:%d" % x for x in st["eps"]]


def cli(st, rng):
    """settings as command line options, in any order and form"""
    kv = []
    for e in eps(st):
        kv.append(("endpoint", e))
    for k in ("window", "mode", "plugin", "pw") + (("cert", "key", "pp") if any(x[0] == "tls" for x in st["eps"]) else ()):
        if st.get(k) is not None:
            kv.append((k, str(st[k])))
    rng.shuffle(kv)
    out = []
    for k, v in kv:
        out += [CLIK[k] + "=" + v] if rng.random() < .5 else [CLIK[k], v]
    return out


def env(st, rng):
    e = {}
    if st["eps"]:
        x = eps(st)
        rng.shuffle(x)
        e[ENVK["endpoint"]] = ",".join(x)
    for k in ("window", "mode", "plugin", "pw") + (("cert", "key", "pp") if any(x[0] == "tls" for x in st["eps"]) else ()):
        if st.get(k) is not None:
            e[ENVK[k]] = str(st[k])
    return e


def yaml(st, rng):
    secs = ["auth:\n  plugin: pwd\n  root_pass: %s\n" % json.dumps(st["pw"], ensure_ascii=False)]
    if st.get("mode") is not None or st.get("window") is not None:
        l = []
        if st.get("mode") is not None:
            l.append("  mode: %s\n" % st["mode"])
        if st.get("window") is not None:
            l.append("  rs_window: %d\n" % st["window"])
        rng.shuffle(l)
        secs.append("system:\n" + "".join(l))
    if st["eps"]:
        l = []
        for p, h, n in st["eps"]:
            if p == "tcp":
                l.append("  insecure:\n    host: %s\n    port: %d\n" % (h, n))
            else:
                l.append("  secure:\n    host: %s\n    port: %d\n    cert: %s\n    private_key: %s\n    pkey_passphrase: %s\n" % (h, n, st["cert"], st["key"], st["pp"]))
        rng.shuffle(l)
        secs.append("endpoints:\n" + "".join(l))
    rng.shuffle(secs)
    return "# configuration\n" + "\n".join(secs)


class Launch:
    def __init__(self, binary, dir, args=(), env=None, shim=None):
        os.makedirs(dir, exist_ok=True)
        self.dir = dir
        e = baseenv()
        e.update(env or {})
        if shim:
            e.update(shim.env())
        self.logpath = dir + ".log"
        self.logf = open(self.logpath, "wb")
        self.proc = subprocess.Popen([binary] + list(args), cwd=dir, env=e, stdin=subprocess.DEVNULL, stdout=self.logf, stderr=self.logf)

    def log(self):
        with open(self.logpath, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def wait(self, t=SLOW):
        try:
            return self.proc.wait(t)
        except subprocess.TimeoutExpired:
            return "running"

    def stop(self):
        self.proc.send_signal(signal.SIGTERM)
        rc = self.wait()
        self.kill()
        return rc

    def kill(self):
        if self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        self.logf.close()


def connectable(host, port, tmo=2):
    try:
        socket.create_connection((host, port), timeout=tmo).close()
        return True
    except OSError:
        return False


def login(ep, st, pw, tmo=15):
    p, h, n = ep
    h = {"0.0.0.0": "127.0.0.1"}.get(h, h)
    return Conn(n, "root", pw, host=h, tls=tls.ctx(st["cert"]) if p == "tls" else None, timeout=tmo)


class K:
    def __init__(self, sub, binary, mats):
        self.sub, self.rng, self.bin, self.mats = sub, sub.rng, binary, mats
        self.n = 0

    def dir(self):
        self.n += 1
        return os.path.join(self.sub.dir, "k%d-%d" % (self.sub.idx, self.n))

    def bad(self, sig, what, det=None):
        self.sub.violation(sig, what, det, stop=True)

    def launch(self, st, src, d, shim=None):
        if src == "cli":
            a = cli(st, self.rng)
            return Launch(self.bin, d, a, shim=shim), a
        if src == "env":
            e = env(st, self.rng)
            return Launch(self.bin, d, env=e, shim=shim), e
        y = yaml(st, self.rng)
        with open(d + ".yaml", "w") as f:
            f.write(y)
        a = self.rng.choice([["--config", d + ".yaml"], ["--config=" + d + ".yaml"]])
        return Launch(self.bin, d, a, shim=shim), y

    def settings(self):
        rng = self.rng
        st = dict(self.mats[rng.randrange(len(self.mats))])
        n = rng.choice([16, 17, 24, 40, 72])
        st["pw"] = "".join(rng.choice(TMPL) for _ in range(n))
        if rng.random() < .15:
            st["pw"] = "pässwörd-%s" % st["pw"][:14]
        host = lambda: rng.choice(["127.0.0.1", "127.0.0.1", "localhost", "0.0.0.0", "127.0.0.2"])
        k = rng.choice(["tcp", "tls", "both", "both", "none"])
        st["eps"] = [(p, host(), free_port()) for p in ("tcp", "tls") if k in (p, "both")]
        st["mode"] = rng.choice([None, "dev", "prod"])
        st["window"] = rng.choice([None, 1, 2, 3, 100000, 2**63, 2**64 - 1])
        st["plugin"] = rng.choice([None, "pwd"])
        return st

    def matrix(self):
        rng = self.rng
        st = self.settings()
        srcs = ["cli", "env", "file"]
        rng.shuffle(srcs)
        lock = None
        d = self.dir()
        seen = {}
        try:
            if not st["eps"]:
                # the default endpoint is a fixed port
                lock = open(os.path.join(self.sub.dir, "port2003.lock"), "w")
                fcntl.flock(lock, fcntl.LOCK_EX)
            same_dir = rng.random() < .4
            for i, src in enumerate(srcs):
                dd = d if same_dir else d + src
                seen[src] = self.observe(st, src, dd, fresh=not (same_dir and i))
            for s in srcs[1:]:
                if seen[s] != seen[srcs[0]]:
                    self.bad("sources", "the same settings give different servers: from %s %r, from %s %r" % (srcs[0], seen[srcs[0]], s, seen[s]), st)
            self.sub.case(("matrix", tuple(e[:2] for e in st["eps"]), st["mode"], st["window"], st["plugin"], same_dir))
        finally:
            if lock:
                lock.close()
            for x in (d, d + "cli", d + "env", d + "file"):
                shutil.rmtree(x, ignore_errors=True)

    def observe(self, st, src, d, fresh):
        rng = self.rng
        eff = list(st["eps"]) or [("tcp", "127.0.0.1", 2003)]
        if not st["eps"] and connectable("127.0.0.1", 2003):
            raise RuntimeError("port 2003 is taken by somebody else")
        shim = fault.Shim(d + ".ctl")
        shim.trace(fault.MODEL)
        s, given = self.launch(st, src, d, shim)
        where = "settings from %s" % src
        det = dict(source=src, given=given, settings=st)
        try:
            end = time.time() + SLOW
            while time.time() < end and s.proc.poll() is None and not all(connectable({"0.0.0.0": "127.0.0.1"}.get(h, h), n) for _, h, n in eff):
                time.sleep(.02)
            if s.proc.poll() is not None:
                if "in use" in s.log():
                    return self.retry(st)
                self.bad("refused", "%s: a valid configuration is refused (%r): %s" % (where, s.proc.poll(), s.log()[-800:]), det)
            out = {}
            for ep in eff:
                p, h, n = ep
                try:
                    c = login(ep, st, st["pw"])
                except (OSError, ssl.SSLError, ConnClosed, RecvTimeout, HandshakeError) as e:
                    self.bad("endpoint", "%s: no login at the endpoint %s@%s:%d: %r" % (where, p, h, n, e), det)
                # the endpoint speaks only its protocol, at its address
                if p == "tls":
                    try:
                        Conn(n, "root", st["pw"], host={"0.0.0.0": "127.0.0.1"}.get(h, h), timeout=4)
                        self.bad("plain-on-tls", "%s: a plain client is served at a TLS endpoint" % where, det)
                    except (ConnClosed, RecvTimeout, HandshakeError, ProtoError):
                        pass
                if h in ("127.0.0.1", "localhost") and connectable("127.0.0.3", n, .5):
                    self.bad("address", "%s: an endpoint at %s also listens at 127.0.0.3" % (where, h), det)
                if h == "0.0.0.0" and not connectable("127.0.0.3", n):
                    self.bad("address", "%s: an endpoint at 0.0.0.0 does not listen at 127.0.0.3" % where, det)
                for w in (st["pw"][:-1], st["pw"] + "x", st["pw"][:-1] + ("a" if st["pw"][-1] != "a" else "b"))[:1 + rng.randint(0, 2)]:
                    try:
                        login(ep, st, w)
                        self.bad("password", "%s: the root password %r was set, %r is accepted" % (where, st["pw"], w), det)
                    except HandshakeError:
                        pass
                    except (ConnClosed, RecvTimeout) as e:
                        pass
                if fresh and ep is eff[0]:
                    assert c.q("create space s") is EMPTY
                    assert c.q("create model s.m(k: uint64, v: string)") is EMPTY
                c.close()
            if st["eps"] and 2003 not in [e[2] for e in st["eps"]]:
                for x in (2003, 2004):
                    if listening(s.proc.pid, x):
                        self.bad("extra-endpoint", "%s: the server also listens at port %d" % (where, x), det)
            nl = len(listening(s.proc.pid))
            if nl != len(eff):
                self.bad("extra-endpoint", "%s: %d endpoints configured, the server listens on %d sockets" % (where, len(eff), nl), det)
            log = s.log()
            out["dev"] = "dev mode" in log
            if out["dev"] != (st["mode"] in (None, "dev")):
                self.bad("mode", "%s: mode %r, dev mode warning %r" % (where, st["mode"], out["dev"]), det)
            out["window"] = self.window(st, login(eff[0], st, st["pw"]), shim, where, det)
            for loc, msg in panics(s.log()):
                self.bad("panic:" + loc, "%s: panicked at %s: %s" % (where, loc, msg), det)
            rc = s.stop()
            if rc != 0:
                self.bad("stop", "%s: the server ended with %r on SIGTERM" % (where, rc), det)
            self.sub.count("servers:" + src)
            return out
        finally:
            s.kill()
            shim.close()
            for x in (d + ".ctl", d + ".log", d + ".yaml"):
                if os.path.exists(x):
                    os.unlink(x)

    def window(self, st, c, shim, where, det):
        """the flush period the server shows"""
        w = st["window"] or 300
        n = 2.6 * w if w <= 3 else 2.2
        t0, m0 = time.time(), time.monotonic()
        i = int(t0 * 1e6)
        while time.time() < t0 + n:
            i += 1
            if c.q("insert into s.m(?, ?)", i, "x") is not EMPTY:
                self.bad("insert", "%s: insert refused" % where, det)
            time.sleep(.01)
        c.close()
        ts = []
        for e in shim.events():
            if e["op"] == fault.FSYNC and e["t"] > m0 and (not ts or e["t"] - ts[-1] > .4):
                ts.append(e["t"])
        # nothing but flushes syncs a model journal from here on
        if w > 3:
            if ts:
                self.bad("window", "%s: with a window of %d s the changes were flushed within %.1f s" % (where, w, n), det)
            return "long"
        gaps = [b - a for a, b in zip(ts, ts[1:])]
        if not gaps:
            self.bad("window", "%s: with a window of %d s there was at most one flush in %.1f s" % (where, w, n), det)
        self.sub.count("windows_measured")
        if min(gaps) < w - .5 or max(gaps) > w + 3:
            self.bad("window", "%s: with a window of %d s changes were flushed every %s s" % (where, w, gaps), det)
        return w

    def retry(self, st):
        raise RuntimeError("a port was taken by somebody else")

    # ---- what must be refused
    def invalid(self):
        rng = self.rng
        m = dict(rng.choice(self.mats))
        p1, p2, p3 = free_port(), free_port(), free_port()
        ok = dict(m, pw="a-valid-root-password", eps=[("tcp", "127.0.0.1", p1)], mode="dev", window=300, plugin="pwd")
        okt = dict(ok, eps=[("tcp", "127.0.0.1", p1), ("tls", "127.0.0.1", p2)])
        d = self.dir()
        os.makedirs(d)
        args, e, y = [], {}, None
        what = rng.choice(["setting"] * 6 + ["mixed", "mixed", "none", "unknown", "dup", "tls", "yaml", "junk"])
        name = what
        src = rng.choice(["cli", "env", "file"])

        def place(st, tweak=lambda s: s):
            nonlocal args, e, y
            if src == "cli":
                args = cli(st, rng)
            elif src == "env":
                e = env(st, rng)
            else:
                y = tweak(yaml(st, rng))
        if what == "setting":
            k = rng.choice(["short", "long", "empty", "nopw", "window0", "windowneg", "windowtext", "windowbig", "mode", "plugin", "port", "portneg", "porttext", "scheme", "noport", "nohost"])
            name = k
            st = dict(ok)
            if k in ("short", "long", "empty"):
                st["pw"] = {"short": "x" * rng.choice([1, 8, 15]), "long": "y" * rng.choice([73, 100, 1000]), "empty": ""}[k]
            if k.startswith("window"):
                st["window"] = {"window0": 0, "windowneg": -1, "windowtext": "abc", "windowbig": 2**64}[k]
            if k == "mode":
                st["mode"] = rng.choice(["test", "Dev", "PROD", ""]) if src != "file" else "test"
            if k == "plugin":
                st["plugin"] = "ldap"
            st2 = dict(st)
            if src == "file":
                t = lambda s: s
                if k == "plugin":
                    t = lambda s: s.replace("plugin: pwd", "plugin: ldap")
                if k == "nopw":
                    t = lambda s: s.replace("  root_pass: \"a-valid-root-password\"\n", "")
                if k in ("port", "portneg", "porttext", "noport"):
                    v = {"port": "  port: 65536", "portneg": "  port: -1", "porttext": "  port: abc", "noport": "  nothing: 1"}[k]
                    t = lambda s: s.replace("  port: %d" % p1, v)
                if k == "nohost":
                    t = lambda s: s.replace("    host: 127.0.0.1\n", "")
                if k == "scheme":
                    t = lambda s: s.replace("insecure:", "plain:")
                if k == "windowneg" or k == "windowbig" or k == "window0":
                    pass
                if k == "windowtext":
                    st2["window"] = 300
                    t = lambda s: s.replace("rs_window: 300", "rs_window: abc")
                place(st2, t)
            else:
                if k == "nopw":
                    st2["pw"] = None
                place(st2)
                epv = {"port": "tcp@127.0.0.1:65536", "portneg": "tcp@127.0.0.1:-1", "porttext": "tcp@127.0.0.1:abc", "scheme": "udp@127.0.0.1:%d" % p1,
                       "noport": "tcp@127.0.0.1", "nohost": "127.0.0.1:%d" % p1}.get(k)
                if epv:
                    good = "tcp@127.0.0.1:%d" % p1
                    args = [a.replace(good, epv) for a in args]
                    e = {x: v.replace(good, epv) for x, v in e.items()}
        elif what == "mixed":
            kind = rng.choice(["cli+env", "file+env", "file+cli", "all", "cli+env1", "file+env1", "file+cli1"])
            name = kind
            one = rng.choice(["window", "mode", "pw", "plugin"])
            if "cli" in kind or kind == "all":
                args = cli(ok, rng) if not kind.endswith("cli1") else ["--mode", "dev"]
            if "env" in kind or kind == "all":
                e = env(ok, rng) if not kind.endswith("1") else {ENVK[one]: str(ok[one])}
            if "file" in kind or kind == "all":
                y = yaml(ok, rng)
        elif what == "unknown":
            name = src
            if src == "cli":
                place(ok)
                args += rng.choice([["--no-such-option", "1"], ["--service_window=5"], ["--tlscert", m["cert"]], ["extra"], ["-x"], ["--mode"], ["--endpoints", "tcp@127.0.0.1:%d" % p3]])
            elif src == "env":
                src = "env"
                place(ok)
                e[ENVK["cert"]] = m["cert"]         # a certificate without an endpoint to use it
            else:
                place(ok, lambda s: rng.choice([s + "\nextra: 1\n", s.replace("rs_window", "rs_windows"), s.replace("rs_window", "service_window"), s.replace("  mode: dev", "  mode: dev\n  color: red"),
                                                s.replace("    port: %d" % p1, "    port: %d\n    cert: x" % p1), s.replace("root_pass:", "note: x\n  root_pass:")]))
        elif what == "dup":
            name = src
            if src == "file":
                place(ok, lambda s: s + "\n" + rng.choice(["auth:\n  plugin: pwd\n  root_pass: another-root-password\n", "system:\n  mode: prod\n"]))
            else:
                k = rng.choice(["mode", "window", "plugin", "tcp", "tls", "three"])
                place(okt if k in ("tls", "three") else ok)
                v = {"mode": "prod", "window": "5", "plugin": "pwd"}.get(k)
                if src == "cli":
                    args += [CLIK[k], v] if v else ["--endpoint", "%s@127.0.0.1:%d" % ("tls" if k == "tls" else "tcp", p3)]
                elif v:
                    e[ENVK[k]] += "," + v
                else:
                    e[ENVK["endpoint"]] += ",%s@127.0.0.1:%d" % ("tls" if k == "tls" else "tcp", p3)
        elif what == "tls":
            k = rng.choice(["nocert", "nokey", "nopp", "missing"])
            name = k
            st = dict(okt)
            f = {"nocert": "cert", "nokey": "key", "nopp": "pp"}.get(k)
            if k == "missing":
                st[rng.choice(["cert", "key", "pp"])] = d + "/none"
                place(st)
            elif src == "file":
                fk = {"cert": "cert", "key": "private_key", "pp": "pkey_passphrase"}[f]
                place(st, lambda s: "\n".join(x for x in s.split("\n") if not x.startswith("    %s:" % fk)))
            else:
                st[f] = None
                place(st)
        elif what == "yaml":
            src = "file"
            place(ok, lambda s: rng.choice(["", "just text", "[]", "{", s.replace("auth:", "auth"), s.replace("  root_pass", " root_pass"), "auth: 1\n", s[:rng.randint(0, max(1, s.find("root_pass")))], "\x00" + s]))
        elif what == "junk":
            args = rng.choice([["run"], ["--"], ["=", "x"], ["--=x"], ["", "x"], ["--config"], ["--config", d + "/none.yaml"], ["--config", d], ["--config", "a", "--config", "b"]])
        if y is not None:
            with open(d + ".yaml", "w") as f:
                f.write(y)
            args = args + ["--config", d + ".yaml"]
        s = Launch(self.bin, d, args, e)
        det = dict(kind=what, name=name, source=src, args=args, env=e, yaml=y)
        try:
            rc = s.wait()
            log = s.log()
            if rc == "running":
                self.bad("accepted:%s:%s" % (what, name), "an invalid configuration (%s %s from %s) is accepted" % (what, name, src), det)
            if rc == 0 or (isinstance(rc, int) and rc < 0):
                self.bad("refusal-rc", "an invalid configuration (%s %s from %s) ended with %r" % (what, name, src, rc), det)
            for loc, msg in panics(log):
                self.bad("panic:" + loc, "an invalid configuration (%s %s from %s) panicked at %s: %s" % (what, name, src, loc, msg), det)
            if "rror" not in log:
                if "ERROR" not in log:
                    self.bad("refusal-silent", "an invalid configuration (%s %s from %s) is refused without an error message: %r" % (what, name, src, log[-300:]), det)
            if os.listdir(d):
                self.bad("refusal-touched", "an invalid configuration (%s %s from %s) left %s" % (what, name, src, os.listdir(d)), det)
            if ok["pw"] in log:
                self.bad("password-logged", "the root password is in the log of a refused start", det)
            self.sub.count("refused:" + what)
            self.sub.case(("invalid", what, name, src))
        finally:
            s.kill()
            for x in (d + ".log", d + ".yaml"):
                if os.path.exists(x):
                    os.unlink(x)
            shutil.rmtree(d, ignore_errors=True)

    def informative(self):
        d = self.dir()
        a = self.rng.choice([["--help"], ["-h"], ["--version"], ["-v"], ["--mode", "dev", "--help"]])
        s = Launch(self.bin, d, a)
        rc, log = s.wait(), s.log()
        s.kill()
        if rc != 0 or ("Usage" not in log and "v0" not in log) or os.listdir(d):
            self.bad("help", "%s ended with %r, %r, left %s" % (a, rc, log[:200], os.listdir(d)))
        self.sub.case(("help", tuple(a)))
        shutil.rmtree(d, ignore_errors=True)

    # ---- TLS and plain give the same
    def twins(self):
        rng = self.rng
        st = dict(rng.choice(self.mats))
        st.update(pw="a-valid-root-password", eps=[("tcp", "127.0.0.1", free_port()), ("tls", "127.0.0.1", free_port())], mode="prod", window=1, plugin=None)
        d = self.dir()
        s, given = self.launch(st, rng.choice(["cli", "env", "file"]), d)
        try:
            end = time.time() + SLOW
            while time.time() < end and s.proc.poll() is None and not all(connectable(h, n) for _, h, n in st["eps"]):
                time.sleep(.02)
            cs = [login(x, st, st["pw"]) for x in st["eps"]]
            assert cs[0].q("create space t") is EMPTY
            t = gen.schema(rng, nf=rng.choice([2, 4, 8]))
            name = "t.m"
            r = cs[1].q(gen.create_stmt(t, name))
            if r is not EMPTY:
                self.bad("create", "valid model refused over TLS: %r" % (r,))
            m = DMachine(cs[0], t, name, rng, nkeys=rng.choice([3, 20, 100]))
            for i in range(rng.choice([60, 150])):
                m.c = rng.choice(cs)
                try:
                    m.any_alter() if rng.random() < .05 else m.dml()
                except Diverged as x:
                    self.bad("twins:" + x.sig, "with statements sent over TCP and TLS in turn: " + x.what, m.log[-30:])
                if i % 20 == 19:
                    self.both(cs, "select all * from t.m limit ?", 10**6)
            for q in (["inspect global"], ["inspect space t"], ["inspect model t.m"], ["select all * from t.m limit ?", 3], ["nonsense"], ["select * from t.none where a = ?", 1],
                      ["create space t"], ["use t"], ["sysctl report status"]):
                self.both(cs, *q)
            # large and cut up records
            assert cs[0].q("create model t.big(k: uint64, v: binary)") is EMPTY
            n = rng.choice([16383, 16384, 16385, 100000, 2000000])
            v = rng.randbytes(n)
            q = enc_query("insert into t.big(?, ?)", [1, v])
            w = rng.choice(cs)
            if rng.random() < .5:
                cut = sorted(rng.randint(0, len(q)) for _ in range(8))
                for a, b in zip([0] + cut, cut + [len(q)]):
                    w.send(q[a:b])
            else:
                w.send(q)
            if w.resp() is not EMPTY:
                self.bad("tls-big", "insert of %d bytes refused" % n)
            for c in cs:
                r = c.q("select v from t.big where k = ?", 1)
                if r[0].v != v:
                    self.bad("tls-big", "a value of %d bytes reads differently" % n)
            # pipelined
            k = rng.randint(2, 60)
            for c in cs:
                c.send(b"".join(enc_query("select v from t.big where k = ?", [1]) for _ in range(min(k, 8))) + b"".join(enc_query("inspect space t") for _ in range(k)))
                for _ in range(min(k, 8)):
                    if c.resp()[0].v != v:
                        self.bad("tls-pipeline", "pipelined read differs")
                for _ in range(k):
                    c.resp()
            self.sub.count("twin_sessions")
            self.sub.case(("twins", repr(t.fields), n))
            for loc, msg in panics(s.log()):
                self.bad("panic:" + loc, "panicked at %s: %s" % (loc, msg))
            if s.stop() != 0:
                self.bad("stop", "no clean stop with a plain and a TLS endpoint")
        finally:
            s.kill()
            shutil.rmtree(d, ignore_errors=True)

    def both(self, cs, q, *a):
        r = [c.q(q, *a) for c in cs]
        if repr(canon(r[0])) != repr(canon(r[1])):
            self.bad("twins", "%s: over TCP %r, over TLS %r" % (q, str(r[0])[:500], str(r[1])[:500]))


def canon(r):
    if isinstance(r, Rows):
        return sorted(repr(x) for x in r)
    return r


def listening(pid, port=None):
    """sockets of the process in LISTEN state"""
    inodes = set()
    for f in os.listdir("/proc/%d/fd" % pid):
        try:
            l = os.readlink("/proc/%d/fd/%s" % (pid, f))
        except OSError:
            continue
        if l.startswith("socket:["):
            inodes.add(l[8:-1])
    out = []
    for t in ("tcp", "tcp6"):
        with open("/proc/net/" + t) as f:
            next(f)
            for l in f:
                x = l.split()
                if x[3] == "0A" and x[9] in inodes:
                    p = int(x[1].split(":")[1], 16)
                    if port is None or p == port:
                        out.append(p)
    return out


def worker(sub, binary, mats):
    k = K(sub, binary, mats)
    i = sub.idx
    while sub.left() > 0:
        f = [k.matrix, k.invalid, k.invalid, k.twins, k.matrix, k.invalid, k.invalid, k.informative][i % 8]
        i += 1
        if f == k.invalid:
            for _ in range(12):
                f()
        else:
            f()


def main(c):
    b = binary(c)
    fault.so()
    mats = []
    for i, pp in enumerate(["pass-phrase", "another pass, phrase"]):
        x, y, z = tls.make(os.path.join(c.dir, "tls%d" % i), pp)
        mats.append(dict(cert=x, key=y, pp=z))
    c.start_clock()
    par.run(c, 7, worker, b, mats)


run("K01", main, quick=36, thorough=900,
    rule="random settings given from the command line, the environment and a file, in any order and form, to real servers whose endpoints, password, mode and measured flush "
         "period are compared; invalid, mixed, duplicate and unknown settings per source; plain and TLS sessions compared; distinct = (kind, setting, source)")
