"""Start / stop / kill a real skyd in a scratch data directory."""
import fcntl, os, random, signal, socket, subprocess, time, shutil, tempfile
from .client import Conn, ConnClosed, RecvTimeout, HandshakeError

ROOTPW = "verif-root-password-0001"


def free_port():
    """a free port below the ephemeral range (client sockets of other workers never take it), handed out once: all
    workers take turns on one counter, so that two of them never start servers on the same port"""
    with open(os.path.join(tempfile.gettempdir(), "skyverif-port"), "a+b") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        try:
            n = int(f.read())
        except ValueError:
            n = random.SystemRandom().randint(10000, 29999)
        for _ in range(20000):
            n = n + 1 if 10000 <= n < 29999 else 10000
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("0.0.0.0", n))
            except OSError:
                continue
            finally:
                s.close()
            f.truncate(0)
            f.write(b"%d" % n)
            f.flush()
            return n
    raise RuntimeError("no free port")


class StartFailed(Exception):
    def __init__(self, rc, log):
        self.rc, self.log = rc, log
        Exception.__init__(self, "server did not start (rc=%s): %s" % (rc, log[-600:]))


class Server:
    def __init__(self, binary, datadir, rs_window=300, rootpw=ROOTPW, env=None,
                 preexec=None, args=(), loglevel="trace"):
        self.binary, self.dir = binary, datadir
        self.rs_window, self.rootpw = rs_window, rootpw
        self.env = env or {}
        self.args = list(args)
        self.preexec = preexec
        self.loglevel = loglevel
        self.proc = None
        self.nstart = 0
        os.makedirs(datadir, exist_ok=True)
        self.logpath = datadir.rstrip("/") + ".log"

    def start(self, timeout=40, wait=True):
        self.port = free_port()
        env = dict(os.environ)
        env["SKY_LOG"] = self.loglevel
        env["RUST_BACKTRACE"] = "0"
        env.update(self.env)
        self.nstart += 1
        self.logf = open(self.logpath, "ab")
        self.logstart = self.logf.tell() if self.logf.seekable() else 0
        self.logstart = os.path.getsize(self.logpath)
        cmd = [self.binary, "--auth-root-password", self.rootpw,
               "--endpoint", "tcp@127.0.0.1:%d" % self.port,
               "--service-window", str(self.rs_window)] + self.args
        self.proc = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.DEVNULL,
                                     stdout=self.logf, stderr=self.logf,
                                     preexec_fn=self.preexec)
        if not wait:
            return self
        end = time.time() + timeout
        while time.time() < end:
            rc = self.proc.poll()
            if rc is not None:
                log = self.log()
                self.logf.close()
                self.proc = None
                raise StartFailed(rc, log)
            try:
                s = socket.create_connection(("127.0.0.1", self.port), timeout=1)
                s.close()
                return self
            except OSError:
                time.sleep(0.02)
        log = self.log()
        self.kill()
        raise StartFailed("timeout", log)

    def log(self):
        """log of the current incarnation"""
        with open(self.logpath, "rb") as f:
            f.seek(self.logstart)
            return f.read().decode("utf-8", "replace")

    def conn(self, user="root", pwd=None, **kw):
        return Conn(self.port, user, pwd if pwd is not None else self.rootpw, **kw)

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def stop(self, timeout=60):
        """graceful shutdown; returns exit code or 'hang'"""
        if self.proc is None:
            return None
        try:
            self.proc.send_signal(signal.SIGTERM)
        except ProcessLookupError:
            pass
        try:
            rc = self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            rc = "hang"
        self.logf.close()
        self.proc = None
        return rc

    def kill(self):
        if self.proc is None:
            return
        self.proc.kill()
        self.proc.wait()
        self.logf.close()
        self.proc = None
        self.rmpid()

    def rmpid(self):
        try:
            os.unlink(os.path.join(self.dir, ".sky_pid"))
        except OSError:
            pass


def scratch(prefix="skyverif-"):
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix=prefix, dir=base)
