"""What every live check needs: a build, servers, panic monitoring."""
import os, re, time
from . import build as B
from .check import Check, run, Inconclusive, Stop
from .server import Server, StartFailed, ROOTPW
from .client import *


PANIC = re.compile(r"thread '[^']*' (?:\(\d+\) )?panicked at ([^\n]*)\n([^\n]*)")


def panics(log):
    """[(location without line numbers, message)]"""
    out = []
    for m in PANIC.finditer(log):
        loc = re.sub(r":\d+(:\d+)?:?$", "", m.group(1).strip())
        out.append((loc, m.group(2).strip()))
    return out


def binary(check, kind="dev"):
    try:
        b = B.build(kind)
    except B.BuildFailed as e:
        raise Inconclusive("build failed: " + str(e)[-2000:])
    import atexit
    check._bins = getattr(check, "_bins", []) + [b]
    orig = check.cleanup

    def cleanup():
        orig()
        B.cleanup_bin(b)
    check.cleanup = cleanup
    return b


def server(check, binary, name="db", **kw):
    s = Server(binary, os.path.join(check.dir, name), **kw)
    check.servers.append(s)
    for i in range(3):
        try:
            s.start()
            return s
        except StartFailed as e:
            if i == 2 or ("in use" not in e.log and e.rc != "timeout"):
                raise Inconclusive("server did not start: " + str(e))
            s.rmpid()
    return s


def health(check, s, where):
    """no panic, still running"""
    ps = panics(s.log())
    for loc, msg in ps:
        check.violation("panic:" + loc, "%s: server thread panicked at %s: %s" % (where, loc, msg))
    if not s.alive():
        rc = s.proc.poll() if s.proc else None
        check.violation("server-died", "%s: server process ended with %r" % (where, rc), s.log()[-3000:])
        return False
    return not ps
