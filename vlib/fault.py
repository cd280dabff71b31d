"""Storage fault injection and I/O tracing through an LD_PRELOAD shim (vlib/native/shim.c)."""
import ctypes, errno, fcntl, mmap, os, struct, subprocess, time
from . import build as _b

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "shim.c")
NTRACE = 65536
HDR = struct.Struct("<6i5qQ2i4q")
EV = struct.Struct("<QIIiiqqQ")
WRITE, FSYNC, OPEN, MKDIR, TRUNC, UNLINK = 1, 2, 4, 8, 16, 32
GNS, MODEL, OTHER = 1, 2, 4
FAIL, SHORT, EINTR, SHORTFAIL, KILL, KILLPART, DELAY, WFAIL = 1, 2, 3, 4, 5, 6, 7, 8
ACTN = {1: "fail", 2: "short", 3: "eintr", 4: "short then fail", 5: "kill", 6: "partial then kill", 7: "delay", 8: "written but failed"}
OPN = {1: "write", 2: "fsync", 4: "create", 8: "mkdir", 16: "truncate"}


def so():
    os.makedirs(_b.BUILD, exist_ok=True)
    out = os.path.join(_b.BUILD, "shim.so")
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(SRC):
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", out + ".tmp", SRC, "-ldl"],
                           check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.rename(out + ".tmp", out)
    return out


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(so())
        _lib.skyv_crc64.restype = ctypes.c_uint64
        _lib.skyv_crc64.argtypes = [ctypes.c_uint64, ctypes.c_char_p, ctypes.c_size_t]
        _lib.skyv_size.restype = ctypes.c_uint64
        _lib.skyv_troff.restype = ctypes.c_uint64
    return _lib


def crc64(data, crc=0):
    return lib().skyv_crc64(crc, data, len(data))


class Shim:
    """one control block, shared with the server processes started with .env()"""
    F = dict(armed=(0, "i"), cls=(4, "i"), op=(8, "i"), action=(12, "i"), err=(16, "i"),
             skip=(24, "q"), count=(32, "q"), nbytes=(40, "q"), seen=(48, "q"), fired=(56, "q"),
             ntrace=(64, "Q"), trace_on=(72, "i"), trace_cls=(76, "i"))

    def __init__(self, path):
        size = lib().skyv_size()
        self.troff = lib().skyv_troff()
        self.path = path
        with open(path, "wb") as f:
            f.truncate(size)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), size)
        self.consumed = 0

    def env(self):
        return {"LD_PRELOAD": so(), "SKYFAULT_CTL": self.path}

    def get(self, k):
        o, t = self.F[k]
        return struct.unpack_from("<" + t, self.m, o)[0]

    def set(self, **kw):
        for k, v in kw.items():
            o, t = self.F[k]
            struct.pack_into("<" + t, self.m, o, v)

    def arm(self, cls, op, action, err=errno.ENOSPC, skip=0, count=1, nbytes=0):
        self.set(armed=0, seen=0, fired=0)
        self.set(cls=cls, op=op, action=action, err=err, skip=skip, count=count, nbytes=nbytes)
        self.set(armed=1)

    def disarm(self):
        self.set(armed=0)

    def trace(self, cls=GNS | MODEL):
        self.set(ntrace=0, trace_cls=cls, trace_on=1)
        self.consumed = 0

    def events(self):
        """all trace events so far: dicts"""
        n = min(self.get("ntrace"), NTRACE)
        out = []
        for i in range(n):
            t, op, cls, fd, err, off, ln, ino = EV.unpack_from(self.m, self.troff + i * EV.size)
            if t == 0:
                break
            out.append(dict(t=t / 1e9, op=op, cls=cls, fd=fd, err=err, off=off, len=ln, ino=ino))
        return out

    def full(self):
        return self.get("ntrace") >= NTRACE

    def close(self):
        self.m.close()
        self.f.close()
