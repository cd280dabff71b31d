"""Exact live heap bytes of a server (built with the system allocator) through an LD_PRELOAD counter."""
import fcntl, os, struct, subprocess
from . import build as _b

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "heap.c")


def so():
    os.makedirs(_b.BUILD, exist_ok=True)
    out = os.path.join(_b.BUILD, "heap.so")
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(SRC):
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", out + ".tmp", SRC, "-ldl"], check=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.rename(out + ".tmp", out)
    return out


class Heap:
    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f:
            f.write(bytes(4096))
        self.f = open(path, "rb")

    def env(self):
        return dict(LD_PRELOAD=so(), SKYV_HEAP=self.path)

    def read(self):
        """(live bytes, live blocks, allocations so far)"""
        return struct.unpack("<3q", os.pread(self.f.fileno(), 24, 0))
