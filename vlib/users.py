"""names and passwords for the account checks"""
import socket, time
from .client import *

NAMES = ["alice", "Alice", "ALICE", "bob", "bob2", "b", "_x", "rootx", "roo", "Root", "ROOT", "root_", "user1", "u" * 40, "A" * 200, "z9_", "admins"]
ALPH = "abcXYZ019 \t\n!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~éßЖ中😀"


def password(rng, n=None):
    """1 to 72 bytes of UTF-8"""
    n = n or rng.choice([1, 2, 8, 16, 16, 30, 71, 72])
    while True:
        s = ""
        while len(s.encode()) < n:
            s += rng.choice(ALPH)
        if len(s.encode()) == n:
            return s


def wrong(rng, pwd, others=()):
    """(password bytes, how)"""
    b = pwd.encode()
    out = [(b[:-1], "last byte missing"), (b + b"x", "one byte more"), (b + b"\x00", "NUL appended"), (b"", "empty"), (b"\x00", "NUL"),
           (b[1:], "first byte missing"), (b.swapcase(), "case swapped"), (b + b, "doubled"), (b"x" * 73, "73 bytes"), (b[::-1], "reversed"),
           (b[:-1] + bytes([b[-1] ^ 1]), "last bit flipped"), (bytes([b[0] ^ 1]) + b[1:], "first bit flipped"), (b"\n" + b, "newline before"),
           (b + b" ", "space appended"), (b" " + b, "space before"), (b"\xff" * len(b), "not UTF-8"), (b"\x00" + b, "NUL before"),
           (b"a" * 70000, "70000 bytes"), (b[:8], "eight bytes")]
    out += [(o.encode(), "another user's") for o in others]
    out = [x for x in out if x[0] != b]
    return rng.choice(out)


def hs(user, pwd, head=b"H\x00\x00\x00\x00\x00"):
    u = user if isinstance(user, bytes) else user.encode()
    p = pwd if isinstance(pwd, bytes) else pwd.encode()
    return head + b"%d\n%d\n" % (len(u), len(p)) + u + p


def deliver(port, data, rng, tmo=20, frag=True):
    """send bytes in random fragments and return everything the server answers until it closes or falls silent"""
    s = socket.create_connection(("127.0.0.1", port), timeout=tmo)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    got = b""
    try:
        cuts = sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.choice([0, 0, 1, 2, 5])))) if frag and len(data) > 1 else []
        for a, b in zip([0] + cuts, cuts + [len(data)]):
            s.sendall(data[a:b])
            if cuts:
                time.sleep(rng.choice([0, .001, .01]))
        while True:
            d = s.recv(4096)
            if not d:
                return got, "closed"
            got += d
    except socket.timeout:
        return got, "silent"
    except OSError:
        return got, "reset"
    finally:
        s.close()


def can_login(srv, user, pwd, tmo=30):
    """None: refused as it should be; a connection when accepted"""
    try:
        return Conn(srv.port, user, pwd, timeout=tmo)
    except HandshakeError:
        return None
