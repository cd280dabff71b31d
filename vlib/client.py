"""Skyhash-2 wire client, written from the protocol description and independent
of the server's own encoders.  Used by every wire-level monitor."""
import socket, struct


class ProtoError(Exception):
    """The server sent bytes that are not a well-formed response."""


class ConnClosed(Exception):
    """The server closed the connection (or the socket failed)."""


class RecvTimeout(Exception):
    pass


class Err:
    __slots__ = ("code",)

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return "Err(%s)" % ERRN.get(self.code, self.code)

    def __eq__(self, o):
        return isinstance(o, Err) and o.code == self.code

    def __hash__(self):
        return hash(("err", self.code))


ERRN = {0: "SysServerError", 1: "SysOutOfMemory", 2: "SysUnknownError", 3: "SysAuthError",
        4: "SysTransactionalError", 5: "SysPermissionDenied", 6: "IllegalClientPacket",
        25: "LexInvalidInput", 26: "LexUnexpectedByte", 27: "UnexpectedEOS",
        28: "InvalidSyntax", 29: "InvalidCollectionSyntax", 30: "InvalidTypeSyntax",
        31: "ExpectedEntity", 32: "ExpectedStatement", 33: "UnknownStatement",
        100: "ObjectNotFound", 101: "UnknownField", 102: "InvalidProperties",
        103: "AlreadyExists", 104: "NotEmpty", 105: "InvalidTypeDef",
        106: "ModelBadDef", 107: "AlterIllegal", 108: "Duplicate",
        109: "ValidationError", 110: "WhereUnindexed", 111: "RowNotFound", 112: "NeedLock"}
ERRC = {v: k for k, v in ERRN.items()}


class _Empty:
    def __repr__(self):
        return "Empty"


EMPTY = _Empty()


class Row(list):
    def __repr__(self):
        return "Row" + list.__repr__(self)


class Rows(list):
    def __repr__(self):
        return "Rows" + list.__repr__(self)


class U(int):
    """explicit unsigned parameter"""


class S(int):
    """explicit signed parameter"""


class V:
    """typed value as received: (tag, python value)"""
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return "%s:%r" % (TAGS.get(self.t, self.t), self.v)

    def __eq__(self, o):
        if not isinstance(o, V) or o.t != self.t:
            return False
        if isinstance(self.v, float) and isinstance(o.v, float):
            return self.v == o.v or (self.v != self.v and o.v != o.v)
        return self.v == o.v

    def __hash__(self):
        return hash((self.t, repr(self.v)))


TAGS = {0: "null", 1: "bool", 2: "uint8", 3: "uint16", 4: "uint32", 5: "uint64",
        6: "sint8", 7: "sint16", 8: "sint32", 9: "sint64", 10: "float32",
        11: "float64", 12: "binary", 13: "string", 14: "list"}
TAGN = {v: k for k, v in TAGS.items()}


def enc_param(p):
    if p is None:
        return b"\x00"
    if isinstance(p, bool):
        return b"\x01" + (b"\x01" if p else b"\x00")
    if isinstance(p, S):
        return b"\x03%d\n" % int(p)
    if isinstance(p, int):
        if p < 0:
            return b"\x03%d\n" % p
        return b"\x02%d\n" % p
    if isinstance(p, float):
        return b"\x04" + repr(p).encode() + b"\n"
    if isinstance(p, (bytes, bytearray)):
        return b"\x05%d\n" % len(p) + bytes(p)
    if isinstance(p, str):
        e = p.encode()
        return b"\x06%d\n" % len(e) + e
    raise TypeError(p)


def enc_query(q, params=()):
    if isinstance(q, str):
        q = q.encode()
    body = b"%d\n" % len(q) + q + b"".join(map(enc_param, params))
    return b"S%d\n" % len(body) + body


def handshake_bytes(user, pwd):
    u, p = user.encode(), pwd.encode()
    return b"H\x00\x00\x00\x00\x00" + b"%d\n%d\n" % (len(u), len(p)) + u + p


class Conn:
    def __init__(self, port, user="root", pwd=None, host="127.0.0.1", timeout=30.0,
                 handshake=True, tls=None):
        self.buf = b""
        self.pos = 0
        s = socket.create_connection((host, port), timeout=timeout)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if tls is not None:
            s = tls.wrap_socket(s, server_hostname="localhost")
        self.s = s
        if handshake:
            self.auth(user, pwd)

    def auth(self, user, pwd):
        self.send(handshake_bytes(user, pwd))
        h = self.take(4)
        if h[:1] != b"H":
            raise ProtoError("handshake reply %r" % h)
        if h[2] != 0:
            e = HandshakeError(h[3])
            self.close()
            raise e

    def send(self, b):
        try:
            self.s.sendall(b)
        except socket.timeout:
            raise RecvTimeout("send")
        except OSError as e:
            raise ConnClosed(str(e))

    def _fill(self):
        try:
            d = self.s.recv(1 << 16)
        except socket.timeout:
            raise RecvTimeout("recv")
        except OSError as e:
            raise ConnClosed(str(e))
        if not d:
            raise ConnClosed("eof")
        if self.pos:
            self.buf = self.buf[self.pos:]
            self.pos = 0
        self.buf += d

    def take(self, n):
        while len(self.buf) - self.pos < n:
            self._fill()
        r = self.buf[self.pos:self.pos + n]
        self.pos += n
        return r

    def line(self):
        start = 0
        while True:
            i = self.buf.find(b"\n", self.pos)
            if i >= 0:
                r = self.buf[self.pos:i]
                self.pos = i + 1
                return r
            self._fill()

    def _uint(self):
        l = self.line()
        if not l or not l.isdigit():
            raise ProtoError("expected digits, got %r" % l[:40])
        return int(l)

    def cell(self, t=None):
        if t is None:
            t = self.take(1)[0]
        if t == 0:
            return V(0, None)
        if t == 1:
            b = self.take(1)[0]
            if b > 1:
                raise ProtoError("bool byte %d" % b)
            return V(1, bool(b))
        if 2 <= t <= 5:
            return V(t, self._uint())
        if 6 <= t <= 9:
            l = self.line()
            try:
                return V(t, int(l))
            except ValueError:
                raise ProtoError("sint %r" % l)
        if 10 <= t <= 11:
            l = self.line()
            try:
                return V(t, float(l))
            except ValueError:
                raise ProtoError("float %r" % l)
        if t == 12:
            return V(t, self.take(self._uint()))
        if t == 13:
            b = self.take(self._uint())
            try:
                return V(t, b.decode())
            except UnicodeDecodeError:
                raise ProtoError("string cell is not utf-8: %r" % b[:40])
        if t == 14:
            return V(t, [self.cell() for _ in range(self._uint())])
        raise ProtoError("unknown tag %d" % t)

    def resp(self):
        t = self.take(1)[0]
        if t <= 14:
            return self.cell(t)
        if t == 0x10:
            return Err(struct.unpack("<H", self.take(2))[0])
        if t == 0x11:
            n = self._uint()
            return Row(self.cell() for _ in range(n))
        if t == 0x12:
            return EMPTY
        if t == 0x13:
            nr = self._uint()
            nc = self._uint()
            return Rows(Row(self.cell() for _ in range(nc)) for _ in range(nr))
        raise ProtoError("unknown response code %#x" % t)

    def q(self, q, *params):
        self.send(enc_query(q, params))
        return self.resp()

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


class HandshakeError(Exception):
    def __init__(self, code):
        self.code = code
        Exception.__init__(self, "handshake error %d" % code)
