"""Independent decoder of the two on-disk logs (system log and model journals).

Used as the oracle for what is on stable storage: it follows the documented
layout only (event id, metadata, checksums, chained driver events), finds the
intact prefix of a log, and can close a truncated log the way an orderly
shutdown would, so that a real server can be asked what the log says."""
import glob, os, struct
from .fault import crc64

HDR = 64
MSB = 1 << 63
KINDS = ["CreateSpace", "AlterSpace", "DropSpace", "CreateModel", "AlterModelAdd", "AlterModelRemove",
         "AlterModelUpdate", "DropModel", "CreateUser", "AlterUser", "DropUser"]


class Bad(Exception):
    pass


class Log:
    """intact prefix of one log"""
    def __init__(self, data):
        self.data = data
        self.events = []        # (start, end, txn, kind, payload or batch)
        self.end = HDR          # end of the intact prefix
        self.txn = 0            # next expected id
        self.last_id = 0
        self.last_off = 0
        self.crc = 0
        self.closed = False     # the intact prefix ends with a close event
        self.why = None         # why the prefix ended before the data did
        self.drivers = 0

    def _ok(self, end):
        self.crc = crc64(self.data[self.end:end], self.crc)
        self.last_id, self.last_off, self.end = self.txn, end, end
        self.txn += 1

    def close_event(self):
        pay = struct.pack("<QQQQ", 3, self.crc, self.last_off, self.last_id)
        return struct.pack("<QQQQ", self.txn, 0, 1, crc64(pay)) + pay

    def closed_image(self):
        d = self.data[:self.end]
        return d if self.closed else d + self.close_event()


def _driver(d, p, txn, want, st):
    if len(d) - p < 64:
        raise Bad("short driver event")
    lo, hi, kind, ck = struct.unpack_from("<QQQQ", d, p)
    if crc64(d[p + 32:p + 64]) != ck:
        raise Bad("driver event checksum")
    plen, lck, loff, lid = struct.unpack_from("<QQQQ", d, p + 32)
    if (lo, hi, kind, plen) != (txn, 0, want, 3):
        raise Bad("driver event fields")
    if (lck, loff, lid) != (st.crc, st.last_off, st.last_id):
        raise Bad("driver event does not match the log before it")


def parse(data, batch):
    st = Log(data)
    d = data
    try:
        while st.end < len(d):
            p = st.end
            if len(d) - p < 24:
                raise Bad("torn event header")
            lo, hi, meta = struct.unpack_from("<QQQ", d, p)
            if st.closed:
                _driver(d, p, st.txn, 0, st)
                st._ok(p + 64)
                st.closed = False
                st.drivers += 1
                continue
            if (lo, hi) != (st.txn, 0):
                raise Bad("event id %d where %d belongs" % (lo, st.txn))
            if not meta & MSB:
                _driver(d, p, st.txn, 1, st)
                st._ok(p + 64)
                st.closed = True
                st.drivers += 1
                continue
            meta &= ~MSB
            if batch:
                end, b = _batch(d, p + 24)
                st.events.append((p, end, lo, meta, b))
            else:
                if len(d) - p < 40:
                    raise Bad("torn event")
                ck, plen = struct.unpack_from("<QQ", d, p + 24)
                end = p + 40 + plen
                if end > len(d):
                    raise Bad("torn payload")
                if crc64(d[p + 32:end]) != ck:
                    raise Bad("event checksum")
                st.events.append((p, end, lo, KINDS[meta] if meta < len(KINDS) else "?%d" % meta, d[p + 40:end]))
            st._ok(end)
    except (Bad, struct.error, IndexError) as e:
        st.why = str(e)
    return st


def _cell(d, p):
    t = d[p]
    p += 1
    if t == 0:
        return p, None
    if t == 1:
        return p + 1, bool(d[p])
    if 2 <= t <= 11:
        v = d[p:p + 8]
        if len(v) < 8:
            raise Bad("torn cell")
        return p + 8, (t, v)
    if t in (12, 13):
        n, = struct.unpack_from("<Q", d, p)
        v = d[p + 8:p + 8 + n]
        if len(v) != n:
            raise Bad("torn cell")
        return p + 8 + n, (t, v)
    if t == 14:
        n, = struct.unpack_from("<Q", d, p)
        p += 8
        out = []
        for _ in range(n):
            p, v = _cell(d, p)
            out.append(v)
        return p, out
    raise Bad("cell type %d" % t)


def _batch(d, p0):
    p = p0
    exp, = struct.unpack_from("<Q", d, p)
    pk, = struct.unpack_from("<B", d, p + 8)
    sv, cols = struct.unpack_from("<QQ", d, p + 9)
    p += 25
    evs = []
    while len(evs) != exp:
        t, = struct.unpack_from("<B", d, p)
        p += 1
        if t == 3:
            break
        if t > 3:
            raise Bad("batch event type %d" % t)
        txn, = struct.unpack_from("<Q", d, p)
        p += 8
        if pk in (0, 1):
            key = struct.unpack_from("<Q", d, p)[0]
            p += 8
        else:
            n, = struct.unpack_from("<Q", d, p)
            key = d[p + 8:p + 8 + n]
            p += 8 + n
            if p > len(d):
                raise Bad("torn key")
        row = None
        if t in (1, 2):
            row = []
            for _ in range(cols):
                p, v = _cell(d, p)
                row.append(v)
        evs.append((t, txn, key, row))
    act, = struct.unpack_from("<Q", d, p)
    p += 8
    if act != len(evs):
        raise Bad("batch size")
    ck, = struct.unpack_from("<Q", d, p)
    if crc64(d[p0:p]) != ck:
        raise Bad("batch checksum")
    return p + 8, dict(expected=exp, schema=sv, cols=cols, events=evs)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def gns(dirpath):
    return parse(read(os.path.join(dirpath, "gns.db-tlog")), False)


def model_paths(dirpath):
    return sorted(glob.glob(os.path.join(glob.escape(dirpath), "data", "*", "*", "data.db-btlog")))


def close_all(dirpath):
    """turn a copied, interrupted data directory into the cleanly closed one with the same intact content"""
    res = {}
    for p in [os.path.join(dirpath, "gns.db-tlog")] + model_paths(dirpath):
        lg = parse(read(p), not p.endswith("gns.db-tlog"))
        img = lg.closed_image()
        with open(p, "wb") as f:
            f.write(img)
        res[p] = lg
    pid = os.path.join(dirpath, ".sky_pid")
    if os.path.exists(pid):
        os.unlink(pid)
    return res
