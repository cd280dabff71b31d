"""Writer of the previous (version 1) storage format, independent of the server's code.

Layout: sys.db (accounts), gns.db-tlog (DDL), data/<space>-<uuid>/mdl_<model>-<uuid>/data.db-btlog (row batches).
A `Db` is a random history of a version 1 server: it keeps the state that server would serve and the bytes of its
files, over several server lifetimes (close and reopen markers), with records the server recovered from."""
import os, struct, uuid, zlib
from .model import *
from .fault import crc64
from .ddl import decl_of, wider
from .dump import canon
from .env import env_gen, env_new, env_merge
from . import gen

Q = lambda *n: struct.pack("<%dQ" % len(n), *n)
SERVER = 0          # what the released servers wrote: fetch_id compares one byte and takes v0.8.0 for the first tag
TAG = {"bool": 1, "uint8": 2, "uint16": 3, "uint32": 4, "uint64": 5, "sint8": 6, "sint16": 7, "sint32": 8, "sint64": 9,
       "float32": 10, "float64": 11, "binary": 12, "string": 13}
PK = {"uint": 0, "sint": 1, "binary": 2, "string": 3}


def header(cls_, spec):
    return (struct.pack("<Q", 0x4F48534159414E21) + Q(0, SERVER, 0) + bytes([0, 1, 1, 1, cls_, spec]) + struct.pack("<H", 0)
            + (1700000000 * 10**9).to_bytes(16, "little") + bytes(8))


def blob(b):
    return Q(len(b)) + b


def raw(ty, v):
    """data of a cell without its tag"""
    c = cls(ty)
    if c == "list":
        return Q(len(v)) + b"".join(cellb(ty[1], x) for x in v)
    if c == "bool":
        return bytes([v])
    if c == "uint":
        return Q(v)
    if c == "sint":
        return struct.pack("<q", v)
    if c == "float":
        return struct.pack("<d", v)
    return blob(v.encode() if isinstance(v, str) else v)


def cellb(ty, v):
    if v is None:
        return b"\0"
    return bytes([14 if isinstance(ty, tuple) else TAG[ty]]) + raw(ty, v)


def generic(v):
    """(tag, data) of a dictionary value"""
    if v is None:
        return 0, b""
    if isinstance(v, dict):
        return 15, gdict(v)
    if isinstance(v, list):
        return 14, Q(len(v)) + b"".join(bytes([generic(x)[0]]) + generic(x)[1] for x in v)
    ty = pclass(v)
    ty = {"uint": "uint64", "sint": "sint64", "float": "float64"}.get(ty, ty)
    return TAG[ty], raw(ty, v)


def gitems(d):
    out = b""
    for k, v in d.items():
        t, b = generic(v)
        out += Q(len(k.encode())) + bytes([t]) + k.encode() + b
    return out


def gdict(d):
    return Q(len(d)) + gitems(d)


def layers(ty):
    out = []
    while isinstance(ty, tuple):
        out.append(14)
        ty = ty[1]
    out.append(TAG[ty])
    return [x - 1 for x in out]


def fieldmap(fs):
    out = b""
    for f in fs:
        ls = layers(f.ty)
        out += Q(len(f.name), 0, len(ls)) + bytes([bool(f.null)]) + f.name.encode() + b"".join(Q(l, 0) for l in ls)
    return out


def known(patch, cur):
    """every dictionary of the patch exists already"""
    return all(not isinstance(v, dict) or isinstance(cur.get(k), dict) and known(v, cur[k]) for k, v in patch.items())


class Space:
    def __init__(self, name, rng):
        self.name, self.uuid = name, uuid.UUID(int=rng.getrandbits(128), version=4)
        self.models, self.env = {}, {}

    def sid(self):
        return self.uuid.int.to_bytes(16, "big") + Q(len(self.name))


class Model:
    def __init__(self, space, name, table, rng):
        self.space, self.name, self.t = space, name, table
        self.uuid = uuid.UUID(int=rng.getrandbits(128), version=4)
        self.keys = gen.keypool(table.pkf().ty, rng, rng.choice([2, 6, 30]))
        self.version = 0        # schema version: one step per field added or removed
        self.txn = 0
        self.pending = []       # (op, txn, key)
        self.log = header(1, 1)
        self.cuts = set()       # lengths at which the file ends with a close marker
        self.bounds = []        # lengths at which a batch ends
        self.given_up = False
        self.batches = 0
        self.removed = []

    def mid(self):
        return self.space.sid() + Q(len(self.name), self.version) + self.uuid.int.to_bytes(16, "big")

    def mname(self):
        return self.space.name.encode() + self.name.encode()

    def full(self):
        return self.space.name + "." + self.name


class Db:
    """random version 1 database"""
    def __init__(self, rng, hashes):
        self.rng = rng
        self.spaces = {}
        self.dropped = []       # files that a version 1 server would have removed
        self.users = {"root": hashes["root"]}
        self.hashes = hashes
        self.gns = header(0, 0)
        self.evid = 0
        self.ops = {}
        self.dead = []
        self.cuts = set()
        self.bounds = []
        self.long = rng.random() < .15
        self.given_up = False

    def op(self, k):
        self.ops[k] = self.ops.get(k, 0) + 1

    def event(self, opc, body):
        pay = struct.pack("<H", opc) + body
        rng = self.rng
        if rng.random() < 0.02:
            # an event whose write failed: damaged, and taken back by a recovery event
            bad = bytearray(pay)
            bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
            self.gns += self.evid.to_bytes(16, "little") + Q(1 << 63) + struct.pack("<I", zlib.crc32(pay)) + blob(bytes(bad))
            self.gns += self.evid.to_bytes(16, "little") + Q(2) + struct.pack("<I", 0) + Q(0)
            self.evid += 1
            self.given_up = True
            self.op("ddl:recovered")
        self.gns += self.evid.to_bytes(16, "little") + Q(1 << 63) + struct.pack("<I", zlib.crc32(pay)) + blob(pay)
        self.evid += 1
        self.bounds.append(len(self.gns))

    def mark(self, kind):
        self.gns += self.evid.to_bytes(16, "little") + Q(kind) + struct.pack("<I", 0) + Q(0)

    # -- DDL
    def create_space(self):
        rng = self.rng
        nm = "s%d" % len(self.ops) + rng.choice(["", "_x", "Ab"]) + str(rng.randrange(1000))
        if nm in self.spaces:
            return
        s = Space(nm, rng)
        s.env = env_new(env_gen(rng, {})) if rng.random() < .6 else {}
        self.spaces[nm] = s
        props = {"env": s.env}
        self.event(0, Q(len(nm)) + s.uuid.int.to_bytes(16, "big") + Q(len(props)) + nm.encode() + gitems(props))
        self.op("create space")

    def alter_space(self, s):
        patch = env_gen(self.rng, s.env)
        new = env_merge(s.env, patch)
        if new is None or not known(patch, s.env):
            return
        s.env = new
        props = {"env": patch}
        self.event(1, s.sid() + Q(len(props)) + s.name.encode() + gitems(props))
        self.op("alter space")

    def drop_space(self, s):
        del self.spaces[s.name]
        self.event(2, s.sid() + s.name.encode())
        self.dead.append(s.name)
        self.op("drop space")

    def create_model(self, s, t=None):
        rng = self.rng
        nm = "m%d" % rng.randrange(30)
        if nm in s.models:
            return
        t = t or gen.schema(rng)
        m = s.models[nm] = Model(s, nm, t, rng)
        pk = t.pkf()
        self.event(3, s.sid() + Q(len(nm)) + m.uuid.int.to_bytes(16, "big") + Q(len(t.pk), TAG[pk.ty] - 1, len(t.fields))
                   + s.name.encode() + nm.encode() + t.pk.encode() + fieldmap(t.fields))
        self.op("create model")
        return m

    def drop_model(self, m):
        del m.space.models[m.name]
        self.event(7, m.mid() + m.mname())
        self.dead.append(m.full())
        self.op("drop model")

    def allrows(self, m):
        return list(m.t.rows.values()) + [p[3] for p in m.pending if p[3] is not None]

    def alter_add(self, m):
        rng, t = self.rng, m.t
        pool = [n for n in gen.NAMES + m.removed * 8 if t.field(n) is None]
        if not pool or len(t.fields) > 14:
            return
        names = list(dict.fromkeys(rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))))
        new = [Field(n, gen.rtype(rng), True) for n in names]
        self.event(4, m.mid() + Q(len(new)) + m.mname() + fieldmap(new))
        for f in new:
            t.fields.append(f)
            for r in self.allrows(m):
                r[f.name] = None
        m.version += len(new)
        self.op("alter add")

    def alter_remove(self, m):
        rng, t = self.rng, m.t
        cand = [f.name for f in t.fields if f.name != t.pk]
        if len(cand) < 2:
            return
        names = rng.sample(cand, min(len(cand) - 1, rng.choice([1, 1, 2])))
        self.event(5, m.mid() + Q(len(names)) + m.mname() + b"".join(blob(n.encode()) for n in names))
        t.fields = [f for f in t.fields if f.name not in names]
        for r in self.allrows(m):
            for n in names:
                del r[n]
        m.removed += names
        m.version += len(names)
        self.op("alter remove")

    def alter_update(self, m):
        """only the last field: version 1 moved an updated field to the end"""
        f = m.t.fields[-1]
        if f.name == m.t.pk:
            return
        w = wider(f.ty)
        new = Field(f.name, self.rng.choice(w) if w else f.ty, True, True)
        self.event(6, m.mid() + Q(1) + m.mname() + fieldmap([new]))
        m.t.fields[-1] = new
        self.op("alter update")

    # -- DML
    def dml(self, m):
        rng, t = self.rng, m.t
        k = rng.choice(m.keys)
        nk = norm(t.pkf().ty, k)
        m.txn += 1
        if nk in t.rows and rng.random() < .4:
            del t.rows[nk]
            m.pending.append((0, m.txn, nk, None))
            self.op("delete")
            return
        vals = {}
        for f in t.fields:
            if f.name == t.pk:
                vals[f.name] = k
            elif f.null and rng.random() < .3:
                vals[f.name] = None
            else:
                vals[f.name] = gen.good(f.ty, rng, 0.03)
        op = 2 if nk in t.rows else 1
        t.rows.pop(nk, None)
        if t.insert(vals) != OK:
            raise AssertionError("generator")
        self.op("update" if op == 2 else "insert")
        m.pending.append((op, m.txn, nk, dict(t.rows[nk])))

    def flush(self, m):
        """one batch of the pending changes, written with the current schema"""
        rng, t = self.rng, m.t
        todo, m.pending = m.pending, []
        cols = [f for f in t.fields if f.name != t.pk]
        evs = []
        for op, txn, k, row in todo:
            b = bytes([op]) + Q(txn) + raw(t.pkf().ty, k)
            if op:
                for f in cols:
                    b += cellb(f.ty, row[f.name])
            evs.append(b)
        if rng.random() < .05:
            # the delete of a row whose insert was not written: it had been changed by then
            gone = [k for k in m.keys if norm(t.pkf().ty, k) not in t.rows and all(x[2] != norm(t.pkf().ty, k) for x in todo)]
            if gone:
                m.txn += 1
                todo.append((0, m.txn, norm(t.pkf().ty, gone[0]), None))
                evs.append(b"\0" + Q(m.txn) + raw(t.pkf().ty, gone[0]))
                self.op("delete:unwritten")
        # concurrent changes may have been queued in another order; every one has its number
        if rng.random() < .3:
            evs = self.skew(todo, evs)
        expected = len(evs) + (rng.choice([1, 5]) if rng.random() < .15 else 0)
        img = b"\xfe" + bytes([PK[cls(t.pkf().ty)]]) + Q(expected, m.version, len(cols)) + b"".join(evs)
        img += b"\xfd" + Q(len(evs))
        if rng.random() < .06:
            # a batch that could not be written: given up with a recovery mark
            m.log += img + Q(crc64(img) ^ (1 << rng.randrange(64))) + b"\xff"
            m.given_up = True
            self.op("batch:recovered")
        if rng.random() < .03:
            m.log += b"\xff"
        m.log += img + Q(crc64(img))
        m.batches += 1
        m.bounds.append(len(m.log))
        self.op("batch")

    def skew(self, todo, evs):
        order = list(range(len(evs)))
        for _ in range(len(evs)):
            i = self.rng.randrange(max(1, len(order) - 1))
            if i + 1 >= len(order):
                continue
            a, b = todo[order[i]], todo[order[i + 1]]
            if a[2] != b[2] or (a[0] and b[0] and self.rng.random() < .3):
                order[i], order[i + 1] = order[i + 1], order[i]
        return [evs[i] for i in order]

    def models(self):
        return [m for s in self.spaces.values() for m in s.models.values()]

    def grow(self, steps):
        rng = self.rng
        for _ in range(steps):
            x = rng.random()
            ms = self.models()
            ss = list(self.spaces.values())
            if not ss or x < .03:
                self.create_space()
            elif not ms or x < .08:
                self.create_model(rng.choice(ss))
            elif x < .1:
                self.alter_space(rng.choice(ss))
            elif x < .105:
                self.drop_space(rng.choice(ss))
            elif x < .115:
                self.drop_model(rng.choice(ms))
            elif x < .15:
                m = rng.choice(ms if rng.random() < .3 else ms[-3:])
                # what is pending is written before the change, or in the new schema
                if m.pending and rng.random() < .7:
                    self.flush(m)
                for _ in range(rng.choice([1, 1, 2, 4])):
                    [self.alter_add, self.alter_add, self.alter_remove, self.alter_update][rng.randrange(4)](m)
            elif x < .2:
                m = rng.choice(ms)
                if m.pending:
                    self.flush(m)
            elif x < .215:
                self.lifetime()
            else:
                m = rng.choice(ms[-3:])
                for _ in range(rng.choice([1, 1, 3, 10]) if rng.random() < .97 else 400):
                    self.dml(m)
                if self.long and rng.random() < .1:
                    # a batch of a few thousand changes
                    self.long = False
                    for _ in range(6000):
                        self.dml(m)
                    self.flush(m)
                    self.op("batch:long")

    def lifetime(self, last=False):
        """orderly shutdown (and next start)"""
        for m in self.models():
            if m.pending:
                self.flush(m)
            m.log += b"\xfc"
            m.cuts.add(len(m.log))
            m.log += b"" if last else b"\xfb"
        self.mark(0)
        self.cuts.add(len(self.gns))
        if last:
            return
        self.mark(1)
        self.evid += 1
        self.op("v1 restarts")

    def finish(self):
        self.lifetime(last=True)
        rng = self.rng
        for u in rng.sample([u for u in self.hashes if u != "root"], rng.randint(0, len(self.hashes) - 1)):
            self.users[u] = self.hashes[u]

    def sysdb(self):
        users = list(self.users.items())
        self.rng.shuffle(users)
        d = {"auth": {"users": {u: [h] for u, h in users}},
             "sys": {"sc": self.rng.randrange(50), "sv": self.rng.randrange(5)}}
        if self.rng.random() < .5:
            d = dict(reversed(list(d.items())))
        return header(2, 2) + gdict(d)

    def write(self, root):
        """all files of the closed database"""
        files = {"gns.db-tlog": self.gns, "sys.db": self.sysdb()}
        self.info = {"gns.db-tlog": self, "sys.db": None}
        for s in self.spaces.values():
            os.makedirs(os.path.join(root, "data", "%s-%s" % (s.name, s.uuid)), exist_ok=True)
        for m in self.models():
            p = "data/%s-%s/mdl_%s-%s/data.db-btlog" % (m.space.name, m.space.uuid, m.name, m.uuid)
            files[p] = m.log
            self.info[p] = m
        os.makedirs(os.path.join(root, "data"), exist_ok=True)
        for p, b in files.items():
            p = os.path.join(root, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        self.files = files
        return files

    def dump(self):
        """what vlib.dump.dump must give"""
        out = {"spaces": frozenset(self.spaces), "users": frozenset(self.users)}
        for s in self.spaces.values():
            out["space:" + s.name] = frozenset(s.models)
            for m in s.models.values():
                t = m.t
                rows = [tuple(canon(cell(f.ty, k if f.name == t.pk else r[f.name])) for f in t.fields) for k, r in t.rows.items()]
                out["model:" + m.full()] = (decl_of(t), len(rows), len(rows), frozenset(rows))
        return out
