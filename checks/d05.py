import glob, os, resource, shutil, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, gen, dump, journal
from vlib.dml import Diverged
from vlib.ddl import DMachine

GNSF = "gns.db-tlog"
HANG = 90


# ---- templates: cleanly closed databases with a rich history

def nasty(rng):
    """values that look like pieces of a journal once the decoder is off by a few bytes"""
    n = rng.choice([40, 400, 4000, 60000])
    k = rng.randrange(6)
    if k == 0:
        return (b"\x0e" + struct.pack("<Q", 1)) * n                     # lists in lists in lists
    if k == 1:
        return (b"\x0e" + struct.pack("<Q", 2**40)) * 40
    if k == 2:
        return b"\x0c" + struct.pack("<Q", rng.choice([2**33, 2**62, 2**64 - 1])) * 40
    if k == 3:
        return b"\xff" * 300
    if k == 4:
        return bytes(range(16)) * 40
    return b"\x00" * 300


def template(sub, binary, d):
    rng = sub.rng
    s = Server(binary, d, rs_window=1, loglevel="error")
    ms = {}
    rounds = rng.choice([1, 2, 3])
    blob = {}
    for rnd in range(rounds):
        s.start()
        c = s.conn(timeout=60)
        if rnd == 0:
            assert c.q("create space a") is EMPTY and c.q("create space b") is EMPTY
            assert c.q("create model a.blob(k: string, v: binary, l: list { type: list { type: binary } })") is EMPTY
            assert c.q("create model b.blob(k: binary, v: binary, l: list { type: list { type: binary } })") is EMPTY
            for nm, f in (("a.p", "k: uint64, v: string"), ("a.q", "k: sint64, v: string"), ("b.p", "k: string, v: string"),
                          ("b.q", "k: uint64, v: binary"), ("b.r", "k: uint64, v: string, w: string"),
                          ("b.tw", "k: uint64, v: string")):
                assert c.q("create model %s(%s)" % (nm, f)) is EMPTY
            # long records
            w = lambda a: ["%s%d_%s" % (a, i, "".join(rng.choice("abcdefghij") for _ in range(40))) for i in range(rng.choice([12, 30]))]
            assert c.q("create model a.wide(k: uint64, %s)" % ", ".join("%s: string" % x for x in w("f"))) is EMPTY
            assert c.q("alter model a.wide add ( %s )" % ", ".join("%s { type: list { type: uint8 }, nullable: true }" % x for x in w("g"))) is EMPTY
            assert c.q("alter space b with { env: { x: ?, y: { z: ? } } }", "x" * 3000, 7) is EMPTY
        for step in range(rng.choice([2, 3, 4])):
            for nm in ("a.blob", "b.blob"):
                for _ in range(rng.randint(1, 4)):
                    k = "k%d" % rng.randrange(12)
                    kv = k if nm == "a.blob" else k.encode()
                    if blob.get((nm, k)) and rng.random() < .3:
                        c.q("delete from %s where k = ?" % nm, kv)
                        blob[(nm, k)] = False
                    elif blob.get((nm, k)):
                        c.q("update %s set v = ? where k = ?" % nm, nasty(rng), kv)
                    else:
                        assert c.q("insert into %s(?, ?, [[?], [], [?, ?]])" % nm, kv, nasty(rng), nasty(rng)[:90], b"x", b"y") is EMPTY
                        blob[(nm, k)] = True
            for nm, enc in (("a.p", lambda i: i), ("a.q", lambda i: S(i)), ("b.p", str), ("b.q", lambda i: i)):
                for _ in range(rng.randint(1, 5)):
                    i = rng.randrange(40)
                    v = "v%d" % rng.randrange(1000)
                    c.q("insert into %s(?, ?)" % nm, enc(i), v.encode() if nm == "b.q" else v)
            c.q("insert into b.tw(?, ?)", 5000 + step + 100 * rnd, "twin")
            c.q("insert into b.r(?, ?, ?)", step + 100 * rnd, "x", "y")
            for i in range(2):
                nm = "%s.m%d" % (rng.choice("ab"), i)
                m = ms.get(nm)
                if m is None:
                    t = gen.schema(rng, nf=rng.choice([2, 4, 8]))
                    assert c.q(gen.create_stmt(t, nm)) is EMPTY
                    m = ms[nm] = DMachine(c, t, nm, rng, nkeys=rng.choice([3, 20]))
                m.c = c
                if rng.random() < .5:
                    m.any_alter()
                for _ in range(rng.choice([3, 25])):
                    m.dml()
            if rng.random() < .5:
                time.sleep(1.2)                     # another batch
        if rnd == 0:
            assert c.q("sysctl create user joe with { password: ? }", "joes-password-1") is EMPTY
            assert c.q("create space gone") is EMPTY and c.q("drop space gone") is EMPTY
            assert c.q("create model a.gone(k: uint64, v: string)") is EMPTY and c.q("drop model a.gone") is EMPTY
        c.close()
        if s.stop() != 0:
            raise RuntimeError("template: unclean stop")
    return s


class Template:
    def __init__(self, sub, binary, d):
        template(sub, binary, d)
        self.dir = d
        for _ in range(50):
            if not os.path.exists(os.path.join(d, ".sky_pid")):
                break
            time.sleep(.02)
        x = d + ".copy"
        shutil.copytree(d, x)
        s = Server(binary, x, rs_window=300, loglevel="error")
        s.start()
        c = s.conn(timeout=60)
        self.dump = dump.dump(c)
        self.hwm = peak(s.proc.pid)
        self.vm = peak(s.proc.pid, "VmPeak")
        c.close()
        s.stop()
        shutil.rmtree(x)
        self.files, self.log = {}, {}
        for p in [os.path.join(d, GNSF)] + journal.model_paths(d):
            r = os.path.relpath(p, d)
            if "/mdl_gone-" in r:                   # what is left of a dropped model when its removal was overtaken by the end
                continue
            self.files[r] = journal.read(p)
            self.log[r] = journal.parse(self.files[r], r != GNSF)
            if self.log[r].why or not self.log[r].closed:
                raise RuntimeError("template: the decoder does not understand %s: %s" % (r, self.log[r].why))
        # a model by the directory of its journal
        self.model = {}
        for r in self.files:
            if r != GNSF:
                p = r.split("/")
                nm = "%s.%s" % (p[1].rsplit("-", 5)[0], p[2][4:].rsplit("-", 5)[0])
                self.model[r] = nm
                if "model:" + nm not in self.dump:
                    raise RuntimeError("template: no model %r" % nm)


def peak(pid, what="VmHWM"):
    try:
        with open("/proc/%d/status" % pid) as f:
            for l in f:
                if l.startswith(what):
                    return int(l.split()[1]) * 1024
    except OSError:
        pass
    return 0


# ---- where it hurts

def u64s(data, lg, batch):
    """offsets (kind, offset, width) of the structural fields of a log"""
    out = [("header", o, 1) for o in range(64)]
    for p, end, txn, meta, b in lg.events:
        out += [("txn", p, 8), ("txn-high", p + 8, 8), ("meta", p + 16, 8)]
        if not batch:
            out += [("checksum", p + 24, 8), ("length", p + 32, 8)]
            # lengths inside the payload: any aligned-looking small number
            out += [("payload", o, 8) for o in range(p + 40, max(p + 41, end - 8))]
        else:
            out += [("expected", p + 24, 8), ("pk-tag", p + 32, 1), ("schema", p + 33, 8), ("columns", p + 41, 8)]
            out += [("actual", end - 16, 8), ("checksum", end - 8, 8)]
            q = p + 49
            pk = data[p + 32]
            for t, txn_, key, row in b["events"]:
                out += [("event-type", q, 1), ("row-txn", q + 1, 8)]
                q += 9
                if pk in (0, 1):
                    out.append(("key", q, 8))
                    q += 8
                else:
                    out.append(("key-length", q, 8))
                    q += 8 + len(key)
                if row is not None:
                    for _ in range(b["cols"]):
                        q = cell(data, q, out)
    pos = 64
    for p, end, *_ in lg.events + [(len(data), len(data))]:
        while pos < p:                              # driver events between them
            out += [("driver", o, 8) for o in range(pos, pos + 64, 8)]
            pos += 64
        pos = end
    return out


def cell(d, p, out):
    t = d[p]
    out.append(("cell-tag", p, 1))
    p += 1
    if t == 0:
        return p
    if t == 1:
        out.append(("cell", p, 1))
        return p + 1
    if 2 <= t <= 11:
        out.append(("cell", p, 8))
        return p + 8
    n, = struct.unpack_from("<Q", d, p)
    out.append(("cell-length" if t != 14 else "list-length", p, 8))
    p += 8
    if t in (12, 13):
        return p + n
    for _ in range(n):
        p = cell(d, p, out)
    return p


class Mut:
    def __init__(self, sub, t):
        self.sub, self.rng, self.t = sub, sub.rng, t
        self.fields = {r: {} for r in t.files}
        for r in t.files:
            for k, o, w in u64s(t.files[r], t.log[r], r != GNSF):
                self.fields[r].setdefault(k, []).append((o, w))

    def pick(self):
        rng = self.rng
        fs = [r for r in self.t.files if r != GNSF]
        return GNSF if rng.random() < .35 else rng.choice(fs)

    def units(self, r):
        """event ranges, driver events included"""
        out, pos = [], 64
        for p, end, *_ in self.t.log[r].events:
            while pos < p:
                out.append((pos, pos + 64, "driver"))
                pos += 64
            out.append((p, end, "event"))
            pos = end
        while pos < len(self.t.files[r]):
            out.append((pos, pos + 64, "driver"))
            pos += 64
        return out

    def make(self):
        """-> (kind, {file: new content or None}) ; description"""
        rng = self.rng
        r = self.pick()
        d = bytearray(self.t.files[r])
        n = len(d)
        x = rng.random()
        if x < .42:
            kind = rng.choice(sorted(self.fields[r]))
            o, w = rng.choice(self.fields[r][kind])
            cur = int.from_bytes(d[o:o + w], "little")
            top = (1 << 8 * w) - 1
            new = rng.choice([cur + 1, cur - 1, 0, top, 1 << rng.randrange(8 * w), cur ^ (1 << rng.randrange(8 * w)), n - o - w, n - o - w + 1,
                              2**33, 2**40, 2**62, 2**63, cur + 2**32, cur | 2**56, rng.getrandbits(8 * w), rng.randrange(20)]) & top
            d[o:o + w] = new.to_bytes(w, "little")
            return "field:" + kind, {r: bytes(d)}, "%s at %d of %s: %d -> %d" % (kind, o, r, cur, new)
        if x < .55:
            k = rng.choice([1, 1, 1, 2, 3, 8])
            ev = [u for u in self.units(r) if u[2] == "event"]
            if ev and rng.random() < .5:
                a, b, _ = rng.choice(ev)            # inside one record
                pos = [rng.randrange(a, b) for _ in range(k)]
            else:
                pos = [rng.randrange(n) for _ in range(k)]
            if rng.random() < .4:
                d[pos[0]] ^= 1 << rng.randrange(8)
            else:
                for p in pos:
                    d[p] = rng.randrange(256)
            return "bytes:%d" % k, {r: bytes(d)}, "bytes %r of %s" % (pos, r)
        if x < .60:
            a = rng.randrange(n)
            ln = rng.choice([4, 16, 64, 512, 4096])
            if rng.random() < .5 and ln >= 512:
                a -= a % ln
            src = rng.choice(["zero", "ff", "random", "copy"])
            o = rng.randrange(n)
            rep = {"zero": bytes(ln), "ff": b"\xff" * ln, "random": rng.randbytes(ln), "copy": bytes(d[o:o + ln])}[src]
            rep = rep[:max(0, min(ln, n - a, len(rep)))]
            d[a:a + len(rep)] = rep
            return "range:" + src, {r: bytes(d)}, "%d bytes at %d of %s" % (len(rep), a, r)
        if x < .67:
            u = self.units(r)
            cut = rng.choice([rng.randrange(n), n - rng.randint(1, 70), rng.choice(u)[rng.randrange(2)], 0, 63, 64, rng.randrange(65)])
            return "cut", {r: bytes(d[:cut])}, "%s cut from %d to %d" % (r, n, cut)
        if x < .73:
            u = rng.choice(self.units(r))
            add = rng.choice([b"\x00", bytes(64), bytes(24), rng.randbytes(rng.choice([1, 24, 64, 500])), bytes(d[-64:]), bytes(d[u[0]:u[1]]), bytes(d[64:]), bytes(d)])
            return "extended", {r: bytes(d) + add}, "%s extended by %d" % (r, len(add))
        if x < .90:
            # duplicate, remove, reorder whole events; renumbered or not
            if rng.random() < .5:
                r = GNSF                            # its events are all different statements
                d = bytearray(self.t.files[r])
            u = self.units(r)
            i = rng.randrange(len(u))
            k = rng.choice(["dup", "remove", "swap", "replace", "replace"])
            parts = [bytes(d[a:b]) for a, b, _ in u]
            j = rng.randrange(len(u))
            if k == "dup":
                parts.insert(rng.choice([i + 1, j]), parts[i])
            elif k == "remove":
                del parts[i]
            elif k == "swap":
                j = rng.choice([j, min(i + 1, len(u) - 1)])
                parts[i], parts[j] = parts[j], parts[i]
            else:
                parts[i] = parts[j]
            ren = rng.random() < .5
            if ren:
                parts = [struct.pack("<Q", q) + p[8:] for q, p in enumerate(parts)]
            return "events:%s%s" % (k, "-renumbered" if ren else ""), {r: bytes(d[:64]) + b"".join(parts)}, "%s: %s event %d (%d)" % (r, k, i, j)
        if x < .93:
            # pieces of two batches exchanged together with their checksums
            o = rng.choice([q for q in self.t.files if q != r])
            e1, e2 = self.t.log[r].events, self.t.log[o].events
            if not e1 or not e2 or GNSF in (r, o):
                return self.make()
            a, b = rng.choice(e1), rng.choice(e2)
            body = self.t.files[o][b[0] + 16:b[1]]
            return "foreign-event", {r: bytes(d[:a[0] + 16]) + body + bytes(d[a[1]:])}, "event of %s in %s" % (o, r)
        if x < .98:
            o = rng.choice([q for q in self.t.files if q != r])
            if rng.random() < .7:
                return "swapped", {r: self.t.files[o], o: self.t.files[r]}, "%s and %s swapped" % (r, o)
            return "substituted", {r: self.t.files[o]}, "%s in place of %s" % (o, r)
        if r == GNSF:                               # a directory without one is a new database
            return self.make()
        return "missing", {r: None}, "%s removed" % r

    def harmless(self, new):
        """the changed file is itself an earlier, cleanly closed state of the log: nothing in it is wrong"""
        for r, b in new.items():
            if b is None:
                return False
            old = self.t.files[r]
            if not (len(b) < len(old) and old.startswith(b)):
                return False
            lg = journal.parse(b, r != GNSF)
            if lg.why or not (lg.closed or lg.end == 64):
                return False
        return True


FIXED = {"a.p": (0, [13]), "a.q": (1, [13]), "b.p": (3, [13]), "b.q": (0, [12]), "b.r": (0, [13, 13]), "b.tw": (0, [13]), "a.blob": (3, [12, 14]), "b.blob": (2, [12, 14])}


def fits(t, r, data):
    """can a server that knows the model, but not the journal, take these batches for the model's?  (journals do not
    name their model.)  The altered models of a template get the benefit of the doubt."""
    nm = t.model.get(r)
    if nm is None:
        return False
    if nm in FIXED:
        pk, cols = FIXED[nm]
    else:
        decl = t.dump["model:" + nm][0]
        pk, cols = {"U": 0, "S": 1, "B": 2}[decl.split("*")[1].split(":")[1][0]], None
        if "*" in decl and decl.split("*")[1].split(":")[1].startswith("String"):
            pk = 3
    for p, end, txn, meta, b in journal.parse(data, True).events:
        if data[p + 32] != pk:
            return False
        if cols is None:
            continue
        if b["cols"] != len(cols):
            return False
        for t_, txn_, key, row in b["events"]:
            for ty, v in zip(cols, row or ()):
                if v is not None and (14 if isinstance(v, list) else 1 if isinstance(v, bool) else v[0]) != ty:
                    return False
    return True


def attempt(sub, binary, t, mu, n, mut=None):
    rng = sub.rng
    kind, new, what = mut or mu.make()
    if all(new[r] == t.files[r] for r in new) or mu.harmless(new):
        sub.count("no_damage")
        return
    d = os.path.join(sub.dir, "x%d-%s" % (sub.idx, n))
    shutil.copytree(t.dir, d)
    for r, b in new.items():
        p = os.path.join(d, r)
        if b is None:
            os.unlink(p)
        else:
            with open(p, "wb") as f:
                f.write(b)
    lim = int(t.vm * 1.5) + (1 << 29)
    s = Server(binary, d, rs_window=300, loglevel="info",
               preexec=lambda: (resource.setrlimit(resource.RLIMIT_AS, (lim, lim)), resource.setrlimit(resource.RLIMIT_CORE, (0, 0))))
    det = dict(what=what, kind=kind)
    bad = lambda sig, w, **kw: sub.violation(sig, "%s: %s" % (what, w), dict(det, log=s.log()[-1500:], **kw), stop=True)
    swap = kind in ("swapped", "substituted", "foreign-event")
    # journals carry no identity of their model, so the data of another model of the same shape cannot be told apart: known
    same = swap and GNSF not in new and all(fits(t, r, b) for r, b in new.items())
    try:
        try:
            s.start(timeout=HANG)
        except StartFailed as e:
            if e.rc == "timeout":
                bad("hang", "the server neither starts nor refuses within %d s" % HANG)
            p = panics(e.log)
            if p:
                bad("panic", "the start panics: %s" % " ".join(p[0])[:300])
            if e.rc < 0:
                bad("signal", "the start dies of signal %d" % -e.rc)
            if e.rc == 0:
                bad("exit-0", "the start fails with exit status 0")
            if "ERROR" not in e.log and "error" not in e.log.lower():
                bad("no-error", "the start fails without an error")
            for r, b in new.items():
                pth = os.path.join(d, r)
                now = journal.read(pth) if os.path.exists(pth) else None
                # a swapped file may be accepted before the other one is refused
                if now != b and not swap and b is not None:
                    bad("rewritten", "the refused start changed the damaged file")
            sub.count("refused")
            sub.case((kind, "refused", what))
            if rng.random() < .12:
                for r in new:
                    os.makedirs(os.path.dirname(os.path.join(d, r)), exist_ok=True)
                    if swap:
                        break
                    with open(os.path.join(d, r), "wb") as f:
                        f.write(t.files[r])
                else:
                    s.rmpid()
                    try:
                        s.start(timeout=HANG)
                    except StartFailed as e2:
                        bad("unrepaired", "with the original file back, the server still refuses: %s" % e2.log[-300:])
                    if compare(sub, t, s):
                        bad("unrepaired-data", "with the original file back, the data is different: %s" % compare(sub, t, s))
                    sub.count("repaired")
            return
        hwm = peak(s.proc.pid)
        c = s.conn(timeout=60)
        try:
            try:
                after = dump.dump(c)
            except (ProtoError, ConnClosed, RecvTimeout) as e:
                after = {"unreadable": str(e)}
        finally:
            c.close()
        p = panics(s.log())
        if p:
            bad("panic", "accepted, and panics: %s" % " ".join(p[0])[:300])
        if not s.alive():
            bad("died", "accepted, then died")
        if after != t.dump:
            df = dump.diff(t.dump, after)
            if same:
                sub.violation("swap:same-shape", "%s: served as the data of the other model of the same shape" % what, det)
                sub.count("swapped_accepted")
            else:
                bad("accepted:" + kind.split(":")[0], "accepted, and different data is served: %s" % df[:1500])
        else:
            sub.count("accepted_equal")
            if hwm > t.hwm * 2 + (64 << 20):
                bad("memory", "accepted with %d MB of memory instead of %d" % (hwm >> 20, t.hwm >> 20))
            rc = s.stop()
            if rc != 0:
                bad("stop", "accepted, then stopped with %r" % rc)
            if rng.random() < .3:
                s.start(timeout=HANG)
                df = compare(sub, t, s)
                if df:
                    bad("later", "accepted, but after a restart the data is different: %s" % df[:1500])
        sub.count("accepted")
        sub.case((kind, "accepted", what))
    finally:
        s.kill()
        shutil.rmtree(d, ignore_errors=True)
        try:
            os.unlink(s.logpath)
        except OSError:
            pass


def compare(sub, t, s):
    c = s.conn(timeout=60)
    try:
        return dump.diff(t.dump, dump.dump(c))
    finally:
        c.close()


def work(sub, binary):
    n = 0
    while sub.left() > 0:
        td = os.path.join(sub.dir, "t%d-%d" % (sub.idx, n))
        try:
            t = Template(sub, binary, td)
        except Diverged as e:
            raise RuntimeError("template: %s" % e.what)
        sub.count("templates")
        sub.count("template_events", sum(len(l.events) for l in t.log.values()))
        sub.count("template_bytes", sum(len(b) for b in t.files.values()))
        mu = Mut(sub, t)
        if sub.idx == 0 and n == 0:
            a, b = [[r for r in t.model if t.model[r] == x][0] for x in ("a.p", "b.tw")]
            attempt(sub, binary, t, mu, "tw", ("swapped", {a: t.files[b], b: t.files[a]}, "%s and %s swapped" % (a, b)))
        for _ in range(60 if sub.tier == "quick" else 400):
            if sub.left() <= 0:
                break
            n += 1
            attempt(sub, binary, t, mu, n)
        shutil.rmtree(td)
        n += 1


def main(c):
    b = binary(c)
    c.start_clock()
    par.run(c, 8, work, b)


run("D05", main, quick=40, thorough=1500,
    rule="cleanly closed databases with rich histories (all types, several batches and reopenings, users, altered and dropped models, values that look "
         "like journal structure); structural fields, bytes, ranges, truncations, extensions, duplicated, removed, reordered and renumbered events, swapped "
         "and missing files; a start must refuse with an error (no panic, signal, hang or excess memory) or serve the original dump; distinct = distinct damages")
