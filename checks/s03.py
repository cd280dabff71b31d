import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, gen
from vlib.env import *
from vlib.ddl import decl_of, fdef

E_NF, E_EX, E_NE = Err(ERRC["ObjectNotFound"]), Err(ERRC["AlreadyExists"]), Err(ERRC["NotEmpty"])


class Cat:
    """the catalogue model of one worker (it only touches names with its own prefix)"""

    def __init__(self, sub):
        self.sub, self.rng = sub, sub.rng
        p = "w%d" % sub.idx
        self.sn = [p + "a", p + "A", p + "a_", p + "b"]
        self.mn = ["m", "M", "m_", p + "a"]
        self.spaces = {}          # name -> {model: Table}
        self.env = {}
        self.log = []
        self.inc = 0

    def restore(self, sp, inc, env):
        self.spaces, self.inc, self.env = sp, inc, env


class Sess:
    def __init__(self, conn):
        self.c, self.cur = conn, None


class Fail(Exception):
    pass


def step(cat, sess, rng):
    c = sess.c
    log = cat.log

    def q(s, *p):
        log.append((id(sess) % 1000, s, [repr(x)[:80] for x in p]))
        del log[:-120]
        try:
            r = c.q(s, *p)
        except (ConnClosed, RecvTimeout, ProtoError) as e:
            cat.sub.violation("no-response", "no well-formed response to %r: %r" % (s, e), list(log), stop=True)
        log.append(("->", repr(r)[:200]))
        return r

    def expect(kind, s, want, *p):
        r = q(s, *p)
        ok = want(r) if callable(want) else (r is EMPTY if want is EMPTY else r == want)
        cat.sub.count(kind)
        if not ok:
            cat.sub.violation(kind, "%r gave %r, expected %r" % (s, r, "?" if callable(want) else want), list(log), stop=True)
        return r
    iserr = lambda r: isinstance(r, Err)
    B = lambda b: V(1, b)
    sp = rng.choice(cat.sn)
    md = rng.choice(cat.mn)
    S_ = cat.spaces
    x = rng.random()
    if x < 0.10:
        ine = rng.random() < 0.4
        p, props, env = [], rng.choice(["", "", " with {}", " with { env: null }", "env", "env"]), {}
        if props == "env":
            env = env_gen(rng, {})
            props = " with { env: %s }" % env_text(env, p)
        st = "create space %s%s%s" % ("if not exists " if ine else "", sp, props)
        if sp in S_:
            expect("create_space:exists", st, B(False) if ine else E_EX, *p)
        else:
            expect("create_space:ok", st, B(True) if ine else EMPTY, *p)
            S_[sp] = {}
            cat.env[sp] = env_new(env)
    elif x < 0.13:
        st, p = rng.choice([("create space %s with { nosuchprop: ? }", [1]), ("create space %s with { env: ? }", ["x"]),
                            ("create space %s with { env: {}, other: {} }", []), ("create space %s extra", []),
                            ("create space if exists %s", []), ("create space %s.x", []), ("create space ?", ["abc"]),
                            ("alter space %s with { nosuchprop: ? }", [1]), ("alter space %s with { env: ? }", [5]),
                            ("alter space %s with { env: null, other: ? }", [1]), ("alter space %s with { env: { c: null }, other: {} }", []),
                            ("alter space %s with { other: null }", []), ("alter space %s with { env: { q: ?, q: ? } }", [1, 1]),
                            ("create space %s with { env: null, other: null }", []), ("alter space %s with { env: { q: null } } extra", []),
                            ("alter space %s", []), ("drop space %s extra", []), ("drop space if not exists %s", []),
                            ("drop space allow empty %s", []), ("use %s extra", []), ("inspect space %s extra", []),
                            ("inspect %s", []), ("describe model %s", []), ("truncate space %s", [])])
        expect("malformed", st % sp if "%s" in st else st, iserr, *p)
    elif x < 0.17:
        cur = cat.env.get(sp, {})
        y = rng.random()
        if y < 0.07:
            patch, st, p = None, "alter space %s with { env: null }", []
        elif y < 0.12:
            patch, st, p = {}, "alter space %s with {}", []
        else:
            p = []
            patch = rng.choice(list(env_probes(cur)) or [{}]) if y < 0.2 else env_gen(rng, cur)
            st = "alter space %s with { env: " + env_text(patch, p) + " }"
        if sp not in S_:
            expect("alter_space:notfound", st % sp, E_NF, *p)
        else:
            new = {} if patch is None else env_merge(cur, patch)
            if new is None:
                expect("alter_space:refused", st % sp, Err(ERRC["InvalidProperties"]), *p)
            else:
                expect("alter_space:ok", st % sp, EMPTY, *p)
                cat.env[sp] = new
    elif x < 0.24:
        ie, force = rng.random() < 0.4, rng.random() < 0.4
        st = "drop space %s%s%s" % ("if exists " if ie else "", "allow not empty " if force else "", sp)
        if sp not in S_:
            expect("drop_space:notfound", st, B(False) if ie else E_NF)
        elif S_[sp] and not force:
            expect("drop_space:notempty", st, E_NE)
        else:
            expect("drop_space:ok", st, B(True) if ie else EMPTY)
            del S_[sp], cat.env[sp]
    elif x < 0.38:
        ine = rng.random() < 0.4
        t = gen.schema(rng, nf=rng.choice([1, 2, 3]))
        t = Table([Field("id", "uint64"), Field("inc", "uint64")] + [Field(f.name, f.ty, True) for f in t.fields
                                                                     if f.name not in ("id", "inc")], "id")
        st = gen.create_stmt(t, "%s.%s" % (sp, md))
        if ine:
            st = st.replace("create model ", "create model if not exists ", 1)
        if sp not in S_:
            expect("create_model:nospace", st, E_NF)
        elif md in S_[sp]:
            expect("create_model:exists", st, B(False) if ine else E_EX)
        else:
            expect("create_model:ok", st, B(True) if ine else EMPTY)
            S_[sp][md] = t
            t.inc = None
    elif x < 0.42:
        st = rng.choice(["create model %s.%s(a: uint8, a: string)", "create model %s.%s(a: nosuch, b: uint8)",
                         "create model %s.%s(primary a: uint8, primary b: uint8)", "create model %s.%s(a: float32, b: uint8)",
                         "create model %s.%s(a: list { type: uint8 }, b: uint8)", "create model %s.%s(null a: uint8, b: uint8)",
                         "create model %s.%s(a: bool, b: uint8)", "create model %s.%s(primary null a: string, b: uint8)",
                         "create model %s.%s(a: uint8 { type: uint8 }, b: uint8)", "create model %s.%s(a: list, b: uint8)",
                         "create model %s.%s(a: uint8, b: uint8) with { x: {} }", "create model %s.%s(a: uint8, b: uint8) extra",
                         "create model %s.%s(a: uint8, b: list { type: nosuch })"]) % (sp, md)
        expect("bad_model", st, iserr)
    elif x < 0.46:
        # DDL never uses the current space
        st = rng.choice(["create model %s(a: uint8, b: string, c: uint8)", "drop model %s", "alter model %s add zz { type: uint8, nullable: true}",
                         "drop model allow not empty %s"]) % md
        expect("unqualified_ddl", st, iserr)
    elif x < 0.55:
        ie, force = rng.random() < 0.4, rng.random() < 0.4
        st = "drop model %s%s%s.%s" % ("if exists " if ie else "", "allow not empty " if force else "", sp, md)
        if sp not in S_:
            expect("drop_model:nospace", st, E_NF)
        elif md not in S_[sp]:
            expect("drop_model:notfound", st, B(False) if ie else E_NF)
        elif S_[sp][md].rows and not force:
            expect("drop_model:notempty", st, E_NE)
        else:
            expect("drop_model:ok", st, B(True) if ie else EMPTY)
            del S_[sp][md]
    elif x < 0.58:
        st = "alter model %s.%s add zz%d { type: string, nullable: true }" % (sp, md, rng.randint(0, 2))
        n = st.split()[4]
        t = S_.get(sp, {}).get(md)
        if t is None:
            expect("alter_model:notfound", st, E_NF)
        elif t.field(n):
            expect("alter_model:dupfield", st, iserr)
        else:
            expect("alter_model:ok", st, EMPTY)
            t.fields.append(Field(n, "string", True))
            for r in t.rows.values():
                r[n] = None
    elif x < 0.66:
        y = rng.random()
        if y < 0.6:
            if sp in S_:
                expect("use:ok", "use " + sp, EMPTY)
                sess.cur = sp
            else:
                expect("use:notfound", "use " + sp, E_NF)
        elif y < 0.75:
            expect("use:null", "use null", EMPTY)
            sess.cur = None
        else:
            if sess.cur is None:
                expect("use:current-none", "use $current", V(0, None))
            elif sess.cur in S_:
                expect("use:current", "use $current", V(TAGN["string"], sess.cur))
            else:
                expect("use:current-gone", "use $current", E_NF)
                sess.cur = None
    elif x < 0.74:
        r = expect("inspect_space", "inspect space " + sp, (lambda r: isinstance(r, V) and r.t == TAGN["string"]) if sp in S_ else E_NF)
        if sp in S_:
            check_space(cat, sp, r, log)
    elif x < 0.78:
        r = expect("inspect_global", "inspect global", lambda r: isinstance(r, V) and r.t == TAGN["string"])
        check_global(cat, r, log)
    else:
        # model level, qualified or through the current space
        unq = rng.random() < 0.5
        s2 = sess.cur if unq else sp
        ent = md if unq else "%s.%s" % (sp, md)
        t = S_.get(s2, {}).get(md) if s2 else None
        kind = rng.choice(["inspect", "insert", "select", "select", "delete", "all"])
        pre = "unq_" if unq else "q_"
        if unq and s2 is None:
            st, p = {"inspect": ("inspect model %s", []), "insert": ("insert into %s(?, ?)", [1, 1]),
                     "select": ("select * from %s where id = ?", [1]), "delete": ("delete from %s where id = ?", [1]),
                     "all": ("select all * from %s limit ?", [5])}[kind]
            expect("nospace_selected", st % ent, iserr, *p)
            return
        if kind == "inspect":
            r = expect(pre + "inspect_model", "inspect model " + ent, (lambda r: isinstance(r, V) and r.t == TAGN["string"]) if t else E_NF)
            if t:
                d = parse(cat, r, log, "inspect model")
                if d.get("decl") != decl_of(t) or d.get("rows") != len(t.rows):
                    cat.sub.violation("inspect_model", "inspect model %s reports %r, expected %r with %d rows" % (ent, d, decl_of(t), len(t.rows)), list(log), stop=True)
        elif kind == "insert":
            k = rng.randint(0, 3)
            cat.inc += 1
            if t is None:
                expect(pre + "insert:notfound", "insert into %s { id: ?, inc: ? }" % ent, E_NF, k, cat.inc)
                return
            vals = {f.name: (k if f.name == "id" else cat.inc if f.name == "inc" else (None if rng.random() < .5 else gen.good(f.ty, rng))) for f in t.fields}
            st, p = gen.ins_stmt(t, ent, vals, rng)
            s = t.insert(vals)
            expect(pre + "insert:" + s, st, lambda r: agrees(s, r), *p)
        elif kind == "delete":
            k = rng.randint(0, 3)
            if t is None:
                expect(pre + "delete:notfound", "delete from %s where id = ?" % ent, E_NF, k)
                return
            s = t.delete(k)
            expect(pre + "delete:" + s, "delete from %s where id = ?" % ent, lambda r: agrees(s, r), k)
        elif kind == "select":
            k = rng.randint(0, 3)
            if t is None:
                expect(pre + "select:nomodel", "select * from %s where id = ?" % ent, E_NF, k)
                return
            row = t.get(k)
            if row is None:
                expect(pre + "select:norow", "select * from %s where id = ?" % ent, Err(ERRC["RowNotFound"]), k)
            else:
                exp = t.row_cells(k)
                expect(pre + "select:row", "select * from %s where id = ?" % ent,
                       lambda r: isinstance(r, Row) and len(r) == len(exp) and all(same(e, g, lo) for (e, lo), g in zip(exp, r)), k)
        else:
            if t is None:
                expect(pre + "all:nomodel", "select all * from %s limit ?" % ent, E_NF, 10)
                return
            expect(pre + "all", "select all id, inc from %s limit ?" % ent,
                   lambda r: isinstance(r, Rows) and sorted((a.v, b.v) for a, b in r) == sorted((k, v["inc"]) for k, v in t.rows.items()), 100)


def parse(cat, r, log, what):
    try:
        d = json.loads(r.v)
        assert isinstance(d, dict)
        return d
    except Exception:
        cat.sub.violation("json:" + what, "%s is not a JSON object: %r" % (what, getattr(r, "v", r)), list(log), stop=True)


def check_space(cat, sp, r, log):
    d = parse(cat, r, log, "inspect space")
    got, exp = d.get("models"), cat.spaces[sp]
    if not isinstance(got, list) or len(got) != len(exp) or set(got) != set(exp):
        cat.sub.violation("inspect_space", "inspect space %s reports models %r, expected %r" % (sp, got, list(exp)), list(log), stop=True)


def check_global(cat, r, log):
    d = parse(cat, r, log, "inspect global")
    got = d.get("spaces")
    if not isinstance(got, list):
        cat.sub.violation("inspect_global", "inspect global: %r" % d, list(log), stop=True)
    mine = [s for s in got if s in cat.sn]
    if len(mine) != len(cat.spaces) or set(mine) != set(cat.spaces) or len(set(got)) != len(got):
        cat.sub.violation("inspect_global", "inspect global reports spaces %r, expected %r" % (mine, list(cat.spaces)), list(log), stop=True)
    if not isinstance(d.get("users"), list) or "root" not in d["users"]:
        cat.sub.violation("inspect_global:users", "inspect global as root reports users %r" % (d.get("users"),), list(log), stop=True)


def full(cat, sess, where):
    """the whole catalogue and all rows of this worker"""
    c = sess.c
    check_global(cat, c.q("inspect global"), [where])
    for sp, models in cat.spaces.items():
        check_space(cat, sp, c.q("inspect space " + sp), [where])
        for d in env_probes(cat.env[sp]):
            p = []
            st = "alter space %s with { env: %s }" % (sp, env_text(d, p))
            cat.sub.count("env_probes")
            if c.q(st, *p) != Err(ERRC["InvalidProperties"]):
                cat.sub.violation("env", "%s: %r %r accepted although env of %s should be %r" % (where, st, p, sp, cat.env[sp]), stop=True)
        for md, t in models.items():
            r = c.q("inspect model %s.%s" % (sp, md))
            d = parse(cat, r, [where], "inspect model") if isinstance(r, V) else {}
            if d.get("decl") != decl_of(t) or d.get("rows") != len(t.rows):
                cat.sub.violation("inspect_model", "%s: inspect model %s.%s: %r, expected %r, %d rows" % (where, sp, md, r, decl_of(t), len(t.rows)), stop=True)
            r = c.q("select all id, inc from %s.%s limit ?" % (sp, md), 1000)
            if not isinstance(r, Rows) or sorted((a.v, b.v) for a, b in r) != sorted((k, v["inc"]) for k, v in t.rows.items()):
                cat.sub.violation("rows", "%s: rows of %s.%s: %r, expected %r" % (where, sp, md, r, t.rows), stop=True)
    for sp in cat.sn:
        if sp not in cat.spaces and c.q("inspect space " + sp) != E_NF:
            cat.sub.violation("ghost-space", "%s: dropped space %s exists" % (where, sp), stop=True)


def phase(sub, srv, st, secs):
    sub.rng.seed("S03/%s/%d/%d" % (sub.seed, sub.idx, st["round"]))
    cat = Cat(sub)
    ss = [Sess(srv.conn()) for _ in range(3)]
    if st["round"]:
        cat.restore(*st["data"][sub.idx])
        full(cat, ss[0], "after restart")
        sub.case(("restart", repr(sorted((k, sorted(v)) for k, v in cat.spaces.items()))))
    end = sub.left() - secs
    n = 0
    while n < 50 or sub.left() > end:
        step(cat, sub.rng.choice(ss), sub.rng)
        n += 1
        if n % 500 == 0:
            full(cat, ss[1], "periodic")
        sub.case(repr(sorted((k, sorted(v)) for k, v in cat.spaces.items())))
    full(cat, ss[2], "at the end")
    sub.sample(dict(catalogue=repr(cat.spaces)[:600], tail=cat.log[-6:]))
    sub.result = (cat.spaces, cat.inc, cat.env)


def many(c, s, n, where):
    """a model with more rows than the other ones, grown and shrunk"""
    k = s.conn(timeout=60)
    if not n:
        if k.q("create space zmany") is not EMPTY or k.q("create model zmany.m(k: uint64, v: bool)") is not EMPTY:
            raise Inconclusive("zmany refused")
    new = n + c.rng.choice([255, 256, 257, 4095, 9999, 10000, 10001, 12345, 16384]) if n < 30000 else n - c.rng.randrange(1, 20000)
    st, lo, hi = ("insert into zmany.m(?, true)", n, new) if new > n else ("delete from zmany.m where k = ?", new, n)
    for a in range(lo, hi, 500):
        k.send(b"".join(enc_query(st, (i,)) for i in range(a, min(hi, a + 500))))
        for i in range(a, min(hi, a + 500)):
            if k.resp() is not EMPTY:
                c.violation("many", "%s: %s with %d refused" % (where, st, i), stop=True)
    r = k.q("inspect model zmany.m")
    d = json.loads(r.v) if isinstance(r, V) else {}
    if d.get("rows") != new:
        c.violation("inspect_model:many", "%s: inspect model reports %r rows, %d were inserted" % (where, d.get("rows"), new), stop=True)
    r = k.q("select all k from zmany.m limit ?", new + 5)
    if not isinstance(r, Rows) or sorted(x[0].v for x in r) != list(range(new)):
        c.violation("rows:many", "%s: not exactly the %d rows inserted" % (where, new), stop=True)
    k.close()
    c.count("many_rows", new)
    return new


def main(c):
    b = binary(c)
    s = server(c, b)
    c.start_clock()
    rounds = 4 if c.tier == "quick" else 20
    data, n = None, 0
    for r in range(rounds + 1):
        n = many(c, s, n, "round %d" % r)
        data = par.run(c, 4, phase, s, dict(round=r, data=data), c.budget / (rounds + 1))
        if not health(c, s, "round %d" % r) or c.viol:
            return
        if r == rounds:
            break
        rc = s.stop()
        if rc != 0:
            c.violation("stop", "graceful stop ended with %r" % rc, s.log()[-2000:], stop=True)
        try:
            s.start()
        except StartFailed as e:
            c.violation("restart", "server does not start on its own data: %s" % e, stop=True)
        c.count("restarts")


run("S03", main, quick=25, thorough=900,
    rule="random DDL/USE/INSPECT/DML statements over four colliding space and model names from three connections per worker, each response and "
         "every INSPECT compared with a catalogue model, across restarts; distinct = distinct catalogue states")
