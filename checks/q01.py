import json, os, random, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.server import Server
from vlib import par, gen, bql
from vlib.dump import dump, diff

# statement templates: space separated tokens; SP is the worker's space, M a model of it, ? parameters from the list
SCHEMA = {"m": "k : uint64 , s : string , null n : sint64 , l : list { type : string } , f : float64 , b : bool",
          "m2": "name : string , null v : binary , u : uint8"}
TEMPL = [
    ("create space NEW", "I"), ("create space if not exists NEW", "I"), ("create space NEW with { env : { a : ? , b : { c : ? } } }", "us"),
    ("create space NEW with { }", ""), ("drop space NEW", ""), ("drop space if exists NEW", ""), ("drop space allow not empty SP", ""),
    ("drop space if exists allow not empty SP", ""), ("alter space SP with { env : { x : ? } }", "s"), ("alter space SP with { env : null }", ""),
    ("create model SP . NEW ( a : string , null b : uint8 , c : list { type : list { type : sint8 } } )", ""),
    ("create model if not exists SP . M ( a : string , b : uint8 )", ""),
    ("create model SP . NEW ( a : string , primary b : uint8 , null c : bool ) with { env : { } }", ""),
    ("create model SP . NEW ( a : string { } , b : list { type : uint8 { } } )", ""),
    ("alter model SP . m add z { type : string , nullable : ? }", "b"), ("alter model SP . m add ( z1 { type : uint8 } , z2 { type : list { type : bool } , nullable : true } )", ""),
    ("alter model SP . m update n { type : sint64 , nullable : true }", ""), ("alter model SP . m2 update ( v { nullable : ? } , u { type : uint16 } )", "b"),
    ("alter model SP . m remove f", ""), ("alter model SP . m remove ( f , b )", ""),
    ("drop model SP . m2", ""), ("drop model if exists SP . NEW", ""), ("drop model allow not empty SP . m2", ""), ("drop model if exists allow not empty SP . M", ""),
    ("use SP", ""), ("use null", ""), ("use $ current", ""),
    ("inspect space SP", ""), ("inspect model E", ""), ("inspect global", ""), ("sysctl report status", ""),
    ("insert into m ( ? , ? , ? , [ ? , ? ] , ? , ? )", "usSssfb"), ("insert into m { k : ? , s : ? , n : null , l : [ ] , f : ? , b : true }", "usf"),
    ("insert into m { b : false , f : ? , k : ? , l : [ ? ] , n : ? , s : ? }", "fusSs"), ("insert into m2 ( ? , ? , ? )", "sBu"),
    ("insert into m2 ( @ uuidstr ( ) , @ uuidbin ( ) , ? )", "u"), ("insert into m ( ? , ? , null , [ [ ? ] ] , ? , ? )", "usffb"),
    ("insert into m ( @ timesec ( ) , ? , null , [ ? , ? ] , ? , ? )", "sssfb"), ("insert into m ( )", ""), ("insert into m2 { }", ""),
    ("select * from m where k = ?", "u"), ("select k , s , l from m where k = ?", "u"), ("select s from m2", ""), ("select u , v from m2 where name = ?", "s"),
    ("select * from m where k = ? and s = ?", "us"), ("select * from m where k > ?", "u"), ("select * from m where s != ?", "s"), ("select * from m2 where name >= ?", "s"),
    ("select all * from m limit ?", "u"), ("select all s , k from m limit ?", "u"), ("select all name from m2 limit ?", "u"),
    ("update m set s = ? where k = ?", "su"), ("update m set n += ? , f -= ? , l += ? where k = ?", "Sfsu"), ("update m set s += ? , b = true where k = ?", "su"),
    ("update m2 set u *= ? where name = ?", "us"), ("update m2 set v = ? , u = ? where name = ?", "Bus"), ("update m set n = ? where k < ?", "Su"),
    ("update m2 set u /= ? where name = ?", "us"),
    ("delete from m where k = ?", "u"), ("delete from m2 where name = ?", "s"), ("delete from m where s = ? and k <= ?", "su"),
    ("sysctl drop user NEW", ""),
]
VERBS = ["select", "update", "delete", "insert", "inspect"]
POOL = sorted(bql.KW) + list(bql.SYMS) + ["k", "s", "n", "l", "m", "m2", "SP", "NEW", "env", "string", "list", "uint8", "true", "false", "current",
                                           "user", "password", "empty", "global", "report", "status", "uuidstr", "timesec", "nosuch", "?", "nullable"]
BADCODES = range(25, 34)


def value(kind, rng):
    if kind == "u":
        return rng.choice([0, 1, 2, 3, 4, 5, 7, 255, 2**64 - 1])
    if kind == "S":
        return S(rng.choice([0, 1, -1, 2**63 - 1, -2**63, 3]))
    if kind == "s":
        return rng.choice(["a", "b", "key", ""]) if rng.random() < 0.6 else gen.rstr(rng)
    if kind == "B":
        return gen.rbytes(rng)
    if kind == "f":
        return rng.choice(gen.FLOATS)
    if kind == "b":
        return rng.random() < 0.5
    return None


def anyvalue(rng):
    return value(rng.choice("uSsBfbn"), rng) if rng.random() < 0.9 else None


def instance(rng, cs):
    """[(text, param)] of a random statement; entity names per the session's mode"""
    t, kinds = rng.choice(TEMPL)
    toks = t.split(" ")
    out, ki = [], 0
    kinds = [k for k in kinds if k != "I"]
    dml = toks[0] in VERBS or toks[0] == "insert"
    for i, w in enumerate(toks):
        if w == "?":
            out.append(("?", value(kinds[ki], rng) if rng.random() < 0.9 else anyvalue(rng)))
            ki += 1
            continue
        if w == "E":
            w = "m"
        elif w == "M":
            w = rng.choice(["m", "m2"])
        elif w == "NEW":
            w = "zz%d" % rng.randint(0, 3)
        if dml and w in ("m", "m2") and (i and toks[i - 1] in ("into", "from", "update", "model", "E")) or (t == "inspect model E" and i == 2):
            if not cs or rng.random() < 0.4:
                out += [("SP", None), (".", None)]
        out.append((w, None))
    return out


def mutate(t, rng):
    t = list(t)

    def tok():
        w = rng.choice(POOL)
        if w == "NEW":
            w = "zz%d" % rng.randint(0, 3)
        return (w, anyvalue(rng)) if w == "?" else (w, None)
    for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 3])):
        x = rng.random()
        i = rng.randrange(len(t)) if t else 0
        if not t or x < 0.14:
            t.insert(i, tok())
        elif x < 0.36:
            del t[i]
        elif x < 0.46:
            t.insert(i, t[i])
        elif x < 0.56 and len(t) > 1:
            j = (i + 1) % len(t)
            t[i], t[j] = t[j], t[i]
        elif x < 0.70:
            del t[i:]
        elif x < 0.84:
            t[i] = tok()
        elif x < 0.90:
            t = t[:i] + instance(rng, True)[rng.randint(0, 4):]
        elif x < 0.94:
            t = t + instance(rng, True)
        elif x < 0.97:
            j = rng.randrange(i, len(t))
            t = t[:j] + t[i:j] + t[j:]
        else:
            ps = [x for x in range(len(t)) if t[x][0] == "?"]
            if ps:
                t[rng.choice(ps)] = ("?", anyvalue(rng))
    return t


def render(t, space, rng=None):
    """text and parameters; rng: random whitespace and keyword case"""
    s, ps = "", []
    prev = False
    for w, p in t:
        if w == "SP":
            w = space
        elif w == "?":
            ps.append(p)
        word = w[0].isalnum() or w[0] == "_"
        if rng is not None and word and w.lower() in bql.KW:
            x = rng.random()
            w = w.upper() if x < 0.3 else (w.title() if x < 0.5 else ("".join(c.upper() if rng.random() < 0.5 else c for c in w) if x < 0.7 else w))
        if rng is None:
            s += (" " if s else "") + w
        else:
            need = prev and word
            ws = "".join(rng.choice(" \n\t ") for _ in range(rng.choice([0, 0, 1, 1, 2, 5])))
            s += (ws or (" " if need else "")) + w
        prev = word
    if rng is not None:
        s += rng.choice(["", "", " ", "\n", "\t\n"])
    return s, ps


def norm(r, frm, to):
    """a response with the twin's names replaced"""
    if isinstance(r, V) and r.t == 13:
        v = r.v.replace(frm, to)
        if v.startswith('{"models"'):
            v = json.dumps(sorted(json.loads(v)["models"]))
        return V(13, v)
    return r


def rep(r):
    if isinstance(r, Rows):
        return "rows" + repr(sorted(map(repr, r)))
    return repr(r)


def one(sub, bin):
    rng = sub.rng
    s = server(sub_check(sub), bin, "q%d" % sub.idx)
    A, Bn = "qa", "qb"
    try:
        adm = s.conn()
        ca, cb = s.conn(), s.conn()
        log = []

        def call(c, st, ps):
            log.append((st[:600], [repr(x)[:60] for x in ps][:20]))
            del log[:-40]
            try:
                r = c.q(st, *ps)
            except (ConnClosed, RecvTimeout, ProtoError, UnicodeError) as e:
                pan = panics(s.log())
                if pan:
                    sub.violation("panic:" + pan[0][0], "%r %r panicked the server: %s" % (st[:300], [repr(x)[:60] for x in ps][:10], pan[0]), list(log), stop=True)
                sub.violation("no-response", "no well-formed response to %r %r: %r" % (st[:300], [repr(x)[:60] for x in ps][:10], e), list(log), stop=True)
            log.append(("->", repr(r)[:200]))
            return r

        def must(c, st, *ps):
            r = call(c, st, ps)
            if isinstance(r, Err):
                sub.violation("setup", "%r refused: %r" % (st, r), list(log), stop=True)
            return r

        cs = False

        def reset(first=False):
            for sp in json.loads(adm.q("inspect global").v)["spaces"]:
                must(adm, "drop space allow not empty " + sp)
            rs = random.Random(rng.random())
            rows = [[rs.choice([0, 1, 2, 3, 4, 5, 7, 255]), rs.choice(["a", "b", ""]), S(rs.randint(-3, 3)), 0.5, True] for _ in range(4)]
            for sp in (A, Bn):
                must(adm, "create space " + sp)
                for m, d in SCHEMA.items():
                    must(adm, "create model %s.%s(%s)" % (sp, m, d))
                seen = set()
                for r in rows:
                    if r[0] in seen:
                        continue
                    seen.add(r[0])
                    must(adm, "insert into %s.m(?,?,?,[?,?],?,?)" % sp, r[0], r[1], r[2], "x", "", r[3], r[4])
                for n in ("a", "key"):
                    must(adm, "insert into %s.m2(?,null,?)" % sp, n, 7)
            setcs(cs)

        def setcs(v):
            nonlocal cs
            cs = v
            must(ca, "use " + (A if v else "null"))
            must(cb, "use " + (Bn if v else "null"))

        def classify(t):
            st, ps = render(t, A)
            try:
                toks = bql.lex(st, ps)
            except bql.LexBad as e:
                return "bad", None, "lexer: %r" % e.args[0]
            return bql.judge(toks, cs)
        reset()
        while sub.left() > 0:
            # 1: damaged statements have no effect
            if rng.random() < 0.3:
                setcs(not cs)
            before = dump(adm)
            batch = []
            later = []
            for _ in range(60):
                if rng.random() < 0.08:
                    # unlexable characters
                    t = instance(rng, cs)
                    t.insert(rng.randrange(len(t) + 1), (rng.choice(["0", "1", "9k", "\r", "é", "\x00", "\x7f", "☃", "\x0b", "1.5"]), None))
                else:
                    t = mutate(instance(rng, cs), rng)
                v, k, why = classify(t)
                if v == "ok":
                    continue
                if v == "any":
                    later.append(t)
                    continue
                st, ps = render(t, A)
                r = call(ca, st, ps)
                sub.case(("bad", st))
                sub.count("judged_bad")
                batch.append(st)
                if not isinstance(r, Err) or r.code not in BADCODES:
                    sub.violation("not-refused", "%r with %r is not a valid statement (%s) but gave %r" % (st, [repr(x)[:40] for x in ps], why, r), list(log), stop=True)
                sub.count("refused_code_%d" % r.code)
            d2 = dump(adm)
            if d2 != before:
                dd = diff(before, d2)
                sub.violation("effect", "refused statements changed the database: %s" % dd, dict(batch=batch, log=list(log)), stop=True)
            for t in later:
                # accepted or refused, both are fine
                call(ca, *render(t, A))
                sub.count("judged_any")
            if later:
                reset()
            # 2: valid statements are accepted by the parser, whatever their layout
            dirty = False
            for _ in range(60):
                t = instance(rng, cs)
                if rng.random() < 0.25:
                    t = mutate(t, rng)
                v, k, name = classify(t)
                if v != "ok":
                    continue
                st, ps = render(t, A, rng if rng.random() < 0.5 else None)
                r = call(ca, st, ps)
                sub.case(("ok", k, st))
                sub.count("accepted:" + k)
                if isinstance(r, Err) and r.code in BADCODES:
                    sub.violation("refused-valid:%s" % k, "%r with %r is a valid %s statement but gave %r" % (st, [repr(x)[:40] for x in ps], k, r), list(log), stop=True)
                foreign = (k in ("create space", "drop space", "alter space", "inspect space") and name != A) or k in ("inspect global", "sysctl drop", "sysctl create", "sysctl alter", "sysctl status")
                foreign = foreign or (isinstance(name, tuple) and name[0] not in (A, None))
                if k == "use":
                    if name not in ("$", A, None):
                        setcs(cs)
                        continue
                func = any(w == "@" for w, _ in t)
                if not foreign:
                    st2, ps2 = render(t, Bn, rng if rng.random() < 0.8 else None)
                    r2 = call(cb, st2, ps2)
                    sub.count("twins")
                    if k == "select all" and isinstance(r, Rows) and isinstance(r2, Rows):
                        # the order of a scan is not specified, so only the number of rows can be compared
                        same = len(r) == len(r2)
                    else:
                        same = rep(norm(r2, Bn, A)) == rep(norm(r, A, A))
                    if not same:
                        sub.violation("layout", "the same statement laid out differently behaves differently: %r -> %r but %r -> %r" % (st, r, st2, r2), list(log), stop=True)
                if k == "use":
                    setcs(cs)
                    continue
                dirty = dirty or func
                if not isinstance(r, Err) and (k.startswith(("create", "drop", "alter")) or func):
                    if not foreign and not func:
                        twincmp(sub, adm, A, Bn, log)
                    reset()
            twincmp(sub, adm, A, Bn, log)
            reset()
            if not s.alive() or panics(s.log()):
                break
        for c in (adm, ca, cb):
            c.close()
        for loc, msg in panics(s.log()):
            sub.violation("panic:" + loc, "server thread panicked at %s: %s" % (loc, msg), list(log))
        if not s.alive():
            sub.violation("server-died", "server ended: %r" % s.proc.poll(), list(log))
    finally:
        s.kill()


def sub_check(sub):
    sub.servers = getattr(sub, "servers", [])
    return sub


def twincmp(sub, adm, A, Bn, log):
    d = dump(adm)
    x = {k.replace(A, Bn): (v[0].replace(A, Bn),) + v[1:] if isinstance(v, tuple) else v for k, v in d.items() if k.startswith(("space:" + A, "model:" + A + "."))}
    y = {k: v for k, v in d.items() if k.startswith(("space:" + Bn, "model:" + Bn + "."))}
    if x != y:
        sub.violation("layout-state", "statements that differ only in layout left different states: " + diff(x, y), list(log), stop=True)


def stress(sub, bin):
    """raw and oversized inputs: a well-formed response, no crash, and nothing executed from a parameter"""
    rng = sub.rng
    s = server(sub_check(sub), bin, "x%d" % sub.idx)
    try:
        c = s.conn()
        for st in ("create space x", "create model x.m(k: string, v: binary)", "create model x.n(k: uint64, l: list { type: list { type: uint8 } })",
                   "create model x.d(k: uint64, l: " + "list { type: " * 60 + "string" + " }" * 60 + ")"):
            r = c.q(st)
            if isinstance(r, Err):
                sub.violation("refused-valid:create model", "%r refused: %r" % (st[:200], r), stop=True)
        c.q("insert into x.m(?, ?)", "canary", b"1")
        hist = []
        state = [dump(c)]

        def fail(sig, what):
            pan = panics(s.log())
            if pan:
                sig = "panic:" + pan[0][0]
                what += "; panic %r" % (pan[0],)
            elif not s.alive() or s.proc.poll() is not None:
                sig, what = "server-died", what + "; server ended with %r: %s" % (s.proc.poll(), s.log()[-300:])
            sub.violation(sig, what, hist[-5:], stop=True)

        def send(kind, body, must=None):
            """one raw request body (without the frame); then a canary"""
            nonlocal c
            hist.append((kind, len(body), repr(body[:300])))
            sub.case((kind, body[:2000], len(body)))
            sub.count("raw:" + kind)
            r = None
            try:
                c.send(b"S%d\n" % len(body) + body)
                r = c.resp()
            except (ProtoError, RecvTimeout, UnicodeError) as e:
                fail("raw-response:" + kind, "%s: no well-formed response: %r" % (kind, e))
            except ConnClosed:
                time.sleep(0.05)
                if not s.alive() or panics(s.log()):
                    fail("raw-closed:" + kind, "%s: connection closed" % kind)
                # an illegal packet may end the connection
                if must is not None:
                    fail("raw-closed:" + kind, "%s: a well-formed request closed the connection" % kind)
                c = s.conn()
                c.q("use null")
            if must is not None and not must(r):
                fail("raw-result:" + kind, "%s: gave %r" % (kind, r))
            try:
                x = c.q("select v from x.m where k = ?", "canary")
            except (ConnClosed, RecvTimeout, ProtoError) as e:
                if isinstance(e, ConnClosed) and s.alive() and isinstance(r, Err) and r.code == 6:
                    c = s.conn()
                    x = c.q("select v from x.m where k = ?", "canary")
                else:
                    fail("raw-desync:" + kind, "%s: the next request got no response: %r" % (kind, e))
            if repr(x) != "Row[binary:b'1']":
                fail("raw-desync:" + kind, "%s: the next request gave %r" % (kind, x))
            return r
        q = lambda st, *p: b"%d\n" % len(st.encode()) + st.encode() + b"".join(enc_param(x) for x in p)
        iserr = lambda r: isinstance(r, Err)
        syn = lambda r: isinstance(r, Err) and r.code in BADCODES
        # nesting, to depths that a recursive parser or destructor cannot take
        for n in (1, 2, 20, 64, 100, 200, 1000, 10000, 200000):
            deep = n > 160
            opn = lambda a, b, mid="": a * n + mid + b * n
            want = syn if deep else (lambda r: r is not None)
            send("deep list", q("insert into x.n(?, " + opn("[", "]") + ")", n), want)
            send("deep list unclosed", q("insert into x.n(?, " + "[" * n, n), syn)
            send("deep list tail", q("insert into x.n(?, " + opn("[", "]", "?") + ")", n, 5), want)
            send("deep dict", q("create space dd%d with { env: " % n + opn("{ a: ", " }", "?") + " }", 5), want if deep else None)
            send("deep dict unclosed", q("create space dd with " + "{ a: " * n), syn)
            send("deep alter dict", q("alter space x with { env: " + opn("{ a: ", " }", "null") + " }"), want if deep else None)
            send("deep type", q("create model x.t%d(k: uint8, l: " % n + opn("list { type: ", " }", "string") + ")"), want if deep else None)
            send("deep type unclosed", q("alter model x.n add z { type: " + "list { type: " * n), syn)
            send("deep sysctl", q("sysctl create user zz with " + opn("{ a: ", " }", "?"), "x"), iserr)
            send("deep parens", q("insert into x.n" + "(" * n + ")" * n), syn if n > 1 else None)
        # the deepest list that exists still works
        nested = "[" * 60 + "?" + "]" * 60
        send("deep ok", q("insert into x.d(?, " + nested + ")", 1, "v"), lambda r: r is EMPTY)
        send("deep ok read", q("select * from x.d where k = ?", 1), lambda r: isinstance(r, Row))
        # long statements
        for n in (1000, 30000, 200000):
            send("long where", q("select * from x.m where k = ?" + " and k = ?" * n, *(["a"] * (n + 1))), iserr)
            send("long where names", q("select * from x.m where " + " and ".join("k%d = ?" % i for i in range(n)), *(["a"] * n)), iserr)
            send("long fields", q("select " + "k," * n + "k from x.m where k = ?", "canary"), lambda r, n=n: isinstance(r, Row) and len(r) == n + 1 or iserr(r))
            send("long set", q("update x.m set " + ", ".join("v%d = ?" % i for i in range(n)) + " where k = ?", *([b"2"] * n + ["nokey"])), iserr)
            send("long tuple", q("insert into x.m(" + "?," * n + "?)", *(["a"] * (n + 1))), iserr)
            send("long map", q("insert into x.m{" + ", ".join("v%d: ?" % i for i in range(n)) + "}", *(["a"] * n)), iserr)
            send("long list", q("insert into x.n(?, [" + ", ".join(["[?]"] * n) + "])", n, *([7] * n)), lambda r: r is EMPTY)
            send("long list read", q("select l from x.n where k = ?", n), lambda r, n=n: isinstance(r, Row) and len(r[0].v) == n)
            send("long list del", q("delete from x.n where k = ?", n), lambda r: r is EMPTY)
            send("long ident", q("select * from x." + "a" * n + " where k = ?", 1), iserr)
            send("long ident2", q("use " + "a" * n), iserr)
            send("long space", q(" " * n + "select\n" + "\t" * n + "v from x.m where k = ?" + " " * n, "canary"), lambda r: isinstance(r, Row))
            send("long symbols", q("(" * n), syn)
            send("long keywords", q("select " * n), syn)
            send("long model", q("create model x.m(" + ", ".join("f%d: uint8" % i for i in range(n // 10)) + ")"), iserr)
            send("long dict", q("create space zz with { env: ?, " + ", ".join("f%d: null" % i for i in range(n // 10)) + "}", 1), iserr)
        after = dump(c)
        for k in list(after):
            if k.startswith("model:x.t") or k.startswith("space:dd"):
                after.pop(k)
        sub.count("stress_rounds")
        # parameters are data: statements as parameters
        evil = ["x.m; drop model x.m", "' or 1=1", "canary\x00", "?", "drop model allow not empty x.m", "\n0\n", "S10\n", "canary'--", "@uuidstr()", "null", "true", "18446744073709551615"]
        for e in evil:
            send("evil key", q("select v from x.m where k = ?", e), lambda r: r == Err(111))
            send("evil insert", q("insert into x.m(?, ?)", e, e.encode()), lambda r: r is EMPTY)
            send("evil read", q("select * from x.m where k = ?", e), lambda r, e=e: isinstance(r, Row) and r[0].v == e and r[1].v == e.encode())
            send("evil delete", q("delete from x.m where k = ?", e), lambda r: r is EMPTY)
        # a parameter that is not what its tag says is refused, and what is refused isn't stored
        r = c.q("create model x.p(k: uint64, null b: bool, null s: string, null u: uint64, null f: float64)")
        if isinstance(r, Err):
            fail("refused-valid:create model", "x.p refused: %r" % r)
        for rnd in range(60):
            k = rnd
            fs, pb, isbad = "k", b"", None
            kind = rng.choice(["bool", "utf8", "uint", "float", "fine"])
            vals = [k, None, None, None, None]
            raw = [enc_param(k)] + [b""] * 4
            if kind == "bool":
                raw[1], isbad = b"\x01" + bytes([rng.choice([2, 3, 4, 127, 128, 254, 255])]), True
            elif kind == "utf8":
                t = bytearray("".join(rng.choice("ab \u00e9\u2603\U0001d11e") for _ in range(rng.choice([1, 2, 30, 64, 65, 70, 200, 3000]))).encode())
                j = rng.choice([0, len(t) // 2, len(t), rng.randrange(len(t) + 1)])
                t[j:j] = rng.choice([b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xfe"])
                raw[2], isbad = b"\x06%d\n" % len(t) + bytes(t), True
            elif kind == "uint":
                raw[3], isbad = b"\x02" + rng.choice([b"x", b"1x", b"18446744073709551616", b"1" * 40, b"0x1f", b"1.0", b"\xff"]) + b"\n", True
            elif kind == "float":
                raw[4], isbad = b"\x04" + rng.choice([b"x", b"1x", b"1e", b"1.0.0", b"0x1p3", b"\xff", b"--1"]) + b"\n", True
            else:
                vals = [k, rng.random() < .5, "".join(rng.choice("ab\u00e9\u2603\U0001d11e\0") for _ in range(rng.choice([0, 1, 65, 3000]))), 10 ** rng.randrange(20), 0.5]
                raw = [enc_param(v) for v in vals]
            st = "insert into x.p(%s)" % ", ".join("?" if x else "null" for x in raw)
            send("param " + kind, b"%d\n" % len(st) + st.encode() + b"".join(raw), iserr if isbad else lambda r: r is EMPTY)
            want = (lambda r: r == Err(111)) if isbad else (lambda r, vals=vals: isinstance(r, Row) and [x.v for x in r] == vals)
            send("param read", q("select * from x.p where k = ?", k), want)
        state = dump(c)
        # random bytes
        base = [render(instance(rng, False), "x") for _ in range(200)]
        while sub.left() > 0:
            x = rng.random()
            st, ps = rng.choice(base)
            if "drop" in st or "sysctl" in st or "remove" in st:
                continue
            b = bytearray(st.encode())
            pb = bytearray(b"".join(enc_param(p) for p in ps))
            if x < 0.3:
                b = bytearray(rng.randbytes(rng.choice([0, 1, 2, 3, 5, 9, 17, 40, 200])))
                kind = "random text"
            elif x < 0.6:
                kind = "mutated text"
                for _ in range(rng.choice([1, 1, 2, 4])):
                    i = rng.randrange(len(b) + 1)
                    y = rng.random()
                    if y < 0.4 and i < len(b):
                        b[i] = rng.choice([0, 255, 10, 32, 0x80, 0xc3, rng.randrange(256), b[i] ^ 32])
                    elif y < 0.7:
                        b[i:i] = rng.randbytes(rng.choice([1, 1, 3]))
                    else:
                        del b[i:i + rng.choice([1, 1, 3, 30])]
            else:
                kind = "mutated params"
                if rng.random() < 0.3:
                    pb = bytearray(rng.choice([b"\x00", b"\x01", b"\x01\x02", b"\x02", b"\x02\n", b"\x02-1\n", b"\x02" + b"9" * 30 + b"\n", b"\x03", b"\x03\n", b"\x03-\n", b"\x03--1\n",
                                               b"\x03" + b"-9223372036854775809\n", b"\x03+1\n", b"\x04\n", b"\x04nan\n", b"\x04inf\n", b"\x041e999\n", b"\x04", b"\x04e\n", b"\x05", b"\x05\n", b"\x055\nab",
                                               b"\x0518446744073709551615\nab", b"\x0518446744073709551616\n", b"\x05-1\nab", b"\x062\n\xff\xfe", b"\x062\n\xc3(", b"\x0618446744073709551615\n", b"\x07", b"\x08", b"\xff",
                                               b"\x060\n", b"\x050\n", b"\x0600000000000000000000000002\nab", b"\x02 1\n", b"\x021 \n", b"\x02\r\n", b"\x0299999999999999999999", b"\x06" + b"1" * 100]) * rng.choice([1, 1, 2]))
                else:
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        i = rng.randrange(len(pb) + 1)
                        y = rng.random()
                        if y < 0.4 and i < len(pb):
                            pb[i] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 255, 10, 45, 48, 57, rng.randrange(256)])
                        elif y < 0.7:
                            pb[i:i] = rng.randbytes(rng.choice([1, 1, 3]))
                        else:
                            del pb[i:i + rng.choice([1, 1, 3, 30])]
            send(kind, b"%d\n" % len(b) + bytes(b) + bytes(pb))
            if not s.alive():
                break
        for loc, msg in panics(s.log()):
            sub.violation("panic:" + loc, "server thread panicked at %s: %s" % (loc, msg), hist[-5:])
        d = dump(c)
        if not any(k == "model:x.m" for k in d):
            sub.violation("canary-lost", "the canary model disappeared", hist[-5:])
    finally:
        s.kill()


def worker(sub, bin):
    (stress if sub.idx == 0 else one)(sub, bin)


def main(c):
    bin = binary(c)
    c.start_clock()
    par.run(c, 6, worker, bin)


if __name__ == "__main__":
    run("Q01", main, quick=35, thorough=900,
        rule="a case is one statement text (plus parameters) sent to a live server and judged by an independent recogniser, its twin layout, or the canary query after it")
