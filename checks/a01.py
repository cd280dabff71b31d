import os, random, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, dump, users as UU

PERM = 5

DENIED = [("create space {n}", []), ("create space if not exists {n}", []), ("create space {n} with {{ env: {{ a: ? }} }}", ["x"]),
          ("create model pub.{n}(k: uint64, v: string)", []), ("create model if not exists pub.{n}(k: uint64, v: string)", []),
          ("create model nosuch.{n}(k: string, v: string)", []),
          ("alter space pub with {{ env: {{ a: ? }} }}", [1]), ("alter model pub.t add {n} {{ type: uint64, nullable: true }}", []),
          ("alter model pub.t remove v", []), ("alter model pub.t update v {{ type: string, nullable: true }}", []),
          ("drop space empty", []), ("drop space allow not empty pub", []), ("drop space if exists empty", []), ("drop model pub.t", []),
          ("drop model allow not empty pub.t", []), ("drop model if exists pub.none", []), ("drop space nosuch", []),
          ("sysctl create user {n} with {{ password: ? }}", ["longpassword1234"]), ("sysctl alter user {me} with {{ password: ? }}", ["longpassword1234"]),
          ("sysctl alter user {other} with {{ password: ? }}", ["longpassword1234"]), ("sysctl alter user root with {{ password: ? }}", ["longpassword1234"]),
          ("sysctl drop user {other}", []), ("sysctl drop user root", []), ("sysctl drop user {me}", []), ("sysctl drop user nosuch", [])]


def spell(q, rng):
    """other spellings of the same statement"""
    x = rng.random()
    if x < .3:
        q = q.replace(" ", rng.choice(["  ", "\n", "\t "]))
    elif x < .5:
        w = q.split(" ")
        for i in range(min(2, len(w))):
            w[i] = rng.choice([w[i].upper(), w[i].capitalize()])
        q = " ".join(w)
    if rng.random() < .2:
        q = " \n" + q + " "
    return q


class Setup:
    def __init__(self, sub, s):
        self.sub, self.s, self.rng = sub, s, sub.rng
        self.root = s.conn(timeout=60)
        r = self.root
        for q in ["create space pub", "create space empty", "create model pub.t(k: uint64, v: string)", "create model pub.canary(k: uint64, v: string)"]:
            if r.q(q) is not EMPTY:
                sub.violation("setup", "%r refused" % q, stop=True)
        self.users = {}
        names = self.rng.sample([n for n in UU.NAMES if len(n) <= 30], 2)
        names.append(self.rng.choice([n for n in UU.NAMES if len(n) > 30]))
        self.rng.shuffle(names)
        for n in names:
            p = UU.password(self.rng)
            x = r.q("sysctl create user %s with { password: ? }" % n, p)
            if x is not EMPTY:
                sub.violation("create-user", "create user %r with a password of %d bytes gave %r" % (n, len(p.encode()), x), stop=True)
            self.users[n] = p
        # a user that existed, and an old password
        n = [x for x in UU.NAMES if x not in names][0]
        self.gone = (n, UU.password(self.rng, 20))
        r.q("sysctl create user %s with { password: ? }" % n, self.gone[1])
        if r.q("sysctl drop user %s" % n) is not EMPTY:
            sub.violation("drop-user", "drop user refused", stop=True)
        self.old = (names[0], self.users[names[0]])
        self.users[names[0]] = UU.password(self.rng, 24)
        x = r.q("sysctl alter user %s with { password: ? }" % names[0], self.users[names[0]])
        if x is not EMPTY:
            sub.violation("alter-user", "alter user gave %r" % (x,), stop=True)
        self.kcan = 0
        self.before = dump.dump(r)

    def unchanged(self, what):
        d = dump.diff(self.before, dump.dump(self.root))
        if d:
            self.sub.violation("effect", "%s had an effect: %s" % (what, d), stop=True)


def bad_handshake(e):
    """(bytes, description) of a connection that must never be answered with anything but a refusal"""
    rng = e.rng
    x = rng.random()
    who = rng.choice(list(e.users) + ["root", "root"])
    pw = e.users.get(who, e.s.rootpw)
    if x < .45:
        p, how = UU.wrong(rng, pw, [y for y in list(e.users.values()) + [e.s.rootpw] if y != pw])
        return UU.hs(who, p), "user %s, password: %s" % (who, how)
    if x < .55:
        return UU.hs(*e.gone), "dropped user with the old password"
    if x < .65:
        return UU.hs(*e.old), "old password of an altered user"
    if x < .85:
        n = rng.choice([who + "x", who[:-1], who.swapcase(), who + "\x00", "\x00" + who, who + " ", " " + who, "", "nosuch", who + "\n", "r\u043eot", who * 2])
        if n in e.users or n == "root" or n == who:
            n = "nosuchuser"
        return UU.hs(n, pw), "user name %r with the password of %s" % (n[:40], who)
    if x < .93:
        head = bytearray(b"H\x00\x00\x00\x00\x00")
        i = rng.randrange(6)
        head[i] = rng.choice([v for v in (0, 1, 2, 72, 83, 128, 255) if v != head[i]])
        return UU.hs(who, pw, bytes(head)), "handshake byte %d set to %d" % (i, head[i])
    u, p = who.encode(), pw.encode()
    return rng.choice([
        (b"", "no handshake"),
        (b"H\x00\x00\x00\x00\x00%d\n%d\n" % (len(u), 0) + u, "password length 0"),
        (b"H\x00\x00\x00\x00\x00%d\n%d\n" % (len(u) + len(p), 0) + u + p, "password counted into the name"),
        (b"H\x00\x00\x00\x00\x00%d\n%d\n" % (0, len(u) + len(p)) + u + p, "name counted into the password"),
        (b"H\x00\x00\x00\x00\x00+%d\n%d\n" % (len(u), len(p)) + u + p, "signed length"),
        (b"S" + UU.hs(who, pw), "query byte before the handshake"),
    ])


def intrude(e):
    """whatever follows a bad handshake must not be executed or answered"""
    rng = e.rng
    data, how = bad_handshake(e)
    e.kcan += 1
    tail = b""
    for _ in range(rng.choice([0, 1, 1, 3])):
        tail += enc_query(*rng.choice([("insert into pub.canary(?, ?)", [e.kcan, "x"]), ("create space intruder%d" % e.kcan, []), ("sysctl report status", []),
                                       ("select * from pub.t where k = ?", [1]), ("drop model allow not empty pub.t", []),
                                       ("sysctl create user intruder%d with { password: ? }" % e.kcan, ["longpassword1234"])]))
    if rng.random() < .2:
        tail = UU.hs("root", e.s.rootpw) + tail if data else tail      # a second, valid handshake after the bad one
    if not data:
        tail = tail or enc_query("create space intruder%d" % e.kcan)
    got, end = UU.deliver(e.s.port, data + tail, rng, tmo=6)
    e.sub.count("bad_handshakes")
    e.sub.count("bad:" + end)
    e.sub.case((how, len(tail), end, got))
    # an error packet of the handshake (4 bytes), or nothing
    if got not in (b"",) and not (len(got) == 4 and got[:3] == b"H\x00\x01"):
        e.sub.violation("answered", "%s, followed by %d bytes of queries, was answered with %r" % (how, len(tail), got[:80]), stop=True)
    if end == "silent" and data[:1] == b"H" and "byte" not in how and "length" not in how and "counted" not in how:
        e.sub.violation("stuck", "%s: neither refused nor closed within 6 s" % how, stop=True)


def ordinary(e):
    """the exact password works, the rights are exactly those of an ordinary user"""
    rng, sub = e.rng, e.sub
    me = rng.choice(list(e.users))
    other = rng.choice([x for x in e.users if x != me])
    try:
        c = Conn(e.s.port, me, e.users[me], timeout=60)
    except HandshakeError as x:
        sub.violation("refused", "user %r with the exact password (%d bytes) was refused: %s" % (me, len(e.users[me].encode()), x), stop=True)
    sub.count("logins")
    k = rng.randint(10, 99)

    def want(q, ok, *p):
        r = c.q(q, *p)
        if not ok(r):
            sub.violation("rights", "ordinary user %s: %r gave %r" % (me, q, r), stop=True)
        sub.count("allowed")
        return r
    isok = lambda r: r is EMPTY
    for _ in range(2):
        want("use pub", isok)
        want("insert into t(?, ?)", isok, k, "a")
        want("select * from pub.t where k = ?", lambda r: isinstance(r, Row), k)
        want("update pub.t set v = ? where k = ?", isok, "b", k)
        want("select all * from t limit ?", lambda r: isinstance(r, Rows), 5)
        want("delete from t where k = ?", isok, k)
        want("inspect space pub", lambda r: isinstance(r, V))
        want("inspect model pub.t", lambda r: isinstance(r, V))
        want("inspect global", lambda r: isinstance(r, V))
        want("use $current", lambda r: r == V(13, "pub"))
        want("use null", isok)
        want("sysctl report status", isok)
        for q, p in rng.sample(DENIED, 12):
            e.kcan += 1
            q = spell(q.format(n="forbidden%d" % e.kcan, me=me, other=other), rng)
            if rng.random() < .3:
                want("use pub", isok)
            r = c.q(q, *p)
            sub.count("denied")
            sub.case((me, q, repr(r)))
            if r != Err(PERM):
                sub.violation("permission", "ordinary user %s: %r gave %r instead of a permission error" % (me, q, r), stop=True)
        e.unchanged("statements of ordinary user %s" % me)
    # malformed or pipelined attempts
    q = b"".join(enc_query(spell(q.format(n="forbidden", me=me, other=other), rng), p) for q, p in rng.sample(DENIED, 5))
    c.send(q)
    for _ in range(5):
        if c.resp() != Err(PERM):
            sub.violation("permission", "ordinary user %s: pipelined administration statement was not refused" % me, stop=True)
    for q, p in [("create", []), ("drop space", []), ("sysctl", []), ("sysctl drop user", []), ("alter model", []), ("sysctl create user x", []), ("drop model ?", ["pub.t"])]:
        r = c.q(q, *p)
        if not isinstance(r, Err):
            sub.violation("permission", "ordinary user %s: malformed %r gave %r" % (me, q, r), stop=True)
    c.close()


def worker(sub, bin):
    n = 0
    while sub.left() > 0:
        d = os.path.join(sub.dir, "w%d-%d" % (sub.idx, n))
        s = Server(bin, d, rs_window=300, rootpw=UU.password(sub.rng, sub.rng.choice([16, 20, 72])) if n % 2 else "verif-root-password-0001", loglevel="info")
        try:
            s.start()
            e = Setup(sub, s)
            restarted = False
            for i in range(30):
                if sub.left() < 0:
                    break
                if i % 10 == 3:
                    ordinary(e)
                elif i % 10 == 7:
                    r = UU.can_login(s, "root", s.rootpw)
                    if r is None or r.q("create space adm") is not EMPTY or r.q("drop space adm") is not EMPTY:
                        sub.violation("root", "root cannot log in or administer", stop=True)
                    r.close()
                else:
                    intrude(e)
                if i % 10 == 9:
                    e.unchanged("unauthenticated connections")
                if i == 15 and sub.rng.random() < .5:
                    e.root.close()
                    rc = s.stop()
                    if rc != 0:
                        sub.violation("shutdown", "exit %r" % rc, stop=True)
                    s.start()
                    e.root = s.conn(timeout=60)
                    e.unchanged("a restart")
                    sub.count("restarts")
            e.unchanged("everything before")
            p = panics(s.log())
            if p:
                sub.violation("panic:" + p[0][0], repr(p[0]), stop=True)
            sub.count("servers")
        except (ConnClosed, RecvTimeout, ProtoError) as x:
            sub.violation("no-response", "authenticated connection failed: %r" % x, s.log()[-1500:], stop=True)
        finally:
            s.kill()
            shutil.rmtree(d, ignore_errors=True)
        n += 1


def main(c):
    b = binary(c)
    c.start_clock()
    par.run(c, 7, worker, b)


run("A01", main, quick=40, thorough=900,
    rule="connections with damaged credentials or handshakes followed by queries, in random fragments, must get a refusal and have no effect (full "
         "dump compared); ordinary users run what they may and are refused everything else; distinct = distinct (attempt, reply)")
