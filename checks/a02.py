import os, random, shutil, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, dump, users as UU

AUTH = Err(ERRC["SysAuthError"])
PROPS = Err(ERRC["InvalidProperties"])


class Ctx:
    def __init__(self, sub, s):
        self.sub, self.s, self.rng = sub, s, sub.rng
        self.users = {}             # name -> current password
        self.old = []               # (name, password) that must not work any more
        self.secret = set()         # every password ever used
        self.log = []
        self.names = self.rng.sample(UU.NAMES, 6)

    def q(self, c, q, *p):
        r = c.q(q, *p)
        self.log.append((q, [repr(x)[:100] for x in p], repr(r)))
        del self.log[:-60]
        return r

    def fail(self, sig, what):
        self.sub.violation(sig, what, list(self.log), stop=True)

    def pw(self):
        rng = self.rng
        p = UU.password(rng, rng.choice([None, None, 30]))
        if rng.random() < .1 and self.users:
            p = rng.choice(list(self.users.values()))       # two users may share one
        if len(p.encode()) >= 16:
            self.secret.add(p)
        return p


def login(x, name, pwd, want, how):
    c = UU.can_login(x.s, name, pwd, 60)
    x.sub.count("login_ok" if c else "login_refused")
    if (c is not None) != want:
        x.fail("login", "%s: user %r with %s (%d bytes) %s" % (how, name, "its password" if want else "a password that is not its own", len(pwd.encode()), "was refused" if want else "was accepted"))
    if c:
        r = c.q("sysctl report status")
        if r is not EMPTY:
            x.fail("login-status", "%r after the login of %r" % (r, name))
        c.close()


def statement(x, c):
    """one account statement and what it must answer"""
    rng = x.rng
    n = rng.choice(x.names + ["root"] * (rng.random() < .3))
    k = rng.random()
    have = n in x.users or n == "root"
    if k < .3:
        p = x.pw()
        r = x.q(c, "sysctl create user %s with { password: ? }" % n, p)
        if r is not EMPTY if not have else r != AUTH:
            x.fail("create", "create user %r (%s, password of %d bytes) gave %r" % (n, "exists" if have else "new", len(p.encode()), r))
        if not have:
            x.users[n] = p
            x.old = [o for o in x.old if o != (n, p)]
    elif k < .5:
        p = x.pw()
        r = x.q(c, "sysctl alter user %s with { password: ? }" % n, p)
        ok = n in x.users
        if r is not EMPTY if ok else r != AUTH:
            x.fail("alter", "alter user %r (%s) gave %r" % (n, "exists" if ok else "root" if n == "root" else "missing", r))
        if ok:
            if x.users[n] != p:
                x.old.append((n, x.users[n]))
            x.users[n] = p
            x.old = [o for o in x.old if o != (n, p)]
    elif k < .68:
        r = x.q(c, "sysctl drop user %s" % n)
        ok = n in x.users
        if r is not EMPTY if ok else r != AUTH:
            x.fail("drop", "drop user %r (%s) gave %r" % (n, "exists" if ok else "root" if n == "root" else "missing", r))
        if ok:
            x.old.append((n, x.users.pop(n)))
    else:
        m = rng.choice(["create", "alter"])
        good = x.pw()
        st, p, err = rng.choice([
            ("with { }", [], None), ("with { password: ? }", [5], PROPS), ("with { password: ? }", [b"binary-password-1"], PROPS),
            ("with { password: ? }", [True], PROPS), ("with { password: ? }", [None], None), ("with { password: { a: ? } }", [good], PROPS),
            ("with { password: ?, admin: ? }", [good, True], PROPS), ("with { Password: ? }", [good], PROPS), ("with { pass: ? }", [good], PROPS),
            ("with { password: ? }", [""], PROPS), ("with { password: ? }", ["p" * 73], PROPS), ("with { password: ? }", ["longpassword\x00xyz"], PROPS),
            ("with { password: ? }", ["p" * 5000], PROPS), ("with { password: ? } extra", [good], None), ("with", [], None), ("", [], None),
            ("with { password: ?", [good], None), ("with { password ? }", [good], None), ("{ password: ? }", [good], None),
            ("with { password: [?] }", [good], None), ("with { password: null }", [], None)])
        r = x.q(c, "sysctl %s user %s %s" % (m, n, st), *p)
        if not isinstance(r, Err):
            x.fail("malformed", "sysctl %s user %s %s with %r gave %r" % (m, n, st, p, r))
        if err is not None and r not in (err, AUTH):
            x.fail("malformed-code", "sysctl %s user %s %s gave %r" % (m, n, st, r))
        x.sub.count("malformed")
    x.sub.count("statements")
    x.sub.case((n, round(k, 1), repr(r), len(x.users)))


def race(x):
    """several roots fight over one name: exactly one create and one drop succeed, the accounts are those of some order"""
    rng = x.rng
    n = rng.choice(x.names)
    kind = rng.choice(["create", "drop", "alter", "mixed"])
    cs = [x.s.conn(timeout=60) for _ in range(4)]
    init = n in x.users
    todo = []
    for i in range(4):
        k = kind if kind != "mixed" else rng.choice(["create", "drop", "alter"])
        todo.append((k, UU.password(rng, 24)))
    res = [None] * 4
    bar = threading.Barrier(4)

    def go(i):
        bar.wait()
        k, p = todo[i]
        try:
            res[i] = cs[i].q("sysctl drop user %s" % n) if k == "drop" else cs[i].q("sysctl %s user %s with { password: ? }" % (k, n), p)
        except Exception as e:
            res[i] = e
    ts = [threading.Thread(target=go, args=(i,)) for i in range(4)]
    [t.start() for t in ts]
    [t.join(90) for t in ts]
    for c in cs:
        c.close()
    x.log.append(("race", n, todo, repr(res), "existed" if init else "new"))
    for r in res:
        if r is not EMPTY and r != AUTH:
            x.fail("race-answer", "concurrent account statements on %r: answer %r" % (n, r))
    # all end states some order allows
    ends = set()

    def walk(left, cur):
        if not left:
            ends.add(cur)
        for i in left:
            k, p = todo[i]
            ok = res[i] is EMPTY
            can = (cur is None) if k == "create" else (cur is not None)
            if ok == can:
                walk(left - {i}, (p if k != "drop" else None) if ok else cur)
    walk(frozenset(range(4)), x.users.get(n))
    if not ends:
        x.fail("race", "concurrent account statements on %r (%s): %r answered %r fit no order" % (n, "existing" if init else "new", [t[0] for t in todo], res))
    cur = None
    for p in [t[1] for t in todo if t[0] != "drop"] + ([x.users[n]] if init else []):
        c = UU.can_login(x.s, n, p, 60)
        if c:
            c.close()
            if cur is not None:
                x.fail("race-two", "two passwords of %r work" % n)
            cur = p
    if cur not in ends:
        x.fail("race-end", "after concurrent account statements on %r the account is %s, the orders allow %d other outcomes" % (n, "missing" if cur is None else "there", len(ends)))
    if init and x.users[n] != cur:
        x.old.append((n, x.users[n]))
    x.users.pop(n, None)
    if cur is not None:
        x.users[n] = cur
    x.sub.count("races")
    x.sub.case(("race", kind, init, repr(res), cur is None))


def verify(x, c, how, full=False):
    got = dump.users(c)
    want = set(x.users) | {"root"}
    if got != want:
        x.fail("accounts", "%s: accounts are %r, expected %r" % (how, sorted(got), sorted(want)))
    todo = [(n, p, True) for n, p in x.users.items()] + [(n, p, False) for n, p in x.old[-6:]]
    x.rng.shuffle(todo)
    for n, p, ok in todo[:None if full else 4]:
        if ok or x.users.get(n) != p:
            login(x, n, p, ok, how)


def leak(x):
    """no password in clear in any file of the data directory or in the log"""
    pats = [p.encode() for p in x.secret] + [x.s.rootpw.encode()]
    fs = [x.s.logpath]
    for r, _, f in os.walk(x.s.dir):
        fs += [os.path.join(r, y) for y in f]
    for f in fs:
        b = open(f, "rb").read()
        for p in pats:
            if p in b:
                x.fail("clear", "password in clear in %s at byte %d" % (os.path.relpath(f, x.s.dir), b.index(p)))
        x.sub.count("files_searched")


def worker(sub, bin):
    n = 0
    rng = sub.rng
    while sub.left() > 0:
        d = os.path.join(sub.dir, "w%d-%d" % (sub.idx, n))
        s = Server(bin, d, rs_window=300, loglevel="trace",
                   rootpw=UU.password(rng, rng.choice([16, 40, 72])) if n % 2 else "verif-root-pw-%d" % rng.randrange(10**9))
        x = Ctx(sub, s)
        try:
            s.start()
            for inc in range(3):
                c = s.conn(timeout=60)
                verify(x, c, "after %s start" % ("a" if inc else "the first"), full=True)
                for _ in range(rng.choice([1, 2, 3])):
                    for _ in range(rng.choice([1, 4, 8])):
                        statement(x, c)
                    if rng.random() < .4:
                        race(x)
                    verify(x, c, "after statements")
                oldroot = s.rootpw
                rc = s.stop()
                p = panics(s.log())
                if p:
                    sub.violation("panic:" + p[0][0], repr(p[0]), list(x.log), stop=True)
                if rc != 0:
                    sub.violation("shutdown", "exit %r" % rc, s.log()[-1500:], stop=True)
                leak(x)
                ch = rng.random() < .4
                if ch:
                    s.rootpw = "another-root-pw-%d" % rng.randrange(10**9)
                try:
                    s.start()
                except StartFailed as e:
                    sub.violation("restart", "restart failed%s: %s" % (" with another root password" if ch else "", e), list(x.log), stop=True)
                login(x, "root", s.rootpw, True, "after a restart" + (" with another root password" if ch else ""))
                if ch:
                    login(x, "root", oldroot, False, "after a restart with another root password")
                    sub.count("root_password_changes")
                sub.count("restarts")
                if sub.left() < 0:
                    break
            c = s.conn(timeout=60)
            verify(x, c, "at the end", full=True)
            p = panics(s.log())
            if p:
                sub.violation("panic:" + p[0][0], repr(p[0]), list(x.log), stop=True)
        except (ConnClosed, RecvTimeout, ProtoError) as e:
            sub.violation("no-response", "connection failed: %r" % e, dict(ops=x.log, log=s.log()[-1500:]), stop=True)
        finally:
            s.kill()
            shutil.rmtree(d, ignore_errors=True)
        n += 1


def main(c):
    b = binary(c)
    c.start_clock()
    par.run(c, 7, worker, b)


run("A02", main, quick=40, thorough=900,
    rule="random and racing account statements over tricky names and passwords, each answer predicted, accounts verified by listing and by logins "
         "(current passwords accepted, former ones refused), restarts with the same or another root password, data files and logs searched for passwords")
