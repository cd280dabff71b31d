import multiprocessing as mp, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib.model import *
from vlib import par, lin

BIG = 2**64 - 1
NF, DU = ERRC["RowNotFound"], ERRC["Duplicate"]


def step(st, op):
    """st: None or (v, w, n, l).  op: (kind, arg, outcome)"""
    k, a, r = op
    if k == "ins":
        if st is None:
            return [(a, a, 0, ())] if r == "ok" else []
        return [st] if r == DU else []
    if k == "sel":
        if st is None:
            return [st] if r == NF else []
        return [st] if r == st else []
    if st is None:
        return [st] if r == NF else []
    if k == "del":
        return [None] if r == "ok" else []
    v, w, n, l = st
    if k == "set":
        return [(a, a, n + 1, l)] if r == "ok" else []
    if k == "swp":
        return [(a, a, n + 1, l)] if r == "ok" else []
    if k == "inc":
        return [(v, w, n + a, l)] if r == "ok" else []
    if k == "app":
        return [(v, w, n, l + (a,))] if r == "ok" else []
    if k == "bad":
        return [st] if r == "err" else []
    raise ValueError(k)


def outcome(kind, resp):
    if kind == "sel":
        if isinstance(resp, Row) and len(resp) == 4:
            return (resp[0].v, resp[1].v, resp[2].v, tuple(x.v for x in resp[3].v))
        return resp.code if isinstance(resp, Err) else repr(resp)
    if resp is EMPTY:
        return "ok"
    if isinstance(resp, Err):
        if kind == "bad" and resp.code not in (NF,):
            return "err"
        return resp.code
    return repr(resp)


def mkop(rng, mix, uid, m, key):
    x = rng.random()
    acc = 0
    for kind, w in mix:
        acc += w
        if x < acc:
            break
    if kind == "ins":
        return kind, uid, enc_query("insert into %s { k: ?, v: ?, w: ?, n: ?, l: [] }" % m, [key, uid, uid, 0])
    if kind == "set":
        return kind, uid, enc_query("update %s set v = ?, n += ?, w = ? where k = ?" % m, [uid, 1, uid, key])
    if kind == "swp":
        return kind, uid, enc_query("update %s set w = ?, n += ?, v = ? where k = ?" % m, [uid, 1, uid, key])
    if kind == "inc":
        return kind, 1, enc_query("update %s set n += ? where k = ?" % m, [1, key])
    if kind == "app":
        return kind, uid, enc_query("update %s set l += ? where k = ?" % m, [uid, key])
    if kind == "bad":
        return kind, uid, enc_query("update %s set v = ?, w = ?, n += ?, n += ? where k = ?" % m, [uid, 99, 1, BIG, key])
    if kind == "del":
        return kind, None, enc_query("delete from %s where k = ?" % m, [key])
    return kind, None, enc_query("select v, w, n, l from %s where k = ?" % m, [key])


MIXES = [
    [("inc", .8), ("sel", .2)],
    [("ins", .3), ("del", .3), ("sel", .2), ("inc", .1), ("set", .1)],
    [("set", .3), ("swp", .3), ("sel", .4)],
    [("ins", .1), ("del", .05), ("set", .2), ("inc", .2), ("bad", .15), ("sel", .3)],
    [("ins", .45), ("del", .45), ("sel", .1)],
    [("app", .3), ("set", .15), ("del", .03), ("ins", .12), ("sel", .4)],
    [("bad", .5), ("sel", .4), ("inc", .1)],
]


def client(sub, srv, cfg, bar):
    rng = sub.rng
    rng.seed("C03/%s/%d/%d" % (sub.seed, cfg["round"], sub.idx))
    c = srv.conn(timeout=90)
    hist = []                      # (key, inv, res, (kind, arg, outcome))
    uid = sub.idx * 10**8 + cfg["round"] * 10**5
    ok = True
    for b, plan in enumerate(cfg["bursts"]):
        if sub.idx >= plan["clients"]:
            try:
                bar.wait(60)
                continue
            except Exception:
                break
        ops = []
        for _ in range(plan["n"]):
            uid += 1
            k = rng.choice(plan["keys"])
            ops.append((k,) + mkop(rng, plan["mix"], uid, plan["model"], plan["enc"](k)))
        try:
            bar.wait(60)
        except Exception:
            break
        try:
            i = 0
            while i < len(ops):
                nb = ops[i:i + plan["pipe"]]
                inv = time.monotonic_ns()
                c.send(b"".join(o[3] for o in nb))
                for k, kind, arg, _ in nb:
                    r = c.resp()
                    hist.append(((b, k), inv, time.monotonic_ns(), (kind, arg, outcome(kind, r))))
                i += len(nb)
        except (ConnClosed, RecvTimeout, ProtoError) as e:
            sub.violation("no-response", "connection failed during concurrent statements: %r" % e, dict(plan=plan["mix"]))
            bar.abort()
            break
    sub.result = hist
    c.close()


def analyse(sub, cfg, hists, nproc):
    """each object's history separately"""
    objs = sorted({h[0] for hs in hists for h in hs})
    for n, o in enumerate(objs):
        if n % nproc != sub.idx:
            continue
        per = [[(inv, res, op) for k, inv, res, op in hs if k == o] for hs in hists]
        total = sum(map(len, per))
        over = overlap(per)
        sub.case((cfg["round"], o, over, hash(tuple(op for h in per for _, _, op in h))), n=total)
        sub.count("objects")
        sub.count("operations", total)
        sub.count("overlapping_pairs", over)
        for h in per:
            for _, _, op in h:
                sub.count("%s:%s" % (op[0], op[2] if isinstance(op[2], (str, int)) else "row"))
        try:
            ok, info = lin.check(per, [None], step, lambda op: op[0] in ("sel", "bad") or op[2] != "ok")
        except lin.Limit:
            sub.count("search_limit")
            continue
        sub.count("linearized")
        if not ok:
            mix = cfg["bursts"][o[0]]
            sub.violation("nonlinearizable", "no linearization of key %r: after %d of %d operations state %s, pending %r"
                          % (o, info["linearized"], total, info["state"][:300], repr(info["pending"])[:600]),
                          dict(info=info, mix=mix["mix"], clients=mix["clients"], pipe=mix["pipe"],
                               history=per if total < 400 else None), stop=True)


def overlap(per):
    ev = sorted((inv, res, c) for c, h in enumerate(per) for inv, res, _ in h)
    n = 0
    for i, (inv, res, c) in enumerate(ev):
        for j in range(i + 1, min(i + 9, len(ev))):
            if ev[j][0] <= res and ev[j][2] != c:
                n += 1
    return n


def pin(pid, cpus):
    for t in os.listdir("/proc/%d/task" % pid):
        try:
            os.sched_setaffinity(int(t), cpus)
        except OSError:
            pass


def main(c):
    b = binary(c)
    s = server(c, b, rs_window=1)
    root = s.conn()
    assert root.q("create space s") is EMPTY
    c.start_clock()
    rnd = 0
    rng = c.rng
    NC = 8
    cpus = sorted(os.sched_getaffinity(0))
    while c.left() > 0 and not c.viol:
        # how the server threads are scheduled: free, or squeezed on one or two cores (preemption anywhere)
        x = rng.random()
        pin(s.proc.pid, cpus if x < .5 else (cpus[:2] if x < .8 else cpus[:1]))
        kty = rng.choice(["uint64", "string", "binary", "sint16"])
        m = "s.m%d" % rnd
        bursts = []
        nb = 14 if c.tier == "quick" else 25
        for i in range(nb):
            mm = "%s_%d" % (m, i)
            r = root.q("create model %s(k: %s, v: uint64, w: uint64, n: uint64, l: list { type: uint64 })" % (mm, kty))
            if r is not EMPTY:
                c.violation("create", "create model gave %r" % r, stop=True)
            nk = rng.choice([1, 1, 2, 3])
            enc = {"uint64": lambda k: k, "string": lambda k: "k%d" % k, "binary": lambda k: b"\x00%d" % k, "sint16": lambda k: S(-k)}[kty]
            mix = rng.choice(MIXES)
            bursts.append(dict(model=mm, clients=rng.choice([2, 3, 4, 6, 8]), n=rng.choice([40, 120]) if mix[0][0] != "app" else 40,
                               pipe=rng.choice([1, 1, 3, 8, 20]), keys=list(range(1, nk + 1)), mix=mix, enc=enc))
        bar = mp.get_context("fork").Barrier(NC)
        cfg = dict(round=rnd, bursts=bursts)
        hists = par.run(c, NC, client, s, cfg, bar)
        if c.viol or not health(c, s, "round %d" % rnd):
            return
        par.run(c, NC, analyse, cfg, hists, NC)
        c.sample(dict(mix=bursts[0]["mix"], clients=bursts[0]["clients"], ops=[repr(h) for hs in hists for h in hs[:2]][:6]))
        for i in range(nb):
            root.q("drop model allow not empty %s_%d" % (m, i))
        rnd += 1
        c.count("rounds")
    health(c, s, "at the end")


run("C03", main, quick=30, thorough=1200,
    rule="bursts of pipelined insert/update/delete/select statements from 2-8 connections on 1-3 keys, server threads free or squeezed on few "
         "cores; every key history checked for linearizability; distinct = distinct key histories")
