import glob, os, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.base import *
from vlib import build as B

TESTS = {"queue": ["skyd_verif::queue::queue_rounds"], "tree": ["skyd_verif::tree::tree_rounds", "skyd_verif::tree::tree_walks"],
         "blocks": ["skyd_verif::blocks::block_walks"], "engine": ["skyd_verif::engine::engine_rounds"], "rows": ["skyd_verif::rows::row_rounds"], "input": ["skyd_verif::input::inputs"]}
OBS = re.compile(r"SKYV-OBS (\w+)((?: \w+=\d+)+)")
FRAME = re.compile(r"(?:-->|at|in) [^\n]*?(server/src/[\w/]+\.rs)")


def observe(c, out, tool, test):
    """what the monitors saw in one execution or more"""
    n = 0
    for m in OBS.finditer(out):
        n += 1
        for kv in m.group(2).split():
            k, v = kv.split("=")
            c.count("%s:%s:%s" % (tool, m.group(1), k), int(v))
    return n


def judge(c, out, rc, tool, test, how):
    """reports what the instrumentation or a monitor said; True if the execution ended well"""
    short = test.split("::")[1]
    m = re.search(r"SKYV: ?([^\n]*)", out)
    if m and "panicked" in out:
        msg = m.group(1)
        c.violation("%s:%s" % (short, re.sub(r"\d+|\(.*|\{.*|`.*", "", msg)[:60].strip()), "%s, %s: %s" % (tool, short, msg[:300]), dict(how=how, out=out[-12000:]))
        return False
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", out)
    if m:
        at = out.index(m.group(0))
        f = FRAME.search(out, at)
        c.violation("asan:%s:%s" % (m.group(1), f.group(1) if f else "?"), "%s: AddressSanitizer: %s in %s" % (short, m.group(1), f.group(1) if f else "?"), dict(how=how, out=out[at:at + 12000]))
        return False
    m = re.search(r"error: (Undefined Behavior: [^\n]*|the evaluated program deadlocked[^\n]*|deadlock[^\n]*|memory leaked[^\n]*)", out)
    if m:
        at = m.start()
        f = FRAME.search(out, at)
        where = f.group(1) if f else "?"
        c.violation("miri:%s:%s" % (re.sub(r"0x[0-9a-f]+|\d+|`.*?`", "", m.group(1))[:60].strip(), where), "%s under Miri: %s (%s)" % (short, m.group(1)[:300], where), dict(how=how, out=out[at:at + 12000]))
        return False
    m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", out)
    if m:
        loc = re.sub(r":\d+(:\d+)?:?$", "", m.group(1))
        loc = re.sub(r"^.*/(?=server/src|harness)", "", loc)
        c.violation("panic:%s:%s" % (short, loc), "%s (%s): panicked at %s: %s" % (short, tool, loc, m.group(2)[:300]), dict(how=how, out=out[m.start():m.start() + 12000]))
        return False
    if "error: unsupported operation" in out:
        c.count("miri_unsupported")
        return False
    if rc is not None and rc < 0 and rc not in (-9, -15):
        c.violation("signal:%s:%d" % (short, rc), "%s (%s): ended by signal %d" % (short, tool, -rc), dict(how=how, out=out[-12000:]))
        return False
    if rc not in (0, None, -9, -15):
        c.count("odd_exit")
        c.sample(dict(tool=tool, test=test, rc=rc, out=out[-800:]))
        return False
    return True


def native(c, exe, sections, until):
    tests = [t for s in sections for t in TESTS[s]]
    lock, state = threading.Lock(), dict(n=0)

    def loop(idx):
        while time.time() < until and not c.viol:
            with lock:
                n = state["n"]
                state["n"] += 1
            t = tests[n % len(tests)]
            scale = (3, 10, 30, 80)[(n // len(tests)) % 4]
            seed = c.seed * 1000003 + n
            d = os.path.join(c.dir, "n%d" % idx)
            os.makedirs(d, exist_ok=True)
            env = dict(os.environ, SKYV_SCALE=str(scale), SKYV_SEED=str(seed), RUST_BACKTRACE="1",
                       ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1")
            how = dict(tool="asan", test=t, SKYV_SCALE=scale, SKYV_SEED=seed)
            try:
                p = subprocess.run([exe, t, "--exact", "--nocapture", "--test-threads=1"] if False else [exe, t, "--nocapture", "--test-threads=1"],
                                   cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b"").decode("utf-8", "replace")
                c.violation("hang:" + t.split("::")[1], "%s did not end within 150 s (normally a second): threads wait for each other or for ever" % t, dict(how=how, out=out[-4000:]))
                return
            out = p.stdout.decode("utf-8", "replace")
            if judge(c, out, p.returncode, "asan", t, how):
                k = observe(c, out, "asan", t)
                if k:
                    c.case(("asan", t, scale, seed))
    ths = [threading.Thread(target=loop, args=(i,)) for i in range(8)]
    [t.start() for t in ths]
    [t.join() for t in ths]


def interpreted(c, miri, until):
    tests = [t for s in miri.sections for t in TESTS[s]]
    # the interpreter runs as many seeds at once as it has cores: the cores are dealt out
    cores = sorted(os.sched_getaffinity(0))
    want = dict(tree_rounds=2, engine_rounds=2)
    deal, at = {}, 0
    for t in sorted(tests, key=lambda t: -want.get(t.split("::")[-1], 1)):
        n = want.get(t.split("::")[-1], 1)
        deal[t] = {cores[(at + j) % len(cores)] for j in range(n)}
        at += n
    procs = []
    lo = (c.seed * 7919) % 100000
    for i, t in enumerate(tests):
        path = os.path.join(c.dir, "miri-%d.log" % i)
        f = open(path, "wb")
        # more preemptions in every second run of the concurrent sections
        flags = "-Zmiri-many-seeds=%d..%d" % (lo, lo + 500)
        if (c.seed + i) % 2:
            flags += " -Zmiri-preemption-rate=0.05"
        procs.append([t, path, f, miri.popen(t, f, flags, cpus=deal[t], SKYV_SEED=c.seed, SKYV_SCALE=1), flags])
    live = list(procs)
    while live and time.time() < until and not c.viol:
        time.sleep(1)
        live = [p for p in live if p[3].poll() is None]
    for t, path, f, p, flags in procs:
        rc = p.poll()
        if rc is None:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        f.close()
        out = open(path, "rb").read().decode("utf-8", "replace")
        if "could not compile" in out and "Undefined" not in out:
            c.notes.append("miri did not compile %s" % t)
            continue
        k = observe(c, out, "miri", t)
        judge(c, out, None if rc is None else rc, "miri", t, dict(tool="miri", test=t, flags=flags, SKYV_SEED=c.seed))
        for x in range(k):
            c.case(("miri", t, lo, x))
        c.count("miri:executions:" + t.split("::")[-1], k)


def main(c):
    res, errs = {}, {}

    def b(kind):
        try:
            res[kind] = B.build_harness(kind)
        except B.BuildFailed as e:
            errs[kind] = str(e)
    ths = [threading.Thread(target=b, args=(k,)) for k in ("miri", "asan")]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if not res:
        raise Inconclusive("the harness does not build: " + repr(errs)[-3000:])
    for k, e in errs.items():
        c.notes.append("%s build failed: %s" % (k, e[-500:]))
    for k, r in res.items():
        secs = r.sections if k == "miri" else r[1]
        if len(secs) < len(B.HARNESS_SECTIONS):
            c.notes.append("%s: only sections %s fit the tree" % (k, secs))
    c.start_clock()
    t0 = time.time()
    try:
        if "asan" in res:
            native(c, res["asan"][0], res["asan"][1], t0 + (c.budget * 0.25 if "miri" in res else c.budget))
        if "miri" in res and not c.viol:
            interpreted(c, res["miri"], t0 + c.budget)
    finally:
        if "asan" in res:
            B.cleanup_bin(res["asan"][0])


if __name__ == "__main__":
    run("M02", main, quick=210, thorough=1500,
        rule="a case is one execution of one harness section with one seed: natively under AddressSanitizer or interpreted by Miri (tree borrows, race detector, weak memory, random preemption)")
