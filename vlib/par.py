"""Run workload workers in forked processes; each reports observations back to the check."""
import os, pickle, random, signal, sys, time, traceback, hashlib, struct, select


class Sub:
    """the Check interface inside a worker"""

    def __init__(self, check, idx):
        self.prop, self.tier, self.seed = check.prop, check.tier, check.seed
        self.idx = idx
        self.dir = check.dir
        self.rng = random.Random("%s/%d/%d" % (check.prop, check.seed, idx))
        self._left = check.left
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.viol = []
        self.notes = []
        self.result = None

    def left(self, frac=1.0):
        return self._left(frac)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, n=1):
        self.evals += n
        if key is not None:
            self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "replace"), digest_size=10).digest())

    def sample(self, obj, cap=2):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def violation(self, sig, what, detail=None, stop=False):
        if len(self.viol) < 8:
            self.viol.append((sig, what, detail))
        if stop or len(self.viol) >= 8:
            raise SubStop()
        return True


class SubStop(Exception):
    pass


def run(check, n, fn, *args, timeout=None):
    """fn(sub, *args) in n processes; returns the list of sub.result"""
    procs = []
    for i in range(n):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, _, rr in procs:
                    pass
                sub = Sub(check, i)
                err = None
                try:
                    fn(sub, *args)
                except SubStop:
                    pass
                except BaseException:
                    err = traceback.format_exc()
                data = pickle.dumps(dict(evals=sub.evals, distinct=sub.distinct, counters=sub.counters,
                                         samples=sub.samples, viol=sub.viol, err=err, result=sub.result,
                                         notes=sub.notes))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        procs.append((pid, i, r))
    out = []
    errs = []
    deadline = time.time() + (timeout if timeout else max(60.0, check.left() + 240))
    for pid, i, r in procs:
        buf = b""
        dead = False
        while True:
            rem = deadline - time.time()
            if rem <= 0:
                dead = True
                break
            x, _, _ = select.select([r], [], [], min(rem, 5))
            if x:
                d = os.read(r, 1 << 20)
                if not d:
                    break
                buf += d
        os.close(r)
        if dead:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        if dead or not buf:
            errs.append("worker %d %s" % (i, "timed out" if dead else "died"))
            continue
        d = pickle.loads(buf)
        check.evals += d["evals"]
        check.distinct |= d["distinct"]
        for k, v in d["counters"].items():
            check.count(k, v)
        for s in d["samples"]:
            check.sample(s)
        check.notes.extend(d["notes"])
        for sig, what, det in d["viol"]:
            check.violation(sig, what, det)
        if d["err"]:
            errs.append(d["err"])
        out.append(d["result"])
    if errs and not check.viol:
        from .check import Inconclusive
        raise Inconclusive("; ".join(errs)[:3000])
    return out
