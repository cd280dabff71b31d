"""Verdict discipline shared by all checks: held (0), violated (1), inconclusive (2)."""
import hashlib, json, os, random, re, shutil, signal, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Stop(Exception):
    """raised after a violation when the rest of the run makes no sense"""


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, prop, level="exploration", rule="", quick=60, thorough=900, hard=None):
        self.prop, self.level, self.rule = prop, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET") or (quick if self.tier == "quick" else thorough))
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.viol = []
        self.known_hit = {}
        self.assumptions = []
        self.notes = []
        self.servers = []
        self.lock = threading.RLock()
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="skyverif-%s-" % prop, dir=base)
        self.known = []
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN)).get("known", []):
                if k["property"] == prop:
                    self.known.append(k)
        self.hard = hard or (self.budget + 420 if self.tier == "quick" else self.budget + 1800)
        self._t_budget0 = None

    # -- time
    def start_clock(self):
        """the exploration budget starts after the build"""
        self._t_budget0 = time.time()

    def left(self, frac=1.0):
        return self.budget * frac - (time.time() - (self._t_budget0 or self.t0))

    # -- counting
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, n=1):
        with self.lock:
            self.evals += n
            if key is not None:
                self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "replace"), digest_size=10).digest())

    def sample(self, obj, cap=6):
        with self.lock:
            if len(self.samples) < cap:
                self.samples.append(clip(obj))

    # -- verdicts
    def violation(self, sig, what, detail=None, stop=False):
        """sig: stable identification of the failing thing (for the known-findings file)"""
        with self.lock:
            for k in self.known:
                if re.fullmatch(k["signature"], sig):
                    if k["signature"] not in self.known_hit:
                        self.known_hit[k["signature"]] = 0
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                    self.known_hit[k["signature"]] += 1
                    return False
            if any(v["sig"] == sig for v in self.viol):
                self.count("repeat_violations")
            elif len(self.viol) < 12:
                self.viol.append(dict(sig=sig, what=what, detail=clip(detail, 20000)))
                p = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, len(self.viol)))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, signature=sig,
                                   what=what, detail=clip(detail, 200000)), f, indent=1, default=repr)
                print("violation detail [%s]: %s" % (sig, what), flush=True)
                print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        if stop:
            raise Stop()
        return True

    def finish(self):
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples, observed=self.counters)
        if self.known_hit:
            cov["known_findings_observed"] = self.known_hit
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print("[%s] tier=%s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs %s"
              % (self.prop, self.tier, self.seed, self.evals, len(self.distinct), len(self.viol),
                 time.time() - self.t0, json.dumps(self.counters, default=repr)), flush=True)

    def cleanup(self):
        for s in self.servers:
            try:
                s.kill()
            except Exception:
                pass
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def clip(o, n=4000):
    if o is None:
        return None
    try:
        s = json.dumps(o, default=repr)
        if len(s) <= n:
            return json.loads(s)
        return s[:n] + "...(clipped)"
    except Exception:
        return repr(o)[:n]


def run(prop, main, **kw):
    """main(check): explores, reports violations through check.violation()"""
    c = Check(prop, **kw)

    def watchdog():
        time.sleep(c.hard)
        print("[%s] watchdog after %.0fs" % (prop, c.hard), flush=True)
        c.cleanup()
        os._exit(1 if c.viol else 2)
    threading.Thread(target=watchdog, daemon=True).start()
    rc = 0
    try:
        try:
            main(c)
        except Stop:
            pass
        c.finish()
        if c.viol:
            rc = 1
        elif c.evals == 0:
            print("[%s] inconclusive: nothing was observed" % prop)
            rc = 2
    except Inconclusive as e:
        print("[%s] inconclusive: %s" % (prop, e), flush=True)
        rc = 1 if c.viol else 2
    except BaseException:
        traceback.print_exc()
        rc = 1 if c.viol else 3
    finally:
        c.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
