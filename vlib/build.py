"""Builds the real server from /repo's working tree (never writes inside /repo or /opt/vp).

The tree is mirrored the way the project's own build does it here (the git
dependency `skytable` is not available offline): cli/ and sky-bench/ are left
out and the client-only test module is dropped."""
import fcntl, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
VP_TARGET = "/opt/vp/target"
STABLE = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"


SETUP_KINDS = ["dev", "asan", "plain"]
SETUP_HARNESS = ["asan", "miri"]


class BuildFailed(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith("CARGO") or k.startswith("RUST") or k == "LD_PRELOAD")}
    e["HOME"] = os.environ.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             RUSTC_WRAPPER="")
    return e


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def sync_ws(ws):
    gen = ws + ".gen"
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen)
    os.makedirs(ws, exist_ok=True)
    rc, out = _run(["rsync", "-rl", "--exclude=/.git", "--exclude=/target", "--exclude=/cli",
                    "--exclude=/sky-bench", REPO + "/", gen + "/"])
    if rc:
        raise BuildFailed(out)
    def sub(path, pat, rep, flags=re.M):
        p = os.path.join(gen, path)
        s = open(p).read()
        open(p, "w").write(re.sub(pat, rep, s, flags=flags))
    sub("Cargo.toml", r'"cli", *', "")
    sub("Cargo.toml", r'"sky-bench", *', "")
    sub("server/Cargo.toml", r"^skytable *= *\{ *git *=.*\n", "")
    tm = "server/src/engine/tests/mod.rs"
    if os.path.exists(os.path.join(gen, tm)):
        sub(tm, r"^mod client_misc;\n", "")
    rc, out = _run(["rsync", "-rl", "--checksum", "--delete", "--exclude=/Cargo.lock",
                    gen + "/", ws + "/"])
    if rc:
        raise BuildFailed(out)
    shutil.copy(os.path.join(gen, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    shutil.rmtree(gen, ignore_errors=True)


def _seed_target(dst):
    """reuse the prebuilt dependencies of the sandbox (copied, never modified)"""
    if os.path.isdir(dst) or not os.path.isdir(VP_TARGET + "/debug"):
        return
    tmp = dst + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    # incremental state and linked test binaries are not needed
    rc, out = _run(["rsync", "-a", "--exclude=/debug/incremental", "--exclude=/tmp",
                    VP_TARGET + "/", tmp + "/"])
    if rc:
        shutil.rmtree(tmp, ignore_errors=True)
        return
    os.rename(tmp, dst)


HARNESS_SECTIONS = ["queue", "tree", "blocks", "engine", "rows", "input"]


def cut_harness(src, sections):
    """the harness with only the sections named (each is a top level `mod NAME { ... }`)"""
    out, skip = [], False
    for line in src.split("\n"):
        m = re.match(r"mod (\w+) \{", line)
        if m and m.group(1) in HARNESS_SECTIONS and m.group(1) not in sections:
            skip = True
            if out and re.match(r"\s*///", out[-1]):
                out.pop()
            while out and re.match(r"#\[", out[-1]):
                out.pop()
        if not skip:
            out.append(line)
        elif line == "}":
            skip = False
    return "\n".join(out)


def _patched_parking_lot(ws):
    """Under Miri the futex call of parking_lot_core is refused (a third party crate passes a reference where
    the C variadic function takes a pointer): a copy with the pointer cast is used by the interpreter only."""
    m = re.search(r'name = "parking_lot_core"\nversion = "([^"]+)"', open(os.path.join(ws, "Cargo.lock")).read())
    if not m:
        return
    import glob
    name = "parking_lot_core-" + m.group(1)
    src = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/" + name))
    dst = os.path.join(BUILD, "parking_lot_core")
    if not src:
        return
    if not os.path.isdir(dst):
        tmp = dst + ".tmp%d" % os.getpid()
        shutil.copytree(src[0], tmp)
        p = os.path.join(tmp, "src/thread_parker/linux.rs")
        if os.path.exists(p):
            s = open(p).read()
            s = re.sub(r"^(\s*)(&self\.futex|self\.ptr\(\)|self\.futex)(,\s*)$", r"\1(\2) as *const _ as *mut u32\3", s, flags=re.M)
            open(p, "w").write(s)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    with open(os.path.join(ws, "Cargo.toml"), "a") as f:
        f.write('\n[patch.crates-io]\nparking_lot_core = { path = "%s" }\n' % dst)


def _instr(kind):
    """(environment, command prefix) of the instrumented builds"""
    env = base_env()
    env["OPENSSL_NO_VENDOR"] = "1"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-" + kind)
    if kind == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address --cap-lints allow --cfg skyd_verif"
    elif kind == "plain":
        # the system allocator, whose calls can be counted
        env["RUSTFLAGS"] = "--cap-lints allow --cfg skyd_verif"
        env["RUSTUP_TOOLCHAIN"] = STABLE
    elif kind == "miri":
        for k in ("CARGO_PROFILE_DEV_OPT_LEVEL", "CARGO_PROFILE_DEV_DEBUG"):
            env.pop(k, None)
        env["RUSTFLAGS"] = "--cfg skyd_verif -Awarnings"
    return env


def _find_exe(out):
    import json
    exe = None
    for line in out.split("\n"):
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("reason") == "compiler-artifact" and d.get("executable") and d["target"]["name"] == "skyd":
                exe = d["executable"]
    return exe


class Miri:
    """the harness ready to be interpreted: run(filter, seed...) gives (rc, output)"""

    def __init__(self, ws, env, sections):
        self.ws, self.env, self.sections = ws, env, sections

    def cmd(self, flt):
        return ["cargo", "+nightly", "miri", "test", "-q", "-p", "skyd", "--bin", "skyd", "--offline", "--", flt, "--nocapture", "--test-threads=1"]

    def popen(self, flt, out, flags="", cpus=None, **extra):
        e = dict(self.env)
        e["MIRIFLAGS"] = ("-Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-env-forward=SKYV_SEED -Zmiri-env-forward=SKYV_SCALE " + flags).strip()
        e.update({k: str(v) for k, v in extra.items()})
        return subprocess.Popen(self.cmd(flt), cwd=self.ws, env=e, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True,
                                preexec_fn=(lambda: os.sched_setaffinity(0, cpus)) if cpus else None)


def harness_file(kind, sections):
    src = open(os.path.join(VERIF, "harness", "m02.rs")).read()
    p = os.path.join(BUILD, "harness-%s.rs" % kind)
    txt = cut_harness(src, sections)
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return p


def build_harness(kind):
    """kind: miri | asan. Compiles skyd's test build with the harness; sections that do not fit the tree any more
    (an internal name was changed) are left out. Returns a Miri object or (path of the test binary, sections)."""
    os.makedirs(BUILD, exist_ok=True)
    lk = open(os.path.join(BUILD, "lock." + kind), "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        t0 = time.time()
        ws = os.path.join(BUILD, "ws-" + kind)
        sync_ws(ws)
        env = _instr(kind)
        if kind == "miri":
            _patched_parking_lot(ws)
            # (with --no-run the test crate itself would not be compiled: the interpreter does that when it starts)
            cmd = ["cargo", "+nightly", "miri", "test", "-q", "-p", "skyd", "--bin", "skyd", "--offline", "--", "no test has this name"]
        else:
            cmd = ["cargo", "+nightly", "test", "--no-run", "-p", "skyd", "--bin", "skyd", "--offline", "--target", TRIPLE, "--message-format=json"]
        if kind == "asan":
            env["SKYD_VERIF_HARNESS"] = os.path.join(VERIF, "harness", "m02.rs")

        def attempt(sections):
            env["SKYD_VERIF_HARNESS"] = harness_file(kind, sections)
            return _run(cmd, cwd=ws, env=env)
        ok = list(HARNESS_SECTIONS)
        rc, out = attempt(ok)
        if rc:
            first = out
            sys.stderr.write("[build] the whole harness does not fit: %s\n" % "\n".join(x for x in out.split("\n") if x.startswith("error"))[:1500])
            # which section does not fit? the rest is still checked
            ok = [x for x in HARNESS_SECTIONS if attempt([x])[0] == 0]
            if not ok:
                raise BuildFailed(first[-6000:])
            rc, out = attempt(ok)
            if rc:
                raise BuildFailed(out[-6000:])
        sys.stderr.write("[build] harness %s (%s) in %.1fs\n" % (kind, " ".join(ok), time.time() - t0))
        if kind == "miri":
            return Miri(ws, env, ok)
        exe = _find_exe(out)
        if not exe:
            raise BuildFailed("no test binary\n" + out[-2000:])
        dst = os.path.join(BUILD, "bin-asantest-%d" % os.getpid())
        shutil.copy(exe, dst)
        os.chmod(dst, 0o755)
        return dst, ok
    finally:
        lk.close()


def build(kind="dev"):
    """kind: dev | asan | plain. returns path of skyd"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock." + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        ws = os.path.join(BUILD, "ws-" + kind)
        sync_ws(ws)
        target = os.path.join(BUILD, "target-" + kind)
        if kind == "dev":
            env = base_env()
            env["CARGO_TARGET_DIR"] = target
            _seed_target(target)
            env["RUSTUP_TOOLCHAIN"] = STABLE
            cmd = ["cargo", "build", "--workspace", "--offline"]
            out_bin = os.path.join(target, "debug", "skyd")
        elif kind == "asan":
            env = _instr("asan")
            cmd = ["cargo", "+nightly", "build", "-p", "skyd", "--offline", "--target", TRIPLE]
            out_bin = os.path.join(target, TRIPLE, "debug", "skyd")
        elif kind == "plain":
            env = _instr("plain")
            cmd = ["cargo", "build", "-p", "skyd", "--offline"]
            out_bin = os.path.join(target, "debug", "skyd")
        else:
            raise ValueError(kind)
        rc, out = _run(cmd, cwd=ws, env=env)
        if rc:
            raise BuildFailed(out[-4000:])
        # private copy, so that a later rebuild never swaps the binary under a running check
        dst = os.path.join(BUILD, "bin-%s-%d" % (kind, os.getpid()))
        shutil.copy(out_bin, dst)
        os.chmod(dst, 0o755)
        sys.stderr.write("[build] %s in %.1fs\n" % (kind, time.time() - t0))
        return dst


def cleanup_bin(path):
    try:
        os.unlink(path)
    except OSError:
        pass
