"""Shared plumbing of the checks: building the drivers from /repo, running TLC,
recording evidence and reporting violations."""
import calendar, json, os, struct, subprocess, sys, threading, time, random, shutil, hashlib, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """Something of ours (or the toolchain) failed: no verdict."""


class BuildFailure(ToolError):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "TZ"):
        e.pop(k, None)
    return e


AHEAD = 5 * 3600 + 45 * 60      # of UTC, where the programs under test run
_zoned = None
_zlock = threading.Lock()


def zoned():
    """The environment in which local time is AHEAD of UTC."""
    global _zoned
    with _zlock:
        if _zoned is None:
            _zoned = make_zone()
    return dict(env(), **_zoned)


def make_zone():
    src = os.path.join(VERIF, "shim", "zone.c")
    with open(src, "rb") as f:
        lib = os.path.join(BUILD, "zone-%s.so" % hashlib.sha256(f.read()).hexdigest()[:12])
    if not os.path.exists(lib):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (lib, os.getpid())
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise ToolError("building zone.so: %s" % p.stdout.decode(errors="replace")[-1000:])
        os.rename(tmp, lib)
    z = os.path.join(BUILD, "localtime")
    head = lambda: b"TZif2" + bytes(15) + struct.pack(">6L", 0, 0, 0, 0, 1, 4)
    body = struct.pack(">lBB", AHEAD, 0, 0) + b"VZT\0"
    tmp = "%s.%d" % (z, os.getpid())
    with open(tmp, "wb") as f:
        f.write(head() + body + head() + body + b"\nVZT-5:45\n")
    os.rename(tmp, z)
    return {"LD_PRELOAD": lib, "VERIF_ZONE_FILE": z, "TZ": "VZT-5:45"}


def clock(t):
    """A moment as the programs under test show it."""
    return time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(t + AHEAD))


def moment(s):
    return calendar.timegm(time.strptime(s, "%Y-%m-%d %H:%M:%S")) - AHEAD


def cargo_build(crate, features=(), target="t", rustflags=None, extra_env=None, bins=(), profile=None, timeout=600):
    """Build /verif/harness/<crate> against /repo's working tree; returns the target's debug directory."""
    tdir = os.path.join(BUILD, target)
    e = env()
    e["CARGO_TARGET_DIR"] = tdir
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    if extra_env:
        e.update(extra_env)
    cwd = crate if os.path.isabs(crate) else os.path.join(VERIF, "harness", crate)
    cmd = ["cargo", "--config", os.path.join(VERIF, "harness", "patch.toml"), "build", "--offline", "-q"]
    if features:
        cmd += ["--features", ",".join(features)]
    if profile:
        cmd += ["--profile", profile]
    p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildFailure("cargo build of %s failed:\n%s" % (crate, p.stdout.decode(errors="replace")[-6000:]))
    return os.path.join(tdir, profile or "debug")


def fyi_binary():
    """The real command line program, built from /repo's working tree."""
    tdir = os.path.join(BUILD, "t-fyi")
    e = env()
    e["CARGO_TARGET_DIR"] = tdir
    # Build from a copy of the workspace's manifests? No: /repo itself, its lock
    # file is ignored by git; without one, cargo would write it, so supply it.
    cmd = ["cargo", "--config", os.path.join(VERIF, "harness", "patch.toml"), "build", "--offline", "-q", "-p", "fyi"]
    lock = os.path.join(REPO, "Cargo.lock")
    made = False
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
        made = True
    p = subprocess.run(cmd, cwd=REPO, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        raise BuildFailure("cargo build of fyi failed:\n%s" % p.stdout.decode(errors="replace")[-6000:])
    return os.path.join(tdir, "debug", "fyi")


class Broken(Exception):
    """The code under test crashed or hung where it must not: a violation."""
    def __init__(self, key, what, data):
        super().__init__(what)
        self.key, self.what, self.data = key, what, data


class TlcResult:
    def __init__(self):
        self.vectors = []      # parsed JSON of lines printed with a tag
        self.states = 0
        self.distinct = 0
        self.error = None
        self.output_tail = ""
        self.wall = 0.0
        self.diameter = 0


_tlc_n = 0


def tlc(module, cfg, workers=int(os.environ.get("TLCW","8")), timeout=600, tags=("V",), on=None, files=None, args=(), allow_error=False, heap="6g",
        dfs=False):
    """Run TLC on spec/<module>.tla with the given cfg text.  Lines printed by the
    specification as "<tag> <json>" are collected (or passed to on(tag, value))."""
    global _tlc_n
    _tlc_n += 1
    work = os.path.join(BUILD, "tlc", "%s-%d-%d" % (module, os.getpid(), _tlc_n))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cfgp = os.path.join(work, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    for name, text in (files or {}).items():
        with open(os.path.join(work, name), "w") as f:
            f.write(text)
    jopts = ["-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC]
    if dfs:
        jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    mod = os.path.join(work, module + ".tla")
    if not os.path.exists(mod):
        mod = os.path.join(SPEC, module + ".tla")
    cmd = ["java"] + jopts + ["-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(work, "meta"),
           "-noGenerateSpecTE", "-config", cfgp] + list(args) + [mod]
    e = env()
    e.pop("JAVA_TOOL_OPTIONS", None)
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", bufsize=1 << 20)
    import threading
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    r = TlcResult()
    tail = []
    finished = False
    err = []
    pre = tuple('"%s ' % t for t in tags)
    try:
        for line in p.stdout:
            if line.startswith(pre):
                s = json.loads(line)
                tag, _, rest = s.partition(" ")
                v = json.loads(rest)
                if on:
                    on(tag, v)
                else:
                    r.vectors.append((tag, v))
                continue
            tail.append(line)
            if len(tail) > 400:
                del tail[:200]
            if "states generated" in line and "distinct states found" in line:
                w = line.replace(",", "").split()
                try:
                    i = w.index("states")
                    r.states = int(w[i - 1])
                    r.distinct = int(w[w.index("distinct") - 1])
                except ValueError:
                    pass
            if "depth of the complete state graph search is" in line:
                r.diameter = int(line.rstrip(".\n").split()[-1])
            if "Model checking completed. No error" in line or line.startswith("Finished in"):
                finished = True
            if line.startswith("Error:") or "Parsing or semantic analysis failed" in line:
                err.append(line.strip())
        p.wait()
    finally:
        timer.cancel()
        if p.poll() is None:
            p.kill()
            p.wait()
    r.wall = time.time() - t0
    r.output_tail = "".join(tail)
    shutil.rmtree(work, ignore_errors=True)
    if err or p.returncode != 0 or not finished:
        r.error = "; ".join(err) or ("TLC ended with %s" % p.returncode)
        if not allow_error:
            raise ToolError("TLC on %s: %s\n%s" % (module, r.error, r.output_tail[-5000:]))
    return r


# ---------------------------------------------------------------- text helpers
def hx(s):
    if isinstance(s, (list, tuple)):
        s = "".join(map(chr, s))
    return "x" + s.encode("utf-8", "surrogatepass").hex()


def unhx(h):
    return bytes.fromhex(h[1:])


def cps(b):
    if isinstance(b, bytes):
        b = b.decode("utf-8")
    return [ord(c) for c in b]


def text(c):
    return "".join(map(chr, c))


def drive(binary, lines, timeout=150, args=()):
    """Feed command lines to a batch driver; one answer line each."""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen([binary, *args], stdin=subprocess.PIPE, stdout=fo, stderr=fe, env=zoned())
        hung = False
        try:
            p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            hung = True
            p.kill()
            p.wait()
        fo.seek(0)
        fe.seek(0)
        out = fo.read().decode(errors="replace").split("\n")
        err = fe.read().decode(errors="replace")
    out.pop()
    if hung or p.returncode != 0 or len(out) != len(lines):
        n = len(out)
        what = "the driver %s at command %d (exit %s): %s; %s" % (
            "hung" if hung else "ended", n + 1, p.returncode, lines[n][:300] if n < len(lines) else "-", err[-300:])
        if "unknown command" in err:
            raise ToolError(what)
        raise Broken("hang" if hung else "crash", what, {"command": lines[n] if n < len(lines) else None, "stderr": err[-2000:]})
    return out, p.returncode, err


# ---------------------------------------------------------------- a check's run
class Run:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%s" % (prop, self.seed))
        self.t0 = time.time()
        self.cov = {"samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    def elapsed(self):
        return time.time() - self.t0

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def tlc_stats(self, r):
        self.add("states", r.distinct)
        self.add("transitions", r.states)

    def sample(self, s, cap=6):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def violation(self, key, what, data):
        """Record a violation; key identifies the failing input or site for the known-findings file."""
        for k, desc in self.known:
            if k == key:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return
        self.violations.append((key, what, data))

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k, desc in self.known:
            if k in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, desc))
        if not self.violations:
            print("OK property=%s tier=%s %.1fs %s" % (self.prop, self.tier, time.time() - self.t0,
                  {k: v for k, v in self.cov.items() if k != "samples"}))
            return 0
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, (key, what, data) in enumerate(self.violations):
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            path = os.path.join(rdir, "%s-%d.json" % (self.prop, len(seen)))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "what": what, "data": data}, f, indent=1, ensure_ascii=False)
            print("%s: %s" % (self.prop, what[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%d violation(s) of %s" % (len(self.violations), self.prop))
        return 1


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" :: ")
                out.append((key.removeprefix("key="), desc))
    return out


# ---------------------------------------------------------------- TLA+ literals
def tla(v):
    """A Python value as a TLA+ expression (lists are sequences, sets/frozensets are sets, dicts records)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, Set):
        return "{" + ", ".join(tla(x) for x in v.items) + "}"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


class Set:
    """A TLA+ set of unhashable things."""
    def __init__(self, items):
        self.items = list(items)


def mc(base, consts, spec="Spec", invariants=(), properties=(), extra_cfg="", defs="", action_constraints=(), constraints=(),
       view=None, check_deadlock=False, postcondition=None):
    """A model module extending base with the given constants; returns (name, cfg, files)."""
    name = "MC" + base
    body = ["---- MODULE %s ----" % name, "EXTENDS %s" % base, defs]
    cfg = ["SPECIFICATION %s" % spec]
    for k, v in consts.items():
        body.append("c_%s == %s" % (k, v.raw if isinstance(v, Raw) else tla(v)))
        cfg.append("CONSTANT %s <- c_%s" % (k, k))
    body.append("====")
    for i in invariants:
        cfg.append("INVARIANT %s" % i)
    for i in properties:
        cfg.append("PROPERTY %s" % i)
    for i in action_constraints:
        cfg.append("ACTION_CONSTRAINT %s" % i)
    for i in constraints:
        cfg.append("CONSTRAINT %s" % i)
    if view:
        cfg.append("VIEW %s" % view)
    if postcondition:
        cfg.append("POSTCONDITION %s" % postcondition)
    cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if check_deadlock else "FALSE"))
    cfg.append(extra_cfg)
    return name, "\n".join(cfg) + "\n", {name + ".tla": "\n".join(body) + "\n"}


class Raw:
    def __init__(self, raw):
        self.raw = raw


def workfile(name, data):
    """A JSON file for TLC to read."""
    d = os.path.join(BUILD, "data")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (name, os.getpid()))
    with open(p, "w") as f:
        json.dump(data, f)
    return p


def validate(module, data, consts=None, invariants=(), timeout=600, run=None, workers=8, tags=("BAD",)):
    """Check observations against <module>; returns the list of mismatches it printed."""
    p = workfile(module, data)
    try:
        c = {"File": p}
        c.update(consts or {})
        name, cfg, files = mc(module, c, invariants=invariants)
        r = tlc(name, cfg, files=files, tags=tags, timeout=timeout, workers=workers)
    finally:
        os.unlink(p)
    if run is not None:
        run.tlc_stats(r)
    return r.vectors


# ---------------------------------------------------------------- random texts
ESCBITS = ["\x1b", "\x1b[", "\x1b]", "\x1b[0m", "\x1b[1;91m", "\x1b[38;5;199m", "\x1b[38", "\x1b]0;t\x07", "\x1b]8;;u\x1b\\", "\x1b]x\u0153",
           "\x1b\\", "\x07", "\u0153", "\x1b\x1b", "\x1b[m", "\x1b[?25l", "m", "[", "]", "\\", "\x1b]8;;http://a/\x1bb\x1b\\", "\x1b[\u00e9", "\x1b]\u6f22"]
WORDS = ["a", "Hello", " ", "  ", "World", "\u00e9", "Bj\u00f6rk", "\u6f22\u5b57", "e\u0301", "\u200b", "\U0001f600", "\U0001f468\u200d\U0001f469", "\u0645", "1", "42",
         "\t", "-", ".", ":", "\uff39", "\u00ad", "\u2026", "\ud55c", "\u1160", "\ufe0f", "\u00b7", "\u2028"]
BREAKS = ["\n", "\r\n", "\r", "\n\n"]


def rand_text(rng, n=12, esc=0.3, brk=0.1):
    out = []
    for _ in range(rng.randint(0, n)):
        x = rng.random()
        if x < esc:
            out.append(rng.choice(ESCBITS))
        elif x < esc + brk:
            out.append(rng.choice(BREAKS))
        elif x < 0.97:
            out.append(rng.choice(WORDS))
        else:
            c = rng.randint(1, 0x10ffff)
            out.append(chr(c) if not 0xd800 <= c <= 0xdfff else "?")
    return "".join(out)
