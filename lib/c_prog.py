"""The progress bar under a controlled scheduler: recorded executions against Progless.tla."""
import hashlib, itertools, json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Run, hx, unhx, BUILD, VERIF

SHIM = os.path.join(VERIF, "shim", "shim.rs")


def hsim(*features):
    """The simulator, for the crate with the given signal features."""
    tgt = "t-sim" + "".join("-" + f for f in features)
    d = vlib.cargo_build("hsim", features, target=tgt, rustflags="--cfg fyi_verif", extra_env={"FYI_VERIF_SHIM": SHIM})
    return os.path.join(d, "hsim")


class Scn:
    """A scenario: the program of each thread and how to explore its schedules."""
    def __init__(self, mode, size, threads, flags="-", sig=()):
        self.mode, self.size, self.threads, self.flags, self.sig = mode, size, threads, flags, tuple(sig)

    def command(self, mode=None):
        return "%s %s %s %s" % (mode or self.mode, self.size, self.flags, "|".join(self.threads))


class SimTrace:
    __slots__ = ("scn", "count", "choices", "raw")

    def __init__(self, scn, count, choices, raw):
        self.scn, self.count, self.choices, self.raw = scn, count, choices, raw


def simulate(scns, timeout=600):
    """Explore scenarios in one process; returns a list of (traces, executions, exhausted)."""
    binary = hsim_for(scns[0])
    text = "".join(s.command() + "\n" for s in scns)
    hung = False
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=fo, stderr=fe, env=vlib.env())
        try:
            p.communicate(text.encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            hung = True
            p.kill()
            p.wait()
        fo.seek(0)
        out = fo.read().decode(errors="replace")
        fe.seek(0)
        err = fe.read().decode(errors="replace")
    if "unknown command" in out or "unknown command" in err:
        raise vlib.ToolError("bad scenario among " + text[:2000])
    res, traces = [], []
    for line in out.split("\n"):
        if line.startswith("T "):
            _, n, c, j = line.split(" ", 3)
            traces.append(SimTrace(scns[len(res)], int(n), c, j))
        elif line.startswith("E "):
            _, n, f = line.split(" ")
            res.append((traces, int(n), f == "true"))
            traces = []
    if p.returncode == 5:
        raise vlib.BuildFailure("asleep in something real: " + scns[min(len(res), len(scns) - 1)].command())
    if hung or p.returncode != 0 or len(res) != len(scns):
        s = scns[min(len(res), len(scns) - 1)].command()
        raise vlib.Broken("hang" if hung else "crash", "the simulated program %s (exit %s) on: %s; %s" % ("hung" if hung else "crashed", p.returncode, s, err[-300:]),
                          {"scenario": s, "stderr": err[-2000:]})
    return res


_bins = {}


def hsim_for(scn):
    if scn.sig not in _bins:
        _bins[scn.sig] = hsim(*scn.sig)
    return _bins[scn.sig]


# ---------------------------------------------------------------- decoding
BAR = re.compile(r"^\[(\d\d):(\d\d):(\d\d)\]  \[(#*)(-*)\]  ([\d,]+)/([\d,]+)  (\d+\.\d\d%)$")
PCT = re.compile("^ \u00bb (\\d+\\.\\d\\d%)$")
TASK = "    \u21b3 "
BADPIC = {"k": "bad"}
NOPIC = {"k": "none"}
BASE = 100000


def num(n):
    """A count as Num.tla has it."""
    return [n // BASE, n % BASE]


def pct(s):
    return int(s[:-1].replace(".", ""))


def commas(s):
    n = int(s.replace(",", ""))
    return n if format(n, ",") == s else None


def codes(s):
    return [ord(c) for c in s]


def decode(rows):
    """What a picture shows."""
    if not rows:
        return NOPIC
    if len(rows) == 1:
        m = PCT.match(rows[0])
        if m:
            return {"k": "pct", "pct": pct(m.group(1)), "rows": 1}
    for i in (0, 1):
        m = BAR.match(rows[i]) if i < len(rows) else None
        if m:
            break
    else:
        return BADPIC
    tasks = []
    for r in rows[i + 1:]:
        if not r.startswith(TASK):
            return BADPIC
        tasks.append(codes(r[len(TASK):]))
    d, n = commas(m.group(6)), commas(m.group(7))
    if d is None or n is None or max(d, n) >= 2 ** 33:
        return BADPIC
    return {"k": "full", "title": codes(rows[0]) if i else [], "el": int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3)),
            "bd": len(m.group(4)), "bu": len(m.group(5)), "done": num(d), "total": num(n), "pct": pct(m.group(8)), "tasks": tasks, "rows": len(rows)}


KINDS = {"none": "", "pfx": "Custom: ", "full": "    Custom: "}
NOTITLE = {"on": False, "p": [], "m": [], "s": []}


def title(a):
    if a[0] == "nil":
        return NOTITLE
    p = KINDS.get(a[0], a[0].capitalize() + ": ")
    m = unhx(a[1]).decode()
    return {"on": True, "p": codes(p), "m": codes(m), "s": codes(" !") if a[0] == "full" else []} if p + m else NOTITLE


SUMMARY = re.compile("^(?:\x1b\\[[0-9;]*m)*(?:[A-Z][a-z]+:(?:\x1b\\[[0-9;]*m)* )?([\\d,]+) ")


def tid(t):
    return 100 + int(t[1:]) if t[0] == "k" else int(t)


NEW = ("new", "newt", "news", "newn", "def")
OPS = {"inc": "inc", "incn": "inc", "set": "set", "add": "add", "rem": "rem", "title": "title", "tmsg": "tmsg", "splines": "title", "fin": "fin",
       "reset": "reset", "try": "reset", "sum": "sum", "msg": "msg", "print": "print", "new": "new", "newt": "new", "news": "new", "newn": "new", "def": "new", "two": "two", "keep": "keep",
       "sw": "sw", "fmsg": "fmsg", "drop": "drop"}


def convert(raw, scn, chk):
    """A trace of the simulator as data for ProglessTrace."""
    timed = bool(chk & {"frame", "quiet", "time", "text"})
    paints = bool(chk & {"after", "log", "geo", "life", "frame"}) or ("cursor" in chk and bool(scn.sig))
    threads = bool(chk & {"life", "frame"}) or bool(scn.sig)
    ev = []
    vis = True
    holds = set(range(len(scn.threads)))
    began, birth = {}, None
    for e in json.loads(raw):
        k = e["e"]
        x = {"e": k, "n": e.get("n", 0) if timed else 0}
        if "t" in e:
            x["t"] = tid(e["t"])
        if k == "call":
            o, a = e["o"], e["a"].split(",") if e["a"] else []
            began[x["t"]] = e["n"]
            x["o"] = OPS.get(o, "other")
            x["a"], x["tt"] = [], NOTITLE
            if o in ("inc", "incn", "set", "reset", "try", "new", "newt", "news", "newn"):
                x["a"] = num(int(a[0]))
            elif o == "def":
                x["a"] = num(0)
            elif o in ("add", "rem"):
                x["a"] = codes(unhx(a[0]).decode())
            elif o in ("msg", "print"):
                x["a"] = e["l"] if "log" in chk or "geo" in chk else []
            elif o == "sum":
                x["a"] = {"kind": a[0].capitalize(), "one": codes(unhx(a[1]).decode()), "many": codes(unhx(a[2]).decode())} if "text" in chk else 0
            if o == "title":
                x["tt"] = title(a)
            elif o == "newt":
                x["tt"] = title(a[1:])
            elif o == "tmsg":
                x["tt"] = {"on": True, "p": [], "m": codes(unhx(a[0]).decode()), "s": []}
            elif o in ("splines", "news"):
                x["tt"] = {"on": True, "p": codes(unhx(a[-1]).decode() + ": ") if unhx(a[-1]) else [], "m": codes("Reticulating splines\u2026"), "s": []}
        elif k == "ret":
            r, o = e["r"], e["o"]
            if "real" in chk:
                # When it was, as far as can be told: since when the bar is there, and when this was looked up.
                if OPS.get(o) == "new":
                    birth = (began[x["t"]], e["n"])
                x["lo"], x["hi"] = (max(0, began[x["t"]] - birth[1] - 1), e["n"] - birth[0] + 1) if birth else (0, 0)
            if o == "try":
                r = "-" if r == "ok" else r
            elif o == "sum" and "text" not in chk:
                m = SUMMARY.match(r)
                n = commas(m.group(1)) if m else None
                r = num(n) if n is not None and n < 2 ** 33 else [-1, 0]
            elif o in ("sum", "fmsg"):
                r = codes(r)
            elif o == "fin":
                r = int(r) if timed else 0
            x["r"] = r
            if o == "drop":
                holds.discard(x["t"])
            elif OPS.get(o) == "new":
                holds.add(x["t"])
            x["blank"] = not e["pic"] if chk & {"after", "log"} else True
            x["vis"] = e["vis"] if "cursor" in chk else True
        elif k in ("out", "snap"):
            if k == "out" and not paints:
                continue
            x["pic"] = decode(e["pic"]) if (paints or "quiet" in chk) else NOPIC
            if "sig" in chk and k == "snap" and not (paints or "quiet" in chk):
                x["pic"] = {n: v for n, v in decode(e["pic"]).items() if n in ("k", "title")}
            x["log"] = e["log"] if chk & {"log", "geo"} else []
            x["vis"] = e["vis"]
            x["held"] = bool(holds)
            if k == "out":
                x["was"], vis = vis, e["vis"]
                if "frame" not in chk and "geo" not in chk and x["pic"]["k"] != "none":
                    x["pic"] = {"k": "bad", "id": json.dumps(e["pic"])}
                x["bars"] = bool(e["pic"])
                x["wrap"], x["lost"], x["odd"], x["col"] = (e["wrap"], e["lost"], e["odd"], e["col"]) if "geo" in chk else (e["wrap"] and "frame" in chk, e["lost"] and "frame" in chk, 0, 0)
                if not chk & {"after", "log", "geo", "life", "frame"} and x["was"] == x["vis"]:
                    continue
        elif k in ("wake", "spawn", "end"):
            if not threads or (k == "wake" and "frame" not in chk):
                continue
        elif k == "size":
            x["w"], x["h"] = e["w"], e["h"]
        elif k == "err":
            x["on"] = e["on"]
        elif k == "over":
            x["r"] = e["r"]
            x["log"] = e["log"] if chk & {"log", "geo"} else []
            x["vis"] = e["vis"]
        elif k in ("bye", "gone"):
            if k == "gone":
                holds.discard(x["t"])
            continue
        ev.append(x)
    if scn.size == "none":
        w, h = 0, 0
    else:
        w, h = map(int, scn.size.split("x"))
    return {"size": {"w": w, "h": h}, "sigint": "sigint" in scn.sig or "signals" in scn.sig, "ev": ev}


_widths = {}


def widths(items):
    """The characters of titles and labels that are not one column wide (trusted: the unicode-width crate)."""
    seen = set()
    for it in items:
        for e in it["ev"]:
            if e["e"] == "call":
                if e["o"] in ("add", "rem"):
                    seen.update(e["a"])
                seen.update(e["tt"]["p"], e["tt"]["m"])
    new = [c for c in sorted(seen) if c not in _widths and c > 126]
    if new:
        import c_text
        out, rc, err = vlib.drive(c_text.hmsg(), ["cw " + hx(new)])
        _widths.update(zip(new, map(int, out[0].split(","))))
    return {"wide": [c for c in sorted(seen) if _widths.get(c, 1) == 2],
            "thin": [c for c in sorted(seen) if c < 32 or c == 127 or _widths.get(c, 1) == 0]}


def accepted(run, items, chk, timeout=500, progress=False):
    """The positions of the traces that ProglessTrace accepts."""
    ok, far = set(), [0]

    def on(tag, v):
        if tag == "V":
            ok.add(v - 1)
        else:
            far[0] = max(far[0], v)
    p = vlib.workfile("progless", dict(widths(items), traces=items, progress=progress))
    try:
        name, cfg, files = vlib.mc("ProglessTrace", {"File": p, "Chk": set(chk)})
        r = vlib.tlc(name, cfg, files=files, tags=("V", "P"), on=on, timeout=timeout, heap="10g")
    finally:
        os.unlink(p)
    run.tlc_stats(r)
    return ok, far[0]


def chunks(scns):
    out = {}
    for s in scns:
        out.setdefault((s.sig, s.mode.split(":")[0] == "seq"), []).append(s)
    for (_, seq), q in out.items():
        n = max(1, min(60 if seq else 3, len(q) // 16))
        for i in range(0, len(q), n):
            yield q[i:i + n]


def judge(run, scns, chk, prefix, batch=5000, cap=None, known=None):
    """Simulate the scenarios and have TLC explain every distinct execution."""
    chk = set(chk)
    t0 = time.time()
    items, where, seen = [], [], {}
    execs = distinct = full = 0
    ex = ThreadPoolExecutor(8)
    try:
        for s in scns:
            hsim_for(s)
        for res in ex.map(simulate, list(chunks(scns))):
            for traces, n, f in res:
                execs += n
                full += bool(f)
                distinct += len(traces)
                for t in traces:
                    c = convert(t.raw, t.scn, chk)
                    key = json.dumps(c, sort_keys=True)
                    key = hashlib.blake2b(key.encode(), digest_size=16).digest()
                    if key not in seen:
                        seen[key] = 1
                        items.append(c)
                        where.append(t)
    except vlib.BuildFailure:
        # Nothing wrong with that: the code may use something we have no stand-in for.  It is then run for real only.
        run.cov["scheduler"] = "not usable with this code: judged by live runs only"
        return 0
    finally:
        ex.shutdown(wait=False, cancel_futures=True)
    run.cov["sim_s"] = round(run.cov.get("sim_s", 0) + time.time() - t0, 1)
    run.add("executions", execs)
    run.add("scenarios", len(scns))
    run.add("scenarios_exhausted", full)
    run.add("distinct_executions", distinct)
    if cap and len(items) > cap:
        run.add("traces_left_out", len(items) - cap)
        pick = sorted(run.rng.sample(range(len(items)), cap))
        items, where = [items[i] for i in pick], [where[i] for i in pick]
    run.add("traces_validated_against_impl", len(items))
    bad = 0
    t0 = time.time()
    for i in range(0, len(items), batch):
        ok, _ = accepted(run, items[i:i + batch], chk)
        left = [i + j for j in range(len(items[i:i + batch])) if j not in ok]
        if left and known:
            # Those that only show a known finding.
            ok, _ = accepted(run, [items[j] for j in left], chk | {known[0]})
            if ok:
                run.violation(known[1], "", {})
            left = [x for j, x in enumerate(left) if j not in ok]
        for j in left:
            bad += 1
            if bad > 5:
                continue
            t = where[j]
            _, far = accepted(run, [items[j]], chk, progress=True)
            ev = items[j]["ev"]
            at = ev[far] if far < len(ev) else None
            cmd = t.scn.command("replay:" + (t.choices or "-"))
            run.violation("%s:%s" % (prefix, t.scn.command("replay")), "no explanation for event %d of %d (%s) of an execution of: %s" % (
                far + 1, len(ev), json.dumps(at, ensure_ascii=False)[:300], cmd),
                {"scenario": cmd, "features": t.scn.sig, "furthest": far, "events": ev, "trace": json.loads(t.raw), "aspects": sorted(chk)})
    run.cov["tlc_s"] = round(run.cov.get("tlc_s", 0) + time.time() - t0, 1)
    if items:
        run.sample("%d of %d executions: %s" % (len(items), execs, where[0].scn.command()))
    return bad


# ---------------------------------------------------------------- scenarios
SUM = "sum,done,x7468696e67,x7468696e6773"
TAIL = "go;join;settle,4;" + SUM + ";fin;drop"


def par(run, init, *threads, size="60x10", sig=(), tail=TAIL, deep=None):
    """The ways to explore threads at once after some setup."""
    t = [init + ";" + tail] + list(threads)
    yield Scn("dfs:1:%d" % run.pick(4000, 100000), size, t, sig=sig)
    d = run.pick(0, 20000) if deep is None else deep
    if d:
        yield Scn("dfs:2:%d" % d, size, t, sig=sig)
    yield Scn("rand:%d:%d" % (run.rng.randrange(1 << 30), run.pick(150, 6000)), size, t, sig=sig)


def pairs(a, b=None):
    if b is None:
        return [(x, y) for i, x in enumerate(a) for y in a[i:]]
    return [(x, y) for x in a for y in b]


def begin(prop, *extra):
    run = Run(prop, "model_checking")
    run.assumptions += ["the std, terminal and signal stand-ins of shim/shim.rs behave like the originals (sequentially consistent atomics)"] + list(extra)
    return run


def h(s):
    return hx(s)


SHOWN = "newt,%d,none,x61;sleep,200"           # a titled bar that has been painted
TASKED = "newt,%d,none,x61;add,x62;add,x63;sleep,200"
LOGGED = "new,%d;print,x68;sleep,200"


def c12():
    run = begin("C12")
    scns = []
    acts = ["inc,1", "inc,2", "rem,x62", "inc,1;inc,1", "inc,1;" + SUM, "add,x64;rem,x64", "set,1", "add,x62;rem,x62", "msg,done,x6d;inc,1"]
    for a, b in pairs(acts):
        scns += par(run, TASKED % 50, a, b)
    for a, b in pairs(acts[:6]):
        scns += par(run, TASKED % 3, a, b)          # on both sides of the total
    for a, b, c in [("inc,1", "inc,1", "inc,1"), ("inc,1", "rem,x62", "inc,3"), ("rem,x62", "rem,x62", "rem,x63"), ("inc,1", "inc,1", "set,2")]:
        scns += par(run, TASKED % 4, a, b, c)
        scns += par(run, TASKED % 3, a, b, c)
    scns += par(run, "new,2", "inc,1", "inc,1")
    scns += par(run, "new,4294967295", "inc,4294967294", "inc,1", tail="go;join;" + SUM + ";fin;drop")
    scns += par(run, "new,4294967295", "incn,2147483648;" + SUM, "incn,2147483000;" + SUM, tail="go;join;" + SUM + ";fin;drop")
    scns += histories(run, run.pick(400, 6000), ["inc", "incn", "rem", "add", "sum", "set", "sleep", "settle", "title", "msg"])
    scns += mix(run, 100)
    judge(run, scns, {}, "C12")
    design(run)
    live(run)
    return run.finish()


BIG = [1, 2, 3, 7, 99, 100, 255, 256, 999, 1000, 65535, 65536, 16777216, 999999, 1000000, 2147483647, 2147483648, 4294967294, 4294967295]
SPOTS = sorted({b ** e + d for b in (2, 10) for e in range(0, 32 if b == 2 else 10) for d in (-1, 0, 1)} | {11, 21, 121, 1011, 2001, 3000001})
TEXTS = ["a", "b", "bb", "", "hello world", "x" * 70]
LABELS = ["b", "c", "d", "b ", "b\n", "\x1b[1mb", "b\tc", "b c", "", " ", "\x07", "b\x07", "\u6f22\u5b57", " b", "\x1b[0m", "B", "b\u00a0", "\u00e9", "b\x1b]0;t\x07", "e\u0301e", "\u200bz"]
TITLES = ["none,%s", "done,%s", "full,%s", "pfx,%s", "warning,%s", "task,%s"]


def history(rng, n, kinds, total=None, labels=LABELS, titles=TEXTS, sizes=None, texts=TEXTS, sized=True):
    """A random single-threaded program."""
    total = total or rng.choice(BIG if rng.random() < 0.8 else SPOTS[1:])
    name = h(rng.choice([x for x in titles if x] or ["a"]))
    ops = [rng.choice(["new,%d", "new,%d", "new,%d", "newn,%d"]) % total] if rng.random() < 0.5 else [rng.choice(["newt,%d,none,%s"] * 5 + ["news,%d,%s"]) % (total, name)]
    for _ in range(n):
        k = rng.choice(kinds)
        near = [1, 1, 2, total // 2, total - 1, total, min(total + 1, 2 ** 32 - 1), 2 ** 32 - 1, 0, rng.choice(SPOTS)]
        if k == "inc":
            ops.append("inc,1")
        elif k in ("incn", "set"):
            ops.append("%s,%d" % (k, rng.choice(near) if rng.random() < 0.5 else rng.randrange(0, max(2, total // 3))))
        elif k in ("add", "rem"):
            ops.append("%s,%s" % (k, h(rng.choice(labels))))
        elif k == "title":
            ops.append("title,nil" if rng.random() < 0.2 else "title," + rng.choice(TITLES) % h(rng.choice(titles)))
        elif k == "tmsg":
            ops.append("tmsg," + h(rng.choice(titles)))
        elif k == "splines":
            ops.append("splines," + h(rng.choice([x for x in titles if x] or ["a"])))
        elif k == "reset":
            total = rng.choice(BIG)
            ops.append("%s,%d" % (rng.choice(["reset", "try"]), total))
        elif k == "try0":
            ops.append("try,0")
        elif k == "sum":
            ops.append(SUM)
        elif k == "msg":
            ops.append("msg,%s,%s" % (rng.choice(["done", "none", "pfx", "info", "full"]), h(rng.choice(texts))))
        elif k == "settle":
            ops.append("settle,%d" % rng.choice([3, 4, 12]))
        elif k == "sleep":
            ops.append("sleep,%d" % rng.choice([30, 100, 350, 900, 1500]))
        elif k == "size":
            if sized:
                ops.append("size," + rng.choice(sizes))
        else:
            ops.append(k)
    return ";".join(ops)


def histories(run, count, kinds, n=(4, 14), sig=(), tail="settle,4;" + SUM + ";fin;" + SUM + ";drop", size=None, **kw):
    out = []
    for _ in range(count):
        z = size or run.rng.choice(["60x10", "80x24", "45x5", "100x40"])
        out.append(Scn("seq", z, [history(run.rng, run.rng.randint(*n), kinds, **kw) + ";" + tail], sig=sig))
    return out



def races(run, init, acts, acts2=None, tail=TAIL, size="60x10", sig=(), deep=None, after=""):
    out = []
    for a, b in pairs(acts, acts2):
        out += par(run, init, a + after, b + after, tail=tail, size=size, sig=sig, deep=deep)
    return out


# Each design: threads, calls, calls each, what is done last, interrupt policy, interrupts, resizes, and whether liveness is checked too.
DESIGN = {
    "C12": [((1, 2), ("inc", "rem"), 1, "stay", "none", 0, 0, False), ((1, 2), ("inc", "set", "add", "rem"), 1, "stay", "none", 0, 0, False), ((1, 2, 3), ("inc",), 1, "stay", "none", 0, 0, False)],
    "C13": [((1, 2), ("inc", "fin"), 1, "stay", "none", 0, 0, False), ((1, 2), ("inc", "set", "fin", "rem"), 1, "stay", "none", 0, 0, False)],
    "C16": [((1,), ("title", "inc"), 1, "stay", "none", 0, 1, True), ((1,), ("title", "add", "rem", "inc", "msg"), 2, "stay", "none", 0, 1, True)],
    "C18": [((1,), ("inc", "fin", "msg"), 2, "stay", "none", 0, 0, False), ((1, 2), ("fin", "msg", "title"), 1, "stay", "none", 0, 1, False)],
    "C20": [((1,), ("fin", "reset"), 1, "drop", "none", 0, 0, True), ((1,), ("inc", "fin", "reset"), 2, "finish", "none", 0, 0, True), ((1, 2), ("fin", "reset"), 1, "drop", "none", 0, 0, True)],
    "C21": [((1,), ("add", "fin", "reset"), 2, "stay", "none", 0, 0, False), ((1, 2), ("inc", "fin", "reset"), 1, "stay", "none", 0, 0, False), ((1,), ("inc", "add", "fin", "reset"), 3, "stay", "none", 0, 0, True)],
    "C22": [((1,), ("fin",), 1, "stay", "two", 2, 0, False), ((1,), ("inc", "fin", "title"), 1, "drop", "keep", 2, 0, True), ((1,), ("inc", "reset"), 1, "stay", "default", 1, 0, True)],
    "C23": [((1,), ("fin", "reset"), 1, "drop", "keep", 1, 0, False), ((1,), ("fin", "reset"), 2, "finish", "keep", 2, 0, True)],
}


def design(run):
    """The step-by-step design itself, whatever the code does."""
    for users, menu, calls, final, policy, hits, sizes, live in (DESIGN[run.prop] if run.thorough else []):
        name, cfg, files = vlib.mc("ProglessImpl", {"Users": set(users), "Menu": set(menu), "Calls": calls, "Total": 2, "Final": final, "Policy": policy, "Hits": hits, "Resizes": sizes},
                                   spec="FairSpec" if live else "Spec", properties=("Returns", "CatchesUp", "Quits") if live else (),
                                   invariants=["Frozen", "Counted", "Within", "FullEnds", "OneTicker", "Printed", "Cursor", "Locks", "Mercy"] + (["Exit"] if policy in ("none", "keep") else []))
        r = vlib.tlc(name, cfg, files=files, timeout=1500)
        run.tlc_stats(r)
        run.add("design_states", r.distinct)


def live(run):
    """For real: threads, time and signals of the system, on a terminal of its."""
    import c_live
    c_live.check(run)


def mix(run, count, runs=6, sig=(), titles=("x61", "x6262", "x"), ints=False, size=None, tail="settle,4;" + SUM + ";fin;msg,done,x7a;drop;settle,2"):
    """Random programs of a few threads that make any calls, on random schedules."""
    rng = run.rng
    out = []

    def op():
        k = rng.choice(["inc", "inc", "incn", "set", "add", "add", "rem", "rem", "title", "tmsg", "msg", "fin", "reset", "sum", "sleep", "clone", "splines"] + ["int"] * ints)
        lab = rng.choice(["x62", "x63", "x64", "x622063", "x6220"])
        return {"inc": "inc,1", "incn": "incn,%d" % rng.choice([1, 2, 3, 4294967295]), "set": "set,%d" % rng.randrange(0, 6), "add": "add," + lab, "rem": "rem," + lab,
                "title": rng.choice(["title,nil"] + ["title,%s,%s" % (a, b) for a in ("none", "done", "pfx", "full") for b in titles]), "tmsg": "tmsg," + rng.choice(titles),
                "msg": "msg,%s,x%02x" % (rng.choice(["done", "none", "pfx"]), rng.randrange(97, 123)), "fin": "fin", "reset": "%s,%d" % (rng.choice(["reset", "try"]), rng.choice([1, 2, 3, 4294967295])),
                "sum": SUM, "sleep": "sleep,%d" % rng.choice([5, 95, 100, 105, 250, 1000]), "clone": "clone", "splines": "splines,x61", "int": "int,%d" % rng.randrange(0, 2)}[k]
    for _ in range(run.pick(count, count * 15)):
        init = rng.choice(["new,%d", "newt,%d,none,x61", "newt,%d,pfx,x61;add,x62", "new,%d;add,x62;add,x63"]) % rng.choice([1, 2, 3, 4, 9])
        init += rng.choice(["", ";sleep,100", ";sleep,200", ";sleep,1100", ";fin", ";inc,1;sleep,200"])
        progs = [";".join(op() for _ in range(rng.randint(1, 4))) + rng.choice(["", "", ";drop"]) for _ in range(rng.choice([0, 1, 1, 2, 2]))]
        own = ";".join(op() for _ in range(rng.randint(0, 5)))
        out.append(Scn("rand:%d:%d" % (rng.randrange(1 << 30), run.pick(runs, runs * 10)), size or rng.choice(["60x10", "60x4", "80x24", "42x6"]),
                       [init + ";go;" + (own + ";" if own else "") + "join;" + tail] + progs, sig=sig))
    return out


def aged(run, extra=""):
    """Bars that have been up for long (as if suspended meanwhile)."""
    edges = [1000, 10000, 59000, 60000, 599000, 600000, 3599000, 3600000, 35999000, 36000000, 65535000, 65536000, 86399000, 86400000, 90000000, 864000000]
    out = []
    for _ in range(run.pick(40, 800)):
        t, q = 250, ["newt,9,none,x61;settle,2"]
        for e in sorted(run.rng.sample(edges, run.rng.randint(2, 6))):
            e += run.rng.choice([-2000, -500, -20, 0, 20, 300, 990])
            if e <= t:
                continue
            q += ["jump,%d" % (e - t), run.rng.choice(["settle,1", "settle,3", "sleep,50", "sleep,1200;settle,2", "inc,1;settle,2", "title,done,x7a;settle,2"]) + extra]
            t = e + sum(int(x.split(",")[1]) * (100 if x[1] == "e" else 1) + (50 if x[1] == "e" else 0) for x in q[-1].split(";") if x[0] == "s" and x.split(",")[0] in ("settle", "sleep"))
        out.append(Scn("seq", "60x10", [";".join(q) + ";settle,3;fin%s;drop" % extra]))
    return out


def c13():
    run = begin("C13")
    acts = ["fin", "incn,4294967295", "set,3", "set,9", "inc,1", "inc,1;inc,1", "set,2", "add,x64", "rem,x62", "rem,x62;rem,x63"]
    late = ["inc,1", "set,1", "set,0", "add,x64", "rem,x62", "fin", "msg,done,x6d"]
    scns = races(run, TASKED % 3, acts, after=";" + SUM)
    scns += races(run, TASKED % 3, [a + ";" + b for a in ("fin", "set,3", "inc,1;inc,1;inc,1") for b in late[:3]], late, after=";" + SUM)
    scns += races(run, TASKED % 2, ["fin", "inc,1;inc,1", "reset,4", "reset,1"], ["reset,5", "inc,1", "set,2", "rem,x62"], after=";" + SUM)
    for a, b, c in [("fin", "inc,1", "rem,x62"), ("inc,1", "inc,1", "inc,1"), ("set,5", "set,2", "inc,1"), ("fin", "fin", "inc,2"), ("fin", "reset,3", "inc,3"), ("add,x64", "fin", "rem,x64")]:
        scns += par(run, TASKED % 3, a + ";" + SUM, b + ";" + SUM, c + ";" + SUM)
    scns += histories(run, run.pick(600, 10000), ["inc", "incn", "set", "rem", "add", "fin", "sum", "reset", "try0", "sum", "inc", "sleep", "settle"])
    # Long after the end.
    over = ["add", "add", "rem", "inc", "incn", "set", "sum", "title", "tmsg", "msg", "sleep", "sleep", "settle"]
    for i in range(run.pick(200, 4000)):
        n = run.rng.choice([1, 2, 9, 300])
        end = run.rng.choice(["fin", "set,%d" % n, "incn,%d" % n, "sleep,700;incn,4294967295", "add,x7a;sleep,1200;set,%d;rem,x7a" % max(0, n - 1)])
        scns.append(Scn("seq", run.rng.choice(["60x10", "80x24"]), [history(run.rng, 2, ["add", "sleep", "title", "settle"], total=n) + ";" + end + ";"
            + history(run.rng, run.rng.randint(3, 12), over, total=n).split(";", 1)[1] + ";" + SUM + ";fin;" + SUM + ";drop"]))
    scns += mix(run, 100)
    judge(run, scns, {}, "C13")
    design(run)
    live(run)
    return run.finish()


def c14():
    run = begin("C14")
    base = "newt,9,none,x61;add,x62;sleep,200"
    acts = ["add,x62", "add,x64", "rem,x62", "rem,x64", "add,x1b5b316d64", "rem,x62;add,x62", "add,x64;rem,x64", "fin", "reset,5"]
    scns = races(run, base, acts, tail="go;join;settle,4;" + SUM + ";settle,3;fin;drop")
    scns += races(run, base, acts[:7], acts[-2:], tail="go;join;add,x64;add,x65;settle,4;fin;reset,4;settle,3;drop", size="60x4")
    for a, b, c in [("add,x64", "add,x64", "add,x64"), ("rem,x62", "rem,x62", "add,x62"), ("add,x64", "rem,x64", "fin"), ("add,x64", "rem,x64", "add,x64")]:
        scns += par(run, base, a, b, c)
    pool = LABELS + [rich(run.rng) for _ in range(40)]
    kinds = ["add"] * 6 + ["rem"] * 4 + ["settle"] * 2 + ["inc", "reset", "fin", "title", "msg"]
    scns += histories(run, run.pick(600, 10000), kinds, n=(6, 22), tail="settle,4;fin;add,x62;drop", labels=pool, sizes=SIZES)
    scns += histories(run, run.pick(150, 3000), kinds, n=(6, 22), tail="settle,4;fin;drop", labels=LABELS[:8], total=1000)
    # Very many at once.
    for n in (257, 300):
        q = ["%s,%s" % (k, h("t%d" % i)) for i in range(n) for k in ("add", "add")[:1 + (i % 50 == 49)]]
        r = ["rem,%s" % h("t%d" % i) for i in range(n)]
        run.rng.shuffle(r)
        scns.append(Scn("seq", "60x10", [";".join(["new,4000"] + q + ["settle,3", SUM] + r[:20] + ["settle,3"] + r + [SUM, "settle,3"] + q[:3] + ["settle,3;fin;drop"])]))
    scns += mix(run, 100)
    judge(run, scns, {"quiet"}, "C14")
    live(run)
    return run.finish()


def rich(rng, spaces=True):
    """A text with wide and combining characters, sequences and whitespace."""
    bits = ["a", "b", "c ", "xyz", "\u00e9", "\u6f22", "\u5b57", "\U0001f600", "e\u0301", "\u2192", "0", "\u03a9"]
    if spaces:
        bits += [" ", "\u00a0", "\u2003", "  "]
    t = "".join(rng.choice(bits) for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 60])))
    if rng.random() < 0.4:
        i = rng.randrange(0, len(t) + 1)
        while i < len(t) and t[i] == "\u0301":
            i += 1
        t = t[:i] + "\x1b[1;3%dm" % rng.randrange(1, 7) + t[i:] + "\x1b[0m"
    return t


SIZES = ["60x10", "80x24", "45x5", "100x40", "60x2", "60x3", "60x4", "39x10", "30x5", "11x3", "10x10", "200x60", "41x6", "300x300", "52x7"]


def c15():
    run = begin("C15")
    chk = {"frame", "title", "tasks"}
    acts = ["inc,1", "inc,1;inc,1", "set,3", "add,x64;rem,x64", "add,x64", "title,done,x7a", "title,nil", "tmsg,x7979", "msg,done,x6d", "rem,x62;inc,1", "reset,7", "fin"]
    init = "newt,5,none,x61;add,x62;sleep,200"
    slow = lambda a: a.replace(";", ";sleep,120;")
    scns = races(run, init, acts, tail="go;join;settle,3;fin;drop")
    for a, b in pairs(acts):
        scns += par(run, init, "sleep,100;" + slow(a), "sleep,100;" + b, tail="go;sleep,100;inc,1;join;settle,2;drop")
    for a, b, c in [("inc,1", "title,done,x7a", "msg,done,x6d"), ("inc,1", "msg,done,x6d", "msg,info,x6e"), ("add,x64", "title,nil", "inc,2"), ("reset,9", "inc,1", "msg,done,x6d"), ("reset,9", "add,x64", "title,done,x7a")]:
        scns += par(run, init, a, b, c, tail="go;join;settle,3;fin;drop")
    scns += [Scn("rand:%d:%d" % (run.rng.randrange(1 << 30), run.pick(40, 400)), "60x10", [init + ";size,80x24;go;size,30x9;join;size,60x10;settle,4;drop", a, b])
             for a, b in run.rng.sample(pairs(acts), 20)]
    kinds = ["inc", "incn", "set", "add", "rem", "title", "tmsg", "msg", "reset", "sleep", "sleep", "sleep", "settle", "size", "fin"]
    scns += histories(run, run.pick(300, 5000), kinds, n=(8, 24), tail="settle,3;drop", sizes=SIZES)
    judge(run, scns, chk, "C15", cap=run.pick(5500, None))
    # Tasks that come and go between two frames.
    scns = []
    for _ in range(run.pick(150, 3000)):
        q = ["new,%d" % run.rng.choice([9, 40])]
        for _ in range(run.rng.randint(4, 9)):
            q += ["%s,x%02x" % (run.rng.choice(["add", "add", "rem"]), run.rng.randrange(0x62, 0x67)) for _ in range(run.rng.randint(1, 3))] + [run.rng.choice(["sleep,120", "sleep,250", "settle,2", "title,done,x7a"])]
        scns.append(Scn("seq", "60x10", [";".join(q) + ";settle,2;drop"]))
    scns += aged(run)
    judge(run, scns, chk, "C15")
    if "scheduler" in run.cov:
        live(run)
    return run.finish()


def c16():
    run = begin("C16")
    acts = ["inc,1", "set,3", "add,x64;rem,x64", "add,x64", "rem,x62", "title,done,x7a", "title,nil", "tmsg,x7979", "msg,done,x6d", "reset,7", "fin", "fin;reset,3;add,x65"]
    init = "newt,5,none,x61;add,x62;sleep,200"
    tail = "go;join;settle,4;drop"
    scns = races(run, init, acts, tail=tail)
    for a in acts:
        for tl in ["go;size,80x24;join;settle,4;drop", "go;size,30x10;join;settle,4;size,70x3;settle,4;drop"]:
            for sig in ((), ("sigwinch",)):
                scns += par(run, init, a, tail=tl, sig=sig)
    for sig in ((), ("sigwinch",)):
        scns += races(run, init, acts[:10], ["sleep,95;inc,1", "sleep,105;title,done,x7a", "sleep,100;msg,done,x6d"], tail=tail, sig=sig)
        for a, b, c in [("inc,1", "title,done,x7a", "msg,done,x6d"), ("inc,1", "msg,done,x6d", "msg,info,x6e"), ("add,x64", "title,nil", "inc,2"), ("reset,9", "add,x64", "title,done,x7a")]:
            scns += par(run, init, a, b, c, tail=tail, sig=sig)
        kinds = ["inc", "incn", "set", "add", "rem", "title", "tmsg", "splines", "msg", "reset", "sleep", "settle", "settle", "size", "size", "fin"]
        scns += histories(run, run.pick(250, 4000), kinds, n=(6, 20), tail="settle,4;drop", sizes=SIZES, sig=sig)
        scns += histories(run, run.pick(100, 2000), kinds[:-2], n=(6, 20), tail="settle,4;drop", total=3000000000, sizes=SIZES, sig=sig)
    scns += aged(run)
    judge(run, scns, {"quiet"}, "C16")
    design(run)
    live(run)
    return run.finish()


def c17():
    run = begin("C17", "widths of characters are those of the unicode-width crate")
    rng = run.rng
    titles = TEXTS + ["y" * 300, "\u6f22" * 140, "ab\u0301" * 90] + [rich(rng) for _ in range(10)]
    labels = [x for x in LABELS + ["z" * 300, "\u5b57" * 130] + [rich(rng) for _ in range(10)]]

    def life(z):
        total = rng.choice(BIG)
        out = ["print,x68", "newt,%d,none,%s" % (total, h(rng.choice([t for t in titles if t]))) if rng.random() < 0.6 else "new,%d" % total]
        rows = int(z.split("x")[1])
        n = rng.choice([0, 0, 1, 2, rows - 3, rows - 2, rows - 1, rows]) if rng.random() < 0.8 else rng.randrange(0, 300)
        n = max(0, min(n, 300))
        out += ["add," + h(("t%d " % i) + rng.choice(labels)) for i in range(n)]
        for d in rng.sample([0, 1, total // 2, total // 3, total - 1, total // 7, max(0, total - total // 1000), rng.randrange(0, total)], 3):
            if d < total:
                out += ["set,%d" % d, "settle,3"]
            if rng.random() < 0.3:
                out += ["title,nil" if rng.random() < 0.4 else "title,done," + h(rng.choice(titles)), "settle,2"]
        out += ["msg,done,x6d", "settle,2", "fin", "drop"]
        return Scn("seq", z, [";".join(out)])
    scns = []
    for w in range(1, 290):
        scns.append(life("%dx%d" % (w, rng.choice([2, 3, 5, 24, 60]))))
    for w in list(range(2, 80)) * run.pick(1, 12):
        scns.append(life("%dx%d" % (w, rng.choice([2, 3, 5, 24, 60]))))
    for r in list(range(2, 40)) + [100, 200, 250, 253, 254, 255, 256, 257, 258, 300, 400]:
        scns.append(life("%dx%d" % (rng.choice([45, 60, 80, 200]), r)))
    for _ in range(run.pick(100, 6000)):
        scns.append(life("%dx%d" % (rng.randrange(1, 320), rng.randrange(2, 320 if rng.random() < 0.1 else 30))))
    # The largest counts, on the sizes where they stop fitting.
    for w in range(38, 72):
        for n in (4294967295, 2147483648, 999999999, 1000000000):
            scns.append(Scn("seq", "%dx5" % w, ["print,x68;new,%d;settle,2;set,%d;settle,2;set,%d;settle,2;fin;drop" % (n, n - 1, n // 10)]))
    # Every share of a bar.
    for n in (7, 10, 64, 100, 101, 255, 256, 1000):
        q = ["print,x68;new,%d" % n]
        for d in range(0, n, max(1, n // 60)):
            q.append("set,%d;settle,2" % d)
        scns += [Scn("seq", z, [";".join(q) + ";fin;drop"]) for z in ("80x5", "256x5", "47x5")]
    # Frames of every height.
    for n in range(0, 256):
        scns.append(Scn("seq", "45x%d" % rng.choice([256, 257, 300]), ["print,x68;new,3;" + "".join("add,%s;" % h("a%d" % i) for i in range(n)) + "settle,3;inc,1;settle,2;fin;drop"]))
    # A terminal that takes only so much at a time.
    for n in (1, 2, 5, 16, 31, 64, 100, 200, 1000):
        for z in ("60x10", "100x30", "42x5"):
            scns.append(Scn("seq", z, life(z).threads, flags="short=%d" % n))
    judge(run, scns, {"geo", "quiet", "frame"}, "C17", batch=400)
    # While other threads change what is shown.
    scns = []
    acts = ["inc,1", "add,x64", "rem,x62", "title,done,x7a", "title,nil", "msg,done,x6d", "reset,4294967295", "fin"]
    init = "print,x68;newt,5,none,x61;add,x62;sleep,200"
    for z in ("60x4", "60x3", "42x10"):
        scns += races(run, init, acts, size=z, tail="go;join;settle,3;fin;drop", deep=0)
    judge(run, scns, {"geo"}, "C17")
    live(run)
    return run.finish()


def c18():
    run = begin("C18")
    ends = ["fin", "set,9", "inc,1;inc,1;inc,1", "incn,7", "rem,x62;rem,x63;inc,1"]
    others = ["msg,done,x6d", "inc,1", "add,x64", "title,done,x7a", "fin", "sleep,100;msg,done,x6e", "set,2", "rem,x62", "clone"]
    init = "print,x68;newt,3,none,x61;add,x62;add,x63;sleep,200"
    scns = races(run, init, ends, others, tail="go;join;settle,3;print,x69;settle,3;drop")
    scns += races(run, init, ["sleep,95;" + e for e in ends] + ["sleep,105;" + ends[0]], ["sleep,100;msg,done,x6d", "sleep,100;inc,1"], tail="go;join;settle,3;drop;settle,3")
    scns += races(run, init, ends[:3], ["reset,4", "reset,4;fin", "fin;reset,2;fin"], tail="go;join;settle,3;fin;settle,3;drop")
    for a, b, c in [("fin", "msg,done,x6d", "inc,1"), ("fin", "fin", "msg,done,x6d"), ("inc,2", "inc,2", "msg,done,x6d"), ("set,3", "add,x64", "title,nil"), ("fin", "msg,done,x6d", "msg,done,x6e")]:
        scns += par(run, init, a, b, c, tail="go;join;settle,3;drop;settle,2")
    # Dropping every handle stops the painting.
    scns += races(run, init, ["msg,done,x6d", "inc,1", "drop", "clone;inc,1", "sleep,100"], tail="go;drop;join;settle,3")
    kinds = ["inc", "set", "add", "rem", "title", "msg", "msg", "fin", "reset", "sleep", "settle"]
    scns += histories(run, run.pick(300, 6000), kinds, n=(6, 20), tail="settle,3;fin;settle,3;drop", total=4)
    scns += mix(run, 100)
    judge(run, scns, {"after", "log"}, "C18")
    design(run)
    live(run)
    return run.finish()


def c19():
    run = begin("C19", "the terminal of harness/hsim/src/term.rs behaves like a VT100")
    msgs = ["msg,done,x6d", "msg,none,x6e", "msg,pfx,x6f70", "msg,info," + h("r" * 130)]
    others = ["inc,1", "inc,1;inc,1;inc,1", "fin", "reset,4", "add,x64", "title,done,x7a", "title,nil", "fin;reset,3", "sleep,100;inc,1"]
    init = "print,x68;newt,3,none,x61;add,x62;sleep,200"
    tail = "go;join;settle,3;msg,done,x7a7a;settle,3;fin;msg,info,x7a;drop"
    scns = races(run, init, msgs, others, tail=tail)
    scns += races(run, init, msgs, tail=tail)
    scns += races(run, init, ["msg,done,x6d;msg,done,x6e", "msg,done,x6f;inc,3", "msg,done,x70;fin", "msg,done,x71;reset,2;msg,done,x72"], tail=tail)
    scns += races(run, "new,3;fin;sleep,200", ["msg,done,x6d"], ["reset,3", "reset,3;fin", "fin"], tail=tail)
    scns += races(run, init, ["sleep,100;msg,done,x6d"], ["sleep,100;fin", "sleep,100;inc,3", "sleep,100;reset,2", "sleep,100;msg,done,x6e"], tail=tail)
    for a, b, c in [("msg,done,x6d", "msg,done,x6e", "msg,done,x6f"), ("msg,done,x6d", "msg,done,x6e", "fin"), ("msg,done,x6d", "inc,3", "reset,4"), ("msg,done,x6d", "msg,done,x6e", "inc,1")]:
        scns += par(run, init, a, b, c, tail=tail)
    # Writes that take only part of the buffer.
    for n in (1, 3, 7, 20):
        scns.append(Scn("seq", "60x10", [init + ";msg,done,x6d;settle,2;inc,1;msg,none," + h("q" * 70) + ";settle,2;fin;msg,done,x6d;drop"], flags="short=%d" % n))
        scns.append(Scn("rand:%d:%d" % (run.rng.randrange(1 << 30), run.pick(60, 2000)), "60x10", [init + ";" + tail, "msg,done,x6d", "msg,done,x6e;inc,1"], flags="short=%d" % n))
    texts = TEXTS + ["\u6f22\u5b57", "w" * 200, "\x1b[1mbold\x1b[0m x", "e\u0301e", "\U0001f600 ok", " ", "two\nlines", "\n", "a\n\nb"] + [rich(run.rng) for _ in range(20)]
    kinds = ["msg"] * 5 + ["inc", "set", "add", "rem", "title", "fin", "reset", "sleep", "settle", "size"]
    scns += histories(run, run.pick(400, 8000), kinds, n=(6, 22), tail="settle,3;msg,done,x7a;fin;msg,done,x7a;drop", total=30, texts=texts, labels=["b", "c"], titles=TEXTS,
                      sizes=["60x10"], sized=False)
    scns += mix(run, 100)
    judge(run, scns, {"log"}, "C19", cap=run.pick(8000, None))
    live(run)
    return run.finish()


def c20():
    run = begin("C20")
    acts = ["fin", "reset,4", "inc,3", "clone;drop", "msg,done,x6d", "add,x64;rem,x64", "fin;reset,2", "reset,2;fin", "title,done,x7a", "fmsg", "drop"]
    init = "newt,3,none,x61;sleep,200"
    scns = races(run, init, acts, tail="go;join;settle,3;reset,5;settle,3;fin;settle,2;drop;settle,2")
    scns += races(run, init, acts, tail="go;drop;join;settle,3")
    scns += races(run, "new,3;fin", ["reset,2", "reset,3;fin", "msg,done,x6d", "fin", "reset,2;drop"], tail="go;join;settle,3;drop;settle,3")
    scns += races(run, "new,3", ["fin", "reset,2", "drop", "inc,3"], tail="go;drop;join;settle,3")
    for a, b, c in [("fin", "reset,2", "fin"), ("reset,2", "reset,3", "fin"), ("reset,2", "reset,3", "reset,4"), ("fin", "inc,3", "reset,2"), ("msg,done,x6d", "fin", "reset,3"), ("drop", "fin", "reset,2"), ("inc,1", "inc,1", "inc,1"), ("fin", "fin", "fin")]:
        scns += par(run, init, a, b, c, tail="go;join;settle,3;reset,5;settle,3;fin;settle,2;drop;settle,2")
        scns += par(run, init, a, b, c, tail="go;drop;join;settle,3")
    for a, b in [("rem,x62", "inc,1"), ("rem,x62", "rem,x63"), ("rem,x62", "fin"), ("add,x64;rem,x64", "add,x65;rem,x65"), ("rem,x62", "reset,1"), ("set,1;rem,x62", "add,x66")]:
        scns += par(run, "newt,2,none,x61;add,x62;add,x63;sleep,200", a, b, tail="go;join;settle,3;reset,1;add,x62;rem,x62;settle,3;drop;settle,2")
    kinds = ["fin", "reset", "inc", "set", "msg", "settle", "clone", "sleep", "add", "add", "rem", "rem", "fin", "reset", "title", "tmsg", "sum"]
    scns += histories(run, run.pick(200, 4000), kinds, n=(6, 24), tail="settle,3;fin;reset,3;settle,3;drop;settle,2", total=4, labels=["b", "c"])
    scns += histories(run, run.pick(40, 500), kinds, n=(6, 24), tail="settle,3;fin;reset,3;settle,3;drop;settle,2", total=4, size="none", labels=["b", "c"])
    scns.append(Scn("seq", "60x10", ["def;settle,3;fin;settle,2;drop;settle,2"]))
    # Signals at any moment must not jam it either.
    for sig in (("sigint",), ("signals",)):
        tail = "go;join;settle,3;reset,5;settle,3;fin;settle,2;drop;settle,2"
        for a, b in [("fin", "reset,2"), ("reset,2", "reset,3"), ("msg,done,x6d", "fin"), ("inc,3", "reset,2"), ("title,done,x7a", "fin")]:
            scns += par(run, "keep;" + init, a, b, tail=tail, sig=sig)
            scns += par(run, "keep;" + init, a, "int,1;" + b, tail="go;int,0;join;settle,3;reset,5;settle,3;fin;settle,2;drop;settle,2", sig=sig)
    scns += mix(run, 100)
    judge(run, scns, {"life"}, "C20", cap=run.pick(9000, None))
    design(run)
    live(run)
    return run.finish()


def c21():
    run = begin("C21")
    acts = ["inc,1", "inc,3", "set,2", "set,9", "add,x64", "rem,x62", "fin", "reset,5", "try,0", "title,done,x7a", "msg,done,x6d", "incn,4294967295", "fin;reset,2"]
    init = "newt,3,none,x61;add,x62;add,x63;sleep,200"
    tail = "go;join;settle,4;" + SUM + ";reset,3;inc,1;settle,4;" + SUM + ";drop"
    scns = races(run, init, ["reset,7", "reset,1", "try,0;reset,2", "reset,4294967295"], acts, tail=tail, after=";" + SUM)
    scns += races(run, "new,3;fin;sleep,200", ["reset,7", "reset,1"], acts, tail=tail, after=";" + SUM)
    scns += races(run, "def;sleep,200", ["reset,7", "reset,1"], acts, tail=tail, after=";" + SUM)
    for a, b, c in [("reset,7", "inc,3", "add,x64"), ("reset,7", "reset,5", "inc,1"), ("reset,7", "fin", "rem,x62"), ("reset,7", "set,3", "title,done,x7a"), ("reset,2", "inc,2", "inc,2")]:
        scns += par(run, init, a + ";" + SUM, b, c, tail=tail)
    kinds = ["reset", "reset", "try0", "inc", "set", "add", "rem", "fin", "title", "tmsg", "sum", "settle", "sleep"]
    scns += histories(run, run.pick(500, 8000), kinds, n=(6, 22), sizes=SIZES)
    for _ in range(run.pick(60, 600)):
        q = history(run.rng, 8, kinds, total=3).split(";")
        scns.append(Scn("seq", "60x10", ["def;" + ";".join(q[1:]) + ";settle,3;" + SUM + ";drop"]))
    scns += mix(run, 100)
    judge(run, scns, {"quiet", "frame", "tasks", "title"}, "C21", cap=run.pick(6000, None))
    design(run)
    live(run)
    return run.finish()


SIGNAL = (("sigint",), ("signals",))


def interrupted(run, sigs=SIGNAL):
    """Programs that are interrupted at any moment."""
    scns = []
    inits = ["newt,9,none,x61", "newt,9,none,x61;sleep,150", "two;newt,9,none,x61;sleep,150", "keep;newt,9,none,x61;sleep,150", "newt,9,none,x61;two;sleep,150", "newt,9,none,x61;keep;sleep,150",
             "two;keep;newt,9,none,x61;sleep,150", "keep;two;newt,9,none,x61;sleep,150"]
    for sig in sigs:
        for i in inits:
            for n, a in enumerate(["inc,1", "fin", "reset,4", "title,done,x7a", "msg,done,x6d", "fin;reset,3", "add,x64;sleep,120;rem,x64"]):
                if sig != sigs[0] and run.rng.random() < run.pick(0.6, 0):
                    continue
                scns += par(run, i, a, tail="go;int,1;sw;join;sw;settle,4;int,0;sw;settle,3;fin;drop;settle,2", sig=sig, deep=run.pick(0, 3000))
                scns += par(run, i, a, tail="go;int,0;sw;int,1;join;settle,4;drop;settle,2", sig=sig, deep=run.pick(0, 3000))
        # Before any bar, between, after, and without one.
        for q in ["int,0;new,3;settle,3;drop", "two;int,0;sw;new,3;settle,4;sw;int,0;settle,3;fin;drop", "keep;int,0;sw;new,3;settle,4;int,0;settle,3;fin;sw;drop", "two;sw;int,0;sw;int,0;settle,2",
                  "keep;sw;int,0;sw;int,0;int,0;sw;settle,2", "new,3;fin;settle,3;int,0;settle,3;reset,3;settle,4;drop", "two;new,3;fin;settle,3;int,0;sw;reset,3;settle,4;sw;int,0;settle,3;drop",
                  "keep;new,3;settle,2;drop;int,0;sw;new,4;settle,4;int,0;settle,3;fin;drop", "keep;newt,5,none,x61;settle,3;int,0;settle,3;title,done,x7a;settle,3;reset,3;settle,3;title,nil;settle,3;fin;drop",
                  "two;newt,5,none,x61;settle,3;int,0;settle,3;tmsg,x7a;settle,3;fin;reset,3;settle,3;fin;drop", "new,3;settle,3;two;int,0;settle,3", "new,3;settle,3;keep;int,0;settle,3;two;int,0;settle,2"]:
            scns.append(Scn("dfs:1:%d" % run.pick(800, 20000), "60x10", [q], sig=sig))
        for p in ("two", "keep", "sw"):
            scns += par(run, p + ";newt,9,none,x61;sleep,150", "inc,1;sleep,100;inc,1", "msg,done,x6d", tail="go;int,1;int,2;join;settle,4;fin;drop;settle,2", sig=sig)
            scns += par(run, p + ";newt,2,none,x61;sleep,150", "inc,1", "inc,1", tail="go;int,1;int,2;join;settle,4;fin;drop;settle,2", sig=sig)
        for a, b in [("two", "keep"), ("two", "two"), ("keep", "keep")]:
            scns += par(run, "sw", a + ";sw", b + ";sw", tail="go;int,0;join;sw;newt,3,none,x61;settle,4;int,0;settle,3;drop;settle,2", sig=sig)
            scns += par(run, "newt,3,none,x61", a + ";sw", b + ";sw", tail="go;join;int,0;settle,4;sw;int,0;settle,3;drop;settle,2", sig=sig)
        kinds = ["inc", "set", "add", "rem", "title", "msg", "fin", "reset", "settle", "sleep", "int,0", "int,0", "sw", "settle"]
        for p in ("two;", "keep;", ""):
            for _ in range(run.pick(40, 800)):
                scns.append(Scn("rand:%d:%d" % (run.rng.randrange(1 << 30), run.pick(4, 20)), "60x10", [p + history(run.rng, run.rng.randint(4, 16), kinds) + ";settle,4;fin;drop;settle,2"], sig=sig))
    return scns


def c22():
    run = begin("C22", "signal handlers registered with signal-hook run on the thread the signal is sent to")
    judge(run, interrupted(run), {"sig"}, "C22", cap=run.pick(9000, None))
    design(run)
    live(run)
    return run.finish()


def c23():
    run = begin("C23", "signal handlers registered with signal-hook run on the thread the signal is sent to")
    scns = interrupted(run)
    for sig in SIGNAL:
        acts = ["fin", "inc,9", "reset,4", "fin;reset,2", "drop", "msg,done,x6d"]
        scns += races(run, "newt,3,none,x61;sleep,150", acts, tail="go;join;settle,3;reset,3;settle,3;fin;settle,3;drop;settle,2", sig=sig)
        scns += races(run, "newt,3,none,x61", acts, tail="go;drop;join;settle,3", sig=sig)
        scns += races(run, "new,3;fin", ["reset,4", "reset,2;fin", "fin"], tail="go;join;settle,3;drop;settle,2", sig=sig)
    known = ("latehide", "hide-during-exit")
    judge(run, [Scn("dfs:2:100000", "60x10", ["newt,3,none,x61;int,0;settle,2"], sig=("sigint",))], {"cursor"}, "C23", known=known)
    judge(run, scns, {"cursor"}, "C23", cap=run.pick(9000, None), known=known)
    design(run)
    live(run)
    return run.finish()


def c27():
    run = begin("C27")
    acts = ["title,done,x7a", "title,nil", "tmsg,x7979", "title,none,x62", "title,full,x78", "splines,x7a", "inc,1", "reset,4", "fin", "msg,done,x6d"]
    init = "newt,5,none,x61;sleep,200"
    scns = races(run, init, acts[:6], acts, tail="go;join;settle,4;tmsg,x71;settle,4;fin;drop")
    scns += races(run, "new,5;sleep,200", acts[:6], acts[:6], tail="go;join;settle,4;tmsg,x71;settle,4;fin;reset,3;settle,3;drop")
    for new in ["news,5,x61", "news,5,x", "newn,5", "newt,5,none,x", "newt,5,pfx,x"]:
        scns += races(run, new, acts[:3] + ["sleep,250"], acts[6:8], tail="go;join;settle,4;tmsg,x71;settle,4;fin;drop")
    scns += races(run, "newt,5,done,x61;fin;sleep,200", acts[:6], ["reset,4", "fin", "inc,1"], tail="go;join;settle,4;reset,3;settle,4;tmsg,x71;settle,4;drop")
    titles = TEXTS + ["a\nb", "a\u2003b", "a\u00a0b ", " lead", "a\r\nb", "\u6f22" * 60, "t" * 300, "a\u3000b", "x\u0301y", "\x1b[1mbold\x1b[0m z", "\x1b]8;;u\x1b\\link\x1b]8;;\x1b\\", "\n", "a\u2028b"] + [rich(run.rng) for _ in range(40)]
    kinds = ["title", "title", "tmsg", "tmsg", "splines", "settle", "settle", "settle", "inc", "reset", "fin", "add", "msg", "size"]
    for sig in ((), ("sigwinch",)):
        scns += histories(run, run.pick(400, 8000), kinds, n=(6, 22), tail="settle,4;fin;drop", titles=titles, sizes=SIZES, total=1000, sig=sig)
    # Every short succession of title calls.
    few = ["title,none,x", "title,pfx,x", "title,nil", "title,none,x61", "title,full,x62", "tmsg,x", "tmsg,x63", "splines,x", "reset,4"]
    for q in itertools.product(few, repeat=3):
        scns.append(Scn("seq", "60x10", [run.rng.choice(["new,5", "newt,5,none,x61", "newt,5,pfx,x", "newt,5,none,x"]) + ";settle,3;" + "".join(x + ";settle,2;" for x in q) + "fin;drop"],
                        sig=run.rng.choice([(), ("sigwinch",)])))
    scns += mix(run, 60)
    judge(run, scns, {"quiet", "title", "frame"}, "C27", cap=run.pick(6000, None))
    live(run)
    return run.finish()


def c28():
    run = begin("C28")
    scns = []
    rng = run.rng
    nouns = [("thing", "things"), ("file", "files"), ("", ""), ("\u6f22", "\u6f22\u5b57"), ("ox", "oxen"), ("a b", "\x1b[1mc\x1b[0m")]
    kinds = ["done", "info", "error", "warning", "crunched", "notice", "success", "task", "debug", "found", "review", "skipped", "confirm", "aborted"]

    def said():
        a, b = rng.choice(nouns)
        return "sum,%s,%s,%s" % (rng.choice(kinds), h(a), h(b))
    spots = SPOTS
    naps = [0, 4, 9, 10, 11, 99, 250, 999, 1000, 1001, 1010, 1499, 1995, 59000, 59999, 60000, 60010, 61000, 119990, 3599999, 3600000, 3600010, 3661000, 7322020, 86399990, 86400000, 86400010, 90061000, 172800000, 180122030, 864000000]
    for total in BIG:
        for _ in range(run.pick(6, 80)):
            q = ["new,%d" % total]
            for _ in range(rng.randint(1, 6)):
                k = rng.choice(["set", "incn", "inc", "fin", "reset", "sleep", "sum", "sum", "fmsg", "early"])
                if k in ("set", "incn"):
                    q.append("%s,%d" % (k, rng.choice([0, 1, 2, total // 2, total - 1, total, rng.randrange(0, total + 1), rng.choice([x for x in spots if x <= total])])))
                elif k == "inc":
                    q.append("inc,1")
                elif k == "reset":
                    q.append("reset,%d" % rng.choice(BIG))
                elif k == "sleep":
                    q.append("fin;sleep,%d" % rng.choice(naps))
                elif k == "early":
                    q.append("sleep,%d" % rng.choice([n for n in naps if n < 2000]))
                else:
                    q.append(said() if k == "sum" else k)
            q += [said(), "fin", said(), "fmsg", "sleep,%d" % rng.choice(naps), said(), "fmsg", "fin", "drop"]
            scns.append(Scn("seq", "60x10", [";".join(q)], flags="steps=2000000,time=4000000"))
    for n in spots:
        scns.append(Scn("seq", "60x10", ["new,4294967295;set,%d;%s;inc,1;%s;drop" % (n, said(), said())]))
    for n in naps:
        scns.append(Scn("seq", "60x10", ["new,2;inc,1;fin;sleep,%d;%s;fmsg;fin;drop" % (n, said())], flags="steps=2000000,time=4000000"))
    acts = ["inc,1", "fin", "reset,4", "set,3", "sleep,123;fmsg", "sum,info,x61,x62"]
    scns += races(run, "new,3;sleep,200", acts, tail="go;sleep,15;fin;join;" + SUM + ";fmsg;settle,2;fin;drop", after=";" + SUM)
    scns += mix(run, 100)
    scns += aged(run, ";" + SUM + ";fmsg")
    judge(run, scns, {"time", "text"}, "C28")
    live(run)
    return run.finish()


FAULTS = ["pipe", "block", "zero", "io"]
EVERY = ((), ("sigint",), ("sigwinch",), ("signals",))


def c30():
    import c_cli, c_live
    run = begin("C30", "a failed write to the simulated terminal leaves nothing of it there", "/dev/full and a pipe without a reader fail as other streams do")
    rng = run.rng
    kinds = ["inc", "incn", "set", "add", "add", "rem", "title", "tmsg", "splines", "msg", "msg", "print", "reset", "try0", "sum", "fin", "settle", "sleep"]
    keep = [k for k in kinds if k not in ("fin", "print")]

    def ops(n, menu, **kw):
        q = history(rng, n, [k for k in menu if k != "print"], **kw).split(";")[1:]
        if "print" in menu and rng.random() < 0.5:
            q.insert(rng.randint(0, len(q)), "print,x7072")
        return ";".join(q) or "inc,1"
    fault = lambda: "err,%s;" % rng.choice(FAULTS)
    policy = lambda sig: rng.choice(["", "two;", "keep;"]) if sig in SIGNAL else ""
    # For good, from any point on: every call ends, and tells what it would have.
    scns = []
    for sig in EVERY:
        for f in FAULTS:
            scns.append(Scn("seq", "60x10", ["err,%s;newt,9,none,x61;settle,3;inc,1;msg,done,x6d;settle,2;fin;reset,3;settle,3;%s;drop;settle,2" % (f, SUM)], sig=sig))
            scns.append(Scn("seq", "60x10", ["newt,9,none,x61;settle,3;err,%s;inc,1;msg,done,x6d;settle,2;fin;reset,3;settle,3;%s;drop;settle,2" % (f, SUM)], sig=sig))
            scns.append(Scn("seq", "60x10", ["newt,2,none,x61;err,%s;inc,2;%s;settle,12;drop;settle,2" % (f, SUM)], sig=sig))
        for _ in range(run.pick(90, 2500)):
            n = rng.choice([2, 3, 9, 1000, 4294967295])
            a, b = ops(rng.randint(0, 6), kinds, total=n), ops(rng.randint(3, 12), kinds, total=n)
            new = rng.choice(["new,%d;" % n, "newt,%d,pfx,x61;" % n])
            first = rng.random() < 0.2
            size = rng.choice(["60x10", "80x24", "45x5", "30x4", "8x3", "none"])
            scns.append(Scn("seq", size, [policy(sig) + (fault() + new if first else new + a + ";" + fault()) + b + ";settle,3;" + SUM + ";fin;fmsg;" + SUM + rng.choice([";reset,4;settle,3;inc,9", ""]) + ";drop;settle,2"], sig=sig))
    judge(run, scns, {"life", "time", "text"}, "C30")
    # For a while: when it works again, all is as it would have been.
    scns = []
    for sig in EVERY:
        for f in FAULTS:
            for q in ["inc,1", "title,done,x7a", "title,nil", "add,x62", "msg,done,x6d", "set,8;add,x62", "reset,7", "rem,x62;inc,1", "size,80x10", "size,50x4;title,nil", "sleep,1200", "print,x6e", "size,30x5;inc,1", "size,8x5;sleep,200;size,60x10"]:
                scns.append(Scn("seq", "60x10", ["print,x68;newt,9,none,x61;add,x62;add,x63;settle,3;err,%s;%s;settle,3;err,none;settle,14;msg,done,x6e;inc,1;settle,3;fin;print,x6f;drop;settle,2" % (f, q)], sig=sig))
                if "size" not in q:
                    scns.append(Scn("seq", "30x8", scns[-1].threads, sig=sig))
        for _ in range(run.pick(60, 1500)):
            n = 4000000000
            q = ["newt,%d,none,x61" % n]
            for _ in range(rng.randint(1, 3)):
                q.append(ops(rng.randint(0, 4), keep, total=n) + ";" + fault() + ops(rng.randint(1, 6), keep, total=n) + ";err,none;settle,14")
            scns.append(Scn("seq", rng.choice(["60x10", "80x24", "45x5", "30x4", "20x10"]), [policy(sig) + re.sub(r"(incn|set|reset|try),\d+", r"\1,%d" % rng.choice([2, 40, 1000]), ";".join(q))
                            .replace("reset,", "reset,900").replace("try,", "try,900") + ";msg,info,x7a;settle,14;fin;msg,done,x7a;drop;settle,2"], sig=sig))
    judge(run, scns, {"life", "log", "quiet", "tasks", "title"}, "C30")
    # At any moment of what several threads do.
    scns = []
    blink = ["err,pipe;err,none", "err,zero;sleep,50;err,none"]
    acts = ["msg,done,x6d", "inc,1", "add,x64", "title,done,x7a", "reset,9", "rem,x62", "msg,done,x6d;msg,done,x6e"]
    for sig in ((), ("signals",)):
        for a in acts:
            for b in blink:
                scns += par(run, "print,x68;newt,5,none,x61;add,x62;add,x63;sleep,200", a, b, tail="go;join;settle,14;msg,done,x79;settle,3;fin;drop;settle,2", sig=sig, deep=run.pick(0, 3000))
        for a, b in run.rng.sample(pairs(acts), run.pick(6, 28)):
            scns += par(run, "print,x68;newt,5,none,x61;add,x62;add,x63;sleep,200", a, b, "err,pipe;err,none", tail="go;join;settle,14;msg,done,x79;settle,3;fin;drop;settle,2", sig=sig, deep=0)
    judge(run, scns, {"life", "log", "quiet"}, "C30", cap=run.pick(3000, None))
    scns = []
    for sig in EVERY:
        for a in ["fin", "inc,9", "fin;reset,3", "drop", "msg,done,x6d;fin", "reset,2;fin", "add,x64;rem,x64;fin"]:
            for b in ["err,pipe", "err,zero;err,none", "err,io;fin"]:
                scns += par(run, "newt,5,none,x61;sleep,200", a, b, tail="go;join;settle,3;%s;fin;drop;settle,2" % SUM, sig=sig, deep=0)
    for sig in SIGNAL:
        for p in ("two;", "keep;", ""):
            for b in ["err,pipe", "err,zero;err,none"]:
                scns += par(run, p + "newt,5,none,x61;sleep,200", "int,0;inc,1", b, tail="go;join;settle,3;fin;drop;settle,2", sig=sig, deep=0)
    judge(run, scns, {"life", "sig"}, "C30", cap=run.pick(3000, None))
    # For real: the terminal, or whoever reads the pipe, goes away.
    scns = []
    for _ in range(run.pick(40, 400)):
        sig = rng.choice(EVERY)
        n = rng.choice([2, 9, 4000000000])
        scns.append(Scn("live", rng.choice(["60x10", "none"]), [policy(sig) + "newt,%d,none,x61;settle,%d;" % (n, rng.choice([0, 2])) + ops(rng.randint(0, 3), kinds, total=n) + ";err,gone;" + ops(rng.randint(2, 7), kinds, total=n)
                        + ";settle,3;" + SUM + rng.choice([";fin", ";fin;reset,3;settle,2", ""]) + ";drop"], sig=sig))
    c_live.live_judge(run, scns, {}, "C30")
    c_cli.unheard(run)
    return run.finish()


CHECKS = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C27": c27, "C28": c28, "C30": c30}
