"""The progress bar for real: real threads, time, signals and a terminal of the system's,
the recorded calls and settled pictures explained by ProglessTrace.tla."""
import fcntl, json, os, pty, select, signal, struct, subprocess, termios, threading, time
from concurrent.futures import ThreadPoolExecutor
import vlib
from c_prog import Scn, convert, accepted, SUM, NEW

_bins = {}
_lock = threading.Lock()


def hlive(sig=()):
    with _lock:
        if sig not in _bins:
            d = vlib.cargo_build("hlive", sig, target="t-live" + "".join("-" + f for f in sig))
            _bins[sig] = os.path.join(d, "hlive")
    return _bins[sig]


def winsize(fd, z):
    w, h = map(int, z.split("x"))
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))


def live(scn, limit=60):
    """Run one program; what happened, as hsim tells it.  Standard output and input are
    another, smaller terminal: the bar's is the one it writes to."""
    binary = hlive(scn.sig)
    master, slave = pty.openpty()
    other, decoy = pty.openpty()
    winsize(other, "33x7")
    tty = scn.size != "none"
    fds = [master, other]
    try:
        if tty:
            winsize(master, scn.size)
        er, ew = (master, slave) if tty else os.pipe()
        tell, tell_w = os.pipe()
        hear_r, hear = os.pipe()
        fds += [tell, hear] + ([] if tty else [er])

        def child():
            for i, f in enumerate([fcntl.fcntl(f, fcntl.F_DUPFD, 100) for f in (decoy, decoy, ew, tell_w, hear_r)]):
                os.dup2(f, i)
            os.closerange(5, 4096)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
        p = subprocess.Popen([binary, "run", "|".join(scn.threads)], close_fds=False, preexec_fn=child, env=vlib.env())
    finally:
        for f in {slave, decoy, tell_w, hear_r} | (set() if tty else {ew}):
            os.close(f)
    os.set_blocking(er, False)
    script, events, marks = [], [], []
    state = {"open": True}

    def drain():
        got = False
        while state["open"]:
            try:
                b = os.read(er, 65536)
            except BlockingIOError:
                break
            except OSError:
                b = b""
            if not b:
                state["open"] = False
                break
            script.append("f" + b.hex())
            got = True
        return got

    def settle():
        drain()
        if tty:
            # The system hands it over a little later.
            t = time.time() + 0.02
            while time.time() < t and state["open"]:
                if select.select([er], [], [], 0.005)[0] and drain():
                    t = max(t, time.time() + 0.01)

    def look(e):
        script.append("s")
        marks.append(e)
    buf, told, t0, r = b"", True, time.time(), None
    try:
        while told or state["open"]:
            left = t0 + limit - time.time()
            if left <= 0:
                r = "hang"
                break
            ready, _, _ = select.select(([tell] if told else []) + ([er] if state["open"] else []), [], [], left)
            if er in ready:
                drain()
            if tell not in ready:
                continue
            b = os.read(tell, 65536)
            if not b:
                told = False
                continue
            buf += b
            while b"\n" in buf:
                line, _, buf = buf.partition(b"\n")
                if line != b"?":
                    e = json.loads(line)
                    if e["e"] == "unknown":
                        raise vlib.ToolError("bad live program: %s" % scn.command())
                    events.append(e)
                    if e["e"] == "call" and e["o"] in NEW and not any(x["e"] == "spawn" for x in events):
                        events.append({"e": "spawn", "t": "k0", "n": e["n"]})
                    continue
                e = events[-1]
                settle()
                if e["e"] in ("ret", "snap"):
                    look(e)
                elif e["e"] == "size":
                    z = e.pop("z")
                    e["w"], e["h"] = map(int, z.split("x"))
                    script.append("z" + z)
                    winsize(master, z)
                    p.send_signal(signal.SIGWINCH)
                elif e["e"] == "err":
                    # The terminal goes away.
                    state["open"] = False
                    os.close(er)
                    fds.remove(er)
                elif e["e"] == "int":
                    p.send_signal(signal.SIGINT)
                try:
                    os.write(hear, b"k")
                except BrokenPipeError:
                    pass
        if r == "hang":
            p.kill()
        rc = p.wait()
        drain()
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        for f in fds:
            os.close(f)
    if r is None:
        r = {0: "done", -2: "exit 130"}.get(rc, "exit %d" % rc if rc != 101 else "panic")
    over = {"e": "over", "r": r, "n": int((time.time() - t0) * 1000)}
    events.append(over)
    look(over)
    q = subprocess.run([binary, "term", scn.size if scn.size != "none" else "80x24"], input="".join(x + "\n" for x in script).encode(), stdout=subprocess.PIPE)
    shots = [json.loads(x) for x in q.stdout.decode().split("\n") if x]
    if q.returncode != 0 or len(shots) != len(marks):
        raise vlib.ToolError("the terminal failed")
    for e, s in zip(marks, shots):
        e.update(s)
    for e in events:
        if e["e"] == "ret" and "pic" not in e:
            e.update(pic=[], vis=True, log=[])
    return events


def live_judge(run, scns, chk, prefix):
    """A program is wrong if each of three runs is."""
    chk = set(chk)
    for sig in {s.sig for s in scns}:
        hlive(sig)

    def attempt(ps, n):
        with ThreadPoolExecutor(n) as ex:
            raws = list(ex.map(live, ps))
        items = [convert(json.dumps(r), s, chk) for r, s in zip(raws, ps)]
        ok, _ = accepted(run, items, chk)
        return [(p, r, i) for k, (p, r, i) in enumerate(zip(ps, raws, items)) if k not in ok]
    run.add("live_executions", len(scns))
    bad = attempt(scns, 24)
    for _ in range(2):
        if bad:
            run.add("live_repeated", len(bad))
            bad = attempt([b[0] for b in bad[:8]], 2)
    for scn, raw, item in bad[:5]:
        _, far = accepted(run, [item], chk, progress=True)
        ev = item["ev"]
        at = ev[far] if far < len(ev) else None
        run.violation("%s:live:%s" % (prefix, scn.command("live")), "no explanation for event %d of %d (%s) of a real run of: %s" % (
            far + 1, len(ev), json.dumps(at, ensure_ascii=False)[:300], scn.command("live")),
            {"scenario": scn.command("live"), "features": scn.sig, "furthest": far, "events": ev, "trace": raw, "aspects": sorted(chk)})


MSGS = ["msg,done,x6d6d", "msg,none,x6e", "msg,info,x6f70"]
# What is drawn from, what is judged, with which signal features.
LIVE = {
    "C12": (["inc", "incn", "rem", "add", "sum", "set", "msg"], {}, ((),)),
    "C13": (["inc", "incn", "set", "rem", "add", "fin", "sum", "reset", "try0"], {}, ((),)),
    "C14": (["add", "add", "add", "rem", "rem", "inc", "reset", "title"], {"quiet"}, ((),)),
    "C15": (["inc", "incn", "set", "add", "rem", "title", "tmsg", "msg", "reset", "size", "fin"], {"quiet"}, ((), ("sigwinch",))),
    "C16": (["inc", "incn", "set", "add", "rem", "title", "tmsg", "splines", "msg", "reset", "size", "size", "fin"], {"quiet"}, ((), ("sigwinch",))),
    "C17": (["inc", "set", "add", "add", "add", "rem", "title", "title", "tmsg", "size", "size", "msg"], {"quiet"}, ((), ("sigwinch",))),
    "C18": (["inc", "set", "add", "rem", "title", "msg", "fin", "reset"], {"after", "log"}, ((),)),
    "C19": (["msg", "msg", "msg", "inc", "set", "add", "rem", "title", "fin", "reset"], {"log"}, ((),)),
    "C20": (["fin", "reset", "inc", "set", "msg", "clone", "add", "rem", "fin", "reset", "title", "sum"], {"quiet"}, ((), ("signals",))),
    "C21": (["reset", "reset", "try0", "inc", "set", "add", "rem", "fin", "title", "tmsg", "sum"], {"quiet"}, ((),)),
    "C22": (["inc", "set", "add", "rem", "title", "msg", "fin", "reset", "int,0", "sw"], {"sig"}, (("sigint",), ("signals",))),
    "C23": (["inc", "set", "msg", "fin", "reset", "int,0"], {"cursor"}, ((), ("sigint",), ("signals",))),
    "C27": (["title", "title", "tmsg", "tmsg", "splines", "inc", "reset", "fin", "add", "msg", "size"], {"quiet", "title"}, ((), ("sigwinch",))),
    "C28": (["inc", "incn", "set", "fin", "reset", "sum", "fmsg", "sum", "sleep", "sleep"], {"time", "text", "real"}, ((),)),
}


def check(run):
    """Some programs for real."""
    from c_prog import history
    kinds, chk, sigs = LIVE[run.prop]
    rng = run.rng
    scns = []

    def policy(sig):
        return rng.choice(["two;", "two;", "keep;", "keep;", ""]) if sig and sig[0] != "sigwinch" else ""
    more = 6 if "scheduler" in run.cov else 1
    for _ in range(more * run.pick(36, 600)):
        sig = rng.choice(sigs)
        q = []
        for op in history(rng, rng.randint(3, 9), kinds, total=rng.choice([2, 3, 9, 1000, 4000000000]), sizes=["80x20", "50x6", "30x8", "70x3", "100x30"]).split(";"):
            q.append(op)
            if rng.random() < 0.3 or op.startswith(("size", "int")):
                q.append("settle,%d" % rng.choice([2, 3, 5]))
        end = rng.choice(["fin;settle,2;drop", "drop;settle,2", "fin;reset,3;settle,3;drop", "%s;fin;%s;drop" % (SUM, SUM)])
        size = rng.choice(["60x10", "80x24"]) if run.prop != "C17" else "%dx%d" % (rng.choice([rng.randrange(2, 60), rng.randrange(38, 290)]), rng.choice([2, 3, 4, 5, 9, 60, 257]))
        scns.append(Scn("live", size, [policy(sig) + ";".join(q) + ";settle,3;" + end], sig=sig))
    # Threads, as the system runs them.
    few = {"inc": ["inc,1", "inc,2", "many,20000", "many,3"], "incn": ["incn,7", "incn,4294967295"], "set": ["set,3", "set,900"], "rem": ["rem,x62", "rem,x63"], "add": ["add,x64", "add,x65"], "sum": [SUM], "msg": MSGS,
           "fin": ["fin"], "reset": ["reset,4", "reset,70000"], "try0": ["try,0"], "title": ["title,done,x7a", "title,nil"], "tmsg": ["tmsg,x7979"], "splines": ["splines,x7a"], "clone": ["clone"], "fmsg": ["fmsg"], "sleep": ["sleep,30"], "sw": ["sw"],
           "size": ["sleep,50"], "int,0": ["sleep,70"]}
    for _ in range(more * run.pick(20, 400)):
        sig = rng.choice(sigs)
        init = "newt,%d,none,x61;add,x62;add,x63;settle,2" % rng.choice([3, 40000, 100000, 4294967295])
        many = rng.random() < 0.4       # calls that nobody may look between
        some = [k for k in kinds if not many or k in ("inc", "add", "rem", "msg", "title", "tmsg", "splines", "clone", "size", "int,0", "sw")]
        ths = [";".join(rng.choice([x for x in few[rng.choice(some)] if many or not x.startswith("many")]) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(2, 3))]
        mid = "int;" if "int,0" in kinds and rng.random() < 0.7 else "size,80x20;" if "size" in kinds and rng.random() < 0.7 else ""
        scns.append(Scn("live", "60x10", [policy(sig) + init + ";go;" + mid + "join;settle,4;" + SUM + ";fin;settle,2;drop"] + ths, sig=sig))
    if "many" in str(kinds) or run.prop == "C12":
        for n, k in ((400001, 200000), (300000, 100000), (299999, 100000), (4294967295, 150000)):
            scns.append(Scn("live", "60x10", ["new,%d;go;join;%s;settle,3;fin;%s;drop" % (n, SUM, SUM)] + ["many,%d" % k] * 3))
    live_judge(run, scns, chk, run.prop)
