"""C07 to C11: the command line program and prompts."""
import itertools, json, os, re, shutil, tempfile, time
from vlib import *
import c_text

RAW = 2097152
STAMP = 57344
HINT = {False: " \x1b[2m[y/\x1b[4mN\x1b[24m]\x1b[0m ", True: " \x1b[2m[\x1b[4mY\x1b[24m/n]\x1b[0m "}
BAD = "\x1b[1;91mError:\x1b[0m Invalid input; enter \x1b[91mN\x1b[0m or \x1b[92mY\x1b[0m.\n"
GENERIC = ["aborted", "crunched", "debug", "done", "error", "found", "info", "notice", "review", "skipped", "success", "task", "warning"]
ALLCMDS = GENERIC + ["print", "blank", "confirm"]


def enc(b):
    """bytes -> code points, bytes that are not UTF-8 as RAW + byte."""
    return [(RAW + ord(c) - 0xdc00) if 0xdc80 <= ord(c) <= 0xdcff else ord(c) for c in b.decode("utf-8", "surrogateescape")]


def dec(c):
    return "".join(chr(0xdc00 + x - RAW) if x >= RAW else chr(x) for x in c).encode("utf-8", "surrogateescape")


def xb(b):
    return "x" + b.hex()


def runner():
    return os.path.join(cargo_build("hcli", target="t"), "hcli")


CAP = 1 << 20       # the runner reads no more than this from each stream


def spawn(jobs, limit=10000):
    """jobs: (program, stdin bytes | 'dir' | 'null', [args as bytes], what is wrong with its output); returns (status, out, err) each."""
    lines = []
    for prog, inp, args, *ill in jobs:
        lines.append(" ".join([xb(prog.encode()), (inp if isinstance(inp, str) else xb(inp)) + "".join("@" + x for x in ill)] + [xb(a) for a in args]))
    scratch = tempfile.mkdtemp(prefix="hcli-")
    t0 = time.time()
    try:
        out, rc, err = drive(runner(), lines, timeout=700, args=(str(limit), scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res = []
    for o in out:
        s, a, b = o.split(" ")
        res.append((s, unhx(a), unhx(b)))
    if any(r[0] == "skip" for r in res):
        prog, inp, args = next(j[:3] for j, r in zip(jobs, res) if r[0] == "hang")
        raise Broken("hang", "%s does not end, and neither do others" % " ".join([prog] + [a.decode(errors="replace") for a in args]),
                          {"program": prog, "input": str(inp)[:2000], "args": [a.decode(errors="replace") for a in args]})
    return res, t0, time.time()


def unstamp(want, got, t0, t1):
    """The expected text with its timestamp filled in from the real one, if that is a time within the run."""
    if chr(STAMP) not in want:
        return want
    for m in re.finditer(r"\d\d\d\d-\d\d-\d\d \d\d:\d\d:\d\d", got):
        try:
            t = moment(m.group())
        except ValueError:
            continue
        if t0 - 2 <= t <= t1 + 2:
            return want.replace(chr(STAMP), m.group())
    return want


def version():
    m = re.search(r'^version\s*=\s*"([^"]+)"', open(os.path.join(REPO, "fyi/Cargo.toml")).read(), re.M)
    return m.group(1)


def helps(cmd):
    """What the help screen of a command has to contain, and what it must not."""
    v = ["FYI", version(), "-h, --help"]
    if cmd == "":
        return v + ["fyi <SUBCOMMAND>", "-V, --version"] + ["\n    %s " % c for c in ALLCMDS], []
    need = v + ["USAGE:", "fyi %s [FLAGS]" % cmd]
    not_ = ["fyi %s [FLAGS]" % c for c in ALLCMDS if c != cmd] + ["fyi <SUBCOMMAND>"]
    if cmd == "blank":
        need += ["--stderr", "-c, --count"]
    elif cmd == "confirm":
        need += ["-y, --yes", "-i, --indent", "-t, --timestamp", "<MSG>"]
    else:
        need += ["--stderr", "-i, --indent", "-t, --timestamp", "-e, --exit", "<MSG>"]
        if cmd == "print":
            need += ["-p, --prefix", "-c, --prefix-color"]
        else:
            need += ["%s:\x1b[0m Hello World" % cmd.capitalize()]
    return need, not_


def judge(run, argv, o, res, t0, t1):
    st, out, err = res
    shown = "fyi " + " ".join(repr(dec(a).decode(errors="replace")) for a in argv)
    got = {"argv": [dec(a).decode(errors="backslashreplace") for a in argv], "status": st, "stdout": out.decode(errors="replace")[-1500:],
           "stderr": err.decode(errors="replace")[-1500:], "want": {k: (text(v) if isinstance(v, list) else v) for k, v in o.items()}}

    def bad(why):
        run.violation(o["do"] + " " + why.split(":")[0], "%s: %s; exit %s, stdout %r, stderr %r, wanted %s" % (
            shown, why, st, out.decode(errors="replace")[:200], err.decode(errors="replace")[:200], str(got["want"])[:200]), got)

    do = o["do"]
    if do in ("help", "version"):
        if st != "0":
            return bad("exit status")
        if err:
            return bad("standard error")
        txt = out.decode(errors="replace")
        if do == "version":
            if txt != "FYI v%s\n" % version():
                return bad("version text")
        else:
            need, nots = helps(o["cmd"])
            for n in need:
                if n not in txt:
                    return bad("help text: no %r" % n)
            for n in nots:
                if n in txt:
                    return bad("help text: has %r" % n)
        return
    if do in ("invalid", "missing"):
        if st != "1":
            return bad("exit status")
        if out:
            return bad("standard output")
        txt = err.decode(errors="replace")
        if not re.fullmatch("\x1b\\[1;91mError:\x1b\\[0m [^\n]+\n", txt):
            return bad("error line")
        if do == "invalid" and "fyi %s --help" % o["cmd"] not in txt:
            return bad("error hint")
        return
    if do == "blank":
        n = int(text(o["count"]))
        if n > CAP:
            # Read until the runner hung up, which the program may complain about.
            mine, other = (err.split(b"\nthread ")[0], out) if o["stderr"] else (out, b"")
            if other or len(mine) < CAP or mine.strip(b"\n"):
                bad("output: %d bytes" % len(mine))
            return
        want = "\n" * n
        code = "0"
    elif do == "message":
        want = text(o["text"])
        code = str(o["exit"])
    else:
        raise ToolError("outcome %s" % do)
    mine, other = (err, out) if o["stderr"] else (out, err)
    if other:
        return bad("the other stream")
    txt = mine.decode(errors="replace")
    if txt != unstamp(want, txt, t0, t1):
        return bad("output")
    if st != code:
        return bad("exit status")


def A(*xs):
    return [enc(x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x) for x in xs]


def generate(run, cmds, tokens, n, emitting):
    name, cfg, files = mc("Cli", {"Cmds": Set(A(*cmds)), "Tokens": Set(A(*tokens)), "MaxArgs": n, "Emitting": set(emitting)},
                          invariants=("Incremental", "OneOutcome", "OrderFree", "Idempotent", "Emit"))
    r = tlc(name, cfg, files=files)
    run.tlc_stats(r)
    return [(v["argv"], v["o"]) for _, v in r.vectors]


def predict(argvs, run):
    """The specification's outcome for recorded argument lists."""
    p = workfile("CliTrace", argvs)
    try:
        name, cfg, files = mc("CliTrace", {"File": p})
        r = tlc(name, cfg, files=files)
    finally:
        os.unlink(p)
    run.tlc_stats(r)
    return [(v["argv"], v["o"]) for _, v in r.vectors]


MSG_TOKENS = ["-i", "--indent", "--stderr", "-t", "--timestamp", "-y", "-c", "5", "300", "-c9", "--prefix-color=012", "-e", "-e3", "--exit=256", "--exit=0",
              "--exit", "-p", "-pAb", "--prefix=", "--prefix= x\u00e9", "Hi", "a b", "", "--", "-x", "--bogus=1", b"\xffz", "\u2013", "-h", "--help", "error", "-"]
MSG_FEW = ["-i", "--stderr", "-t", "-c", "7", "--exit=4", "-e", "-p", "--prefix=Q", "Hi", "", "--", "-h", b"a\xfe"]


def rand_argv(rng, cmds):
    toks = MSG_TOKENS + ["--exit=%d" % rng.randint(0, 300), "-c%d" % rng.randint(0, 300), "-e=%s" % rng.choice(["7 ", "+7", "-7", "7.0", "\u0667", "0x7", "", "00000000000000000007"]),
                         "--prefix=" + rng.choice(["=", "\u6f22", "A\x1b[0mB", "x" * 50]), "-t", "-i", "--stderr", "--prefix", "-p=", "--stderr=no"]
    body = rand_text(rng, n=6).replace("\x00", "")
    argv = [rng.choice(cmds)]
    for _ in range(rng.randint(1, 7)):
        argv.append(rng.choice(toks))
        if argv[-1] in ("Hi", "a b", "error", "-x", "-", "\u2013", "--bogus=1", b"\xffz") and rng.random() < 0.7:
            argv.pop()
    argv.insert(rng.randint(1, len(argv)), body or "z")
    return A(*argv)


def spelled(rng, short, long, v):
    return rng.choice([[short, v], [long, v], [short + "=" + v, ], [long + "=" + v]] + ([[short + v]] if v and v[0] != "=" else []))


def valued(rng, msgcmds):
    """Every value of the options that take one; and those given twice."""
    out = []
    for n in range(260):
        for cmd in ("print", rng.choice(msgcmds)):
            out.append(A(cmd, *spelled(rng, "-c", "--prefix-color", str(n)), *spelled(rng, "-p", "--prefix", "A"), "x", *spelled(rng, "-e", "--exit", str(n))))
    vals = {("-c", "--prefix-color"): ["0", "1", "7", "199", "255", "256", "300", "x", " 4", ""], ("-p", "--prefix"): ["", "A", "B:", " ", "-i"],
            ("-e", "--exit"): ["0", "1", "3", "255", "256", "512", "x", "09", ""]}
    for (short, long), vs in vals.items():
        for v in vs:
            for w in vs:
                other = ["-p", "Q"] if short == "-c" else []
                out.append(A("print", *other, *spelled(rng, short, long, v), "x", *spelled(rng, short, long, w)))
    return out


def cli(prop, emitting, cmds_small, extra=()):
    run = Run(prop, "model_checking")
    fyi = fyi_binary()
    msgcmds = [c for c in ALLCMDS if c not in ("blank", "confirm")]
    vecs = []
    if prop == "C08":
        vecs += generate(run, msgcmds, MSG_TOKENS, run.pick(2, 2), emitting)
        vecs += generate(run, ["print", "warning"], MSG_FEW if not run.thorough else MSG_TOKENS, 3, emitting)
        if run.thorough:
            vecs += generate(run, ["print", "done"], MSG_FEW, 4, emitting)
    else:
        vecs += generate(run, msgcmds + ["confirm"], MSG_TOKENS, 2, emitting)
        vecs += generate(run, ["print", "confirm"], MSG_FEW if not run.thorough else MSG_TOKENS, 3, emitting)
        vecs += generate(run, ["-h", "--help", "-V", "--version", "help", "bogus", "-x", "--", "Print", "printer", b"\xff", "\u00e9", "blank", "--version"],
                         ["-h", "--help", "-V", "Hi", "--", "print", "", "-c"], 2, emitting)
        vecs.append(([], {"do": "help", "cmd": ""}))
    argvs = [rand_argv(run.rng, msgcmds + (["confirm"] if prop == "C09" else [])) for _ in range(run.pick(1500, 15000))]
    if prop == "C08":
        argvs += valued(run.rng, msgcmds)
    vecs += [x for x in predict(argvs, run) if x[1]["do"] in emitting]
    res, t0, t1 = spawn([(fyi, "null", [dec(a) for a in argv]) for argv, o in vecs])
    for (argv, o), r in zip(vecs, res):
        judge(run, argv, o, r, t0, t1)
    run.add("traces_validated_against_impl", len(vecs))
    for k in (0, len(vecs) // 2, len(vecs) - 1):
        run.sample({"argv": [dec(a).decode(errors="replace") for a in vecs[k][0]], "outcome": vecs[k][1]["do"], "status": res[k][0]})
    run.assumptions = ["argument lists whose first argument is empty, and switches with a value glued on, are outside the model"]
    return run.finish()


def c08():
    return cli("C08", ["message"], None)


def c09():
    return cli("C09", ["help", "version", "invalid", "missing"], None)


HUGE = [1 << 20, (1 << 20) + 1, 5000000, 10**10, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 5, 10**20]


def c10():
    run = Run("C10", "model_checking")
    fyi = fyi_binary()
    toks = ["-c", "--count", "3", "-c4", "--count=2", "-c=6", "-c0", "abc", "--count=", "--stderr", "-h", "--bogus", "Hi", "", "--", b"\xff", "-i", "+3", "--count=03",
            "-c 5 ", "--count=99999999999999999999999", "-c-1", "4097"]
    vecs = generate(run, ["blank"], toks, run.pick(3, 3), ["blank"])
    if run.thorough:
        vecs += generate(run, ["blank"], ["-c", "--count=7", "3", "--stderr", "", "--", "-c2", "x"], 5, ["blank"])
    argvs = []
    for _ in range(run.pick(600, 6000)):
        n = run.rng.choice([run.rng.randint(0, 20), run.rng.randint(0, 70000), 65535, 65536, 131072, 255, 256, 257, run.rng.randint(100000, 1000000)] + HUGE)
        a = run.rng.choice([["-c", str(n)], ["--count", str(n)], ["-c%d" % n], ["--count=%d" % n], ["-c=%05d" % n], ["-c", " %d\t" % n]])
        b = [run.rng.choice(toks) for _ in range(run.rng.randint(0, 3))]
        k = run.rng.randint(0, len(b))
        argvs.append(A("blank", *(b[:k] + a + b[k:])))
    vecs += [x for x in predict(argvs, run) if x[1]["do"] == "blank"]
    res, t0, t1 = spawn([(fyi, "null", [dec(a) for a in argv]) for argv, o in vecs])
    for (argv, o), r in zip(vecs, res):
        judge(run, argv, o, r, t0, t1)
    run.add("traces_validated_against_impl", len(vecs))
    run.sample({"argv": [dec(a).decode(errors="replace") for a in vecs[-1][0]], "lines": text(vecs[-1][1]["count"])})
    run.assumptions = ["of more than %d lines, only the first %d are read" % (CAP, CAP)]
    return run.finish()


LINES = ["", "y", "n", "Y", "N", "yes", "No", "YES", "nO", "ye", "yy", " y ", "\tn\r", "y\u00a0", "\u2003no\u3000", "1", "\u00e9", "y y", b"\xff", b"y\xfe", "\x1b[A", "yes\u200b",
         "\u017fes", "  "]
LINES_FEW = ["", "y", "NO", "x", b"\xffy", " "]


def prompt_vectors(run, lines, n, rounds):
    name, cfg, files = mc("Prompt", {"Lines": Set(A(*lines)), "MaxLines": n, "Rounds": rounds}, invariants=("OneLineEach", "FreshEach", "Emit"),
                          properties=("Ends",))
    r = tlc(name, cfg, files=files)
    run.tlc_stats(r)
    seen = {}
    for _, v in r.vectors:
        seen[json.dumps([v["lines"], v["show"]])] = v
    return list(seen.values())


def transcript(v, ask, default, res=None):
    """The text the model's session shows, and the answers."""
    out, answers = [], []
    for s in v["show"]:
        if s == "ask":
            out.append(ask)
        elif s == "error":
            out.append(BAD)
        else:
            a = default if s == "default" else s == "yes"
            answers.append(a)
            if res:
                out.append(res % ("true" if a else "false"))
    return "".join(out), answers


def inputs(run, v):
    """Input bytes for a session: all lines ended, and the last one bare if nothing is read after it."""
    ls = [dec(x) for x in v["lines"]]
    asked = v["show"].count("ask")
    full = b"".join(x + b"\n" for x in ls)
    out = []
    if asked == len(ls):
        out.append(full)
        out.append(full + run.rng.choice([b"y\n", b"n\n", b"maybe\n", b"\xff", b"\n"]))     # more input than is read
    else:
        out.append(full)
    if ls and ls[-1]:
        out.append(full[:-1])
    if run.rng.random() < 0.15 and ls:
        out.append(full.replace(b"\n", b"\r\n"))
    return out


def c07():
    run = Run("C07", "model_checking")
    binary = c_text.hmsg(False)
    jobs, exps = [], []
    methods = [("prompt", False, False), ("prompt_d", True, False), ("prompt_d", False, False), ("eprompt", False, True), ("eprompt_d", True, True),
               ("eprompt_d", False, True), ("macro", False, False), ("macro_i", False, False),
               ("macro", True, False), ("macro_n", False, False), ("macro_i", True, False)]
    prefixes = [("k:Confirm", "\x1b[1;38;5;208mConfirm:\x1b[0m "), ("k:None", ""), ("c:str:u:7:" + hx("Q"), "\x1b[1;37mQ:\x1b[0m ")]

    def add(v, rounds, n):
        for m, d, err in run.rng.sample(methods, n) if n < len(methods) else methods:
            pk, pt = run.rng.choice(prefixes)
            body = run.rng.choice(["Ok?", "Are you sure?", "\u6f22 \x1b[1mx\x1b[0m", ""])
            ind = 0
            if m == "macro":
                pk, pt = prefixes[0]
            if m in ("macro_i", "macro_n"):
                pk, pt, ind = prefixes[0][0], prefixes[0][1], run.rng.randint(0, 3)
            if not m.startswith("macro"):
                ind = run.rng.choice([0, 0, 1])
            ask = "    " * ind + pt + body + HINT[d]
            for inp in inputs(run, v):
                jobs.append((binary, inp, [x.encode() for x in ("prompt", m, "1" if d else "0", pk, hx(body), str(ind), str(rounds))]))
                exps.append((transcript(v, ask, d, "\x01%s\x02")[0], err, v, m, d))

    for v in prompt_vectors(run, LINES, run.pick(2, 3), 1):
        add(v, 1, run.pick(3, 4))
    for v in prompt_vectors(run, LINES_FEW, run.pick(4, 5), 1):
        add(v, 1, run.pick(1, 3))
    for v in prompt_vectors(run, LINES_FEW, run.pick(3, 4), 3):
        add(v, 3, run.pick(1, 3))
    # Input that cannot be read at all.
    for m, d, err in methods:
        v = {"lines": [], "show": ["ask", "default"], "left": 0}
        ask = prefixes[0][1] + "Ok?" + HINT[d]
        jobs.append((binary, "dir", [x.encode() for x in ("prompt", m, "1" if d else "0", "k:Confirm", hx("Ok?"), "0", "1")]))
        exps.append((transcript(v, ask, d, "\x01%s\x02")[0], err, v, m, d))
    # Long random sessions.
    lists = []
    for _ in range(run.pick(150, 1500)):
        ls = [run.rng.choice(LINES + [rand_text(run.rng, 4, brk=0).replace("\n", "")] * 8) for _ in range(run.rng.randint(3, 14))]
        lists.append([x if isinstance(x, bytes) else x.encode() for x in ls])
    learn(run, lists)
    for ls in lists:
        add(session(ls, 4), 4, 1)
    res, t0, t1 = spawn(jobs)
    for (prog, inp, args), (want, err, v, m, d), (st, out, er) in zip(jobs, exps, res):
        mine, other = (er, out) if err else (out, er)
        if st != "0" or other or mine.decode(errors="replace") != want:
            key = "hang" if st == "hang" else "session"
            run.violation(key, "%s (default %s) with input %r: exit %s, output %r, other stream %r, expected %r" % (
                m, d, inp, st, mine.decode(errors="replace")[:300], other.decode(errors="replace")[:100], want),
                {"method": m, "default": d, "input": str(inp), "status": st, "got": mine.decode(errors="replace")[:2000], "want": want})
    run.add("traces_validated_against_impl", len(jobs))
    run.sample({"method": exps[9][3], "input": str(jobs[9][1]), "transcript": exps[9][0]})
    return run.finish()


_replies = {}


def learn(run, lists):
    """The model's replies to all these lines."""
    need = sorted({l for ls in lists for l in ls if l not in _replies})
    if need:
        p = workfile("Reply", [enc(l) for l in need])
        try:
            name, cfg, files = mc("PromptTrace", {"File": p, "Lines": Set([]), "MaxLines": 0, "Rounds": 1}, invariants=("EmitReply",), spec="TraceSpec")
            r = tlc(name, cfg, files=files)
        finally:
            os.unlink(p)
        run.tlc_stats(r)
        for _, v in r.vectors:
            _replies[dec(v["l"])] = v["r"]


def session(ls, rounds):
    """A session over given lines, from the model's own replies to each line."""
    show, used, done = [], [], 0
    for l in ls:
        if done == rounds:
            break
        used.append(enc(l))
        r = _replies[l]
        show += ["ask", "error" if r == "again" else r]
        done += r != "again"
    while done < rounds:
        show += ["ask", "default"]
        done += 1
    return {"lines": used, "show": show}


def c11():
    run = Run("C11", "model_checking")
    fyi = fyi_binary()
    toks = ["-y", "--yes", "-i", "--indent", "-t", "Ok?", "--stderr", "--", "", "-e3", "--exit=2"]
    vecs = [x for x in generate(run, ["confirm"], toks, 3, ["confirm"])]
    sess = prompt_vectors(run, LINES, 2, 1) + prompt_vectors(run, LINES_FEW, 4, 1)
    jobs, exps = [], []
    for argv, o in vecs:
        for v in run.rng.sample(sess, run.pick(4, 30)):
            for inp in inputs(run, v):
                jobs.append((fyi, inp, [dec(a) for a in argv]))
                exps.append((argv, o, v))
    simple = [(a, o) for a, o in vecs if len(a) <= 3]
    for v in sess:
        for argv, o in run.rng.sample(simple, run.pick(2, 6)):
            for inp in inputs(run, v):
                jobs.append((fyi, inp, [dec(a) for a in argv]))
                exps.append((argv, o, v))
    for argv, o in simple:
        jobs.append((fyi, "dir", [dec(a) for a in argv]))
        exps.append((argv, o, {"lines": [], "show": ["ask", "default"]}))
        jobs.append((fyi, "null", [dec(a) for a in argv]))
        exps.append((argv, o, {"lines": [], "show": ["ask", "default"]}))
    lists = []
    for _ in range(run.pick(200, 2000)):
        ls = [run.rng.choice(["no way", "x", b"\xff", "yess", "\u00e9" * 40, "z" * 5000]) for _ in range(run.rng.randint(5, 60))] + [run.rng.choice(["y", "n", "", "NO ", "YES"])]
        lists.append([x if isinstance(x, bytes) else x.encode() for x in ls])
    learn(run, lists)
    for ls in lists:
        v = session(ls, 1)
        argv, o = run.rng.choice(vecs)
        jobs.append((fyi, b"".join(dec(x) + b"\n" for x in v["lines"]), [dec(a) for a in argv]))
        exps.append((argv, o, v))
    res, t0, t1 = spawn(jobs)
    for (prog, inp, args), (argv, o, v), (st, out, er) in zip(jobs, exps, res):
        ask = text(o["ask"])[:-1] + HINT[o["yes"]]
        want, answers = transcript(v, ask, o["yes"])
        code = "0" if answers[0] else "1"
        got = out.decode(errors="replace")
        if st != code or er or not same_with_stamps(want, got, t0, t1):
            run.violation("hang" if st == "hang" else "confirm", "fyi %s with input %r: exit %s (wanted %s), output %r, standard error %r, expected %r" % (
                " ".join(repr(a.decode(errors="replace")) for a in args), inp[:200], st, code, got[:300], er.decode(errors="replace")[:100], want[:300]),
                {"argv": [a.decode(errors="replace") for a in args], "input": str(inp), "status": st, "got": got[:2000], "want": want, "code": code})
    run.add("traces_validated_against_impl", len(jobs))
    run.sample({"argv": [a.decode() for a in jobs[5][2]], "input": str(jobs[5][1]), "status": res[5][0]})
    return run.finish()


def unheard(run):
    """The program when nobody can read what it says."""
    fyi = fyi_binary()
    msgcmds = [c for c in ALLCMDS if c not in ("blank", "confirm")]
    vecs = generate(run, msgcmds, ["-i", "--stderr", "-t", "-e3", "Hi", "a b"], 2, ["message"])
    vecs += [x for x in predict([rand_argv(run.rng, msgcmds + ["blank"]) for _ in range(run.pick(200, 4000))]
                                + [A("blank", *a) for a in ([], ["--stderr"], ["-c", "9"], ["-c70000"], ["--stderr", "-c=70000"], ["-c%d" % (1 << 64)], ["--stderr", "-c%d" % (1 << 63)])], run)
             if x[1]["do"] in ("message", "blank") and not (x[1]["do"] == "blank" and len(text(x[1]["count"])) > 6)]
    vecs += [x for x in predict([A("blank", "-c%d" % n, *s) for n in (10**9, 1 << 40, (1 << 64) - 1) for s in ([], ["--stderr"])], run)]
    ills = [["1full"], ["2full"], ["1pipe"], ["2pipe"], ["1full", "2full"], ["1pipe", "2pipe"]]
    jobs, exps = [], []
    for argv, o in vecs:
        mine = "2" if o["stderr"] else "1"
        for ill in run.rng.sample([i for i in ills if o["do"] == "message" or mine in i[0][0] or len(i) == 2], 2):
            jobs.append((fyi, "null", [dec(a) for a in argv], *ill))
            exps.append((argv, o, ill))
    res, t0, t1 = spawn(jobs)
    for (argv, o, ill), (st, out, err) in zip(exps, res):
        code = "0" if o["do"] == "blank" else str(o["exit"])
        want = "" if o["do"] == "blank" else text(o["text"])
        where = "2" if o["stderr"] else "1"
        heard = [out.decode(errors="replace"), err.decode(errors="replace")]
        ok = st == code
        for k in ("1", "2"):
            if not any(i[0] == k for i in ill):
                h = heard[int(k) - 1]
                ok = ok and h == (unstamp(want, h, t0, t1) if k == where else "")
        if not ok:
            run.violation("hang" if st == "hang" else "unheard %s" % o["do"], "fyi %s with its output failing (%s): exit %s (wanted %s), stdout %r, stderr %r" % (
                " ".join(repr(dec(a).decode(errors="replace")) for a in argv), ",".join(ill), st, code, heard[0][:200], heard[1][:200]),
                {"argv": [dec(a).decode(errors="backslashreplace") for a in argv], "faults": ill, "status": st, "stdout": heard[0][-1000:], "stderr": heard[1][-1000:]})
    run.add("traces_validated_against_impl", len(jobs))
    # Questions nobody sees are answered all the same.
    vecs = [x for x in generate(run, ["confirm"], ["-y", "-i", "Ok?"], 2, ["confirm"])]
    sess = prompt_vectors(run, LINES_FEW, 3, 1)
    jobs, exps = [], []
    for v in sess:
        for inp in inputs(run, v):
            argv, o = run.rng.choice(vecs)
            ill = run.rng.choice(ills)
            jobs.append((fyi, inp, [dec(a) for a in argv], *ill))
            exps.append((v, o["yes"], None, None))
    binary = c_text.hmsg(False)
    for v in prompt_vectors(run, LINES_FEW, 3, 3):
        for inp in inputs(run, v):
            m, d, err = run.rng.choice([("prompt_d", True, False), ("prompt_d", False, False), ("eprompt_d", True, True), ("eprompt_d", False, True), ("macro", False, False), ("eprompt", False, True)])
            # The answers come on the other stream, so that must work.
            ill = run.rng.choice(["2full", "2pipe"] if err else ["1full", "1pipe"])
            jobs.append((binary, inp, [x.encode() for x in ("quest", m, "1" if d else "0", "k:Confirm", hx("Ok?"), "0", "3")], ill))
            exps.append((v, d, m, err))
    res, t0, t1 = spawn(jobs)
    for job, (v, d, m, err), (st, out, er) in zip(jobs, exps, res):
        _, answers = transcript(v, "", d)
        if m:
            want = "".join("\x01%s\x02" % ("true" if a else "false") for a in answers)
            got = (out if err else er).decode(errors="replace")
            ok = st == "0" and got == want
        else:
            want, got = ("0" if answers[0] else "1"), st
            ok = got == want
        if not ok:
            run.violation("hang" if st == "hang" else "unheard prompt", "%s with input %r and its output failing (%s): exit %s, %r (wanted %r)" % (
                m or "fyi confirm", job[1][:200], ",".join(job[3:]), st, got[:200], want[:200]), {"job": [str(x) for x in job], "status": st, "got": got, "want": want})
    run.add("traces_validated_against_impl", len(jobs))


def same_with_stamps(want, got, t0, t1):
    parts = want.split(chr(STAMP))
    if len(parts) == 1:
        return want == got
    rx = r"(\d\d\d\d-\d\d-\d\d \d\d:\d\d:\d\d)".join(re.escape(p) for p in parts)
    m = re.fullmatch(rx, got)
    return bool(m) and all(t0 - 2 <= moment(g) <= t1 + 2 for g in m.groups())


CHECKS = {"C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11}
