"""C01 to C06: messages and texts."""
import fcntl, json, os, random, re, select, subprocess, time
from vlib import *

STAMP = 57344
KINDS = ["None", "Aborted", "Confirm", "Crunched", "Debug", "Done", "Error", "Found", "Info", "Notice", "Review", "Skipped",
         "Success", "Task", "Warning"]
ALPHABET = [27, 91, 93, 92, 7, 339, 109, 49, 233, 28450, 769, 10, 13, 32]
WIDTHS = {27: 0, 7: 0, 10: 0, 13: 0, 769: 0, 28450: 2}


def hmsg(ts=False):
    d = cargo_build("hmsg", features=("timestamps",) if ts else (), target="t-ts" if ts else "t")
    return os.path.join(d, "hmsg")


def char_widths(binary, texts):
    """Display widths of characters, from the unicode-width crate (trusted)."""
    chars = sorted({c for t in texts for c in t})
    if not chars:
        return {}
    out, rc, err = drive(binary, ["cw " + hx(chars)])
    if rc != 0:
        raise ToolError("driver: %s" % err)
    return dict(zip(chars, map(int, out[0].split(","))))


def check_drive(out, lines, rc, err):
    if len(out) != len(lines):
        raise ToolError("driver answered %d of %d commands (exit %s): %s" % (len(out), len(lines), rc, err[-500:]))


# ------------------------------------------------------------------ C02, C05, C06
def text_vectors(run, mode, n, maxw, alphabet):
    name, cfg, files = mc("TextGen", {"MaxLen": n, "MaxW": maxw, "Mode": mode, "Alphabet": set(alphabet)}, invariants=("Sound", "Emit"))
    r = tlc(name, cfg, files=files)
    run.tlc_stats(r)
    return [v for _, v in r.vectors]


def rand_texts(run, n):
    # Every character of the first blocks, alone and among plain ones; plain texts of many lengths.
    out = ["".join(q) for c in map(chr, [*range(0x250), 0x300, 0x36f, 0x1100, 0x200b, 0x200d, 0x2028, 0x2060, 0x3000, 0xfe0f, 0xfeff, 0xff01, 0x1f468, 0xe0001, 0x10ffff]) for q in ((c,), ("a", c), (c, " b"))]
    out = run.rng.sample(out, run.pick(900, len(out)))
    # Every character at every place a sequence's grammar distinguishes.
    edge = [t % c for c in map(chr, [*range(0x100), *run.rng.sample(range(0x100, 0x600), 40), 0x2028, 0x3042, 0xd7ff, 0xe000, 0xfffd, 0x1f468, 0x10ffff])
            for t in ("\x1b%sz", "\x1b[%sx", "a\x1b[1;%sy", "\x1b]0;%sb", "\x1b]0;\x1b%sd", "\x1b]8;;u%s", "k\x1b[3%s", "\x1b[1m\x1b[%s0m")]
    out += edge
    out += [c + "\x7f" * n for c in ("", "ab ") for n in (1, 2, 9)]
    for n_ in [*range(1, 40), 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300]:
        out.append("".join(chr(run.rng.choice([97, 98, 122, 48, 32, 126, 33])) for _ in range(n_)))
        q = list("".join(chr(run.rng.randrange(32, 127)) for _ in range(n_)))
        q[run.rng.randrange(n_)] = run.rng.choice(["\x7f", "\x7f", "\t", "\n", "\x00", "\u00ad", "\u00a0", "\u0301", "\u3042", "\x1b[1m", "\x1b"])
        out.append("".join(q))
    for i in range(n):
        k = run.rng.random()
        out.append(rand_text(run.rng, n=run.rng.choice([2, 4, 8, 16]), esc=run.rng.choice([0.1, 0.3, 0.6, 0.85]),
                             brk=run.rng.choice([0.0, 0.05, 0.2])))
    return [t for t in dict.fromkeys(out)]


def assert_widths(binary):
    got = char_widths(binary, [ALPHABET])
    for c in ALPHABET:
        if got[c] != WIDTHS.get(c, 1):
            raise ToolError("width of U+%04X is %d here" % (c, got[c]))


def c02():
    run = Run("C02", "model_checking")
    binary = hmsg()
    # (a) All short texts, expected results from the specification.
    alpha = [c for c in ALPHABET if c not in (13, 32, 769)]
    vecs = text_vectors(run, "strip", run.pick(4, 5), 0, alpha)
    # Longer ones around nested sequences only.
    vecs += text_vectors(run, "strip", run.pick(6, 7), 0, [27, 91, 109, 49] if not run.thorough else [27, 91, 93, 109, 92])
    lines = ["stripall " + hx(v["s"]) for v in vecs]
    out, rc, err = drive(binary, lines)
    check_drive(out, lines, rc, err)
    for v, o in zip(vecs, out):
        want, changed = v["r"], v["r"] != v["s"]
        judge_strip(run, v["s"], want, changed, o)
    run.add("traces_validated_against_impl", len(vecs) * 4)
    # (b) Rich random texts, the real results checked by the specification.
    texts = rand_texts(run, run.pick(4000, 40000))
    lines = ["stripall " + hx(t) for t in texts]
    out, rc, err = drive(binary, lines)
    check_drive(out, lines, rc, err)
    obs = []
    for t, o in zip(texts, out):
        if o.startswith("PANIC"):
            run.violation("panic", "stripping %r panicked: %s" % (t, o), {"text": t, "out": o})
            obs.append({"s": cps(t), "r": cps(t), "flag": -1})
            continue
        f = o.split(" ")
        obs.append({"s": cps(t), "r": cps(unhx(f[1])), "flag": 1 if f[0] == "true" else 0})
    bad = validate("StripTrace", obs, run=run)
    for _, b in bad:
        o = obs[b["i"] - 1]
        if o["flag"] >= 0:
            run.violation("strip", "stripping %r left %r (changed: %s), expected %r" % (text(o["s"]), text(o["r"]), o["flag"], text(b["want"])),
                          {"text": text(o["s"]), "got": text(o["r"]), "want": text(b["want"])})
    # The same texts as prefix, suffix and message of composed messages, from the model's own result.
    for t, o, ob in zip(texts, out, obs):
        if ob["flag"] >= 0:
            judge_strip(run, ob["s"], ob["r"], ob["flag"] == 1, o)
    run.add("traces_validated_against_impl", len(texts) * 4)
    # (c) Stripping inside edit histories.
    for ts in (False, True):
        histories(run, hmsg(ts), ts, run.pick(150, 1500), strip_weight=4)
    for v in vecs[1000:1003]:
        run.sample({"text": text(v["s"]), "stripped": text(v["r"])})
    run.cov["exhaustive"] = False
    run.assumptions = ["texts over %d characters up to the stated length exhaustively; beyond that, random" % len(alpha)]
    return run.finish()


def judge_strip(run, s, want, changed, o):
    t, w = text(s), text(want)
    if o.startswith("PANIC"):
        run.violation("panic", "stripping %r panicked: %s" % (t, o), {"text": t, "out": o})
        return
    f = o.split(" ")
    sep = ": " if t else ""
    # A prefix is stored with its separator, so sequences may reach into it.
    for part in range(4):
        flag, one, flag2, again = f[part * 4:part * 4 + 4]
        if part == 1:
            continue    # judged through the histories, where the whole prefix is known
        exp = {0: w, 2: "<>" + w if part == 2 else "", 3: w + ")\n"}[part]
        got = unhx(one).decode()
        if got != exp or (flag == "true") != changed or flag2 != "false" or unhx(again).decode() != "    " + exp:
            run.violation("strip", "stripping %r as part %d gave %r (changed: %s; again: %s, %r), expected %r (changed: %s)" % (
                t, part, got, flag, flag2, unhx(again).decode(), exp, changed), {"text": t, "part": part, "out": o, "want": exp})


def c06():
    run = Run("C06", "model_checking")
    binary = hmsg()
    assert_widths(binary)
    maxw = run.pick(5, 7)
    vecs = text_vectors(run, "width", run.pick(4, 5), maxw, ALPHABET)
    vecs += text_vectors(run, "width", 6, maxw, [27, 91, 109, 28450] if not run.thorough else [27, 93, 92, 28450, 339, 49])
    lines = ["all %s %d" % (hx(v["s"]), maxw) for v in vecs]
    out, rc, err = drive(binary, lines)
    check_drive(out, lines, rc, err)
    for v, o in zip(vecs, out):
        t = text(v["s"])
        if o.startswith("PANIC"):
            run.violation("panic", "measuring %r panicked: %s" % (t, o), {"text": t, "out": o})
            continue
        f = o.split(" ")
        if int(f[0]) != v["n"]:
            run.violation("width", "width of %r is %s, expected %d" % (t, f[0], v["n"]), {"text": t, "got": f[0], "want": v["n"]})
        for w in range(maxw + 1):
            if int(f[1 + 2 * w]) != v["c"][w]:
                run.violation("cut", "cut of %r at width %d is %s, expected %d" % (t, w, f[1 + 2 * w], v["c"][w]),
                              {"text": t, "width": w, "got": f[1 + 2 * w], "want": v["c"][w]})
    run.add("traces_validated_against_impl", len(vecs) * (maxw + 2))
    rich_fit(run, binary, "width")
    for v in vecs[2000:2003]:
        run.sample({"text": text(v["s"]), "width": v["n"], "cuts": v["c"]})
    run.assumptions = ["per-character display widths come from the unicode-width crate, which is trusted"]
    return run.finish()


def c05():
    run = Run("C05", "model_checking")
    binary = hmsg()
    assert_widths(binary)
    maxw = run.pick(4, 6)
    vecs = text_vectors(run, "fit", run.pick(4, 5), maxw, ALPHABET)
    vecs += text_vectors(run, "fit", 6, maxw, [27, 91, 109, 10] if not run.thorough else [27, 91, 109, 10, 13, 28450])
    lines = ["all %s %d" % (hx(v["s"]), maxw) for v in vecs]
    out, rc, err = drive(binary, lines)
    check_drive(out, lines, rc, err)
    for v, o in zip(vecs, out):
        t = text(v["s"])
        if o.startswith("PANIC"):
            run.violation("panic", "fitting %r panicked: %s" % (t, o), {"text": t, "out": o})
            continue
        f = o.split(" ")
        for w in range(maxw + 1):
            got = unhx(f[2 + 2 * w]).decode()
            want = text(v["f"][w])
            if got != want:
                run.violation("fit", "fitting %r to %d gave %r, expected %r" % (t, w, got, want),
                              {"text": t, "width": w, "got": got, "want": want})
    run.add("traces_validated_against_impl", len(vecs) * (maxw + 1))
    rich_fit(run, binary, "fit")
    for v in vecs[2000:2003]:
        run.sample({"text": text(v["s"]), "fitted": [text(x) for x in v["f"]]})
    run.assumptions = ["per-character display widths come from the unicode-width crate, which is trusted"]
    return run.finish()


def rich_fit(run, binary, mode):
    """Random rich texts and widths: the real results checked by the specification."""
    texts = rand_texts(run, run.pick(2500, 25000))
    cw = char_widths(binary, [cps(t) for t in texts])
    lines, jobs = [], []
    for t in texts:
        tot = sum(cw[ord(c)] for c in t)
        for w in {run.rng.randint(0, tot + 2), run.rng.randint(0, 12), len(t.encode()) - 1 if t else 0}:
            jobs.append((t, w))
            lines.append(("fit %s %d" if mode == "fit" else "lenw %s %d") % (hx(t), w))
            if mode == "fit" and run.rng.random() < 0.1:
                jobs.append((t, w))
                lines.append("mfit %s %d" % (hx(t), w))
        if mode == "width":
            jobs.append((t, -1))
            lines.append("width " + hx(t))
    out, rc, err = drive(binary, lines)
    check_drive(out, lines, rc, err)
    obs, src = [], []
    for (t, w), o in zip(jobs, out):
        if o.startswith("PANIC"):
            run.violation("panic", "%s of %r to %d panicked: %s" % (mode, t, w, o), {"text": t, "width": w, "out": o})
            continue
        s = cps(t)
        ob = {"s": s, "cw": [cw[c] for c in s], "w": w}
        if mode == "fit":
            try:
                ob["r"] = cps(unhx(o))
            except UnicodeDecodeError:
                run.violation("utf8", "fitting %r to %d gave invalid text %s" % (t, w, o), {"text": t, "width": w, "out": o})
                continue
        else:
            ob["n"] = int(o)
        obs.append(ob)
        src.append((t, w, o))
    bad = validate("FitTrace", obs, consts={"Mode": mode}, run=run)
    for _, b in bad:
        t, w, o = src[b["i"] - 1]
        run.violation(mode, "%s of %r at width %d is %s, expected %s" % (
            mode, t, w, repr(unhx(o).decode()) if mode == "fit" else o, repr(text(b["want"])) if mode == "fit" else b["want"]),
            {"text": t, "width": w, "got": o, "want": b["want"]})
    run.add("traces_validated_against_impl", len(obs))


# ------------------------------------------------------------------ C01, C03
def kp(k):
    return {"kind": k, "text": [], "color": -1}


def cp(t, c=-1):
    return {"kind": "", "text": cps(t), "color": c}


STRTYPES = ["str", "refstring", "string", "refcow", "cow"]


def prefix_arg(rng, p):
    if p["kind"]:
        return "k:" + p["kind"]
    ct = "n" if p["color"] < 0 else rng.choice(["e", "f", "u"])
    return "c:%s:%s:%d:%s" % (rng.choice(STRTYPES), ct, max(0, p["color"]), hx(p["text"]))


def op_line(rng, slot, o):
    """The driver command of a specification operation."""
    k = o["op"]
    bang = rng.choice(["", "!"])
    if k == "default":
        return "default %s" % slot
    if k == "from":
        return "from %s %s %s" % (slot, rng.choice(["str", "string", "refstring", "cow", "owned"]), hx(o["text"]))
    if k == "new":
        return "new %s %s %s" % (slot, prefix_arg(rng, o["prefix"]), hx(o["text"]))
    if k in ("into", "short"):
        return "%s %s %s %s" % (k, slot, o["prefix"]["kind"], hx(o["text"]))
    if k == "indent":
        return "indent%s %s %d" % (bang, slot, o["n"])
    if k == "prefix":
        return "prefix%s %s %s" % (bang, slot, prefix_arg(rng, o["prefix"]))
    if k in ("msg", "suffix"):
        return "%s%s %s %s" % (k, bang, slot, hx(o["text"]))
    if k in ("newline", "stamp"):
        return "%s%s %s %d" % (k, bang, slot, 1 if o["on"] else 0)
    if k == "strip":
        return "strip%s %s" % (bang, slot)
    raise KeyError(k)


STAMP_RE = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")


def fold_stamp(b, t0, t1):
    """Replace a current date and time by the placeholder."""
    ok = {clock(t).encode() for t in range(int(t0) - 1, int(t1) + 2)}
    return STAMP_RE.sub(lambda m: chr(STAMP).encode() if m.group(0) in ok else m.group(0), b)


def graph(run, ts, small=False):
    texts = [[], cps("Hi"), cps("\u00e9\u6f22\x1b[1mX"), cps("\x1b[38")]
    sufs = [[], cps("\x1b[0m?"), cps("\x1b")]
    prefs = [kp("None"), kp("Error"), cp("P"), cp("P\u00e9", 3), cp("", 199)]
    inds = [0, 1, 9]
    if run.thorough and not small:
        texts += [cps("Hi\n"), cps("\x1b\x1b[0m[1mL")]
        sufs += [cps("!")]
        inds = [0, 1, 2, 8, 255]
    name, cfg, files = mc("MsgGraph", {"Texts": Set(texts), "Suffixes": Set(sufs), "Prefixes": Set(prefs), "Indents": set(inds),
                                       "Stamps": Raw("BOOLEAN" if ts else "{}")},
                          properties=("ActProp",), action_constraints=("EmitStep",), constraints=("EmitInit",), view="View")
    r = tlc(name, cfg, files=files, tags=("I", "T"))
    run.tlc_stats(r)
    return [v for t, v in r.vectors if t == "I"], [v for t, v in r.vectors if t == "T"]


def replay_graph(run, binary, inits, trans, walks, steps):
    """Replay every transition of the message graph, and long random walks through it."""
    key = lambda m: json.dumps(m, sort_keys=True)
    by = {}
    for t in trans:
        by.setdefault(key(t["from"]), []).append(t)
    lines, exps = [], []
    slot_of, n = {}, 0
    order = []
    ways = {}
    for i in inits:
        lines.append(op_line(run.rng, "s%d" % n, i["op"]))
        exps.append((i["out"], None, i["op"], "construction"))
        k = key(i["to"])
        if k not in slot_of:
            slot_of[k] = "s%d" % n
            order.append(k)
        n += 1
    q = 0
    while q < len(order):
        k = order[q]
        q += 1
        for t in by.get(k, ()):
            slot = "s%d" % n
            n += 1
            lines.append("clone %s %s" % (slot, slot_of[k]))
            exps.append((None, None, None, None))
            lines.append(op_line(run.rng, slot, t["op"]))
            exps.append((t["out"], t["ch"] if t["op"]["op"] == "strip" else None, t["op"], t["from"]))
            k2 = key(t["to"])
            if k2 not in slot_of:
                slot_of[k2] = slot
                order.append(k2)
    missed = set(by) - set(slot_of)
    if missed:
        raise ToolError("%d graph states not reached in the replay" % len(missed))
    # Long walks on one object.
    for w in range(walks):
        i = run.rng.choice(inits)
        lines.append(op_line(run.rng, "w", i["op"]))
        exps.append((i["out"], None, i["op"], "construction"))
        k = key(i["to"])
        for _ in range(steps):
            t = run.rng.choice(by[k])
            lines.append(op_line(run.rng, "w", t["op"]))
            exps.append((t["out"], t["ch"] if t["op"]["op"] == "strip" else None, t["op"], t["from"]))
            k = key(t["to"])
    t0 = time.time()
    out, rc, err = drive(binary, lines)
    t1 = time.time()
    check_drive(out, lines, rc, err)
    done = 0
    for line, o, (want, ch, op, frm) in zip(lines, out, exps):
        if want is None:
            continue
        done += 1
        if o.startswith("PANIC"):
            run.violation("panic", "%s on %s panicked: %s" % (op, frm, o), {"line": line, "op": op, "from": frm, "out": o})
            continue
        f = o.split(" ")
        got = fold_stamp(unhx(f[0]), t0, t1).decode(errors="replace")
        if got != text(want):
            run.violation("render", "%s on %s gave %r, expected %r" % (json.dumps(op), json.dumps(frm)[:300], got, text(want)),
                          {"line": line, "op": op, "from": frm, "got": got, "want": text(want)})
        elif ch is not None and len(f) > 1 and (f[1] == "true") != ch:
            run.violation("flag", "stripping %s reported %s" % (json.dumps(frm)[:300], f[1]), {"line": line, "from": frm, "out": o})
    run.add("traces_validated_against_impl", done)
    return done


def rand_op(rng, ts, strip_weight=1):
    k = rng.choice(["indent", "prefix", "prefix", "msg", "msg", "suffix", "suffix", "newline"] + (["stamp", "stamp"] if ts else []) + ["strip"] * strip_weight)
    tx = lambda: cps(rand_text(rng, n=rng.choice([1, 3, 8, 20]), esc=rng.choice([0, 0.3, 0.6])))
    if k == "indent":
        return {"op": k, "n": rng.choice([0, 1, 2, 3, 7, 8, 9, 64, 255])}
    if k == "prefix":
        return {"op": k, "prefix": rand_prefix(rng)}
    if k in ("msg", "suffix"):
        return {"op": k, "text": tx()}
    if k in ("newline", "stamp"):
        return {"op": k, "on": rng.random() < 0.5}
    return {"op": "strip"}


def rand_prefix(rng):
    x = rng.random()
    if x < 0.4:
        return kp(rng.choice(KINDS))
    return {"kind": "", "text": cps(rand_text(rng, n=3, esc=0.2)), "color": rng.choice([-1, rng.randint(0, 255)])}


def rand_maker(rng):
    k = rng.choice(["default", "from", "new", "new", "into", "short"])
    tx = cps(rand_text(rng, n=8))
    if k == "default":
        return {"op": k}
    if k == "from":
        return {"op": k, "text": tx}
    if k == "new":
        return {"op": k, "prefix": rand_prefix(rng), "text": tx}
    return {"op": k, "prefix": kp(rng.choice([x for x in KINDS if k == "into" or x not in ("None", "Confirm")])), "text": tx}


def histories(run, binary, ts, n, strip_weight=1):
    """Random rich edit histories recorded from real messages and checked by the specification."""
    traces, lines, where = [], [], []
    for i in range(n):
        ops = [rand_maker(run.rng)] + [rand_op(run.rng, ts, strip_weight) for _ in range(run.rng.choice([3, 10, 30]))]
        traces.append(ops)
        for j, o in enumerate(ops):
            lines.append(op_line(run.rng, "h", o))
            where.append((i, j))
    t0 = time.time()
    out, rc, err = drive(binary, lines)
    t1 = time.time()
    check_drive(out, lines, rc, err)
    dead = set()
    for line, o, (i, j) in zip(lines, out, where):
        if i in dead:
            continue
        if o.startswith("PANIC"):
            run.violation("panic", "history %s panicked: %s" % (lines_of(traces[i][:j + 1]), o), {"ops": traces[i][:j + 1], "out": o})
            dead.add(i)
            del traces[i][j:]
            continue
        f = o.split(" ")
        e = traces[i][j]
        e["out"] = cps(fold_stamp(unhx(f[0]), t0, t1).decode(errors="replace"))
        e["flag"] = 2 if len(f) < 2 else (1 if f[1] == "true" else 0)
    bad = validate("MsgTrace", traces, run=run)
    for _, b in bad:
        tr = traces[b["t"] - 1]
        e = tr[b["l"] - 1]
        run.violation("history", "after %s the message is %r (flag %s), expected %r" % (
            lines_of(tr[:b["l"]]), text(e["out"]), e["flag"], text(b["want"])), {"trace": tr[:b["l"]], "want": text(b["want"])})
    run.add("traces_validated_against_impl", len(traces))
    run.sample({"history": lines_of(traces[0])[:400], "text": text(traces[0][-1]["out"]) if traces[0] and "out" in traces[0][-1] else ""})


def lines_of(ops):
    return " ; ".join("%s %s" % (o["op"], " ".join(repr(text(v)) if k == "text" else repr(v if not isinstance(v, dict) else (v["kind"] or (text(v["text"]), v["color"])))
                                                for k, v in o.items() if k not in ("op", "out", "flag"))) for o in ops)


def c01():
    run = Run("C01", "model_checking")
    for ts in (False, True):
        binary = hmsg(ts)
        inits, trans = graph(run, ts)
        n = replay_graph(run, binary, inits, trans, run.pick(100, 1000), 60)
        histories(run, binary, ts, run.pick(400, 6000))
    run.sample({"transition": trans[len(trans) // 2]})
    run.assumptions = ["the transition graph covers all edits over a few values per part; other values are random"]
    return run.finish()


def c03():
    run = Run("C03", "model_checking")
    binary = hmsg(False)
    inits, trans = graph(run, False, small=True)
    states = {}
    for v in inits + trans:
        states.setdefault(json.dumps(v["to"], sort_keys=True), v)
    # Every abstract state once, as a real message built part by part in random order, and random ones.
    ms = [v["to"] for v in states.values()]
    run.rng.shuffle(ms)
    ms = ms[:run.pick(500, 3000)]
    lines, what = [], []
    raw = []
    for i, m in enumerate(ms):
        lines.append("from m%d str x" % i)
        ed = [("indent", "%d" % m["ind"]), ("msg", hx(m["msg"])), ("suffix", hx(m["suf"])), ("newline", "%d" % m["nl"])]
        run.rng.shuffle(ed)
        for k, a in ed:
            lines.append("%s m%d %s" % (k, i, a))
        # The prefix of a state may be a stripped one; put it in the message part half of the time so that
        # equal texts come from different parts.
        what += [None] * 5
        if m["pre"]:
            lines.append("msg m%d %s" % (i, hx(m["pre"] + m["msg"])))
            what.append(None)
        lines.append("views m%d" % i)
        what.append(("views", i))
    # Same text from other parts.
    n = len(ms)
    for i in range(n):
        j = n + i
        m = ms[i]
        full = [32] * (4 * m["ind"]) + m["ts"] + m["pre"] + m["msg"] + m["suf"] + ([10] if m["nl"] else [])
        raw.append(full)
        cut = run.rng.randint(0, len(full))
        lines.append("from m%d string %s" % (j, hx(full[:cut])))
        what.append(None)
        lines.append("suffix! m%d %s" % (j, hx(full[cut:])))
        what.append(None)
        lines.append("views m%d" % j)
        what.append(("views", j))
    for i in range(n):
        for j in {n + i, run.rng.randrange(2 * n), run.rng.randrange(2 * n)}:
            if j != i:
                lines.append("cmp m%d m%d" % (i, j))
                what.append(("cmp", i, j))
        for t in (raw[i], raw[run.rng.randrange(n)], raw[i] + [97], raw[i][:-1]):
            lines.append("eqs m%d %s" % (i, hx(t)))
            what.append(("eqs", i, t))
    out, rc, err = drive(binary, lines)
    check_drive(out, lines, rc, err)
    obs = []
    for line, o, w in zip(lines, out, what):
        if w is None:
            continue
        if o.startswith("PANIC"):
            run.violation("panic", "%s panicked: %s" % (line, o), {"line": line, "out": o})
            continue
        f = o.split(" ")
        base = raw[w[1] % n]
        if w[0] == "views":
            ob = {"k": "views", "a": base, "texts": [cps(unhx(x).decode(errors="replace")) for x in (f[0], f[1], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11])] +
                  [cps(unhx(f[12]).decode(errors="replace"))], "len": int(f[2]), "empty": f[3] == "true"}
        elif w[0] == "cmp":
            od = {"Less": -1, "Equal": 0, "Greater": 1}
            ob = {"k": "cmp", "a": base, "b": raw[w[2] % n], "eq": [f[1] == "true", f[2] == "true", f[3] == "false"], "ord": od[f[4]],
                  "pord": od.get(f[5][5:-1], 9), "hash": f[6] == "true", "hs": f[7] == "true"}
        else:
            ob = {"k": "eqs", "a": base, "b": w[2], "bits": [c == "1" for c in f[1]]}
        ob["line"] = line
        obs.append(ob)
    bad = validate("ViewTrace", [{k: v for k, v in o.items() if k != "line"} for o in obs], run=run)
    for _, b in bad:
        o = obs[b["i"] - 1]
        run.violation(o["k"], "%s: %s" % (o["line"], {k: (text(v) if k in "ab" else v) for k, v in o.items() if k != "line"}), o)
    run.add("traces_validated_against_impl", len(obs))
    run.sample({k: (text(v) if k in "ab" else v) for k, v in obs[-1].items()})
    return run.finish()


def c04():
    run = Run("C04", "model_checking")
    binary = hmsg(False)
    name, cfg, files = mc("PrefixGen", {"Texts": Set([[], cps("P"), cps("\u00e9\u6f22: "), cps("A\x1b[0mB"), [32], cps("P:"), cps("x::"), cps(":"), cps(" y\t"), cps("Error"), cps("error: "), cps("\x1b[1mZ\x1b[0m"), cps("a\n")])}, invariants=("Emit", "Sound"))
    r = tlc(name, cfg, files=files)
    run.tlc_stats(r)
    lines, exps = [], []
    rng = run.rng
    for _, v in r.vectors:
        p, want = v["p"], v["t"]
        specs = []
        if p["kind"]:
            specs = ["k:" + p["kind"]]
        else:
            for stt in STRTYPES:
                for ct in (["n"] if p["color"] < 0 else ["e", "f", "u"]):
                    specs.append("c:%s:%s:%d:%s" % (stt, ct, max(0, p["color"]), hx(p["text"])))
        body = cps(rng.choice(["", "Hello", "\x1b[1mB\u00e9\x1b[0m"]))
        for sp in specs:
            for route in range(4):
                if route == 0:
                    ls = ["new a %s %s" % (sp, hx(body))]
                elif route == 1:
                    ls = ["from a str %s" % hx(body), "prefix a %s" % sp]
                elif route == 2:
                    ls = ["short a Warning %s" % hx(body), "newline a 0", "prefix! a %s" % sp]
                else:
                    ls = ["from a str x", "prefix a c:str:u:7:%s" % hx("longer than most"), "prefix a %s" % sp, "msg a %s" % hx(body)]
                lines += ls
                exps += [None] * (len(ls) - 1) + [(want + body, sp, route)]
        if p["kind"]:
            lines.append("into a %s %s" % (p["kind"], hx(body)))
            exps.append((want + body, p["kind"], "into"))
            if p["kind"] not in ("None", "Confirm"):
                lines.append("short a %s %s" % (p["kind"], hx(body)))
                exps.append((want + body + [10], p["kind"], "short"))
            lines.append("kindinfo " + p["kind"])
            exps.append(("info", v))
        elif p["color"] >= 0:
            lines.append("color %d" % p["color"])
            exps.append(("color", v))
    lines.append("kinds")
    exps.append(("kinds",))
    out, rc, err = drive(binary, lines)
    check_drive(out, lines, rc, err)
    n = 0
    for line, o, e in zip(lines, out, exps):
        if e is None:
            continue
        n += 1
        if o.startswith("PANIC"):
            run.violation("panic", "%s panicked: %s" % (line, o), {"line": line})
            continue
        if e[0] == "info":
            v = e[1]
            name = v["name"]
            col = "-" if v["color"] < 0 else str(v["color"])
            want = "%s %s %s %s" % (hx(name), hx(name), "true" if v["p"]["kind"] == "None" else "false", col)
            if o != want:
                run.violation("kind", "kind %s is described as %s, expected %s" % (v["p"]["kind"], o, want), {"kind": v["p"]["kind"], "got": o, "want": want})
        elif e[0] == "color":
            v = e[1]
            want = "%d %s %s true true %s" % (v["p"]["color"], hx(v["seq"]), hx(v["seq"]), hx(v["reset"]))
            if o != want:
                run.violation("color", "colour %d is %s, expected %s" % (v["p"]["color"], o, want), {"color": v["p"]["color"], "got": o, "want": want})
        elif e[0] == "kinds":
            if sorted(o.split(",")) != sorted(KINDS):
                run.violation("kinds", "the kinds are %s" % o, {"got": o})
        else:
            got = unhx(o).decode(errors="replace")
            if got != text(e[0]):
                run.violation("prefix", "prefix %s by route %s gave %r, expected %r" % (e[1], e[2], got, text(e[0])),
                              {"prefix": e[1], "route": e[2], "got": got, "want": text(e[0])})
    run.add("traces_validated_against_impl", n)
    run.cov["exhaustive"] = True
    run.sample({"prefix": r.vectors[40][1]["p"], "text": text(r.vectors[40][1]["t"])})
    return run.finish()


# ------------------------------------------------------------------ C29
def watch(binary, progs, lazy=False, shut=(), short=0):
    """Run the printing threads; what each stream got, and how much of it at each mark."""
    args = []
    for q in progs:
        args.append(";".join("m" if o == "m" else "%s,%s" % ("oe"[o[0] - 1], hx(o[1])) for o in q))
    outs = [os.pipe() if i + 1 not in shut else None for i in range(2)]
    tell, hear = os.pipe(), os.pipe()
    fds = []
    for i, q in enumerate(outs):
        if q is None:
            how = shut[i + 1]
            if how == "full":
                fds.append(os.open("/dev/full", os.O_WRONLY))
            else:
                r, w = os.pipe()
                os.close(r)
                fds.append(w)
        else:
            fcntl.fcntl(q[0], 1031, 4096)       # the smallest pipe
            os.set_blocking(q[0], False)
            fds.append(q[1])

    def child():
        for i, f in enumerate([fds[0], fds[1], tell[1], hear[0]]):
            os.dup2(f, 20 + i)
        for i, n in enumerate((1, 2, 3, 4)):
            os.dup2(20 + i, n)
            os.close(20 + i)
    p = subprocess.Popen([binary, "print"] + args, stdin=subprocess.DEVNULL, close_fds=False, preexec_fn=child, env=dict(zoned(), **({"VERIF_SHORT_WRITES": str(short)} if short else {})))
    for f in fds + [tell[1], hear[0]]:
        os.close(f)
    got, marks, seen = [b"", b""], [], {}
    live = {q[0]: i for i, q in enumerate(outs) if q}

    def drain():
        for f, i in list(live.items()):
            while True:
                try:
                    b = os.read(f, 65536)
                except BlockingIOError:
                    break
                if not b:
                    os.close(f)
                    del live[f]
                    break
                got[i] += b
    open_tell, t0 = True, time.time()
    try:
        while live or open_tell:
            r, _, _ = select.select(list(live) + ([tell[0]] if open_tell else []), [], [], 20)
            if not r or time.time() - t0 > 60:
                return None, "hangs", None
            if lazy:
                time.sleep(0.001)
            who = b""
            if tell[0] in r:
                who = os.read(tell[0], 1)
                if not who:
                    open_tell = False
            drain()
            if who:
                t = who[0]
                seen[t] = seen.get(t, 0) + 1
                n = [i for i, o in enumerate(progs[t]) if o == "m"][seen[t] - 1]
                marks.append({"t": t + 1, "n": sum(1 for o in progs[t][:n] if o != "m"), "len": [len(g) for g in got]})
                os.write(hear[1], b"k")
        rc = p.wait(20)
    except subprocess.TimeoutExpired:
        return None, "hangs", None
    finally:
        for f in [tell[0], hear[1]] + list(live):
            os.close(f)
        if p.poll() is None:
            p.kill()
            p.wait()
    return got, rc, marks


def c29():
    run = Run("C29", "model_checking")
    binary = hmsg()
    # The design: whole messages, at once, and every call returns.
    A, B = [1, 2], [3]
    for progs in ([[{"s": 1, "t": A}, {"s": 1, "t": B}], [{"s": 1, "t": [1, 4, 4]}, {"s": 2, "t": A}]], [[{"s": 1, "t": A}], [{"s": 1, "t": [5, 6]}], [{"s": 1, "t": [7, 8, 9]}, {"s": 2, "t": B}]]):
        name, cfg, files = mc("Print", {"Progs": progs}, spec="FairSpec", invariants=("Intact", "AtOnce"), properties=("Ends",))
        run.tlc_stats(tlc(name, cfg, files=files))
    rng = run.rng

    def message():
        k = rng.random()
        t = rand_text(rng, n=rng.choice([1, 4, 12]))
        if k < 0.12:
            t += rng.choice("abc") * rng.choice([500, 1023, 1024, 1025, 2000, 4000, 5000])
        elif k < 0.2:
            t = "l\n" * rng.choice([2, 600]) + rng.choice("xyz") * rng.choice([3, 1020, 1030, 3000])
        elif k < 0.3:
            t = t.replace("\n", " ")
        return t + rng.choice(["\n", "\n", "", "\n\n"])

    plans = []
    for _ in range(run.pick(160, 2500)):
        n = rng.choice([1, 1, 2, 3, 4])
        marked = rng.random() < 0.7
        progs = []
        for _ in range(n):
            q = []
            for _ in range(rng.randint(1, 8)):
                q.append((rng.choice([1, 1, 2]), message()))
                if marked and rng.random() < 0.6:
                    q.append("m")
            progs.append(q)
        plans.append((progs, rng.random() < 0.3, {}))
    # Many short ones at once.
    for _ in range(run.pick(20, 300)):
        s = rng.choice([1, 2])
        plans.append(([[(s, "%s%d%s" % ("abcdefgh"[t] * rng.choice([1, 30]), i, rng.choice(["", "\n", "-\n-"]))) for i in range(40)] for t in range(rng.choice([4, 8]))], rng.random() < 0.5, {}))
    # A stream that nobody reads, or that is full, is of no concern.
    for how in ("gone", "full"):
        for bad in ((1,), (2,), (1, 2)):
            for n in (1, 3):
                plans.append(([[(rng.choice([1, 2]), message()) for _ in range(6)] + ["m"] for _ in range(n)], False, {s: how for s in bad}))
    obs, src = [], []
    for progs, lazy, shut in plans:
        got, rc, marks = watch(binary, progs, lazy, shut, rng.choice([0, 0, 1, 3, 50, 1000]))
        if got is None or rc != 0:
            run.violation("print", "printing %s (streams: %s) ended with %s" % (brief(progs), shut or "fine", rc), {"programs": progs, "status": rc})
            continue
        q = [[{"s": o[0], "t": list(o[1].encode())} for o in p if o != "m" and o[0] not in shut] for p in progs]
        if shut:
            marks = []      # counted otherwise there
        obs.append({"progs": q, "out": [list(g) for g in got], "marks": marks})
        src.append((progs, got, marks))
    ok = {(v["r"], v["s"]) for _, v in print_ok(run, obs)}
    for i, (progs, got, marks) in enumerate(src):
        for s in (1, 2):
            if (i + 1, s) not in ok:
                run.violation("print", "printing %s: stream %d got %r%s" % (brief(progs), s, got[s - 1][:300], " (late)" if marks else ""),
                              {"programs": progs, "stream": s, "got": got[s - 1].decode(errors="replace"), "marks": marks})
    run.add("traces_validated_against_impl", len(obs))
    run.sample({"programs": plans[3][0]})
    run.assumptions = ["threads are scheduled by the system; the design is explored exhaustively, the code as it happens to run"]
    return run.finish()


def brief(progs):
    return " | ".join(" ".join("mark" if o == "m" else "%s %r" % (("out", "err")[o[0] - 1], o[1] if len(o[1]) < 40 else o[1][:30] + "...(%d)" % len(o[1])) for o in q) for q in progs)


def print_ok(run, obs):
    out = []
    for i in range(0, len(obs), 60):
        p = workfile("print", obs[i:i + 60])
        try:
            name, cfg, files = mc("PrintTrace", {"File": p}, invariants=("Emit",))
            r = tlc(name, cfg, files=files)
        finally:
            os.unlink(p)
        run.tlc_stats(r)
        for k, v in r.vectors:
            v["r"] += i
            out.append((k, v))
    return out


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C29": c29}
