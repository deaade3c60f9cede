"""C24 to C26: totals, before/after pairs, ANSI macros."""
import json, os, subprocess, shutil
from vlib import *


def hmisc():
    return os.path.join(cargo_build("hmisc", target="t"), "hmisc")


def limbs(n):
    out = []
    while n:
        out.append(n % 1000)
        n //= 1000
    return out


# ------------------------------------------------------------------ C24
LIMIT = 4294967295


def c24():
    run = Run("C24", "model_checking")
    binary = hmisc()
    rnd = [run.rng.getrandbits(run.rng.randint(1, 128)) for _ in range(run.pick(60, 1200))]
    rnd += [run.rng.randint(1, LIMIT) for _ in range(run.pick(60, 1200))] + [LIMIT + run.rng.randint(1, 1 << 33) for _ in range(run.pick(30, 600))]
    name, cfg, files = mc("Totals", {"Far": run.pick(2, 6), "More": [limbs(n) for n in rnd if n]}, invariants=("Sound", "Emit"))
    r = tlc(name, cfg, files=files)
    run.tlc_stats(r)
    vecs = [v for _, v in r.vectors]
    run.rng.shuffle(vecs)
    lines = ["total %s %s" % (v["t"], text(v["n"])) for v in vecs]
    # Every bar waits for its ticker to end; many at a time.
    from concurrent.futures import ThreadPoolExecutor
    n = 64
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda k: drive(binary, lines[k::n], timeout=600)[0] if lines[k::n] else [], range(n)))
    out = [parts[i % n][i // n] for i in range(len(lines))]
    msgs = {}
    for v, l, o in zip(vecs, lines, out):
        f = o.split(" ")
        want = v["r"]
        if f[0] != want:
            run.violation("outcome", "%s: the code says %s, it should be %s" % (l, o, want), {"command": l, "got": o, "want": want})
            continue
        if want == "ok":
            exp = text(v["s"])
            got = unhx(f[1]).decode()
            if not got.startswith(exp + " in "):
                run.violation("shown", "%s: the bar shows %r, expected %r" % (l, got, exp), {"command": l, "got": got, "want": exp})
            continue
        msgs.setdefault(want, set()).add(f[1])
        if v["t"] == "reset":
            got = unhx(f[2]).decode()
            if not got.startswith("3 many in "):
                run.violation("refused reset", "%s was refused, but the bar of 3 then shows %r" % (l, got), {"command": l, "got": got})
    if any(len(m) != 1 for m in msgs.values()) or len({x for m in msgs.values() for x in m}) != len(msgs):
        run.violation("message", "the descriptions of the errors are not one per kind: %s" % msgs, {k: sorted(m) for k, m in msgs.items()})
    run.add("traces_validated_against_impl", len(vecs))
    for v in vecs[:5]:
        run.sample({"type": v["t"], "value": text(v["n"]), "outcome": v["r"]})
    run.cov["exhaustive"] = False
    run.assumptions = ["values around every power of two and ten up to 2^128 and random ones", "64-bit usize"]
    return run.finish()


# ------------------------------------------------------------------ C25
U64 = (1 << 64) - 1
CORE = [0, 1, 2, 3, 999, 1000, 10000, 20000, 99999, (1 << 53) + 1, U64 - 1, U64]
NONE = {"on": []}


def fixed(s):
    a, _, b = s.partition(".")
    return limbs(int(a + b))


def percent_shown(t):
    """The percentage the text claims, in hundredths (a hint; the specification decides)."""
    i = t.rfind("%")
    if i < 0:
        return 0
    j = t.rfind(" ", 0, i)
    try:
        n = int(t[j + 1:i].replace(".", ""))
        return n if n <= 10000 else 0
    except ValueError:
        return 0


def c25():
    run = Run("C25", "model_checking")
    binary = hmisc()
    rng = run.rng
    vals = CORE + run.pick([], [7, 100, 101, 1 << 32, 10 ** 18, 12345678901])
    name, cfg, files = mc("SavingsGraph", {"Values": [limbs(n) for n in vals], "Steps": 3}, invariants=("Sound", "Settled", "Emit"))
    r = tlc(name, cfg, files=files)
    run.tlc_stats(r)
    # Paths that end in the same pair with the same last step are much alike: keep all of up to two steps, a sample of the rest.
    paths = [v["path"] for _, v in r.vectors]
    steps = [[(p[0], int(text(p[1])), int(text(p[2]))) for p in path] for path in paths]
    short = [s for s in steps if len(s) < 3]
    long = [s for s in steps if len(s) == 3]
    rng.shuffle(long)
    runs = short + long[:run.pick(1500, 12000)]

    def num():
        k = rng.random()
        if k < 0.25:
            return rng.randint(0, 1 << rng.randint(1, 16))
        if k < 0.5:
            return min(U64, rng.choice([10 ** rng.randint(0, 19), 1 << rng.randint(0, 64)]) + rng.randint(-2, 2)) if rng.random() < .9 else U64
        return rng.getrandbits(rng.randint(1, 64))

    def clamp(n):
        return max(0, min(U64, n))
    for _ in range(run.pick(4000, 40000)):
        b = clamp(num())
        k = rng.random()
        if k < 0.35:
            # Percentages at and around the edges of rounding.
            p = rng.choice([0, 1, 5000, 9999, 10000, 9995, 5]) if rng.random() < .3 else rng.randint(0, 10000)
            a = clamp(b - (b * (2 * p + 1)) // 20000 + rng.randint(-1, 1))
        elif k < 0.5:
            a = clamp(b + rng.randint(-3, 3))
        else:
            a = clamp(num())
        if rng.random() < .2:
            a, b = b, a
        k = rng.random()
        if k < .5:
            runs.append([("both", b, a)])
        elif k < .9:
            runs.append([("start", b, 0), ("stop", a, 0)])
        else:
            runs.append([("both", b, clamp(num())), ("stop", clamp(num()), 0), ("stop", a, 0)])
    lines, meta = [], []
    for s in runs:
        pre = rng.choice(["", "Saved", "\x1b[1mX\x1b[0m", "\u6f22"])
        t = rng.choice(["", "file.txt", "a (b)", "\u00e9\n\u6f22", rand_text(rng, 6)])
        suf = rng.choice(["", " old", " \x1b[2m(Saved 1 bytes, 1.00%.)\x1b[0m", "\u6f22"])
        nl = rng.choice("01")
        head = ("\x1b[1;91m%s:\x1b[0m " % pre if pre else "") + t
        lines.append("savings %s %s %s %s %s" % (hx(pre), hx(t), hx(suf), nl, " ".join("%s:%d:%d" % x for x in s)))
        meta.append((head, "\n" if nl == "1" else ""))
    out, rc, err = drive(binary, lines)
    obs, idx = [], []

    def big(f):
        return limbs(int(f)) if f != "-" else []
    for i, (s, o, (head, tail)) in enumerate(zip(runs, out, meta)):
        f = o.split(" ")
        if f[0] == "PANIC":
            run.violation("panic", "%s: %s" % (lines[i], o), {"command": lines[i], "out": o})
            continue
        if "0" in f[:4] or any("nan" in x.lower() or "inf" in x or x.startswith("-0") or (x.startswith("-") and x != "-") for x in f[4:6]):
            run.violation("value", "%s: answered %s" % (lines[i], o), {"command": lines[i], "out": o})
            continue
        t = unhx(f[6]).decode()
        obs.append({"steps": [{"op": a, "x": limbs(x), "y": limbs(y)} for a, x, y in s], "before": big(f[0]), "after": big(f[1]), "less": big(f[2]),
                    "more": big(f[3]), "haslp": f[4] != "-", "lp": fixed(f[4]) if f[4] != "-" else [], "hasmp": f[5] != "-",
                    "mp": fixed(f[5]) if f[5] != "-" else [], "pct": percent_shown(t[len(head):]), "text": cps(t), "head": cps(head), "tail": cps(tail)})
        idx.append(i)
    for _, b in validate("SavingsTrace", obs, run=run):
        i = idx[b["i"] - 1]
        f = out[i].split(" ")
        run.violation(b["w"].split(" ")[0], "%s: wrong %s: %s %r" % (" ".join("%s:%d:%d" % x for x in runs[i]), b["w"], " ".join(f[:6]), unhx(f[6]).decode()),
                      {"command": lines[i], "out": out[i]})
    run.add("traces_validated_against_impl", len(obs))
    for i in range(0, len(runs), max(1, len(runs) // 5)):
        run.sample({"steps": runs[i], "answer": out[i][:120]})
    run.cov["exhaustive"] = False
    run.assumptions = ["all orders of up to three steps over %d values (a sample of those of three), and random pairs" % len(vals),
                       "percentages are compared to a floating point number's precision; a shown percentage exactly between two may be either"]
    return run.finish()


# ------------------------------------------------------------------ C26
def word_src(w):
    return ("!" if w["off"] else "") + (str(w["n"]) if w["w"] == "#" else w["w"])


def lit(s):
    return '"' + "".join("\\u{%x}" % ord(c) if c in '"\\' or ord(c) < 32 or ord(c) > 126 else c for c in s) + '"'


def content_src(c, q=""):
    if c["k"] == "text":
        return c["src"]
    words = ", ".join(map(word_src, c["ws"]))
    if c["k"] == "csi":
        return "%scsi!(%s)" % (q, words)
    inner = ", ".join(content_src(x, q) for x in c["cs"]) + c["comma"]
    if c["m"] == "ansi":
        return "%sansi!((%s) %s)" % (q, words, inner)
    return "%s%s!(%s)" % (q, c["m"], inner)


def strip_src(c):
    return {k: ([strip_src(x) for x in v] if k == "cs" else v) for k, v in c.items() if k not in ("src", "comma", "m")}


def gen_words(rng, names, n):
    out = []
    for _ in range(n):
        k = rng.random()
        off = int(rng.random() < 0.3)
        if k < 0.4:
            w = rng.choice(["reset", "bold", "dim", "italic", "underline", "blink", "strike"] + (["fg"] if off else []))
            out.append({"w": w, "n": 0, "off": off})
        elif k < 0.75:
            out.append({"w": "#", "n": rng.randint(0, 255), "off": off})
        else:
            out.append({"w": rng.choice(names), "n": 0, "off": off})
    return out


def gen_content(rng, names, depth):
    k = rng.random()
    if k < 0.55 or depth == 0:
        j = rng.random()
        if j < 0.6:
            s = rng.choice(["", "x", "Hello World", "\u6f22\u5b57", "\x1b[0m", "a;b", '"', "\\", "{}", "{0}", "m", "\n"]) + rng.choice(["", "!", " "])
            return {"k": "text", "s": cps(s), "src": lit(s)}
        if j < 0.75:
            n = rng.randint(0, 10 ** rng.randint(1, 12))
            return {"k": "text", "s": cps(str(n)), "src": "%d_u64" % n if n > 2 ** 31 - 1 else str(n)}
        if j < 0.85:
            b = rng.choice(["true", "false"])
            return {"k": "text", "s": cps(b), "src": b}
        c = rng.choice("aZ0;m ")
        return {"k": "text", "s": cps(c), "src": "'%s'" % c}
    if k < 0.75:
        return {"k": "csi", "ws": gen_words(rng, names, rng.choice([0, 1, 1, 2, 5]))}
    return gen_wrap(rng, names, depth - 1)


def gen_wrap(rng, names, depth):
    m = rng.choice(["ansi", "ansi", "ansi", "blink", "bold", "dim", "italic", "strike", "underline"])
    ws = gen_words(rng, names, rng.choice([1, 1, 2, 3, 8])) if m == "ansi" else [{"w": m, "n": 0, "off": 0}]
    return {"k": "wrap", "m": m, "ws": ws, "cs": [gen_content(rng, names, depth) for _ in range(rng.choice([1, 1, 1, 2, 3]))], "comma": rng.choice(["", "", ","])}


def build_words(calls):
    """A crate of all these macro calls; prints each value in hex on a line."""
    d = os.path.join(BUILD, "hansi-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "hansi"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\nfyi_ansi = { path = "/repo/fyi_ansi" }\n'
                '[profile.dev]\ndebug = false\nincremental = false\n')
    src = ["#![allow(unused_imports)]", "#![recursion_limit = \"256\"]"]
    chunks = [calls[i:i + 250] for i in range(0, len(calls), 250)]
    for i, c in enumerate(chunks):
        src.append("mod m%d {\n\tuse fyi_ansi::{ansi, blink, bold, csi, dim, italic, strike, underline};\n\tpub const V: &[&str] = &[" % i)
        src += ["\t\t%s," % x for x in c]
        src.append("\t];\n}")
    src.append("fn main() {\n\tlet mut o = String::new();\n\tfor v in [%s] {\n\t\tfor s in v {\n\t\t\to.push('x');\n"
               "\t\t\tfor b in s.bytes() { o.push_str(&format!(\"{b:02x}\")); }\n\t\t\to.push('\\n');\n\t\t}\n\t}\n\tprint!(\"{o}\");\n}"
               % ", ".join("m%d::V" % i for i in range(len(chunks))))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("\n".join(src) + "\n")
    try:
        tdir = cargo_build(d, target="t-ansi")
        p = subprocess.run([os.path.join(tdir, "hansi")], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0:
        raise ToolError("the generated program failed: %s" % p.stderr[-500:])
    out = p.stdout.decode().split("\n")[:-1]
    if len(out) != len(calls):
        raise ToolError("the generated program answered %d of %d" % (len(out), len(calls)))
    return [unhx(x).decode() for x in out]


def c26():
    run = Run("C26", "model_checking")
    rng = run.rng
    binary = hmisc()      # the macros' crate itself builds

    def W(x):
        off = int(x.startswith("!"))
        x = x.lstrip("!")
        return {"w": "#", "n": int(x), "off": off} if x.isdigit() else {"w": x, "n": 0, "off": off}
    three = "reset bold !bold dim !underline !fg 0 9 199 !7 light_red !dark_orange".split()
    two = three + "italic underline blink strike !reset !dim !italic !blink !strike 7 8 15 16 100 255 !0 !255 black white cornsilk !tan".split()
    if run.thorough:
        two += [str(n) for n in range(17, 99, 9)]
        three += ["strike", "!strike", "blink", "8", "16", "255", "white"]
    name, cfg, files = mc("AnsiWordsGraph", {"Two": [W(x) for x in two], "Three": [W(x) for x in three]}, invariants=("Sound", "Emit"))
    r = tlc(name, cfg, files=files)
    run.tlc_stats(r)
    vecs = [v for _, v in r.vectors]
    names = sorted({v["ws"][0]["w"] for v in vecs if len(v["ws"]) == 1 and v["ws"][0]["n"] == 0 and "#" not in v["ws"][0]["w"]}
                   - {"reset", "bold", "dim", "italic", "underline", "blink", "strike", "fg"})
    calls = ["csi!(%s)" % ", ".join(map(word_src, v["ws"])) for v in vecs]
    # Random lists and wrapped contents, predicted from the recorded values.
    rnd = [{"k": "csi", "ws": gen_words(rng, names, rng.choice([2, 3, 4, 6, 10, 20, 40]))} for _ in range(run.pick(700, 6000))]
    for m in ("blink", "bold", "dim", "italic", "strike", "underline"):
        for cs in ([{"k": "text", "s": cps("ABC"), "src": '"ABC"'}], [{"k": "text", "s": cps("A"), "src": '"A"'}, {"k": "text", "s": cps("7"), "src": "7"}]):
            for comma in ("", ","):
                rnd.append({"k": "wrap", "m": m, "ws": [{"w": m, "n": 0, "off": 0}], "cs": cs, "comma": comma})
    for v in vecs:
        if len(v["ws"]) == 1:
            rnd.append({"k": "wrap", "m": "ansi", "ws": v["ws"], "cs": [{"k": "text", "s": cps("x"), "src": '"x"'}], "comma": rng.choice(["", ","])})
    rnd += [gen_wrap(rng, names, 3) for _ in range(run.pick(700, 6000))]
    calls += [content_src(c, rng.choice(["", "", "fyi_ansi::", "::fyi_ansi::"])) for c in rnd]
    try:
        got = build_words(calls)
    except BuildFailure as e:
        raise Broken("compile", "a documented use of the macros does not compile: %s" % str(e)[:1500], {"error": str(e)[-5000:]})
    for v, c, g in zip(vecs, calls, got):
        if cps(g) != v["r"]:
            run.violation("csi", "%s gave %r, expected %r" % (c, g, text(v["r"])), {"call": c, "got": g, "want": text(v["r"])})
    obs = [dict(strip_src(c), r=cps(g)) for c, g in zip(rnd, got[len(vecs):])]
    # The colour type, by number.
    lines = ["color %d" % n for n in range(256)]
    out, rc, err = drive(binary, lines)
    macro = {v["ws"][0]["n"]: g for v, g in zip(vecs, got) if len(v["ws"]) == 1 and v["ws"][0]["w"] == "#" and not v["ws"][0]["off"]}
    for n, o in enumerate(out):
        f = o.split(" ")
        if f[0] == "PANIC" or len(f) != 7:
            run.violation("color", "colour %d: %s" % (n, o), {"n": n, "out": o})
            continue
        a, b, c = (unhx(x).decode() for x in f[:3])
        if a != macro[n] or b != a or c != a + str(n) + "\x1b[0m":
            run.violation("color", "colour %d is %r, displayed %r; the macro gives %r" % (n, a, c, macro[n]), {"n": n, "out": o})
        obs.append({"k": "color", "n": n, "r": cps(a), "eq": [json.loads(x) for x in f[3:6]], "below": json.loads(f[6])})
    for _, b in validate("AnsiWordsTrace", obs, run=run):
        i = b["i"] - 1
        what = calls[len(vecs) + i] if i < len(rnd) else "colour %d" % obs[i]["n"]
        run.violation("wrap" if i < len(rnd) else "color", "%s gave %r, expected %r%s" % (what, text(obs[i]["r"]), text(b["want"]), "; equal to %s, above %s" % (obs[i]["eq"], obs[i]["below"]) if i >= len(rnd) else ""), {"call": what, "got": text(obs[i]["r"]), "want": text(b["want"])})
    run.add("traces_validated_against_impl", len(calls) + 256)
    for c in calls[:2] + calls[-3:]:
        run.sample(c[:200])
    run.cov["exhaustive"] = False
    run.assumptions = ["every word alone; pairs and triples over part of them; random lists to 40 words and nested contents"]
    return run.finish()


CHECKS = {"C24": c24, "C25": c25, "C26": c26}
