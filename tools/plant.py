#!/usr/bin/env python3
"""Development tool (no check uses it): confirm a planted bug in a scratch copy,
and run the checks against it.

  plant.py make ID     seeded/ID/{edit.py -> patch.diff}: builds and tests the patched copy /tmp/w,
                       runs the demo there with and without the patch
  plant.py check ID [C..]  applies it in /repo, runs the property's quick check, undoes it
"""
import json, os, re, shutil, subprocess, sys, time

V = "/verif"
W = "/tmp/w"
B = "/tmp/wb"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def sync():
    os.makedirs(W, exist_ok=True)
    os.makedirs(B, exist_ok=True)
    first = not os.path.exists(W + "/target")
    sh("rsync -a --delete %s /repo/ %s/" % ("" if first else "--exclude /target", W))
    for n in ("env.sh", "build.sh", "test.sh", "cargo-patch.toml", "results.py", "Cargo.lock"):
        if os.path.exists("/opt/vp/" + n):
            t = open("/opt/vp/" + n).read()
            t = t.replace("/repo", W).replace("/opt/vp/cargo-patch.toml", B + "/cargo-patch.toml").replace("/opt/vp/env.sh", B + "/env.sh")
            open(B + "/" + n, "w").write(t)


def blame_ok(d):
    """Every removed line must be the base commit's."""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()[:7]
    bad, n, f, ln = [], 0, None, 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- "):
            f = l[6:].strip()
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m.group(1))
            continue
        if f is None or l.startswith(("+++", "diff", "index")):
            continue
        if l.startswith("-"):
            n += 1
            b = sh(["git", "-C", "/repo", "blame", "-s", "--abbrev=7", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f]).stdout
            if not b.lstrip("^").startswith(base):
                bad.append(b.strip())
            ln += 1
        elif not l.startswith("+"):
            ln += 1
    return n, bad


def edit(d, root):
    g = {}
    exec(open(d + "/edit.py").read(), g)
    for f, old, new in g["EDITS"]:
        p = os.path.join(root, f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit("%s: %d occurrences of the text to change in %s" % (d, t.count(old), f))
        open(p, "w").write(t.replace(old, new))
    return g


def demo(d, out):
    t = time.time()
    tmp = "/tmp/demo-" + os.path.basename(d)
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json", "edit.py"))
    r = subprocess.run(["bash", tmp + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", stdin=subprocess.DEVNULL, timeout=300)
    shutil.rmtree(tmp, ignore_errors=True)
    print("  demo %s: rc %d (%.0f s) %s" % (out, r.returncode, time.time() - t, " / ".join(r.stdout.strip().splitlines()[-3:])[-300:]))
    return r.returncode


def build():
    r = sh("bash %s/build.sh" % B)
    if r.returncode:
        print(r.stdout[-2500:])
    return r.returncode == 0


def tests():
    r = sh("bash %s/test.sh %s/out.json" % (B, B))
    o = json.load(open(B + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set(o.get("passed", o.get("stable", []))) if isinstance(o, dict) else set(o)
    bad = [t for t in base if t not in ok]
    print("  tests: %d of %d baseline tests pass" % (len(base) - len(bad), len(base)), bad[:4])
    return not bad


def make(i):
    src = os.path.join("/tmp/plants", i)
    sync()
    print(i, flush=True)
    sh("git -C %s checkout -q -- ." % W)
    g = edit(src, W)
    diff = sh("git -C %s diff" % W).stdout
    open(src + "/patch.diff", "w").write(diff)
    n, bad = blame_ok(src)
    if n == 0 or bad:
        print("  LINES NOT ORIGINAL", n, bad)
    if not build() or not tests():
        print("  REJECTED")
        return False
    a = demo(src, "patched")
    sh("git -C %s checkout -q -- ." % W)
    if not build():
        return False
    b = demo(src, "clean")
    good = a != 0 and b == 0 and n > 0 and not bad
    if good:
        d = os.path.join(V, "seeded", i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src, d, ignore=shutil.ignore_patterns("edit.py"))
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
    print("  KEPT" if good else "  REJECTED")
    return good


def check(i, props):
    d = os.path.join(V, "seeded", i)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    r = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if r.returncode:
        print(r.stdout)
        return
    try:
        for p in props:
            t = time.time()
            r = sh(["python3", V + "/check.py", p], cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%s %s: rc %d %.0f s %s" % (i, p, r.returncode, time.time() - t, v[:1] or r.stdout[-300:]), flush=True)
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for i in sys.argv[2:]:
            try:
                make(i)
            except SystemExit as e:
                print(" ", e, flush=True)
    elif sys.argv[1] == "check":
        check(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "checkall":
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            check(i, [])
