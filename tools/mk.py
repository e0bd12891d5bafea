"""Plant a bug: makes /verif/seeded/<id>/ from edits, and confirms it in a scratch copy of /repo.

Used interactively:  from mk import mk;  mk("id", "P01", [("src/x.c", old, new)], needs=..., breaks=..., demo=...)
Nothing here is run by a check.
"""
import json, os, subprocess, sys, shutil

W = "/tmp/seedrepo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PRE = '''import os, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
BIN = os.path.join(REPO, "_build", "tree", "src")
EX = os.path.join(REPO, "examples", "pomdp-files")
D = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(shutil.rmtree, D, True)
os.chdir(D)


def run(prog, *args, inp=None, timeout=60, ok=True):
    r = subprocess.run([os.path.join(BIN, prog)] + [str(a) for a in args], input=inp, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if ok and r.returncode:
        fail("%s exits with %d: %s" % (prog, r.returncode, r.stdout[-500:]))
    return r


def write(name, text):
    with open(name, "w") as f:
        f.write(text)
    return name


def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)


def alphas(name):
    L = [l for l in open(name).read().split("\\n") if l.strip()]
    return [(int(L[i]), [float(x) for x in L[i + 1].split()]) for i in range(0, len(L), 2)]


def graph(name):
    return [l.split() for l in open(name) if l.strip()]


def value(al, b):
    return max(sum(x * y for x, y in zip(v, b)) for _, v in al)


def grid(n, k):
    if n == 1:
        return [[k]]
    return [[i] + r for i in range(k + 1) for r in grid(n - 1, k - i)]


def same_values(x, y, n, tol=1e-6, k=20):
    """Largest difference of two value functions on a grid of beliefs."""
    for g in grid(n, k):
        b = [i / k for i in g]
        p, q = value(x, b), value(y, b)
        if abs(p - q) > tol * max(1, abs(p)):
            return "at belief %s the values are %r and %r" % (b, p, q)
    return None


'''

DEMO = '''#!/bin/bash
exec python3 "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    if not os.path.isdir(W):
        sh("cp -a /repo %s; mkdir -p /tmp/seedvp; for f in build test; do sed 's,/repo,%s,g; s,/opt/vp/build.sh,/tmp/seedvp/build.sh,g' "
           "/opt/vp/$f.sh > /tmp/seedvp/$f.sh; done" % (W, W))
    sh("cd %s && git checkout -q -- . && git pull -q /repo 2>&1; git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)" % (W, W))


def build():
    r = sh("bash /tmp/seedvp/build.sh")
    return r.returncode == 0, r.stdout[-2000:]


def demo(id):
    try:
        r = sh("bash %s/seeded/%s/demo.sh" % (VERIF, id), cwd=W, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout[-600:]


def confirm(id, checks=True, clean=True):
    d = os.path.join(VERIF, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    prepare()
    if clean:
        print(id, "clean build", build()[0], "demo", demo(id))
    a = sh("git -C %s apply %s/patch.diff" % (W, d))
    if a.returncode:
        print("PATCH DOES NOT APPLY", a.stdout)
        return
    b, log = build()
    t = sh("bash /tmp/seedvp/test.sh /tmp/seedt.json")
    print(id, "bug build", b, "" if b else log, [l for l in t.stdout.split("\n") if "passed," in l], "demo", demo(id))
    if checks:
        env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD="/tmp/seedbuild", VERIF_SEED="1")
        r = sh("python3-vt checks/%s.py --tier quick" % prop, cwd=VERIF, env=env)
        print(id, prop, "check exit", r.returncode, r.stdout[-700:])
    sh("git -C %s checkout -q -- ." % W)


def mk(id, prop, edits, needs, breaks, demo_py, checks=True):
    prepare()
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p, encoding="latin-1").read()
        if s.count(old) != 1:
            print("EDIT MATCHES %d TIMES in %s: %r" % (s.count(old), f, old[:80]))
            return
        open(p, "w", encoding="latin-1").write(s.replace(old, new))
    d = os.path.join(VERIF, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", encoding="latin-1").write(subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE).stdout.decode("latin-1"))
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.py", "w").write(PRE + demo_py)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    confirm(id, checks)


if __name__ == "__main__":
    for i in sys.argv[1:]:
        confirm(i)
