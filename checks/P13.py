"""pomdp-tools -tool update_beliefs is Bayes' rule over any history of lines."""
import glob, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *
from vlib import refparser

EX = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "examples", "pomdp-files")
FILES = [f for f in ("1d.POMDP", "4x3.95.POMDP", "bridge-repair.POMDP", "cheese.95.POMDP", "concert.POMDP", "parr95.95.POMDP",
                     "shuttle.95.POMDP", "tiger.95.POMDP", "tiger.aaai.POMDP", "uav-search.POMDP") if os.path.exists(os.path.join(EX, f))]
_cache = {}


def example(name):
    if name not in _cache:
        text = open(os.path.join(EX, name), encoding="latin-1").read()
        _cache[name] = (text, refparser.parse(text))
    return _cache[name]


# a step is an action and an observation, or junk
JUNK = ["", "   ", "x", "0", "0 x", "x 0", "-1 0", "0 -1", "0 99", "99 0", "0 0 0", "0 0 x", "1.5 0", "0 0.5", "99999999999999999999 0",
        "0 4294967296", "0 -4294967296", "4294967296 0", "\t", "exitnow", "Exit", "0,0", "0 0.", "-0 99", "# 0 0", "0x0 0", "0 0\t1", "a" * 1000, "0 0 " + "b" * 300,
        "listen 0", "00000000000000000000000000000000000000009 0"]
FORMS = ["%d %d", "%d %d", "%d %d", " %d %d", "%d\t%d", "%d  %d  ", "+%d +%d", "0%d 00%d", "%d %d\r", "\t%d \t %d\t ",
         " " * 300 + "%d" + " " * 200 + "%d", "%d" + "\t" * 255 + "%d", "%d %d" + " " * 900, "0" * 270 + "%d %d"]


def steps(n):
    step = st.tuples(st.integers(0, 10**6), st.integers(0, 10**6), st.sampled_from(FORMS)).map(list)
    return st.lists(st.one_of(step, step, step, step, st.sampled_from(JUNK)), min_size=3, max_size=n)


@st.composite
def gen(draw):
    m = draw(models(rare=True, s=(2, 3, 4, 5, 1), a=(1, 2, 3), o=(1, 2, 3, 4)))
    if draw(st.booleans()):
        m["start"] = draw(weights(m["nS"]))
    return {"m": m, "steps": draw(steps(14)), "end": draw(st.sampled_from(["", "exit\n", "exit", "  exit now\n0 0\n", "nonl"])),
            "likely": draw(st.booleans())}


@st.composite
def gen_example(draw):
    return {"file": draw(st.sampled_from(FILES)), "steps": draw(steps(40)), "end": "", "likely": draw(st.sampled_from([True, True, False]))}


def tables(c):
    if "m" in c:
        M = Model(c["m"])
        b = np.array(c["m"]["start"], float) if c["m"].get("start") else np.ones(M.nS)
        return M.text(), M.T, M.O, b / b.sum()
    text, (r, why) = example(c["file"])
    if r is None:
        raise Inconclusive("example not accepted: %s" % why)
    return text, r.T, r.O, r.b


def plan(c, T, O, b):
    """The lines to send and the answers to expect (None: whatever; several allowed after an impossible observation)."""
    lines, want, nz = [], [("b", [b])], 0
    cur = [b]                       # beliefs the tool may have
    for x in c["steps"]:
        if isinstance(x, str):
            t = x
            f = x.split()
            if f and f[0] == "exit":
                break
            ok = False
            m = re.fullmatch(r"\s*([+-]?\d+)\s+([+-]?\d+)\s*", x)
            if m and 0 <= int(m.group(1)) < len(T) and 0 <= int(m.group(2)) < O.shape[2]:
                ok, a, o = True, int(m.group(1)), int(m.group(2))
        else:
            a = x[0] % len(T)
            o = x[1] % O.shape[2]
            if c["likely"]:
                pr = (cur[0] @ T[a]) @ O[a]
                seen = [i for i in range(len(pr)) if pr[i] > 1e-9]
                if seen:
                    o = seen[x[1] % len(seen)]
            t, ok = x[2] % (a, o), True
        lines.append(t)
        if not ok:
            want.append(("e", None))
            want.append(("b", list(cur)))
            continue
        nxt = []
        for q in cur:
            v = (q @ T[a]) * O[a][:, o]
            z = v.sum()
            if q.sum() == 0:
                nxt.append(q)
            elif z == 0:
                nxt.append(np.zeros(len(q)))
            elif z < 1e-9:
                return lines[:-1], want, nz       # too close to impossible: stop before it
            else:
                nxt.append(v / z)
                nz += 1
        # after an impossible observation the tool answers zeroes; it may then go on from those or from the last good belief
        want.append(("b", list(nxt)))
        if any(n.sum() == 0 for n in nxt):
            nxt = nxt + [q for q in cur if q.sum() > 0]
        cur = nxt[:4]
    return lines, want, nz


def compare(out, want, lines):
    got = [l.strip() for l in out.split("\n") if l.strip()]
    for i, (k, bs) in enumerate(want):
        if i >= len(got):
            raise Violation("no answer %d; lines %r gave %r" % (i, lines, got[-4:]))
        g = got[i]
        if k == "e":
            if g != "[]":
                raise Violation("answer %d is %r, not the empty list of a bad line; lines %r" % (i, g, lines))
            continue
        m = re.fullmatch(r"\[ (.*) \]", g)
        try:
            v = np.array([float(x) for x in m.group(1).split(",")])
        except (AttributeError, ValueError):
            raise Violation("answer %d is %r, not a belief; lines %r" % (i, g, lines))
        if not any(len(v) == len(b) and np.abs(v - b).max() <= 1.5e-6 for b in bs):
            raise Violation("answer %d is %s, expected %s; lines %r" % (i, g, np.round(bs[0], 6).tolist(), lines))
    if len(got) > len(want):
        raise Violation("answers after the end: %r; lines %r" % (got[len(want):][:3], lines))


def judge(c, ctx):
    text, T, O, b = tables(c)
    lines, want, nz = plan(c, T, O, b)
    ctx.write("m.POMDP", text)
    inp = "\n".join(lines) + ("\n" if lines and (c["end"] != "nonl" or not lines[-1]) else "")
    if c["end"] != "nonl":
        inp += c["end"]
    r = ctx.run("pomdp-tools", ["-tool", "update_beliefs", "-pomdp", "m.POMDP"], variant="asan", stdin=inp.encode(), cpu=20)
    if r.timeout or r.crashed or r.rc != 0:
        raise Violation("update_beliefs: exit %s for lines %r: %s" % (r.rc, lines, r.sanitizer or (r.out + r.err)[-300:]))
    compare(r.out, want, lines)
    bad = sum(1 for k, _ in want if k == "e")
    if (bad > 0) != (r.err.strip() != "") and bad:
        raise Violation("no message for a bad line: %r" % lines)
    return {"nontrivial": nz > 1, "labels": ["updates=%s" % (nz if nz < 6 else "6+"), "bad lines" if bad else "no bad line",
                                            "impossible" if any(len(x) and k == "b" and x[0].sum() == 0 for k, x in want if x) else "possible"]}


def judge_dialogue(c, ctx):
    """Each line is answered before the next one is sent, as a program at the other end of pipes sees it."""
    text, T, O, b = tables(c)
    lines, want, nz = plan(c, T, O, b)
    ctx.write("m.POMDP", text)
    import select, time
    p = subprocess.Popen([ctx.exe("pomdp-tools"), "-tool", "update_beliefs", "-pomdp", "m.POMDP"], cwd=ctx.scratch,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
    buf = b""

    def answers(n):
        nonlocal buf
        end = time.time() + 10
        while buf.count(b"\n") < n:
            if not select.select([p.stdout], [], [], max(0, end - time.time()))[0]:
                raise Violation("after %d lines only %d of %d answers arrived before more input; %r" % (sent, buf.count(b"\n"), n, lines))
            x = os.read(p.stdout.fileno(), 65536)
            if not x:
                raise Violation("output ended early for %r" % lines)
            buf += x
    try:
        sent = 0
        n = 1
        answers(n)
        k = 1
        for t in lines:
            p.stdin.write(t.encode() + b"\n")
            sent += 1
            if want[k][0] == "e":
                k += 1
                n += 1
            k += 1
            n += 1
            answers(n)
        p.stdin.write(b"exit\n")
        p.stdin.close()
        rest = p.stdout.read()
        if p.wait(10) != 0:
            raise Violation("exit %s" % p.returncode)
    finally:
        p.kill()
        p.wait()
        p.stdout.close()
    compare((buf + rest).decode(), want, lines)
    return {"nontrivial": nz > 1, "labels": ["dialogue"]}


# ------------------------------------------------------------ long histories, many states

long_runs = st.fixed_dictionaries({"seed": st.integers(0, 2 ** 30), "n": st.sampled_from([80, 300, 1200]), "likely": st.sampled_from([True, True, False]),
                                   "size": st.sampled_from([(2, 2, 2), (3, 2, 3), (12, 3, 4), (40, 2, 3), (3, 20, 30), (120, 2, 2)])})


def judge_long(c, ctx):
    rnd = random.Random(c["seed"])
    m = big_model(rnd, *c["size"])
    m["start"] = [rnd.choice([0, 1, 1, 2]) for _ in range(m["nS"])]
    m["start"][0] += 1
    bad = rnd.choice([0, 0.1])
    steps_ = [rnd.choice(JUNK) if rnd.random() < bad else [rnd.randrange(10**6), rnd.randrange(10**6), rnd.choice(["%d %d", " %d %d", "%d\t%d", "0%d 00%d"])]
              for _ in range(c["n"])]
    res = judge({"m": m, "steps": steps_, "end": "", "likely": c["likely"]}, ctx)
    return {"nontrivial": res["nontrivial"], "labels": ["lines=%d" % c["n"], "states=%d" % m["nS"]]}


main = Check("P13", [
    Part("histories", gen(), judge, 2500, 60000, ("asan",)),
    Part("examples", gen_example(), judge, 600, 12000, ("asan",)),
    Part("dialogue", gen(), judge_dialogue, 300, 3000),
    Part("long", long_runs, judge_long, 150, 4000, ("asan",)),
], rule="random models (and the example files; up to 120 states) x histories of up to 1200 lines: actions and observations in several spellings, "
        "impossible observations, and lines that are no pair of valid indices; every answer is compared with Bayes' rule "
        "computed from the model's own tables. Non-trivial: at least two possible updates.",
    assumptions=["answers have six decimals; histories stop before observations of probability below 1e-6 that are not impossible"]).main
if __name__ == "__main__":
    main()
