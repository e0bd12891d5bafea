"""Interrupts, time limits and kills leave the solution of an epoch that was completed."""
import glob, hashlib, os, re, signal, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as vbuild
from vlib.core import Check, Part
from vlib.exact import *

SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "inject.c")


def shim():
    h = hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:16]
    so = os.path.join(vbuild.BUILD, "inject-%s.so" % h)
    if not os.path.exists(so):
        os.makedirs(vbuild.BUILD, exist_ok=True)
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, SRC, "-ldl"], check=True)
        os.rename(tmp, so)
    return so


@st.composite
def gen(draw, what=("int", "int", "int", "kill", "vtalrm", "int2", "int5")):
    big = draw(st.booleans())
    m = draw(models(s=(2, 3) if big else (2, 3, 1), a=(2, 3), o=(2, 2, 1), discounts=st.sampled_from([0.9, 0.95, 0.75, 0.99])))
    o = draw(exact_opts(weak=False, methods=["incprune", "incprune", "witness", "twopass", "enum"]))
    o["horizon"] = horizon_cap(Model(m), o, draw(st.sampled_from([3, 6, 12, 25])), cap=300)
    if draw(st.integers(0, 3)) == 0:
        o = {"method": "grid", "fg_type": "initial", "fg_points": 20, "horizon": 8}
    o["stop_criteria"] = draw(st.sampled_from(["exact", "weak"]))
    if o["method"] == "grid":
        o.pop("stop_criteria")
    o["rand_seed"] = "3:4:5"
    n = m["nS"]
    tv = draw(st.lists(st.lists(st.integers(-5, 5), min_size=n, max_size=n), min_size=1, max_size=2)) if draw(st.integers(0, 3)) == 0 else None
    return {"m": m, "opts": o, "tv": tv, "what": draw(st.sampled_from(what)), "at": draw(st.integers(0, 10**6)), "again": draw(st.integers(0, 10**6)),
            "io": draw(st.booleans()), "save_all": draw(st.booleans())}


def run(ctx, o, env, prefix, cpu=10):
    return ctx.run("pomdp-solve", ["-pomdp", "m.POMDP", "-o", prefix] + opt_args(o), cpu=cpu, env=dict(env, LD_PRELOAD=shim()))


def epochs(t):
    return len(re.findall(r"^Epoch: \d+", t, re.M))


def judge(c, ctx):
    M = Model(c["m"])
    ctx.write("m.POMDP", M.text())
    o = dict(c["opts"])
    init = [(0, [0.0] * M.nS)]
    if c["tv"]:
        init = [(0, [float(x) for x in v]) for v in c["tv"]]
        ctx.write("tv.alpha", alpha_text(init))
        o["terminal_values"] = "tv.alpha"
    # the same command runs to the end first, to know all epochs and the number of calls
    if c["save_all"]:
        o["save_all"] = "true"
    if c["what"] == "vtalrm":
        o["time_limit"] = "1000"
    ref = run(ctx, dict(o, save_all="true"), {}, "ref")
    if ref.timeout:
        raise Inconclusive("slow")
    if ref.rc != 0:
        raise Violation("the run without interruption ends with %s" % ref.rc)
    n = epochs(ref.out)
    E = [(None, None)] + [(ctx.read("ref.alpha%d" % i), ctx.read("ref.pg%d" % i)) for i in range(1, n + 1)]
    full = run(ctx, o, {"INJECT_COUNT": "count"}, "full")
    calls = [int(x) for x in ctx.read("count").split()][:2]
    if full.rc != 0 or ctx.read("full.alpha") != E[n][0]:
        raise Violation("the solution is not that of the last epoch of -save_all")
    N = calls[1] if c["io"] else calls[0]
    at = 1 + c["at"] * (N - 1) // 10**6
    sig = {"int": signal.SIGINT, "int2": signal.SIGINT, "int5": signal.SIGINT, "kill": signal.SIGKILL, "vtalrm": signal.SIGVTALRM}[c["what"]]
    env = {"INJECT_AT": str(at), "INJECT_SIG": str(int(sig)), "INJECT_MARK": "mark", "INJECT_KIND": "io" if c["io"] else "all"}
    if c["what"] in ("int2", "int5"):
        env["INJECT_AGAIN"] = str(at + 1 + c["again"] * 2000 // 10**6)
        env["INJECT_MORE"] = "0" if c["what"] == "int2" else str(c["again"] % 7)
    before = set(os.listdir(ctx.scratch))
    r = run(ctx, o, env, "cut")
    if not ctx.exists("mark"):
        raise Inconclusive("the signal was not raised")
    seen = epochs(r.out[:int(ctx.read("mark").split()[1])])
    where = "%s before call %d of %d (%s), in epoch %d of %d" % (sig.name, at, N, "files" if c["io"] else "all", seen, n)
    if r.timeout:
        raise Violation("%s: the run does not end" % where)
    new = set(os.listdir(ctx.scratch)) - before - {"mark"}
    spare = [f for f in new if not f.startswith("cut.")]
    labels = [c["what"], c["opts"]["method"]]
    if sig == signal.SIGINT:
        if r.rc != 0 or "Solution found" not in r.out:
            raise Violation("%s: exit %d, %r" % (where, r.rc, (r.out + r.err)[-300:]))
        k = epochs(r.out)
        if not seen <= k <= min(n, seen + 1):
            raise Violation("%s: %d epochs were run" % (where, k))
        a, p = ctx.read("cut.alpha"), ctx.read("cut.pg")
        if k == 0:
            if sorted(map(tuple, (v for _, v in parse_alpha(a, M.nS)))) != sorted(tuple(v) for _, v in init):
                raise Violation("%s: no epoch was run, but the solution is %r" % (where, a))
        elif a != E[k][0] or p != E[k][1]:
            raise Violation("%s: the files do not hold epoch %d's solution: %r, %r instead of %r, %r" % (where, k, a[:200], p[:200], E[k][0][:200], E[k][1][:200]))
        if spare:
            raise Violation("%s: left the files %s" % (where, spare))
        return {"nontrivial": 0 < k < n, "labels": labels}
    if sig == signal.SIGVTALRM:
        if r.rc == 0 and "erminated" not in r.out and "Solution found" in r.out and ctx.read("cut.alpha") == E[n][0] and ctx.read("cut.pg") == E[n][1]:
            raise Inconclusive("all was done already")
        if r.rc != 0 or "erminated" not in r.out:
            raise Violation("%s: exit %d, %r" % (where, r.rc, (r.out + r.err)[-300:]))
    elif r.rc != -9:
        raise Violation("%s: exit %d" % (where, r.rc))
    # the run ended abruptly: what it saved is the solution of the last epoch completed
    done = max(0, seen - 1)
    ok = [E[i][0] for i in range(max(1, done), min(n, seen) + 1)]
    found = [ctx.read(f) for f in spare if f.startswith("##")]
    if done and not any(x in ok for x in found):
        if not found and ctx.exists("cut.alpha") and ctx.read("cut.alpha") == E[n][0]:
            pass
        else:
            raise Violation("%s: no file holds the solution of epoch %d or %d: %s" % (where, done, seen, {f: ctx.read(f)[:200] for f in new}))
    return {"nontrivial": 0 < done < n, "labels": labels}


# ------------------------------------------------------------------ real time limits

@st.composite
def gen_time(draw):
    return {"method": draw(st.sampled_from(["incprune", "witness", "incprune"])), "d": draw(st.sampled_from(["0.9999", "0.99999"])),
            "save": draw(st.booleans()), "seed": draw(st.integers(0, 9))}


TIGER = """discount: 0.95
values: reward
states: 2
actions: 3
observations: 2
start: 0.5 0.5
T: 0 identity
T: 1 uniform
T: 2 uniform
O: 0
0.85 0.15
0.15 0.85
O: 1 uniform
O: 2 uniform
R: 0 : * : * : * -1
R: 1 : 0 : * : * -100
R: 1 : 1 : * : * 10
R: 2 : 0 : * : * 10
R: 2 : 1 : * : * -100
"""


def judge_time(c, ctx):
    ctx.write("m.POMDP", TIGER.replace("-1\n", "-%g\n" % (1 + c["seed"] / 8), 1) if c["seed"] else TIGER)
    o = {"method": c["method"], "discount": c["d"], "time_limit": 1, "stop_criteria": "exact"}
    if c["save"]:
        o["save_all"] = "true"
    import time
    t = time.time()
    r = ctx.run("pomdp-solve", ["-pomdp", "m.POMDP", "-o", "m"] + opt_args(o), cpu=15)
    if r.timeout or r.rc != 0:
        raise Violation("-time_limit 1: %s" % ("still running after 15 s of CPU time" if r.timeout else "exit %d" % r.rc))
    if "erminated" not in r.out:
        if "Solution found" in r.out:
            raise Inconclusive("finished within a second")
        raise Violation("-time_limit 1: %r" % r.out[-300:])
    ks = [f for f in os.listdir(ctx.scratch) if f.startswith("##")]
    n = epochs(r.out)
    if n > 2:
        if len(ks) != 1 or not parse_alpha(ctx.read(ks[0]), 2):
            raise Violation("-time_limit 1: %d epochs, saved files %s" % (n, ks))
    return {"nontrivial": n > 2, "labels": [c["method"]]}


main = Check("P22", [
    Part("signals", gen(), judge, 900, 20000),
    Part("limit", gen_time(), judge_time, 8, 40),
], rule="random models, methods and terminal values; the run is repeated with SIGINT (once or up to eight times), SIGVTALRM (the time limit) or "
        "SIGKILL raised before its n-th call of an allocation or file function, n uniform over the run: the epochs run, the solution "
        "files and the saved file are compared with an uninterrupted run's. Real one-second limits end a run that would go on. "
        "Non-trivial: some but not all epochs were done.",
    assumptions=["signals arrive between library calls; a kill does not lose what was given to the operating system"]).main
if __name__ == "__main__":
    main()
