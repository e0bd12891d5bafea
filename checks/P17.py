"""The same run gives the same solution; options that only report or save do not change it."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

VERBOSE = ("context lp global timing stats cmdline main alpha proj crosssum agenda enum twopass linsup witness incprune "
           "lpinterface vertexenum mdp pomdp param parsimonious region approx_mcgs zlz_speedup finite_grid mcgs").split()
REPORT = [[["stat_summary", "true"]], [["stdout", "report.txt"]], [["save_all", "true"]],
          [["save_penultimate", "true"]], [["time_limit", "100000"]], [["memory_limit", "1000000000"]], [["stat_summary", None]]]


@st.composite
def gen(draw):
    c = draw(exact_cases(hmax=4, discounts=st.sampled_from([0.9, 0.5, 0.95, 0.75, 1.0])))
    kind = draw(st.sampled_from(["exact", "exact", "exact", "grid", "zlz", "adjustable_epsilon"]))
    o = c["opts"]
    if kind == "grid":
        o = {"method": "grid", "fg_points": draw(st.sampled_from([5, 20])), "fg_type": draw(st.sampled_from(["simplex", "pairwise", "search", "initial"]))}
    elif kind == "zlz":
        o["vi_variation"] = "zlz"
        o["witness_points"] = "true"
    elif kind == "adjustable_epsilon":
        o.update(vi_variation=kind, start_epsilon=draw(st.sampled_from(["0.1", "0.01"])), end_epsilon="1e-9", epsilon_adjust="0.1")
    o["rand_seed"] = draw(st.sampled_from(["1:2:3", "99:7:31", "65535:0:12", "0:0:0"]))
    o["horizon"] = horizon_cap(Model(c["m"]), o, c["h"])
    c["opts"] = o
    ex = []
    some = st.one_of(st.sampled_from(REPORT), st.sampled_from(REPORT), st.sampled_from(VERBOSE).map(lambda v: [["verbose", v]]))
    for l in draw(st.lists(some, min_size=1, max_size=5)):
        if l[0][0] not in [n for n, _ in ex]:
            ex += l
    c["extra"] = ex
    c["prefix"] = draw(st.sampled_from(["x", "longer-name.sol", "d/x"]))
    c["env"] = draw(st.booleans())
    return c


def report(r, text=""):
    """What the run reports about the epochs, without the times."""
    t = text or r.out
    return re.findall(r"^(?:Epoch: (\d+)\.\.\.)?(\d+) vectors in [^()]*\([^()]*\)\s*(\(err=[^()]*\))?", t, re.M), "Solution found" in t


def ties(M, text):
    V = [(a,) + tuple(v) for a, v in parse_alpha(text, M.nS)]
    return any(V[i][0] == V[i + 1][0] and max(abs(x - y) for x, y in zip(V[i], V[i + 1])) < 1e-8 for i in range(len(V) - 1))


def saved(ctx, prefix):
    return [ctx.read("%s.alpha%d" % (prefix, i)) for i in range(1, 10) if ctx.exists("%s.alpha%d" % (prefix, i))]


def judge(c, ctx):
    M = Model(c["m"])
    o = dict(c["opts"])
    name = "same"
    try:
        r1 = solve(ctx, M.text(), o, cpu=4)
    except Hang:
        raise Inconclusive("slow")
    a1, p1 = ctx.read("m.alpha"), ctx.read("m.pg")
    if c["prefix"].startswith("d/"):
        os.mkdir(ctx.path("d"))
    o2 = dict(o)
    if c["extra"] is not None:
        for k, v in c["extra"]:
            o2[k] = v
    args = ["-pomdp", "m.POMDP", "-o", c["prefix"]] + opt_args(o2)
    r2 = ctx.run("pomdp-solve", args, cpu=60, env={"VERIF_X": "y" * 777, "LANG": "C"} if c["env"] else None)
    if r2.timeout or r2.crashed or r2.rc != 0:
        raise Violation("with %s the run ends with %s" % (c["extra"], r2.rc if not r2.timeout else "timeout"))
    for ext, x in (("alpha", a1), ("pg", p1)):
        f = "%s.%s" % (c["prefix"], ext)
        if not ctx.exists(f):
            raise Violation("with %s no %s is written" % (c["extra"], f))
        y = ctx.read(f)
        if ext == "pg" and "save_all" in o2 and x != y and any(ties(M, t) for t in [a1] + saved(ctx, c["prefix"])):
            continue    # -save_all sorts once more, which may renumber equal vectors
        if x != y:
            raise Violation("the second run, with %s, writes another .%s file: %r instead of %r" % (c["extra"], ext, y[:300], x[:300]))
    if "stdout" in o2:
        if not ctx.exists("report.txt"):
            raise Violation("-stdout report.txt writes no file")
        if r2.out.strip():
            raise Violation("-stdout report.txt, but printed %r" % r2.out[:300])
        t2 = ctx.read("report.txt")
    else:
        t2 = r2.out
    if "verbose" not in o2 and report(None, r1.out) != report(None, t2):
        raise Violation("the second run, with %s, reports %s instead of %s" % (c["extra"], report(None, t2), report(None, r1.out)))
    n = n_epochs(r1)
    if "save_all" in o2:
        e = "%s.alpha%d" % (c["prefix"], n)
        # with zlz, the epoch's file is written before the speedup changes the vectors
        if not ctx.exists(e) or ctx.read(e) != a1 and o.get("vi_variation") != "zlz":
            raise Violation("-save_all: the last epoch's file %s is not the solution" % e)
        if ctx.exists("%s.alpha%d" % (c["prefix"], n + 1)):
            raise Violation("-save_all wrote more epochs than were run")
    if "save_penultimate" in o2 and "save_all" in o2 and n > 1:
        e = "%s.alpha%d" % (c["prefix"], n - 1)
        f = "%s.prev.alpha" % c["prefix"]
        if not ctx.exists(f):
            raise Violation("-save_penultimate wrote no file")
        if o.get("vi_variation") != "zlz" and ctx.read(e) != ctx.read(f):
            raise Violation("-save_penultimate differs from the last but one epoch of -save_all")
    k = len(parse_alpha(a1, M.nS))
    return {"nontrivial": k > 1, "labels": [o["method"], o.get("vi_variation", "normal"), "rand" if any(str(o.get(x, 0)) != "0" for x in ("alg_rand", "prune_rand")) else "no rand"] + [n for n, _ in c["extra"]]}


# ------------------------------------------------- -stdout and -time_limit, and other seeds

@st.composite
def gen_seed(draw):
    c = draw(exact_cases(hmax=4, weak=False, discounts=st.sampled_from([0.9, 0.5, 0.95])))
    c["opts"]["alg_rand"] = draw(st.sampled_from([3, 40, 0]))
    c["opts"]["prune_rand"] = draw(st.sampled_from([3, 40, 0]))
    c["opts"]["horizon"] = horizon_cap(Model(c["m"]), c["opts"], c["h"])
    c["seeds"] = draw(st.lists(st.tuples(*[st.integers(0, 65535)] * 3).map(lambda t: "%d:%d:%d" % t), min_size=2, max_size=3, unique=True))
    return c


def judge_seed(c, ctx):
    M = Model(c["m"])
    sols = []
    for i, s in enumerate(c["seeds"] + [None]):
        o = dict(c["opts"])
        o.pop("rand_seed", None)
        if s:
            o["rand_seed"] = s
        try:
            r = solve(ctx, M.text(), o, cpu=8, prefix="s%d" % i)
        except Hang:
            raise Inconclusive("slow")
        if unstable(r):
            raise Inconclusive("unstable")
        sols.append((vecs(parse_alpha(ctx.read("s%d.alpha" % i), M.nS)), n_epochs(r)))
    B, _ = test_beliefs(*[s for s, _ in sols], n=M.nS)
    lim = 1e-5 * max(1.0, max(np.abs(s).max() for s, _ in sols))
    for (x, n) in sols[1:]:
        d = np.abs(value(x, B) - value(sols[0][0], B))
        if d.max() > lim:
            raise Violation("with other seeds (%s) the value at belief %s differs by %g" % (c["seeds"], B[d.argmax()].tolist(), d.max()))
    return {"nontrivial": len(sols[0][0]) > 1, "labels": [c["opts"]["method"], "rand" if c["opts"]["alg_rand"] or c["opts"]["prune_rand"] else "no rand"]}


main = Check("P17", [
    Part("same", gen(), judge, 800, 20000),
    Part("seeds", gen_seed(), judge_seed, 300, 6000),
], rule="random models x methods and variations x a fixed seed: a second run with reporting and saving options, another prefix "
        "and another environment writes the same bytes and reports the same epochs; runs with different seeds and random points "
        "have the same value function. Non-trivial: more than one vector.",
    assumptions=["values for different seeds agree within 1e-5 of the scale"]).main
if __name__ == "__main__":
    main()
