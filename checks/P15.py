"""pg_relink points every link of a policy graph at the vector closest to the one it meant."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.tools import *


@st.composite
def gen(draw):
    m = draw(models(rare=True, s=(2, 3, 1, 4), a=(2, 3, 1), o=(2, 3, 1, 4), spread=False, kinds=("s",)))
    S, A, Z = m["nS"], m["nA"], m["nO"]
    hi = draw(st.sampled_from([3, 8, 20]))
    cur = draw(lists(S, hi=hi, acts=A))
    prev = draw(lists(S, hi=hi, acts=A))
    near = st.sampled_from([0, 0, 0.125, -3, 0.0009765625, -3.0517578125e-05, 0.015625])
    for _ in range(draw(st.integers(0, 3))):
        a, v = draw(st.sampled_from(cur))
        cur.insert(draw(st.integers(0, len(cur))), [a, [y + draw(near) for y in v]])
    for _ in range(draw(st.integers(0, 4))):
        v = draw(st.sampled_from(cur))[1]
        prev.append([0, [y + draw(near) for y in v]])
    nodes = []
    for i in range(len(cur)):
        l = draw(st.lists(st.one_of(st.integers(0, len(prev) - 1), st.integers(0, len(prev) - 1), st.sampled_from(["-", "X", "-"])) if draw(st.integers(0, 3)) == 0
                          else st.integers(0, len(prev) - 1), min_size=Z, max_size=Z))
        nodes.append([i, cur[i][0], l])
    order = draw(st.permutations(nodes)) if draw(st.booleans()) else nodes
    return {"m": m, "cur": cur, "prev": prev, "g": order, "la": draw(LAYOUTS), "lb": draw(LAYOUTS)}


def links(text, n, Z):
    g = parse_pg(text, Z, "relinked graph")
    if len(g) != n:
        raise Violation("pg_relink writes %d nodes for %d" % (len(g), n))
    return g


def judge(c, ctx):
    M = Model(c["m"])
    cur, prev = c["cur"], c["prev"]
    ctx.write("m.POMDP", M.text())
    ctx.write("cur.alpha", al_text(cur, c["la"]))
    ctx.write("prev.alpha", al_text(prev, c["lb"]))
    ctx.write("cur.pg", "".join("%d %d  %s \n" % (i, a, " ".join(map(str, l))) for i, a, l in c["g"]))
    tool(ctx, "pg_relink", "-pomdp", "m.POMDP", "-alpha1", "cur.alpha", "-pg1", "cur.pg", "-alpha2", "prev.alpha")
    if not ctx.exists("out"):
        raise Violation("pg_relink wrote no file")
    got = links(ctx.read("out"), len(cur), M.nO)
    D = np.array([[max(abs(x - y) for x, y in zip(p[1], q[1])) for q in cur] for p in prev])
    moved = 0
    for i, a, l in c["g"]:
        if got[i][0] != a:
            raise Violation("pg_relink: action %d of node %d, was %d" % (got[i][0], i, a))
        for z, j in enumerate(l):
            k = got[i][1][z]
            if isinstance(j, str):
                if k not in ("-", "X"):
                    raise Violation("pg_relink: node %d has the link %s for observation %d, was %s" % (i, k, z, j))
                continue
            if not isinstance(k, int) or not 0 <= k < len(cur):
                raise Violation("pg_relink: node %d has the link %s for observation %d" % (i, k, z))
            if D[j, k] > D[j].min() * (1 + 1e-12):
                raise Violation("pg_relink: node %d, observation %d: previous vector %d became %d (distance %g), but %d has distance %g" % (
                    i, z, j, k, D[j, k], D[j].argmin(), D[j].min()))
            moved += k != j
    return {"nontrivial": len(cur) > 1 and len(prev) > 1 and moved > 0,
            "labels": ["ties" if ((D == D.min(axis=1, keepdims=True)).sum(axis=1) > 1).any() else "no ties",
                       "no link" if any(isinstance(x, str) for _, _, l in c["g"] for x in l) else "all links"]}


# ------------------------------------------------------------ large solutions

large = st.fixed_dictionaries({"seed": st.integers(0, 2 ** 30), "n": st.sampled_from([15, 101, 130, 400]), "p": st.sampled_from([15, 101, 130, 1003]),
                               "size": st.sampled_from([(2, 3, 2), (3, 2, 1), (12, 3, 2), (30, 2, 3), (2, 2, 12)]), "la": LAYOUTS, "lb": LAYOUTS})


def judge_large(c, ctx):
    rnd = random.Random(c["seed"])
    m = big_model(rnd, *c["size"])
    S, A, Z = c["size"]
    prev = [[rnd.randrange(A), [rnd.randint(-200, 200) / rnd.choice([1, 2, 16]) for _ in range(S)]] for _ in range(c["p"])]
    cur = [[rnd.randrange(A), [x + rnd.choice([0, 0.125, -3, 0.0078125]) for x in rnd.choice(prev)[1]] if rnd.random() < 0.7
            else [rnd.randint(-200, 200) / 4 for _ in range(S)]] for _ in range(c["n"])]
    for l in (cur, prev):
        if rnd.random() < 0.5:
            l.sort(key=lambda e: e[1])
    g = [[i, cur[i][0], [rnd.randrange(len(prev)) if rnd.random() < 0.97 else "-" for _ in range(Z)]] for i in range(len(cur))]
    if rnd.random() < 0.3:
        rnd.shuffle(g)
    r = judge({"m": m, "cur": cur, "prev": prev, "g": g, "la": c["la"], "lb": c["lb"]}, ctx)
    return {"nontrivial": r["nontrivial"], "labels": ["vectors=%d" % len(cur), "states=%d" % S]}


# ------------------------------------------------------------ after a finite-horizon run

@st.composite
def gen_run(draw):
    m = draw(models(s=(2, 3), a=(2, 3), o=(2, 2, 1), discounts=st.sampled_from([0.9, 0.5, 0.75, 0.3])))
    if draw(st.booleans()) and m["nO"] > 1:
        a = draw(st.integers(0, m["nA"] - 1))
        m["O"][a] = [[1] + [0] * (m["nO"] - 1) for _ in m["O"][a]]
    return {"m": m, "h": draw(st.integers(2, 6))}


def judge_run(c, ctx):
    M = Model(c["m"])
    try:
        r = solve(ctx, M.text(), {"save_all": None, "save_penultimate": None, "horizon": c["h"]}, cpu=5)
    except Hang:
        raise Inconclusive("slow")
    n = n_epochs(r)
    if n < 2 or unstable(r):
        raise Inconclusive("no two epochs")
    cur = parse_alpha(ctx.read("m.alpha"), M.nS)
    prev = parse_alpha(ctx.read("m.alpha%d" % (n - 1)), M.nS)
    old = links(ctx.read("m.pg"), len(cur), M.nO)
    tool(ctx, "pg_relink", "-pomdp", "m.POMDP", "-alpha1", "m.alpha", "-pg1", "m.pg", "-alpha2", "m.alpha%d" % (n - 1))
    if not ctx.exists("out"):
        raise Violation("pg_relink wrote no file for the solver's own files")
    got = links(ctx.read("out"), len(cur), M.nO)
    for i, (a, l) in enumerate(got):
        if a != old[i][0]:
            raise Violation("pg_relink: action %d of node %d, was %d" % (a, i, old[i][0]))
        for z, k in enumerate(l):
            j = old[i][1][z]
            if isinstance(j, str) != isinstance(k, str):
                raise Violation("pg_relink: link %s of node %d became %s" % (j, i, k))
            if isinstance(k, int):
                d = [np.abs(np.array(prev[j][1]) - np.array(v)).max() for _, v in cur]
                if not 0 <= k < len(cur) or d[k] > min(d) + 1e-12 * M.scale:
                    raise Violation("pg_relink: link %s of node %d became %s; distances %s" % (j, i, k, d))
    # the new graph refers to itself, so it can be evaluated
    os.rename(ctx.path("out"), ctx.path("new.pg"))
    r = tool(ctx, "pg_eval", "-pomdp", "m.POMDP", "-pg1", "new.pg", out=None)
    if "Solution found" not in r.out:
        raise Violation("the relinked graph is refused by pg_eval: %s" % (r.out + r.err)[:300])
    return {"nontrivial": [l for _, l in got] != [l for _, l in old], "labels": ["vectors=%s" % (len(cur) if len(cur) < 4 else "4+")]}


# ------------------------------------------------------------ files that do not fit

@st.composite
def gen_bad(draw):
    c = draw(gen())
    c["how"] = draw(st.sampled_from(["far link", "fewer nodes", "more nodes", "no alpha1", "no alpha2", "no pg", "cut", "word"]))
    return c


def judge_bad(c, ctx):
    M = Model(c["m"])
    how = c["how"]
    g = [[i, a, list(l)] for i, a, l in sorted(c["g"])]
    nprev = len(c["prev"])
    if how == "far link":
        g[0][2][0] = nprev + 2
    elif how == "fewer nodes":
        if len(g) < 2:
            raise Inconclusive("one node")
        g = g[:-1]
    elif how == "more nodes":
        g.append([len(g), 0, [0] * M.nO])
    ctx.write("m.POMDP", M.text())
    if how != "no alpha1":
        ctx.write("cur.alpha", al_text(c["cur"]))
    if how != "no alpha2":
        ctx.write("prev.alpha", al_text(c["prev"]))
    t = "".join("%d %d  %s \n" % (i, a, " ".join(map(str, l))) for i, a, l in g)
    if how == "cut":
        t = " ".join(t.split()[:-1])
    elif how == "word":
        t = " ".join(t.split()[:-1] + ["1.5"])
    if how != "no pg":
        ctx.write("cur.pg", t)
    r = tool(ctx, "pg_relink", "-pomdp", "m.POMDP", "-alpha1", "cur.alpha", "-pg1", "cur.pg", "-alpha2", "prev.alpha", rc=None)
    msg = r.out + r.err
    if not msg.strip():
        raise Violation("pg_relink says nothing (%s)" % how)
    if how == "far link":
        if ctx.exists("out"):
            k = links(ctx.read("out"), len(g), M.nO)[0][1][0]
            if isinstance(k, int):
                raise Violation("pg_relink: link %d beyond the %d previous vectors became %s" % (nprev + 2, nprev, k))
    elif ctx.exists("out"):
        raise Violation("pg_relink writes a graph (%s): %s" % (how, ctx.read("out")[:200]))
    return {"nontrivial": True, "labels": [how]}


main = Check("P15", [
    Part("random", gen(), judge, 1500, 30000, ("asan",)),
    Part("solver", gen_run(), judge_run, 400, 6000, ("plain", "asan")),
    Part("bad", gen_bad(), judge_bad, 400, 6000, ("asan",)),
    Part("large", large, judge_large, 150, 4000, ("asan",)),
], rule="random vector lists (up to 1003 vectors) and policy graphs, and those of finite-horizon runs: actions unchanged, every link at a vector of "
        "the current list with the least largest-component distance from the previous vector it named, missing links missing; "
        "files that do not fit are reported. Non-trivial: some link changes; some misfit.",
    assumptions=["any of several equally close vectors is accepted"]).main
if __name__ == "__main__":
    main()
