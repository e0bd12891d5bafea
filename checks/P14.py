"""pg_eval prints the values of following a policy graph from every node and state."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *
from vlib.tools import tool

DISC = st.sampled_from([0.9, 0.5, 0.95, 0.75, 0.3, 0.0] * 4 + [0.99, 0.99, 0.999])


@st.composite
def graphs(draw, m, hi):
    """Nodes as [id, action, links]; impossible observations may have no link."""
    n = draw(st.sampled_from([1, 2, 3, 5, hi]))
    shape = draw(st.sampled_from(["random", "random", "self", "chain", "same"]))
    M = Model(m)
    nodes = []
    for i in range(n):
        a = draw(st.integers(0, M.nA - 1))
        if shape == "self":
            l = [i] * M.nO
        elif shape == "chain":
            l = [(i + 1) % n if z == 0 else 0 for z in range(M.nO)]
        elif shape == "same":
            l = [draw(st.integers(0, n - 1))] * M.nO
        else:
            l = draw(st.lists(st.integers(0, n - 1), min_size=M.nO, max_size=M.nO))
        for z in range(M.nO):
            if M.P[a, z].sum() == 0:
                l[z] = draw(st.sampled_from(["-", "X", l[z]]))
        nodes.append([i, a, l])
    return draw(st.permutations(nodes)) if draw(st.booleans()) else nodes


@st.composite
def gen(draw):
    big = draw(st.integers(0, 7)) == 0
    m = draw(models(rare=True, s=(3, 5, 8) if big else (2, 3, 1, 4), a=(2, 3, 1, 4), o=(2, 3, 1, 4), discounts=DISC, spread=False,
                    rmax=draw(st.sampled_from([10, 1000, 100000]))))
    if draw(st.integers(0, 2)) == 0:
        m["start"] = draw(weights(m["nS"]))
    if draw(st.integers(0, 3)) == 0:
        # some observations never come after some action
        for a in range(m["nA"]):
            if draw(st.booleans()) and m["nO"] > 1:
                z = draw(st.integers(0, m["nO"] - 1))
                for row in m["O"][a]:
                    row[z] = 0
                    if sum(row) == 0:
                        row[(z + 1) % len(row)] = 1
    if draw(st.integers(0, 9)) == 0:
        m["R"] = [[0] * len(r) for r in m["R"]]
    return {"m": m, "g": draw(graphs(m, 25 if big else 8)), "layout": draw(st.sampled_from(["lines", "lines", "columns", "wide"]))}


def pg_text(nodes, layout="lines"):
    if layout == "columns":
        return "".join("%d\n%d\n%s\n" % (i, a, "\n".join(map(str, l))) for i, a, l in nodes)
    if layout == "wide":
        return "".join("\n  %d\t%d   %s  \r\n" % (i, a, "\t ".join(map(str, l))) for i, a, l in nodes)
    return "".join("%d %d  %s \n" % (i, a, " ".join(map(str, l))) for i, a, l in nodes)


def graph_values(M, nodes):
    """V[node, state] in the sense of the model's numbers (costs as costs)."""
    n, S = len(nodes), M.nS
    A = np.eye(n * S)
    b = np.zeros(n * S)
    for i, a, l in nodes:
        b[i * S:(i + 1) * S] = M.sign * M.r[a]
        for z, j in enumerate(l):
            if isinstance(j, int) and j >= 0:
                A[i * S:(i + 1) * S, j * S:(j + 1) * S] -= M.g * M.P[a, z]
    return np.linalg.solve(A, b).reshape(n, S)


def report(ctx, n, S):
    r = tool(ctx, "pg_eval", "-pomdp", "m.POMDP", "-pg1", "m.pg", out=None)
    m = re.match(r"Solution found is:\n((?:[^\n]*\n){%d})Initial belief state value: (\S+) at node (-?\d+)\n$" % n, r.out)
    if not m:
        raise Violation("pg_eval printed %r" % (r.out + r.err)[:600])
    V = [[float(x) for x in l.split()] for l in m.group(1).strip("\n").split("\n")]
    if any(len(l) != S for l in V):
        raise Violation("pg_eval: rows of %s values for %d states" % ([len(l) for l in V], S))
    return np.array(V), float(m.group(2)), int(m.group(3))


def judge(c, ctx):
    M = Model(c["m"])
    want = graph_values(M, c["g"])
    n = len(want)
    ctx.write("m.POMDP", M.text())
    ctx.write("m.pg", pg_text(c["g"], c["layout"]))
    V, v0, k = report(ctx, n, M.nS)
    # the solver stops at a relative residual of 1e-10
    tl = 0.00501 + 1e-9 * np.abs(M.r).max() * np.sqrt(n * M.nS) / (1 - M.g)
    d = np.abs(V - want)
    if d.max() > tl:
        i, s = np.unravel_index(d.argmax(), d.shape)
        raise Violation("pg_eval prints %.2f for node %d, state %d; following the graph from there is worth %.6f" % (V[i, s], i, s, want[i, s]))
    st0 = c["m"].get("start")
    b = np.array(st0, float) / sum(st0) if st0 else np.full(M.nS, 1.0 / M.nS)
    at = want @ b
    best = M.sign * (M.sign * at).max()
    if abs(v0 - best) > tl:
        raise Violation("pg_eval: value %.2f at the initial belief, the best node has %.6f" % (v0, best))
    if not 0 <= k < n or abs(at[k] - best) > 2 * tl:
        raise Violation("pg_eval: node %d for the initial belief (worth %s), the best is %d (%.6f)" % (k, at[k] if 0 <= k < n else None, (M.sign * at).argmax(), best))
    return {"nontrivial": n > 1 and np.abs(want - want[0]).max() > 10 * tl,
            "labels": ["nodes=%s" % (n if n < 4 else "4+"), "no link" if any(isinstance(x, str) for _, _, l in c["g"] for x in l) else "all links",
                       c["m"]["values"], "own start" if st0 else "uniform start"]}


# -------------------------------------------------------------- large graphs

large = st.fixed_dictionaries({"seed": st.integers(0, 2 ** 30), "n": st.sampled_from([40, 101, 130, 300, 1005]), "layout": st.sampled_from(["lines", "columns", "wide"]),
                               "size": st.sampled_from([(1, 2, 2), (3, 2, 3), (2, 12, 1), (2, 3, 12), (12, 3, 2), (40, 2, 2)]), "g": st.sampled_from([0.5, 0.9, 0.95])})


def judge_large(c, ctx):
    rnd = random.Random(c["seed"])
    m = big_model(rnd, *c["size"], discount=c["g"])
    n = max(2, min(c["n"], 1600 // m["nS"]))
    g = [[i, rnd.randrange(m["nA"]), [rnd.randrange(n) for _ in range(m["nO"])]] for i in range(n)]
    if rnd.random() < 0.5:
        rnd.shuffle(g)
    if rnd.random() < 0.5:
        m["start"] = [rnd.choice([0, 1, 1, 2]) for _ in range(m["nS"])]
        m["start"][0] += 1
    r = judge({"m": m, "g": g, "layout": c["layout"]}, ctx)
    return {"nontrivial": r["nontrivial"], "labels": ["nodes=%d" % n, "states=%d" % m["nS"]]}


# -------------------------------------------------------------- graphs that are none

BAD = ["drop", "repeat", "far link", "negative id", "action", "word", "cut", "empty", "extra", "no link", "gap"]


@st.composite
def gen_bad(draw):
    m = draw(models(s=(2, 3), a=(2, 3), o=(2, 3), discounts=DISC, spread=False))
    for a in range(m["nA"]):
        m["O"][a] = [[w or 1 for w in r] for r in m["O"][a]]
    g = draw(graphs(m, 6))
    how = draw(st.sampled_from(BAD))
    i = draw(st.integers(0, len(g) - 1))
    z = draw(st.integers(0, m["nO"] - 1))
    g = [[x, a, list(l)] for x, a, l in g]
    ids = [x for x, _, _ in g]
    if how == "drop":
        if len(g) > 1:
            ids = [j for j in range(len(g)) if g[j][0] != len(g) - 1]
            g[ids[0]][2][z] = len(g) - 1
            g = [g[j] for j in ids]
        else:
            how, g[i][1] = "action", -1
    elif how == "repeat":
        g.append([g[i][0], g[i][1], list(g[i][2])])
    elif how == "gap":
        top = len(g) - 1
        for nd in g:
            nd[2] = [x + 3 if x == top else x for x in nd[2]]
            if nd[0] == top:
                nd[0] = top + 3
    elif how == "far link":
        g[i][2][z] = draw(st.sampled_from([len(g), len(g) + 5, 10**6, 2**31 - 1, 2**32, 2**33, -3]))
    elif how == "negative id":
        g[i][0] = draw(st.sampled_from([-1, -2, -7]))
    elif how == "action":
        g[i][1] = draw(st.sampled_from([-1, m["nA"], m["nA"] + 1, 1000]))
    elif how == "no link":
        g[i][2][z] = draw(st.sampled_from(["-", "X", -1, -2]))
    elif how == "word":
        g[i][2][z] = draw(st.sampled_from(["a", "1x", "--", "0.5", "x", "#", "1e0", "a" * 100]))
    elif how == "extra":
        g[i][2].append(0)
    t = pg_text(g)
    if how == "empty":
        t = draw(st.sampled_from(["", "\n", "  \n\n"]))
    elif how == "cut":
        w = t.split()
        t = " ".join(w[:draw(st.sampled_from([len(w) - 1, max(1, len(w) // 2 - (len(w) // 2) % (m["nO"] + 2) + 1)]))])
    elif how == "extra" and m["nO"] > 0:
        # the surplus number starts another node, which must not fit by accident
        t += " 0 0\n"
    return {"m": m, "t": t, "how": how}


def judge_bad(c, ctx):
    M = Model(c["m"])
    w = c["t"].split()
    k = M.nO + 2
    # it may be a graph all the same
    rows = [w[i:i + k] for i in range(0, len(w), k)]
    try:
        rows = [[int(x) for x in r] for r in rows]
        n = len(rows)
        if rows and all(len(r) == k for r in rows) and sorted(r[0] for r in rows) == list(range(n)) and all(
                0 <= r[1] < M.nA and all(0 <= x < n for x in r[2:]) for r in rows):
            raise Inconclusive("a valid graph")
    except ValueError:
        pass
    ctx.write("m.POMDP", M.text())
    ctx.write("m.pg", c["t"])
    r = ctx.run("pomdp-tools", ["-tool", "pg_eval", "-pomdp", "m.POMDP", "-pg1", "m.pg"], variant="asan", cpu=20)
    if r.timeout or r.crashed:
        raise Violation("pg_eval on a bad graph (%s): %s" % (c["how"], r.sanitizer or "timeout" if r.timeout else r.rc))
    if r.rc == 0 or "Solution found" in r.out or not (r.out + r.err).strip():
        raise Violation("pg_eval accepts a bad graph (%s): %r\nexit %d, %r" % (c["how"], c["t"], r.rc, (r.out + r.err)[:300]))
    return {"nontrivial": True, "labels": [c["how"]]}


# -------------------------------------------------------------- the solver's own graphs

@st.composite
def gen_solved(draw):
    m = draw(models(rare=True, s=(2, 3), a=(2, 3), o=(2, 2, 1), discounts=st.sampled_from([0.5, 0.75, 0.3, 0.6, 0.8]), rmax=draw(st.sampled_from([10, 1000]))))
    if draw(st.integers(0, 2)) == 0:
        m["start"] = draw(weights(m["nS"]))
    if draw(st.booleans()) and m["nO"] > 1:
        a = draw(st.integers(0, m["nA"] - 1))
        m["O"][a] = [[1] + [0] * (m["nO"] - 1) for _ in m["O"][a]]
    return {"m": m, "method": draw(st.sampled_from(["incprune", "witness", "twopass", "enum", "incprune"]))}


def judge_solved(c, ctx):
    M = Model(c["m"])
    try:
        r = solve(ctx, M.text(), {"method": c["method"], "stop_criteria": "exact", "horizon": 150}, cpu=2)
    except Hang:
        raise Inconclusive("slow")
    if "Solution found" not in r.out or unstable(r) or n_epochs(r) >= 150:
        raise Inconclusive("no converged solution")
    A = vecs(parse_alpha(ctx.read("m.alpha"), M.nS))
    V, v0, k = report(ctx, len(A), M.nS)
    # the previous solution has the same vectors (up to 1e-9), so the graph follows itself
    tl = 0.00501 + (1e-7 + 1e-7 * M.scale) / (1 - M.g) ** 2
    if len(A) > 1 and min(np.abs(A[i] - A[j]).max() for i in range(len(A)) for j in range(i)) < 1e-5 * M.scale:
        raise Inconclusive("nearly equal vectors")
    d = np.abs(V - A * M.sign if M.sign < 0 else V - A)
    if d.max() > tl:
        i, s = np.unravel_index(d.argmax(), d.shape)
        raise Violation("the solver's converged graph: pg_eval prints %.2f for node %d, state %d, the solution has %.6f" % (V[i, s], i, s, A[i, s]))
    st0 = c["m"].get("start")
    b = np.array(st0, float) / sum(st0) if st0 else np.full(M.nS, 1.0 / M.nS)
    if abs(v0 - M.sign * (A @ b).max()) > tl:
        raise Violation("the solver's converged graph: value %.2f at the initial belief, the solution has %.6f" % (v0, M.sign * (A @ b).max()))
    return {"nontrivial": len(A) > 1, "labels": ["vectors=%s" % (len(A) if len(A) < 4 else "4+"), "no link" if "-" in ctx.read("m.pg") else "all links"]}


main = Check("P14", [
    Part("values", gen(), judge, 1200, 30000, ("asan",)),
    Part("bad", gen_bad(), judge_bad, 600, 8000, ("asan",)),
    Part("large", large, judge_large, 150, 4000, ("asan",)),
    Part("solved", gen_solved(), judge_solved, 400, 8000, ("plain", "asan")),
], rule="random models x random policy graphs (1 to 25 and up to 1005 nodes, any order, missing links where the observation cannot occur): the "
        "printed values against a direct solution of the linear equations; graphs damaged in one place must be refused; graphs "
        "of converged solver runs must have the solution's values. Non-trivial: values that differ between nodes; every "
        "damaged graph; more than one vector.",
    assumptions=["values are printed with two decimals; discount 1 is refused by pg_eval"]).main
if __name__ == "__main__":
    main()
