"""The tools for solution files: sort_alphas, purge_alphas, compare_alphas."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.tools import *
from scipy.optimize import linprog


CLOSE = (1.0, -0.25, 1e-10, -2e-10, 3e-10, 1e-6, -2e-5)      # for sorting: differences down to 1e-10
NEAR = (1.0, -0.25, 2e-3, -1e-3, 1e-4, -1e-4, 1e-5, -2e-5)


@st.composite
def one(draw, values=DY, near=CLOSE):
    n = draw(st.sampled_from([2, 3, 1, 4, 6, 9]))
    return {"n": n, "l": draw(lists(n, hi=draw(st.sampled_from([4, 12, 40])), values=values, near=near)), "layout": draw(LAYOUTS)}


@st.composite
def facets(draw):
    """Vectors that touch a curved surface at close points: each is best somewhere, by little."""
    n = draw(st.sampled_from([2, 3, 4]))
    k, seed = draw(st.integers(3, 14)), draw(st.integers(0, 10**6))
    return {"n": n, "k": k, "seed": seed, "shape": "facets", "width": draw(st.sampled_from([1.0, 0.3, 0.1, 0.03, 0.01])),
            "under": draw(st.sampled_from([0.0, 1e-5, 1e-4, 1e-3]))}


@st.composite
def bigs(draw):
    """Many vectors: presorted, reversed, few values, random."""
    n = draw(st.integers(1, 3))
    k = draw(st.sampled_from([50, 120, 400]))
    seed = draw(st.integers(0, 10**6))
    return {"n": n, "k": k, "seed": seed, "shape": draw(st.sampled_from(["random", "sorted", "reversed", "few", "sawtooth"]))}


def expand(c):
    if "l" in c:
        return [(a, tuple(v)) for a, v in c["l"]]
    rng = np.random.RandomState(c["seed"])
    if c["shape"] == "facets":
        # tangent planes of sum b_i^2, some lowered a little
        m = rng.dirichlet(np.ones(c["n"]))
        out = []
        for i in range(c["k"]):
            b = (1 - c["width"]) * m + c["width"] * rng.dirichlet(np.ones(c["n"]))
            out.append((i % 5, tuple(round(float(10 * (2 * x - b @ b) - (rng.rand() < 0.4) * c["under"]), 9) for x in b)))
        return out
    V = rng.randint(-3 if c["shape"] == "few" else -5000, 4 if c["shape"] == "few" else 5000, size=(c["k"], c["n"])) / 16.0
    l = [tuple(v) for v in V.tolist()]
    if c["shape"] in ("sorted", "reversed"):
        l.sort(reverse=c["shape"] == "reversed")
    elif c["shape"] == "sawtooth":
        h = c["k"] // 2
        l = sorted(l[:h]) + sorted(l[h:])
    return [(i % 5, v) for i, v in enumerate(l)]


def read_out(ctx, n, what):
    if not ctx.exists("out"):
        raise Violation("%s wrote no file" % what)
    return [(a, tuple(v)) for a, v in parse_alpha(ctx.read("out"), n, "output of " + what)]


def in_order(l):
    return all(x[1] <= y[1] for x, y in zip(l, l[1:]))


def judge_sort(c, ctx):
    l = expand(c)
    ctx.write("in.alpha", al_text(l, c.get("layout", "plain")))
    tool(ctx, "sort_alphas", "-alpha1", "in.alpha", "-states", c["n"])
    got = read_out(ctx, c["n"], "sort_alphas")
    if sorted(got) != sorted(l):
        raise Violation("sort_alphas: other vectors come out: %d in, %d out; missing %s, new %s" % (
            len(l), len(got), [x for x in l if x not in got][:2], [x for x in got if x not in l][:2]))
    if not in_order(got):
        raise Violation("sort_alphas: not in lexicographic order: %s" % [v for _, v in got][:6])
    return {"nontrivial": len(l) > 2 and not in_order(l), "labels": ["vectors=%s" % (len(l) if len(l) < 5 else "5+"), "ties" if len({v for _, v in l}) < len(l) else "distinct"]}


def margin(v, others):
    """Largest advantage of v over all others at a belief."""
    n = len(v)
    if not len(others):
        return np.inf
    A = np.hstack([np.asarray(others) - np.asarray(v), np.ones((len(others), 1))])
    r = linprog(np.r_[np.zeros(n), -1], A_ub=A, b_ub=np.zeros(len(others)), A_eq=[[1] * n + [0]], b_eq=[1],
                bounds=[(0, 1)] * n + [(None, None)], method="highs")
    if r.status != 0:
        raise Inconclusive("reference LP: %s" % r.message)
    return -r.fun


def judge_purge(c, ctx):
    l = expand(c)
    if len(l) > 130:
        l = l[:130]
    ctx.write("in.alpha", al_text(l, c.get("layout", "plain")))
    r = tool(ctx, "purge_alphas", "-alpha1", "in.alpha", "-states", c["n"])
    got = read_out(ctx, c["n"], "purge_alphas")
    left = list(l)
    for x in got:
        if x not in left:
            raise Violation("purge_alphas: %s is not in the input, or more often than there" % (x,))
        left.remove(x)
    if not got:
        raise Violation("purge_alphas: nothing left of %d vectors" % len(l))
    if not in_order(got):
        raise Violation("purge_alphas: not in lexicographic order")
    G = np.array([v for _, v in got])
    scale = max(1.0, np.abs(G).max())
    for a, v in l:
        m = margin(v, G)
        if m > 1e-6 * scale + 2e-9:
            raise Violation("purge_alphas dropped %s, which is better than all that is left by %g somewhere" % (v, m))
    for i in range(len(G)):
        m = margin(G[i], np.delete(G, i, 0))
        if m < -1e-6 * scale:
            raise Violation("purge_alphas kept %s, which is worse than the others everywhere by %g" % (G[i].tolist(), -m))
        if len(G) > 1 and np.abs(np.delete(G, i, 0) - G[i]).max(axis=1).min() == 0:
            raise Violation("purge_alphas kept %s twice" % (G[i].tolist(),))
    for w, n in (("In", len(l)), ("Ou", len(got))):
        m = re.search(w + r"t?put Alpha Count: (\d+)", r.out)
        if not m or int(m.group(1)) != n:
            raise Violation("purge_alphas reports %s, not %sput count %d" % (m and m.group(0), w, n))
    return {"nontrivial": 1 < len(got) < len(l), "labels": ["kept=%s" % (len(got) if len(got) < 5 else "5+"), "dropped=%s" % min(5, len(l) - len(got))]}


@st.composite
def pairs(draw):
    n = draw(st.sampled_from([2, 3, 1, 4, 6]))
    a = draw(lists(n, hi=10))
    b = draw(lists(n, hi=10))
    for _ in range(draw(st.integers(0, 4))):
        x = draw(st.sampled_from(a))
        b.insert(draw(st.integers(0, len(b))), [x[0] if draw(st.booleans()) else (x[0] + 1) % 4, [y + draw(st.sampled_from([0, 0, 0.015625])) for y in x[1]]])
    return {"n": n, "a": a, "b": b, "eps": draw(st.sampled_from([None, None, "0.001", "0.02", "0.5", "0", "3", "1e-12"])), "layout": draw(LAYOUTS)}


def judge_compare(c, ctx):
    a, b = c["a"], c["b"]
    ctx.write("a.alpha", al_text(a, c["layout"]))
    ctx.write("b.alpha", al_text(b, c["layout"]))
    eps = 1e-9 if c["eps"] is None else float(c["eps"])
    tool(ctx, "compare_alphas", "-alpha1", "a.alpha", "-alpha2", "b.alpha", "-states", c["n"], *([] if c["eps"] is None else ["-epsilon", c["eps"]]))
    lines = [l for l in ctx.read("out").split("\n") if l.startswith("Index")]
    if len(lines) != len(a):
        raise Violation("compare_alphas: %d lines for %d vectors" % (len(lines), len(a)))
    none = differs = 0
    for i, l in enumerate(lines):
        m = re.match(r"Index (\d+) \[action=(-?\d+)\](: NONE, best is )?(.*)$", l)
        if not m or int(m.group(1)) != i or int(m.group(2)) != a[i][0]:
            raise Violation("compare_alphas: line %d is %r" % (i, l))
        found = [(int(j), float(d), int(k)) for j, d, k in re.findall(r": (\d+) \[diff=(\S+), action=(-?\d+)\]", m.group(4))]
        d = [max(abs(x - y) for x, y in zip(a[i][1], v)) for _, v in b]
        order = sorted(range(len(b)), key=lambda j: (d[j], j))
        want = [j for j in order if d[j] <= eps] or order[:1]
        if (m.group(3) is not None) != (d[order[0]] > eps):
            raise Violation("compare_alphas: %r, though the closest vector differs by %g (epsilon %g)" % (l, d[order[0]], eps))
        if [j for j, _, _ in found] != want and ([d[j] for j, _, _ in found] != [d[j] for j in want] or len({j for j, _, _ in found}) != len(want)):
            raise Violation("compare_alphas: %r, expected vectors %s with differences %s" % (l, want, [d[j] for j in want]))
        for j, x, k in found:
            if abs(x - d[j]) > 1e-6 * abs(d[j]) or k != b[j][0]:
                raise Violation("compare_alphas: %r, expected difference %e and action %d of vector %d" % (l, d[j], b[j][0], j))
        best_differs = b[found[0][0]][0] != a[i][0]
        if ("ACTION DIFFERS" in l) != best_differs:
            raise Violation("compare_alphas: %r, though the action of the best match %s" % (l, "differs" if best_differs else "is the same"))
        none += m.group(3) is not None
        differs += best_differs
    return {"nontrivial": len(a) > 1 and len(b) > 1, "labels": ["unmatched" if none else "all matched", "action differs" if differs else "same actions"]}


main = Check("P12", [
    Part("sort", one(), judge_sort, 700, 15000, ("asan",)),
    Part("sort-many", bigs(), judge_sort, 300, 5000, ("asan",)),
    Part("purge", st.one_of(one(values=MILD, near=NEAR), facets()), judge_purge, 900, 15000, ("asan",)),
    Part("purge-many", bigs(), judge_purge, 40, 600, ("asan",)),
    Part("compare", pairs(), judge_compare, 900, 20000, ("asan",)),
], rule="random lists of vectors (1 to 400 vectors, 1 to 9 states, with repeated, nearly repeated and averaged vectors) in "
        "several file layouts. sort: the same vectors with their actions, in lexicographic order. purge: a part of the input "
        "with the same upper surface (reference LPs) and no vector below the others everywhere. compare: the closest "
        "vectors by the largest difference of a component. Non-trivial: more than two unsorted vectors; some but not all "
        "vectors purged; more than one vector on both sides.",
    assumptions=["the purge may keep vectors that tie within 1e-6 of the scale, and drop one that is better by less: lp_solve takes reduced costs below 1e-6 for zero"]).main
if __name__ == "__main__":
    main()
