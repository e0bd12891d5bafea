"""Linear programs: the interface to the solver, and the region question every exact method asks."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *
from scipy.optimize import linprog

INF = 1e30


@st.composite
def programs(draw):
    """Linear programs over the belief simplex, as the exact methods set them up: bounded, a handful one after the other."""
    out = []
    for _ in range(draw(st.integers(1, 6))):
        n, m = draw(st.integers(1, 7)), draw(st.integers(0, 12))
        num = draw(st.sampled_from([st.integers(-5, 5), st.sampled_from([-1, 0, 1, 1, 0, 2]), st.integers(-400, 400).map(lambda v: v / 4),
                                    st.integers(-10 ** 5, 10 ** 5).map(lambda v: v / 1e3)]))
        A = [[draw(num) for _ in range(n)] for _ in range(m)]
        sense = [draw(st.sampled_from("LLG")) for _ in range(m)]
        how = draw(st.sampled_from(["cone", "any", "inside", "inside"]))
        if how == "cone":                       # the neighbour test of two-pass
            sense, rhs = ["L"] * m, [0] * m
            if draw(st.booleans()):
                k = draw(st.integers(0, n - 1))  # a belief where all rows hold
                A = [[v - max(0, r[k]) for v in r] for r in A]
        elif how == "inside":
            x = [draw(st.integers(0, 3)) for _ in range(n)]
            x[0] += 1
            rhs = []
            for i in range(m):
                v = sum(a * b for a, b in zip(A[i], x)) / sum(x)
                rhs.append(v + draw(st.sampled_from([0, 0, 1, 0.25])) * (1 if sense[i] == "L" else -1))
        else:
            rhs = [draw(num) for _ in range(m)]
        out.append({"A": [[1] * n] + A, "low": [0] * n, "up": [1] * n, "sense": "E" + "".join(sense), "rhs": [1] + rhs, "obj": [draw(num) for _ in range(n)],
                    "max": draw(st.booleans()), "dense": draw(st.booleans())})
    return {"lps": out}


def lp_text(p):
    m, n = len(p["A"]), len(p["obj"])
    f = lambda l: " ".join(repr(float(v)) for v in l)
    cols, nz = [], 0
    for j in range(n):
        c = [(i, p["A"][i][j]) for i in range(m) if p["dense"] or p["A"][i][j]]
        nz += len(c)
        cols.append("%d " % len(c) + " ".join("%d %r" % (i, float(v)) for i, v in c))
    return "L %d %d %d %d\n%s\n%s\n%s\n%s\n" % (
        m, n, max(1, nz), p["max"], f(p["obj"]), f([v for b in zip(p["low"], p["up"]) for v in b]),
        " ".join("%s %r" % (s, float(v)) for s, v in zip(p["sense"], p["rhs"])), "\n".join(cols))


def run(ctx, text, n, variant):
    r = ctx.run("lpcheck", [], variant=variant, stdin=text.encode(), cpu=20)
    if r.sanitizer:
        raise Violation("linear programs: %s" % r.sanitizer)
    if r.timeout:
        raise Hang("the linear program solver does not end")
    L = [l.split() for l in r.out.split("\n") if l[:2] in ("L ", "R ")]
    if r.rc != 0 or len(L) != n:
        raise Violation("linear programs: exit %d after %d of %d\n%s" % (r.rc, len(L), n, r.err[-500:]))
    return L


def judge_lp(c, ctx):
    res = run(ctx, "".join(lp_text(p) for p in c["lps"]), len(c["lps"]), "asan")
    seen, undecided = [], 0
    for p, w in zip(c["lps"], res):
        A, b, s = np.array(p["A"], float), np.array(p["rhs"], float), p["sense"]
        obj = np.array(p["obj"], float) * (-1 if p["max"] else 1)
        sg = np.array([-1.0 if k == "G" else 1.0 for k in s])
        E = np.array([k == "E" for k in s])
        bounds = [(l, None if u >= INF else u) for l, u in zip(p["low"], p["up"])]

        def ref(slack):
            return linprog(obj, A_ub=np.vstack([(sg[:, None] * A)[~E], A[E], -A[E]]), b_ub=np.concatenate([(sg * b)[~E] + slack, b[E] + slack, slack - b[E]]),
                           bounds=bounds, method="highs")
        want = ref(0)
        if want.status not in (0, 2, 3):
            undecided += 1
            continue
        exp = {0: "optimal", 2: "infeasible", 3: "unbounded"}[want.status]
        got = w[1]
        what = "linear program %s" % canon_lp(p)
        seen.append(exp)
        if got == "optimal":
            v, x = float(w[3]), np.array([float(t) for t in w[4:]])
            sl = sg * (A @ x - b)
            bad = max([0.0] + list(sl[~E]) + list(np.abs(sl[E])) + list(np.array(p["low"]) - x) + list(x - np.array([min(u, INF) for u in p["up"]])))
            if exp != "optimal":
                if want.status != ref(1e-7).status:
                    undecided += 1
                    continue
                raise Violation("%s is %s, reported optimal with value %r" % (what, exp, v))
            if bad > 1e-6:
                raise Violation("%s: the solution %s breaks a constraint by %g" % (what, x.tolist(), bad))
            if abs(float(np.array(p["obj"]) @ x) - v) > 1e-7 * max(1, abs(v)):
                raise Violation("%s: the solution %s is worth %r, reported %r" % (what, x.tolist(), float(np.array(p["obj"]) @ x), v))
            opt = want.fun * (-1 if p["max"] else 1)
            if abs(opt - v) > 1e-6 * max(1, abs(v)):
                raise Violation("%s has the optimum %r, reported %r" % (what, opt, v))
        elif got != exp:
            if ref(1e-7).status != want.status or ref(-1e-7).status != want.status:
                undecided += 1
                continue
            raise Violation("%s is %s, reported %s" % (what, exp, got))
    return {"nontrivial": "optimal" in seen and len(c["lps"]) > 1, "labels": sorted(set(seen))}


def canon_lp(p):
    return "%s %s, rows %s, bounds %s" % ("max" if p["max"] else "min", p["obj"], [
        "%s %s %s" % (a, {"L": "<=", "G": ">=", "E": "="}[s], b) for a, s, b in zip(p["A"], p["sense"], p["rhs"])], list(zip(p["low"], p["up"])))


@st.composite
def regions(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.sampled_from([2, 3, 4, 3, 6, 9, 1]))
        m = draw(st.sampled_from([1, 2, 3, 4, 6, 10, 25, 1, 2, 3, 4, 0]))
        sc = draw(st.sampled_from([1, 10, 0.1, 1000, 1]))
        num = draw(st.sampled_from([st.integers(-10, 10), st.integers(0, 10), st.integers(-2, 2), st.integers(-1000, 1000).map(lambda v: v / 100)]))
        L = [[draw(num) * sc for _ in range(n)] for _ in range(m)]
        if draw(st.booleans()):
            # tangents of a convex bowl: every vector counts
            L = [[sum((x - k * 3) ** 2 for k, x in zip(range(n), t)) * 0 + 2 * sum(a * a for a in t) * -0.5 + t[i] * 4 for i in range(n)] for t in L]
            L = [[v / max(1.0, max(abs(x) for x in l)) for v in l] for l in L]
        how = draw(st.sampled_from(["new", "member", "mixture", "lift", "new", "dominated", "zeros"])) if m else "new"
        if how == "new":
            a = [draw(num) * sc for _ in range(n)]
        elif how == "zeros":
            a = [0] * n
        elif how == "member":
            a = list(L[draw(st.integers(0, m - 1))])
        else:
            w = [draw(st.integers(0, 4)) for _ in range(min(m, 4))]
            w[0] += 1
            a = [sum(w[k] * L[k][i] for k in range(len(w))) / sum(w) for i in range(n)]
            if how == "lift":
                a = [v + draw(st.sampled_from([0, 0.5, 1e-2, 1e-3, -0.5])) for v in a]
            if how == "dominated":
                a = [v - draw(st.sampled_from([0, 0, 0.5, 1])) for v in a]
        out.append({"a": a, "L": L, "how": how, "eps": draw(st.sampled_from([1e-9, 1e-9, 1e-9, 1e-6, 0.01, 0.5]))})
    return {"q": out}


def judge_region(c, ctx):
    f = lambda l: " ".join(repr(float(v)) for v in l)
    res = run(ctx, "".join("R %d %d %r %s\n%s\n" % (len(q["a"]), len(q["L"]), q["eps"], f(q["a"]), "\n".join(f(l) for l in q["L"])) for q in c["q"]),
              len(c["q"]), "asan")
    labels, unsure = set(), 0
    for q, w in zip(c["q"], res):
        a, L = np.array(q["a"], float), np.array(q["L"], float)
        n = len(a)
        if not len(L):
            # nothing to beat: any belief is a witness
            b = np.array([float(t) for t in w[4:]])
            if w[1] != "1" or abs(b.sum() - 1) > 1e-9 or b.min() < 0:
                raise Violation("against the empty list: found %s, witness %s" % (w[1], b.tolist()))
            labels.add("empty list")
            continue
        D = L - a
        ref = linprog(np.r_[np.zeros(n), -1.0], A_ub=np.hstack([D, np.ones((len(D), 1))]), b_ub=np.zeros(len(D)),
                      A_eq=[np.r_[np.ones(n), 0.0]], b_eq=[1.0], bounds=[(0, None)] * n + [(None, None)], method="highs")
        if ref.status != 0:
            unsure += 1
            continue
        best = -ref.fun
        noise = 1e-7 * max(1.0, np.abs(L).max(), np.abs(a).max())
        found, unstable_, diff = int(w[1]), int(w[2]), float(w[3])
        b = np.array([float(t) for t in w[4:]])
        what = "vector %s against %s (epsilon %g, best advantage %.9g)" % (q["a"], q["L"], q["eps"], best)
        if found:
            if abs(b.sum() - 1) > 1e-6 or b.min() < -1e-6:
                raise Violation("%s: the witness %s is not a belief" % (what, b.tolist()))
            d = float((a @ b - L @ b).min())
            if d < min(q["eps"], q["eps"] - noise) or d < 0 and d < -noise:
                raise Violation("%s: at the witness %s the advantage is only %.9g" % (what, b.tolist(), d))
            if abs(diff - best) > noise * 10 and not unstable_:
                raise Violation("%s: the advantage is reported as %.9g" % (what, diff))
            labels.add("found")
        elif best > q["eps"] + 10 * noise:
            if unstable_:
                unsure += 1
                continue
            raise Violation("%s: no region is found" % what)
        else:
            labels.add("none" if best < q["eps"] - noise else "close")
            if diff != -7 and abs(diff - best) > 10 * noise and best > noise and not unstable_:
                raise Violation("%s: the advantage is reported as %.9g" % (what, diff))
        if not found and best < -noise:
            labels.add("below everywhere")
    if unsure == len(c["q"]):
        raise Inconclusive("unstable")
    return {"nontrivial": "found" in labels and max(len(q["L"]) for q in c["q"]) > 1, "labels": sorted(labels) + (["unstable"] if unsure else [])}


# ------------------------------------------------ questions of the size that larger models ask

@st.composite
def big_regions(draw):
    return {"n": draw(st.sampled_from([8, 6, 10, 12, 14])), "m": draw(st.sampled_from([40, 20, 80, 120])), "scale": draw(st.sampled_from([1.0, 10.0, 100.0])),
            "bump": draw(st.sampled_from([0.0, 0.01, 0.1])), "seed": draw(st.integers(0, 10**6))}


def questions(c):
    """Tangents of a convex function on the simplex, moved a little: nearly every one is best somewhere."""
    rng = np.random.RandomState(c["seed"])
    n, m = c["n"], c["m"]
    out = []
    for k in range(BATCH):
        P = rng.dirichlet(np.full(n, rng.choice([0.5, 1.0, 3.0])), size=m + 1)
        V = c["scale"] * (2 * P - (P ** 2).sum(axis=1, keepdims=True) + c["bump"] * rng.uniform(-1, 1, size=P.shape))
        a = V[m]
        if k % 3 == 2:
            a = rng.dirichlet(np.ones(m)) @ V[:m] - 0.01 * c["scale"]
        out.append((a, V[:m]))
    return out


BATCH = 24


def judge_big(c, ctx):
    f = lambda l: " ".join(repr(float(v)) for v in l)
    Q = questions(c)
    res = run(ctx, "".join("R %d %d %r %s\n%s\n" % (len(a), len(L), 1e-9, f(a), "\n".join(f(l) for l in L)) for a, L in Q), len(Q), "plain")
    found_n = unsure = should = 0
    for (a, L), w in zip(Q, res):
        n = len(a)
        ref = linprog(np.r_[np.zeros(n), -1.0], A_ub=np.hstack([L - a, np.ones((len(L), 1))]), b_ub=np.zeros(len(L)),
                      A_eq=[np.r_[np.ones(n), 0.0]], b_eq=[1.0], bounds=[(0, None)] * n + [(None, None)], method="highs")
        best, noise = -ref.fun, 1e-7 * max(1.0, np.abs(L).max())
        found, warned, diff = int(w[1]), int(w[2]), float(w[3])
        b = np.array([float(t) for t in w[4:]])
        what = "%d states, %d vectors, best advantage %.9g" % (n, len(L), best)
        should += best > 1e-9 + 10 * noise
        if found:
            found_n += 1
            if abs(b.sum() - 1) > 1e-6 or b.min() < -1e-6:
                raise Violation("%s: the witness %s is not a belief" % (what, b.tolist()))
            d = float((a @ b - L @ b).min())
            if d < -noise or best < -noise:
                raise Violation("%s: at the witness %s the advantage is only %.9g" % (what, b.tolist(), d))
        elif best > 1e-9 + 10 * noise:
            unsure += 1
            if not warned:
                raise Violation("%s: no region is found" % what)
    if unsure > max(2, should // 3):
        raise Violation("%d of %d regions are missed with warnings of numerical instability" % (unsure, should))
    return {"nontrivial": found_n > 1, "labels": ["missed=%d" % unsure if unsure else "all found", "m=%d" % c["m"]]}


main = Check("P20", [
    Part("programs", programs(), judge_lp, 2500, 80000, ("asan",), ("lpcheck",)),
    Part("large", big_regions(), judge_big, 100, 5000, ("plain",), ("lpcheck",)),
    Part("regions", regions(), judge_region, 2500, 80000, ("asan",), ("lpcheck",)),
], rule="small linear programs (all senses, bounds, sparse and dense, feasible, infeasible, unbounded, degenerate), several one after the other in one process, "
        "against HiGHS: status, feasibility and value of the solution, optimum; and region questions (vector against a list, 1-9 states, up to 25 "
        "vectors): found exactly when the best advantage exceeds epsilon, with a belief that has it. Non-trivial: several programs with an optimum; a region "
        "found against several vectors.",
    assumptions=["tolerance 1e-7 relative to the data; problems whose status changes within it are undecided",
                 "a region missed while lp_solve reports numerical instability decides nothing"]).main
if __name__ == "__main__":
    main()
