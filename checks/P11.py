"""The finite grid method: which beliefs the grid has, and exact backups at them."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *


def beliefs(text, n):
    rows = []
    for line in text.split("\n"):
        if line.strip():
            rows.append([float(x) for x in line.split()])
            if len(rows[-1]) != n:
                raise Violation("belief file has a row of %d numbers for %d states" % (len(rows[-1]), n))
    return np.array(rows)


def close(x, l, eps):
    """x is in list l (equal within eps in every coordinate); undecided near the threshold."""
    if not len(l):
        return False
    d = np.abs(np.array(l) - x).max(axis=1).min()
    if 0.5 * eps < d < 2 * eps or (eps <= 1e-9 and 1e-12 < d < 1e-6):
        raise Inconclusive("beliefs almost the same")
    return d <= eps


def successors(M, b):
    for a in range(M.nA):
        for z in range(M.nO):
            x = b @ M.P[a, z]
            p = x.sum()
            if 0 < p < 1e-6:
                raise Inconclusive("observation almost impossible")
            if p > 0:
                yield x / p


def reference_grid(M, kind, points, eps, start):
    n = M.nS
    if kind in ("simplex", "pairwise"):
        l = [np.eye(n)[i] for i in range(n)]
        if kind == "pairwise":
            l += [(np.eye(n)[i] + np.eye(n)[j]) / 2 for i in range(n) for j in range(i)]
        return l
    if kind == "initial":
        l = [start]
    else:
        l = [np.full(n, 1.0 / n)]
        for a in range(M.nA):
            for z in range(M.nO):
                w = M.O[a, :, z] > 0
                if w.any() and len(l) < points and not close(w / w.sum(), l, eps):
                    l.append(w / w.sum())
    i = 0
    while i < len(l) and len(l) < points:
        for x in successors(M, l[i]):
            if len(l) < points and not close(x, l, eps):
                l.append(x)
        i += 1
    return l


@st.composite
def cases(draw):
    c = {"m": draw(models(s=(3, 2, 4, 5, 3, 2, 1), a=(2, 3), o=(2, 3, 2, 1), discounts=st.sampled_from([0.9, 0.5, 0.95, 0.75, 0.3])))}
    n = c["m"]["nS"]
    if draw(st.booleans()):
        c["m"]["start"] = draw(weights(n))
    c["type"] = draw(st.sampled_from(["search", "initial", "pairwise", "simplex", None, "search", "initial"]))
    c["points"] = draw(st.sampled_from([8, 5, 12, 20, 35, 3, 7, 15, 2, 1]))
    c["eps"] = draw(st.sampled_from([None, None, "1e-9", "1e-7", "0.01", "0.1", "0.3"]))
    c["h"] = draw(st.sampled_from([3, 1, 2, 5, None, None]))
    c["delta"] = draw(st.sampled_from(["0.01", "1", "1e-4", None]))
    o = {}
    for k, v in (("fg_purge", ["none", "domonly", "normal_prune"]), ("proj_purge", ["none", "domonly", "normal_prune"]),
                 ("stop_criteria", ["exact", "weak", "bellman"]), ("dom_check", ["true", "false"]),
                 ("witness_points", ["true", "false"]), ("prune_rand", [0, 5])):
        if draw(st.sampled_from([False, True])):
            o[k] = draw(st.sampled_from(v))
    c["opts"] = o
    if draw(st.sampled_from([False, False, True])):
        c["tv"] = draw(st.lists(st.lists(st.integers(-30, 30), min_size=n, max_size=n), min_size=1, max_size=4))
    return c


def judge(c, ctx):
    M = Model(c["m"])
    o = dict(c["opts"], method="grid", save_all="true", fg_save="true", fg_points=c["points"])
    kind = c["type"] or "initial"
    if c["type"]:
        o["fg_type"] = c["type"]
    eps = float(c["eps"] or 1e-9)
    if c["eps"]:
        o["fg_epsilon"] = c["eps"]
    if c["h"]:
        o["horizon"] = c["h"]
    if c["delta"]:
        o["stop_delta"] = c["delta"]
    tv = [[0.0] * M.nS]
    if c.get("tv"):
        tv = sorted(set(map(tuple, c["tv"])))
        ctx.write("tv.alpha", alpha_text([(0, v) for v in c["tv"]]))
        o["terminal_values"] = "tv.alpha"
        tv = c["tv"]
    start = np.array(c["m"].get("start") or [1] * M.nS, float)
    start /= start.sum()
    ref = np.array(reference_grid(M, kind, c["points"], eps, start))
    r = solve(ctx, M.text(), o, cpu=6, hang=False)
    if "Solution found" not in r.out:
        raise Violation("ended without 'Solution found'")
    if not ctx.exists("m.belief"):
        raise Violation("-fg_save true wrote no m.belief")
    G = beliefs(ctx.read("m.belief"), M.nS)
    if G.shape != ref.shape or np.abs(G - ref).max() > 1e-8:
        raise Violation("-fg_type %s made the grid %s, expected %s" % (kind, np.round(G, 6).tolist(), np.round(ref, 6).tolist()))
    n = n_epochs(r)
    if n < 1 or c["h"] and n > c["h"]:
        raise Violation("%d epochs for -horizon %s" % (n, c["h"]))
    bound = float(c["delta"] or 1e-9) * (1 - M.g) / (2 * M.g)
    prev, prevV = np.array(tv, float), None
    for k, (al, pg) in enumerate(epoch_files(ctx, M, n), 1):
        V = vecs(al)
        what = "epoch %d" % k
        if not 1 <= len(V) <= len(G):
            raise Violation("%s: %d vectors for a grid of %d points" % (what, len(V), len(G)))
        got, want = value(V, G), M.backup(prev, G)
        d = np.abs(got - want)
        i = int(d.argmax())
        if d[i] > 3e-8 * max(1, np.abs(V).max(), np.abs(prev).max()):
            raise Violation("%s: value at grid point %s is %.12g, the backup gives %.12g" % (
                what, G[i].tolist(), got[i], want[i]))
        check_links(M, prev, al, pg, what)
        for i in range(len(V)):
            if (np.abs(V[:i] - V[i]).max(axis=1, initial=0) < 1e-12).any() if i else False:
                raise Violation("%s: vector %d is there twice" % (what, i))
        change = np.abs(value(V, G) - value(prev, G)).max()
        sc = 1e-7 * max(1, np.abs(V).max())
        if k < n and change < bound * 0.999999 - sc:
            raise Violation("%s: largest change at a grid point is %g (allowed %g), but epochs went on" % (what, change, bound))
        if k == n and (c["h"] is None or n < c["h"]) and change > bound * 1.000001 + sc:
            raise Violation("stopped after epoch %d though a grid point changed by %g (allowed %g)" % (k, change, bound))
        prev = V
    if ctx.read("m.alpha") != ctx.read("m.alpha%d" % n) or ctx.read("m.pg") != ctx.read("m.pg%d" % n):
        raise Violation("the solution files differ from those of the last epoch")
    return {"nontrivial": len(G) > 2 and len(prev) > 1 and n > 1,
            "labels": ["type=" + kind, "grid=%d" % min(len(G), 36), "vectors=%d" % min(len(prev), 12), "horizon=%s" % c["h"],
                       "eps=%s" % c["eps"], "full" if len(G) == c["points"] else "exhausted"]}


main = Check("P11", [Part("grid", cases(), judge, 1000, 40000)],
             rule="random POMDP x grid type x number of points x grid epsilon x purging x stopping; the saved grid is compared "
                  "with an independent breadth-first construction, and every epoch's vectors with the exact backup of the "
                  "previous epoch's at every grid point. Non-trivial: more than two grid points, vectors and epochs > 1.",
             assumptions=["grids with almost equal beliefs or almost impossible observations decide nothing"]).main
if __name__ == "__main__":
    main()
