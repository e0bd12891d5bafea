"""Option combinations of the exact methods, and the per-epoch oracle."""
import random
import numpy as np
from hypothesis import strategies as st
from vlib.core import Hang, Inconclusive, Violation
from vlib.pomdp import *

METHODS = ["enum", "twopass", "witness", "incprune"]
BOOL = st.sampled_from(["true", "false"])


@st.composite
def exact_opts(draw, methods=METHODS, weak=True, common=True):
    m = draw(st.sampled_from(list(methods)))
    o = {"method": m}
    flip = lambda: draw(st.booleans())
    if m == "incprune" and flip():
        o["inc_prune"] = draw(st.sampled_from(["normal", "restricted_region", "generalized"]))
    purge = ["normal_prune", "domonly", "none"] if weak else ["normal_prune"]
    if flip():
        o["proj_purge"] = draw(st.sampled_from(["normal_prune", "domonly", "none"]))
    if m != "enum" and flip():
        o["q_purge"] = draw(st.sampled_from(purge))
    if m == "enum" and flip():
        o["enum_purge"] = draw(st.sampled_from(purge))
    for k, vals in (("witness_points", ["true", "false"]), ("dom_check", ["true", "false"]),
                    ("alg_rand", [0, 3, 40]), ("prune_rand", [0, 3, 40]),
                    ("epsilon", ["1e-9", "1e-10", "1e-8"]), ("rand_seed", ["1:2:3", "99:7:31"])):
        if common and draw(st.sampled_from([False, False, True])):
            o[k] = draw(st.sampled_from(vals))
    return o


def weak_final(o):
    """The final vector list is not pruned to a parsimonious one."""
    k = "enum_purge" if o.get("method") == "enum" else "q_purge"
    return o.get(k, "normal_prune") != "normal_prune"


def horizon_cap(M, o, h, cap=1500):
    """Largest horizon <= h whose unpruned enumeration stays below cap.

    twopass visits every combination of projection vectors as well: each is a neighbour of another."""
    if not weak_final(o) and o.get("method") not in ("enum", "twopass"):
        return h
    n = 1
    for k in range(1, h + 1):
        nxt = M.nA * n ** M.nO
        if nxt > cap:
            return max(1, k - 1)
        if weak_final(o):
            n = nxt
        else:
            n = min(nxt, 25)     # pruned lists of these sizes stay small
    return h


def n_epochs(r):
    return sum(1 for l in r.out.split("\n") if l.startswith("Epoch: "))


def tol(*arrays):
    return 1e-8 * max([1.0] + [float(np.abs(a).max()) for a in arrays if np.size(a)])


def unstable(r):
    """The program itself warns that some of its linear programs were numerically unstable."""
    return "numerical instability" in r.out + r.err


def near_tie(M, prev, b, rel=1e-5):
    """At belief b the best backup vector and the next one that differs from it are within rel."""
    G = M.project(prev)
    q = M.backup_q(prev, b[None])[:, 0]
    s = np.sort(q)[::-1]
    lim = rel * max(1.0, np.abs(prev).max(), np.abs(q).max())
    if len(s) > 1 and s[0] - s[1] < lim:
        return True
    a = int(q.argmax())
    for z in range(M.nO):
        v = G[a, z] @ b
        i = int(v.argmax())
        if any(v[i] - v[j] < lim and np.abs(G[a, z, i] - G[a, z, j]).max() > 1e-9 for j in range(len(v))):
            return True
    return False


def check_value(M, prev, alphas, what, slack=1000.0, excuse_ties=False, warned=False):
    """alphas is exactly the one-step backup of prev as a function on the belief simplex.

    Values too high are wrong vectors (1e-8 relative); slack multiplies that tolerance for values
    too low, because vectors may be lost within the precision of the linear programs.  With
    excuse_ties a larger loss is left undecided when, wherever it is large, two distinct vectors
    are within that precision of each other (restricted region comparison can drop both)."""
    V = vecs(alphas)
    if len(V) == 0:
        raise Violation("%s: empty solution" % what)
    B, complete = test_beliefs(V, n=M.nS)
    got, want = value(V, B), M.backup(prev, B)
    d = got - want
    k = int(np.argmax(np.where(d > 0, d, -d / slack)))
    if d[k] > tol(V, prev) or -d[k] > slack * tol(V, prev):
        if warned and d[k] < 0:
            raise Inconclusive("program warns of unstable LPs")
        if excuse_ties and d[k] < 0 and all(near_tie(M, prev, B[i]) for i in np.where(d < d[k] / 2)[0]):
            raise Inconclusive("near tie within LP precision")
        raise Violation("%s: value at belief %s is %.12g, the exact backup gives %.12g" % (
            what, np.round(B[k], 6).tolist(), got[k], want[k]))
    return complete


def check_links(M, prev, alphas, pg, what):
    """Every node of the policy graph reproduces its vector; gaps only for impossible observations."""
    if len(pg) != len(alphas):
        raise Violation("%s: policy graph has %d nodes for %d vectors" % (what, len(pg), len(alphas)))
    for k, (a, v) in enumerate(alphas):
        pa, nx = pg[k]
        if not 0 <= a < M.nA:
            raise Violation("%s: vector %d has action %d of %d" % (what, k, a, M.nA))
        if pa != a:
            raise Violation("%s: node %d has action %d, its vector has action %d" % (what, k, pa, a))
        w = M.r[a].copy()
        for z in range(M.nO):
            if isinstance(nx[z], str):
                if M.P[a, z].max() > 0:
                    raise Violation("%s: node %d (action %d) has no successor for possible observation %d" % (
                        what, k, a, z))
                continue
            if not 0 <= nx[z] < len(prev):
                raise Violation("%s: node %d has successor %d of %d vectors" % (what, k, nx[z], len(prev)))
            w += M.g * M.P[a, z] @ prev[nx[z]]
        if np.abs(w - np.array(v)).max() > tol(prev, v):
            raise Violation("%s: node %d (action %d, successors %s) computes %s, its vector is %s" % (
                what, k, a, nx, np.round(w, 9).tolist(), v))


def check_parsimonious(alphas, what):
    """No vector is a duplicate, and each is best somewhere (one LP per vector)."""
    from scipy.optimize import linprog
    V = vecs(alphas)
    sc = max(1.0, np.abs(V).max())
    if len(V) == 1:
        return 0.0
    worst = np.inf
    for i in range(len(V)):
        for j in range(i):
            if np.abs(V[i] - V[j]).max() < 1e-11:
                raise Violation("%s: vectors %d and %d are the same: %s" % (what, j, i, V[i].tolist()))
    n = V.shape[1]
    for i in range(len(V)):
        D = np.delete(V, i, 0) - V[i]
        # maximise d with (alpha_i - alpha_j).b >= d
        res = linprog(np.r_[np.zeros(n), -1.0], A_ub=np.hstack([D, np.ones((len(D), 1))]), b_ub=np.zeros(len(D)),
                      A_eq=[np.r_[np.ones(n), 0.0]], b_eq=[1.0], bounds=[(0, None)] * n + [(None, None)],
                      method="highs")
        if res.status != 0:
            raise Inconclusive("reference LP")
        d = -res.fun
        worst = min(worst, d)
        if d < -1e-7 * sc:
            raise Violation("%s: vector %d %s is nowhere best (at most %.3g below the others)" % (
                what, i, V[i].tolist(), -d))
        if d < 1e-9 * sc:
            # best only in a tie with others?  then a mixture of the others is as good everywhere and better somewhere
            W = np.delete(V, i, 0)
            m = len(W)
            r2 = linprog(np.r_[np.zeros(m), -np.ones(n)], A_ub=np.hstack([-W.T, np.eye(n)]), b_ub=-V[i] + 1e-11 * sc,
                         A_eq=[np.r_[np.ones(m), np.zeros(n)]], b_eq=[1.0], bounds=[(0, None)] * (m + n), method="highs")
            if r2.status == 0 and -r2.fun > 1e-3 * sc:
                raise Violation("%s: vector %d %s is best only in ties with others that are better elsewhere" % (
                    what, i, V[i].tolist()))
    return worst


@st.composite
def exact_cases(draw, hmax=4, weak=True, methods=METHODS, **kw):
    m = draw(models(**kw))
    o = draw(exact_opts(weak=weak, methods=methods))
    return {"m": m, "opts": o, "h": draw(st.sampled_from([2, 3, 1] + list(range(3, hmax + 1))))}


def run_epochs(c, ctx, variant="plain", **kw):
    """Runs a case with -save_all; returns (Model, epochs, horizon asked, result)."""
    M = Model(c["m"])
    o = dict(c["opts"])
    h = horizon_cap(M, o, c["h"])
    o["save_all"], o["horizon"] = "true", h
    r = solve(ctx, M.text(), o, variant=variant, **kw)
    n = n_epochs(r)
    if n < 1 or n > h:
        raise Violation("%d epochs run for -horizon %d" % (n, h))
    if "Solution found" not in r.out:
        raise Violation("no 'Solution found' in the output")
    return M, epoch_files(ctx, M, n), h, r


# ---------------------------------------------- many states, actions or observations

SIZES = [(2, 3, 35), (3, 2, 70), (2, 35, 3), (2, 120, 2), (35, 2, 2), (70, 2, 2), (3, 11, 11), (11, 11, 2), (1, 3, 130), (130, 3, 1)]


@st.composite
def wide_cases(draw, weak=False, discounts=(0.9, 0.5, 0.95, 1.0), sizes=SIZES):
    """Cases of run_epochs() by a seed; widen() makes the model."""
    o = draw(exact_opts(methods=["incprune", "witness", "incprune", "twopass"], weak=weak))
    return {"seed": draw(st.integers(0, 2 ** 30)), "h": draw(st.sampled_from([2, 2, 3])), "opts": o, "g": draw(st.sampled_from(discounts)),
            "size": draw(st.sampled_from(sizes))}


def widen(c):
    return dict(c, m=big_model(random.Random(c["seed"]), *c["size"], discount=c["g"]))


def wide_label(c):
    return "size=%d/%d/%d" % tuple(c["size"])
