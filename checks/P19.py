"""The ZLZ speedup: improves towards the same fixed point, never past it."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

disc = st.sampled_from([0.5, 0.75, 0.9, 0.3, 0.1, 0.95])


@st.composite
def cases(draw, end):
    m = draw(models(sense=True, discounts=disc, s=(2, 3, 2, 1), a=(2, 3, 1), o=(2, 1, 2, 3) if not end else (2, 1, 2)))
    o = draw(exact_opts(weak=False, methods=["incprune", "witness", "twopass", "enum"]))
    o["vi_variation"] = "zlz"
    c = {"m": m, "opts": o, "delta": draw(st.sampled_from([None, "1e-6", "0.001", "0.1", "1"]))}
    if not end:
        c["h"] = draw(st.sampled_from([2, 1, 3, 4]))
        c["low"] = draw(st.sampled_from([0, 1, 20]))
    elif draw(st.booleans()):
        c["tv"] = draw(st.lists(st.lists(st.integers(-40, 40), min_size=m["nS"], max_size=m["nS"]), min_size=1, max_size=4))
    return c


def above(x, y, B, what, noise):
    """x is nowhere lower than y; returns the largest excess."""
    d = value(x, B) - (y if y.ndim == 1 else value(y, B))
    k = int(d.argmin())
    if d[k] < -noise:
        raise Violation("%s by %g at belief %s" % (what, -d[k], np.round(B[k], 6).tolist()))
    return d.max()


def zsolve(ctx, text, o, cpu, few):
    """Runs the solver; a speedup of few vectors that is still going on when all before it took a tenth of the time does not end.

    With three states it can be slow in earnest: it collects a thousand vectors on its way to the optimal value function."""
    ctx.write("m.POMDP", text)
    args = ["-pomdp", "m.POMDP", "-o", "m"] + opt_args(o)
    for limit in (cpu, 40):
        r = ctx.run("pomdp-solve", args, cpu=limit)
        if not r.timeout:
            return solve(ctx, text, o, cpu=limit, hang=False)
        last = r.out.splitlines()[-1]
        dp = re.findall(r"^Epoch: (\d+)\.\.\.(\d+).* in ([0-9.]+) secs", r.out, re.M)
        before = [float(x) for x in re.findall(r"\(([0-9.]+) total\)", r.out)]
        if not re.match(r"  ZLZ: \.*$", last) or not dp or not few or int(dp[-1][1]) > 100 or float(dp[-1][2]) + max(before, default=0) > 0.1 * cpu:
            raise Inconclusive("CPU limit of %d s" % limit)
    raise Hang("the speedup of epoch %s did not end within %d s of CPU time; the vectors of that epoch took %s s" % (dp[-1][0], limit, dp[-1][2]))


def near_dup(V, lim):
    """Two vectors are within lim of each other."""
    return any(np.abs(V[i + 1:] - V[i]).max(axis=1).min() < lim for i in range(len(V) - 1))


def judge_end(c, ctx):
    M = Model(c["m"])
    o = dict(c["opts"])
    if c["delta"]:
        o["stop_delta"] = c["delta"]
    if c.get("tv"):
        ctx.write("tv.alpha", alpha_text([(0, v) for v in c["tv"]]))
        o["terminal_values"] = "tv.alpha"
    r = zsolve(ctx, M.text(), o, 5, M.nS <= 2)
    if "Solution found" not in r.out:
        raise Violation("ended without 'Solution found':\n" + r.out[-400:])
    V = vecs(parse_alpha(ctx.read("m.alpha"), M.nS))
    if n_epochs(r) == o.get("horizon"):
        return {"nontrivial": False, "labels": ["ended at the horizon"]}
    B, complete = test_beliefs(V, n=M.nS)
    d = np.abs(M.backup(V, B) - value(V, B))
    bound = float(c["delta"] or 1e-9) * (1 - M.g) / 2
    k = int(d.argmax())
    if d[k] > bound * 1.000001 + 1e-5 * max(1.0, np.abs(V).max()):
        if unstable(r) or o.get("inc_prune", "normal") != "normal" and all(near_tie(M, V, B[i]) for i in np.where(d > d[k] / 2)[0]):
            raise Inconclusive("near tie within LP precision")
        raise Violation("solution reported after %d epochs, but at belief %s the next epoch changes the value by %g (allowed %g)" % (
            n_epochs(r), np.round(B[k], 5).tolist(), d[k], bound))
    return {"nontrivial": "ZLZ:" in r.out and len(V) > 1 and n_epochs(r) > 1,
            "labels": ["delta=%s" % c["delta"], "discount=%g" % M.g, "method=" + o["method"], "vectors=%d" % min(len(V), 10),
                       "epochs=%s" % (n_epochs(r) if n_epochs(r) < 6 else "6+"), "terminal values %s" % bool(c.get("tv"))]}


def judge_improve(c, ctx):
    M = Model(c["m"])
    o = dict(c["opts"])
    h = min(horizon_cap(M, o, c["h"]), 2 if o["method"] in ("enum", "twopass") else 9)
    if c["delta"]:
        o["stop_delta"] = c["delta"]
    # a start that value iteration only improves
    low = float(np.floor(M.r.min() / (1 - M.g))) - c["low"]
    ctx.write("tv.alpha", alpha_text([(0, [low] * M.nS)]))
    o.update(terminal_values="tv.alpha", horizon=h, save_all="true")
    r = zsolve(ctx, M.text(), o, 8, M.nS <= 2)
    warned = unstable(r) or o.get("inc_prune", "normal") != "normal"
    n = n_epochs(r)
    if not 1 <= n <= h:
        raise Violation("%d epochs for horizon %d" % (n, h))
    if any(ctx.exists("m.pg%d" % i) for i in range(n + 1)):
        raise Violation("the policy graph of an epoch is written though its links do not belong to a saved epoch")
    Z = [vecs(parse_alpha(ctx.read("m.alpha%d" % (i + 1)), M.nS)) for i in range(n)]
    F = vecs(parse_alpha(ctx.read("m.alpha"), M.nS))
    if not all(len(z) for z in Z) or not len(F):
        raise Violation("empty solution")
    p = dict(c["opts"], vi_variation="normal", method="incprune", inc_prune="normal", terminal_values="tv.alpha", horizon=n, save_all="true",
             stop_criteria="exact")
    r2 = solve(ctx, M.text(), p, cpu=8, hang=False, prefix="p")
    n2 = n_epochs(r2)
    warned = warned or unstable(r2)
    P = [vecs(parse_alpha(ctx.read("p.alpha%d" % (i + 1)), M.nS)) for i in range(n2)]
    # a bound on the optimal value: plain value iteration, and what may be missing to its fixed point
    p = dict(p, stop_criteria="bellman", stop_delta="0.01")
    del p["horizon"], p["save_all"], p["terminal_values"]
    U = vecs(parse_alpha(solve(ctx, M.text(), p, cpu=6, hang=False, prefix="u") and ctx.read("u.alpha"), M.nS))
    B, _ = test_beliefs(U, n=M.nS)
    top = max(0.0, (M.backup(U, B) - value(U, B)).max()) / (1 - M.g)
    sc = max(1.0, np.abs(F).max(), abs(low))
    noise = 1e-5 * sc
    gain = 0.0
    try:
        B, _ = test_beliefs(Z[0], n=M.nS)
        d = np.abs(value(Z[0], B) - M.backup(np.array([[low] * M.nS]), B)).max()
        if d > noise:
            raise Violation("epoch 1 differs from the exact backup of the terminal values by %g" % d)
        for i, z in enumerate(Z + [F]):
            what = "epoch %d" % (i + 1) if i < n else "m.alpha"
            B, _ = test_beliefs(z, P[min(i, n2 - 1)], n=M.nS)
            gain = max(gain, above(z, P[min(i, n2 - 1)], B, "%s is worse than plain value iteration" % what, noise))
            if i == n:
                above(z, Z[-1], B, "m.alpha is worse than epoch %d" % n, noise)
            d = value(z, B) - value(U, B) - top
            k = int(d.argmax())
            if d[k] > noise:
                raise Violation("%s: the value %.9g at belief %s is more than any policy gets: at most %.9g" % (
                    what, value(z, B)[k], np.round(B[k], 6).tolist(), value(U, B)[k] + top))
    except Violation:
        # the speedup leaves vectors of the same limit that are not yet equal, and lp_solve fails on nearly equal rows
        if warned or any(near_dup(z, 1e-6 * sc) for z in Z + [F]):
            raise Inconclusive("vectors may be lost within the LP precision")
        raise
    return {"nontrivial": gain > 1e-3 and len(F) > 1,
            "labels": ["method=" + o["method"], "epochs=%d" % n, "discount=%g" % M.g,
                       "gain %s" % ("none" if gain < 1e-3 else "some"), "vectors=%d" % min(len(F), 10)]}


main = Check("P19", [
    Part("converged", cases(True), judge_end, 400, 15000),
    Part("improving", cases(False), judge_improve, 450, 15000),
], rule="random discounted POMDP x exact method with -vi_variation zlz. Converged: the Bellman residual of the reported solution is within "
        "the documented bound at every vertex of its region partition. Improving, from terminal values below every policy's value: every saved "
        "epoch and the final vectors are nowhere below plain value iteration of as many epochs, and nowhere above the optimal value (bounded by "
        "the converged plain solution and its residual). Non-trivial: the speedup ran (converged) or gained over plain value iteration (improving), more than one vector.",
    assumptions=["tolerance 1e-5 relative", "runs above 5-8 s of CPU time, or with unstable LPs or nearly equal vectors, decide nothing, except that a speedup of at most 100 vectors over two states that goes on for 40 s after vectors that took less than a tenth of that never ends"]).main
if __name__ == "__main__":
    main()
