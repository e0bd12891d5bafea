"""An infinite-horizon run that reports a solution has converged."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

disc = st.sampled_from([0.5, 0.75, 0.3, 0.9, 0.1])


@st.composite
def cases(draw, terminal):
    m = draw(models(discounts=disc, s=(2, 3, 1), a=(2, 3, 1), o=(2, 1, 2)))
    c = {"m": m, "opts": draw(exact_opts(weak=False)),
         "crit": draw(st.sampled_from(["weak", "bellman", "exact", None])),
         "delta": draw(st.sampled_from(["1e-9", "1e-6", "0.001", "0.1", "1", None]))}
    if terminal:
        num = st.integers(-40, 40)
        c["tv"] = draw(st.lists(st.lists(num, min_size=m["nS"], max_size=m["nS"]), min_size=1, max_size=4))
    return c


def judge(c, ctx):
    M = Model(c["m"])
    o = dict(c["opts"])
    if c["crit"]:
        o["stop_criteria"] = c["crit"]
    if c["delta"]:
        o["stop_delta"] = c["delta"]
    if c.get("tv"):
        ctx.write("tv.alpha", alpha_text([(0, v) for v in c["tv"]]))
        o["terminal_values"] = "tv.alpha"
    r = solve(ctx, M.text(), o, cpu=6, hang=False)
    if "Solution found" not in r.out:
        raise Violation("ended without 'Solution found':\n" + r.out[-400:])
    V = vecs(parse_alpha(ctx.read("m.alpha"), M.nS))
    B, complete = test_beliefs(V, n=M.nS)
    T = M.backup(V, B)
    d = np.abs(T - value(V, B))
    delta = float(c["delta"] or 1e-9)
    # documented rule: sup |V_n - V_(n-1)| <= delta (1-g)/(2g), so |T V_n - V_n| <= delta (1-g)/2
    bound = 4e-9 if c["crit"] == "exact" else delta * (1 - M.g) / 2
    noise = 1e-5 * max(1.0, np.abs(V).max())
    k = int(d.argmax())
    if d[k] > bound * 1.000001 + noise:
        if o.get("inc_prune", "normal") != "normal" and all(near_tie(M, V, B[i]) for i in np.where(d > d[k] / 2)[0]):
            # these variations may drop vectors that tie within the precision of the linear programs
            raise Inconclusive("near tie within LP precision")
        raise Violation("solution reported after %d epochs, but at belief %s the next epoch changes the value by %g "
                        "(allowed %g)" % (n_epochs(r), np.round(B[k], 5).tolist(), d[k], bound))
    return {"nontrivial": n_epochs(r) > 2 and len(V) > 1,
            "labels": ["criterion=%s" % c["crit"], "delta=%s" % c["delta"], "discount=%g" % M.g,
                       "method=" + o["method"], "vectors=%d" % min(len(V), 10), "epochs=1e%d" % (len(str(n_epochs(r))) - 1)]}


main = Check("P03", [
    Part("default", cases(False), judge, 450, 15000),
    Part("terminal", cases(True), judge, 450, 15000),
], rule="random POMDP x exact method x stopping criterion x stop_delta x optional terminal values, run without horizon; "
        "the Bellman residual of the final vectors is computed at every vertex of their region partition. Non-trivial: "
        "more than two epochs and more than one vector.",
    assumptions=["tolerance 1e-5 relative beyond the documented bound", "runs above 6 s of CPU time decide nothing"]).main
if __name__ == "__main__":
    main()
