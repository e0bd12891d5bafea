"""Every epoch of every exact method is the exact dynamic-programming backup."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *


def judge(c, ctx, slack=1000.0, **kw):
    M, es, h, r = run_epochs(c, ctx, **kw)
    prev = np.zeros((1, M.nS))
    complete = True
    warned = unstable(r)
    for i, (al, pg) in enumerate(es):
        complete &= check_value(M, prev, al, "epoch %d" % (i + 1), slack, c["opts"].get("inc_prune", "normal") != "normal", warned)
        prev = vecs(al)
    if len(es) < h:      # stopped early: only right when nothing changes any more
        B, _ = test_beliefs(prev, n=M.nS)
        d = np.abs(value(prev, B) - M.backup(prev, B)).max()
        if d > slack * tol(prev) and not warned:
            raise Violation("stopped at epoch %d of %d although the next epoch changes the value by %g" % (
                len(es), h, d))
    fin = parse_alpha(ctx.read("m.alpha"), M.nS)
    B, _ = test_beliefs(vecs(fin), prev, n=M.nS)
    d = np.abs(value(vecs(fin), B) - value(prev, B)).max()
    if d > tol(prev):
        raise Violation("m.alpha differs from the last epoch's vectors by %g" % d)
    return {"nontrivial": len(prev) > 1 and len(es) > 1 and M.g > 0,
            "labels": ["method=" + c["opts"]["method"], "vectors=%s" % (len(prev) if len(prev) < 10 else "10+"),
                       "epochs=%d" % len(es), "vertices %s" % ("complete" if complete else "sampled"),
                       "obs=%d" % M.nO, "states=%d" % M.nS] + ["unstable LPs"] * unstable(r)}


def judge_large(c, ctx):
    # sizes grow doubly exponentially with the horizon: a slow case decides nothing
    if c["opts"]["method"] != "incprune":
        c = dict(c, h=min(c["h"], 3))
    return judge(c, ctx, slack=3e3, cpu=8, hang=False)


def judge_wide(c, ctx):
    # beliefs all over the simplex: the vertices of the regions are too many
    from checks import P10
    return P10.judge_wide(c, ctx)


main = Check("P01", [
    Part("small", exact_cases(rare=True), judge, 4000, 60000),
    Part("larger", exact_cases(hmax=6, weak=False, methods=["incprune", "incprune", "witness", "twopass"],
                               s=(4, 5, 3), a=(3, 4), o=(2, 3)), judge_large, 400, 6000),
    Part("wide", wide_cases(), judge_wide, 150, 5000),
], rule="random POMDP (in one part with up to 130 states, 120 actions, 130 observations) (1-5 states, 1-4 actions, 1-3 observations, all reward forms, reward/cost) x exact method x "
        "purge/check/initialisation options x horizon; every epoch file is compared with a naive backup of the "
        "previous epoch file at every vertex of the output's region partition, the corners and a belief grid. "
        "Non-trivial: more than one vector, more than one epoch, positive discount.",
    assumptions=["relative tolerance 1e-8 for values too high; for values too low 1e-6 (small models), 3e-5 "
                 "(larger); a low value decides nothing when the program warns that its linear programs were unstable"]).main
if __name__ == "__main__":
    main()
