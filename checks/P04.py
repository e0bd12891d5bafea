"""Policy graphs reproduce the value function: action plus successor links compute each vector."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *


def judge(c, ctx, **kw):
    M, es, h, r = run_epochs(c, ctx, **kw)
    prev = np.zeros((1, M.nS))
    gaps = multi = 0
    for i, (al, pg) in enumerate(es):
        check_links(M, prev, al, pg, "epoch %d" % (i + 1))
        gaps += any(isinstance(x, str) for _, nx in pg for x in nx)
        multi += len(al) > 1 and len(prev) > 1
        last, prev = prev, vecs(al)
    fin = parse_alpha(ctx.read("m.alpha"), M.nS)
    fpg = parse_pg(ctx.read("m.pg"), M.nO)
    check_links(M, last, fin, fpg, "final m.alpha/m.pg")
    return {"nontrivial": multi > 0,
            "labels": ["method=" + c["opts"]["method"], "epochs=%d" % len(es)] + ["impossible observations"] * (gaps > 0)
                      + ["inc_prune=" + c["opts"].get("inc_prune", "normal")]}


def judge_large(c, ctx):
    if c["opts"]["method"] != "incprune":
        c = dict(c, h=min(c["h"], 3))
    return judge(c, ctx, cpu=8, hang=False)


def judge_wide(c, ctx):
    # slow runs decide nothing
    r = judge(dict(widen(c), h=horizon_cap(Model(widen(c)["m"]), c["opts"], c["h"], cap=500)), ctx, cpu=4, hang=False)
    return dict(r, labels=r["labels"][:1] + [wide_label(c)])


main = Check("P04", [
    Part("small", exact_cases(), judge, 4000, 60000),
    Part("larger", exact_cases(hmax=5, weak=False, methods=["incprune", "incprune", "witness", "twopass"],
                               s=(4, 5, 3), a=(3, 4), o=(2, 3, 4)), judge_large, 300, 5000),
    Part("wide", wide_cases(), judge_wide, 150, 5000),
], rule="random POMDP (in one part with up to 130 states, 120 actions, 130 observations) x exact method x options x horizon; for every node of every epoch's policy graph, the vector "
        "recomputed from its action and its successors' vectors in the previous epoch file must equal its own vector, "
        "and a successor may be missing only for an observation that has probability zero after that action. "
        "Non-trivial: a graph with several nodes over a previous list with several vectors.").main
if __name__ == "__main__":
    main()
