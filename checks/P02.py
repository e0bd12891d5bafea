"""Solutions of the exact methods are parsimonious: no duplicates, every vector best somewhere."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *


def judge(c, ctx, **kw):
    M, es, h, r = run_epochs(c, ctx, **kw)
    worst = np.inf
    for i, (al, pg) in enumerate(es):
        worst = min(worst, check_parsimonious(al, "epoch %d" % (i + 1)))
        order = [v for _, v in al]
        if any(order[k] > order[k + 1] for k in range(len(order) - 1)):
            # written in lexicographic order, up to the comparison precision
            for k in range(len(order) - 1):
                for x, y in zip(order[k], order[k + 1]):
                    if x < y - 1e-8 * max(1, abs(x)):
                        break
                    if x > y + 1e-8 * max(1, abs(x)):
                        raise Violation("epoch %d: vectors %d and %d are not in lexicographic order" % (i + 1, k, k + 1))
                    if abs(x - y) > 1e-15:
                        break       # equal up to rounding: either order will do
    fin = parse_alpha(ctx.read("m.alpha"), M.nS)
    check_parsimonious(fin, "m.alpha")
    n = max(len(al) for al, _ in es)
    return {"nontrivial": n > 1,
            "labels": ["method=" + c["opts"]["method"], "vectors=%s" % (n if n < 10 else "10+"),
                       "smallest margin 1e%d" % (round(math.log10(abs(worst))) if worst and np.isfinite(worst) else 0)]}


def judge_large(c, ctx):
    if c["opts"]["method"] != "incprune":
        c = dict(c, h=min(c["h"], 3))
    return judge(c, ctx, cpu=8, hang=False)


def judge_wide(c, ctx):
    # slow runs decide nothing
    r = judge(dict(widen(c), h=horizon_cap(Model(widen(c)["m"]), c["opts"], c["h"], cap=500)), ctx, cpu=4, hang=False)
    return dict(r, labels=r["labels"][:1] + [wide_label(c)])


main = Check("P02", [
    Part("small", exact_cases(weak=False), judge, 2500, 40000),
    Part("larger", exact_cases(hmax=4, weak=False, methods=["incprune", "incprune", "witness", "twopass"],
                               s=(4, 5, 3), a=(3, 4), o=(2, 3)), judge_large, 250, 4000),
    Part("wide", wide_cases(), judge_wide, 100, 5000),
], rule="random POMDP (in one part with up to 130 states, 120 actions, 130 observations) x exact method x options whose final purge is normal_prune x horizon; for every vector of every "
        "epoch file a reference LP (HiGHS) finds the belief where it beats all others by most; below -1e-7 it is "
        "redundant.  Vectors must also be pairwise different and in lexicographic order. Non-trivial: some epoch has "
        "more than one vector.",
    assumptions=["a vector that ties with the others within 1e-7 is accepted; the program's epsilon is 1e-9"]).main
if __name__ == "__main__":
    main()
