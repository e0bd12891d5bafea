"""Approximate pruning: what the epsilon purge loses per epoch is bounded, and the adjustable epsilon follows its rule."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

EPS = ["1", "0.5", "2", "0.3", "4", "0.1", "0.7", "1e-3"]


@st.composite
def bounded(draw):
    m = draw(models(sense=True, s=(3, 2, 4, 3, 2), a=(3, 2, 3, 4, 1), o=(2, 3, 2, 1)))
    o = draw(exact_opts(weak=False, methods=["incprune", "enum", "witness", "twopass"]))
    o.pop("epsilon", None)
    k = "enum_purge" if o["method"] == "enum" else "q_purge"
    where = draw(st.sampled_from(["last", "last", "both", "proj"]))
    if where != "proj":
        o[k] = "epsilon_prune"
    if where != "last":
        o["proj_purge"] = "epsilon_prune"
    o["prune_epsilon"] = draw(st.sampled_from(EPS))
    return {"m": m, "opts": o, "h": draw(st.sampled_from([3, 2, 4, 1]))}


def loss_bound(M, o, eps=None):
    eps = float(o["prune_epsilon"]) if eps is None else eps
    n = 0
    if o.get("proj_purge") == "epsilon_prune":
        n += M.nO                     # one purge for every observation's set, and their losses add up
    if o.get("enum_purge" if o["method"] == "enum" else "q_purge") == "epsilon_prune":
        n += 1
    return n * eps


def check_epoch(M, prev, al, bound, what, warned, ties):
    """The backup of prev, never above it and nowhere lower by more than bound; returns the largest loss."""
    V = vecs(al)
    if not len(V):
        raise Violation("%s: empty solution" % what)
    B, complete = test_beliefs(V, n=M.nS)
    got, want = value(V, B), M.backup(prev, B)
    d = want - got
    t = tol(V, prev)
    k = int(d.argmin())
    if d[k] < -t:
        raise Violation("%s: value %.12g at belief %s, above the exact backup %.12g" % (what, got[k], np.round(B[k], 6).tolist(), want[k]))
    k = int(d.argmax())
    if d[k] > bound * (1 + 1e-6) + 1000 * t:
        if warned:
            raise Inconclusive("program warns of unstable LPs")
        if ties and all(near_tie(M, prev, B[i]) for i in np.where(d > bound)[0]):
            raise Inconclusive("near tie within LP precision")
        raise Violation("%s: value %.12g at belief %s, lower than the exact backup %.12g by %g (allowed %g)" % (
            what, got[k], np.round(B[k], 6).tolist(), want[k], d[k], bound))
    return d[k], complete


def judge_bounded(c, ctx):
    M, es, h, r = run_epochs(c, ctx, cpu=15, hang=False)
    o = c["opts"]
    bound = loss_bound(M, o)
    prev = np.zeros((1, M.nS))
    worst, comp = 0.0, True
    for i, (al, pg) in enumerate(es):
        what = "epoch %d" % (i + 1)
        l, k = check_epoch(M, prev, al, bound, what, unstable(r), o.get("inc_prune", "normal") != "normal")
        worst, comp = max(worst, l), comp and k
        check_links(M, prev, al, pg, what)
        prev = vecs(al)
    return {"nontrivial": worst > 1e-6 and len(prev) > 1,
            "labels": ["method=" + o["method"], "epsilon=" + o["prune_epsilon"], "purges=%g" % (bound / float(o["prune_epsilon"])),
                       "lost=%s" % ("none" if worst <= 1e-6 else "below half" if worst < bound / 2 else "above half"),
                       "vertices %s" % ("complete" if comp else "sampled")]}


@st.composite
def adjusted(draw):
    m = draw(models(sense=True, s=(2, 3, 2), a=(2, 3, 1), o=(2, 1, 2), discounts=st.sampled_from([0.5, 0.9, 0.75, 0.3, 0.95, 1.0])))
    o = draw(exact_opts(weak=False, methods=["incprune", "witness", "twopass", "enum"]))
    o.pop("epsilon", None)
    if o["method"] != "enum" and draw(st.sampled_from([True, True, False])):
        o["q_purge"] = "epsilon_prune"
    o["vi_variation"] = "adjustable_epsilon"
    o["start_epsilon"] = draw(st.sampled_from(["1", "0.5", "0.1", "3", "0.01"]))
    o["end_epsilon"] = draw(st.sampled_from(["1e-3", "1e-6", "0.1", "0.02", "1e-9"]))
    o["epsilon_adjust"] = draw(st.sampled_from(["2", "10", "4", "1.5", "100"]))
    o["history_length"] = draw(st.sampled_from([1, 2, 3, 5, 4]))
    o["history_delta"] = draw(st.sampled_from([1, 2, 3, 10]))
    if draw(st.booleans()):
        o["stat_summary"] = None
    return {"m": m, "opts": o, "h": draw(st.sampled_from([6, 8, 4, 12, 3]))}


def judge_adjusted(c, ctx):
    o = c["opts"]
    epsq = o.get("q_purge") == "epsilon_prune"
    if o["method"] == "enum" or o["method"] == "twopass":
        c = dict(c, h=min(c["h"], 4))
    M, es, h, r = run_epochs(c, ctx, cpu=8, hang=False)
    cur, end, f = float(o["start_epsilon"]), float(o["end_epsilon"]), float(o["epsilon_adjust"])
    L, delta = o["history_length"], o["history_delta"]
    lines = [l for l in r.out.split("\n") if l.startswith(("Epoch: ", ">>"))]
    want, sizes, epss = [">>Starting epsilon set to %.3e<<" % cur], [], []
    ep = [l for l in lines if l.startswith("Epoch: ")]
    changed = 0
    for i, l in enumerate(ep):
        w = re.match(r"Epoch: (\d+)\.\.\.(\d+) vectors", l)
        if not w or int(w.group(1)) != i + 1:
            raise Violation("bad report line %r" % l)
        want.append(l)
        sizes.append(int(w.group(2)))
        if sizes[-1] != len(es[i][0]):
            raise Violation("epoch %d reports %d vectors, but its file has %d" % (i + 1, sizes[-1], len(es[i][0])))
        epss.append(cur)
        if i + 1 == len(ep):
            break                       # nothing is adjusted after the last epoch
        if cur > end and i + 1 >= L and max(sizes[-L:]) - min(sizes[-L:]) <= delta:
            cur /= f
            changed += 1
            want.append(">>Adjusted epsilon to %.3e<<" % cur)
    if lines != want:
        k = next((i for i in range(min(len(lines), len(want))) if lines[i] != want[i]), min(len(lines), len(want)))
        raise Violation("sizes %s, history_length %d, history_delta %d: report has %r where %r is expected" % (
            sizes, L, delta, lines[k:k + 1], want[k:k + 1]))
    worst = 0.0
    if epsq:
        prev = np.zeros((1, M.nS))
        for i, (al, pg) in enumerate(es):
            l, _ = check_epoch(M, prev, al, loss_bound(M, o, epss[i]), "epoch %d (epsilon %g)" % (i + 1, epss[i]), unstable(r),
                               o.get("inc_prune", "normal") != "normal")
            worst = max(worst, l)
            check_links(M, prev, al, pg, "epoch %d" % (i + 1))
            prev = vecs(al)
    return {"nontrivial": changed > 0 and len(ep) > 2 and (not epsq or worst > 1e-6),
            "labels": ["method=" + o["method"], "adjusted %s" % (changed if changed < 5 else "5+"), "epsilon of " + ("pruning" if epsq else "the program"),
                       "reached end" if cur <= end else "above end"]}


main = Check("P18", [
    Part("bound", bounded(), judge_bounded, 1500, 40000),
    Part("adjustable", adjusted(), judge_adjusted, 900, 25000),
], rule="random POMDP x exact method x epsilon purging of projections and/or final sets x prune_epsilon: every saved epoch is "
        "nowhere above the exact backup of the one before and nowhere lower than it by more than prune_epsilon per purge, checked "
        "at every vertex of the output's region partition, and its policy graph reproduces its vectors; with adjustable_epsilon the report "
        "follows the documented schedule computed from the sizes of the epochs. Non-trivial: some value was really lost (bound), "
        "epsilon was really adjusted (adjustable).",
    assumptions=["1e-6 relative tolerance beyond the bound", "runs with unstable LPs decide no loss"]).main
if __name__ == "__main__":
    main()
