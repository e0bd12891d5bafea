"""Starting value functions, discount override, saved files, and continuing a run from its own output."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

NUM = st.one_of(st.integers(-40, 40), st.integers(-400, 400).map(lambda v: v / 10), st.integers(-9999, 9999).map(lambda v: v / 64))


@st.composite
def cases(draw):
    c = draw(exact_cases(hmax=3, weak=True))
    n = c["m"]["nS"]
    c["tv"] = draw(st.lists(st.lists(NUM, min_size=n, max_size=n), min_size=1, max_size=5)) if draw(st.sampled_from([1, 1, 0])) else None
    c["layout"] = draw(st.sampled_from(["plain", "columns", "sparse", "exp"]))
    c["discount"] = draw(st.sampled_from([None, None, "0.8", "0.25", "1", "0.999", "0", "0.0001"]))
    c["pen"] = draw(st.booleans())
    c["all"] = draw(st.sampled_from([True, True, False]))
    c["prefix"] = draw(st.sampled_from(["m", "out.x", "a/b"]))
    return c


def tv_text(tv, layout):
    f = {"exp": lambda x: "%.17e" % x}.get(layout, lambda x: repr(float(x)))
    if layout == "columns":
        return "".join("0\n%s\n" % "\n".join(f(x) for x in v) for v in tv)
    if layout == "sparse":
        return "".join("\n\n  0 \t\n  %s  \n" % "   ".join(f(x) for x in v) for v in tv)
    return "".join("0\n%s\n\n" % " ".join(f(x) for x in v) for v in tv)


def entries(ctx, p, n, graph=True):
    """Content of an alpha file and its policy graph; as a sorted list when vectors are (almost) the same,
    because their order is then open."""
    a = parse_alpha(ctx.read(p + (".prev.alpha" if n == ".prev" else ".alpha%s" % n)))
    g = [tuple(l.split()[1:]) for l in ctx.read("%s.pg%s" % (p, n)).splitlines()] if graph and n != ".prev" else [()] * len(a)
    l = [(x, tuple(v), y) for (x, v), y in zip(a, g)]
    V = vecs(a)
    if any(np.abs(V[:i] - V[i]).max(axis=1).min() < 1e-7 for i in range(1, len(V))):
        return len(a), len(g), sorted(l)
    return len(a), len(g), l


def judge(c, ctx):
    c = dict(c)
    M = Model(c["m"])
    o = dict(c["opts"])
    tv = [[0.0] * M.nS]
    if c["tv"]:
        tv = c["tv"]
        ctx.write("tv.alpha", tv_text(tv, c["layout"]))
        o["terminal_values"] = "tv.alpha"
    text = M.text()
    if c["discount"]:
        o["discount"] = c["discount"]
        M.g = float(c["discount"])
    if weak_final(o) and M.nA * len(tv) ** M.nO > 1500:
        raise Inconclusive("too many vectors")
    h = horizon_cap(M, o, c["h"])
    if weak_final(o) and len(tv) > 1:
        h = 1
    o["horizon"] = h
    if c["all"]:
        o["save_all"] = "true"
    if c["pen"]:
        o["save_penultimate"] = "true"
    p = c["prefix"]
    if "/" in p:
        os.makedirs(ctx.path(os.path.dirname(p)))
    r = solve(ctx, text, o, prefix=p)
    n = n_epochs(r)
    if n < 1 or n > h:
        raise Violation("%d epochs for -horizon %d" % (n, h))
    want = {p + ".alpha", p + ".pg"}
    if c["all"]:
        want |= {"%s.%s%d" % (p, e, k) for e in ("alpha", "pg") for k in range(1, n + 1)}
    if c["pen"] and n > 1:
        want.add(p + ".prev.alpha")
    have = {os.path.relpath(os.path.join(d, f), ctx.scratch) for d, _, fs in os.walk(ctx.scratch) for f in fs}
    have -= {"m.POMDP", "tv.alpha", ".out", ".err"}
    if have != want:
        raise Violation("files written: %s, expected: %s" % (sorted(have), sorted(want)))
    excuse = o.get("inc_prune", "normal") != "normal"
    if c["all"]:
        es = epoch_files(ctx, M, n, p)
        prev = np.array(tv, float)
        for k, (al, pg) in enumerate(es, 1):
            check_value(M, prev, al, "epoch %d" % k, excuse_ties=excuse, warned=unstable(r))
            check_links(M, prev, al, pg, "epoch %d" % k)
            prev = vecs(al)
        if entries(ctx, p, "") != entries(ctx, p, n):
            raise Violation("%s.alpha and %s.pg differ from those of the last epoch" % (p, p))
        if c["pen"] and n > 1 and entries(ctx, p, ".prev") != entries(ctx, p, n - 1, False):
            raise Violation("%s.prev.alpha differs from the solution of epoch %d" % (p, n - 1))
    else:
        # only the ends are visible: compare with the naive recursion at a grid
        al = parse_alpha(ctx.read(p + ".alpha"), M.nS)
        pg = parse_pg(ctx.read(p + ".pg"), M.nO)
        if c["pen"] and n > 1:
            prev = vecs(parse_alpha(ctx.read(p + ".prev.alpha"), M.nS))
            check_value(M, prev, al, "last epoch", excuse_ties=excuse, warned=unstable(r))
            check_links(M, prev, al, pg, "last epoch")
        elif n == 1:
            check_value(M, np.array(tv, float), al, "epoch 1", excuse_ties=excuse, warned=unstable(r))
            check_links(M, np.array(tv, float), al, pg, "epoch 1")
    return {"nontrivial": bool(c["tv"] and len(tv) > 1 or c["discount"] or n > 1),
            "labels": ["tv=%d" % (len(tv) if c["tv"] else 0), "discount=%s" % c["discount"], "save_all=%s" % c["all"],
                       "penultimate=%s" % c["pen"], "epochs=%d" % n, c["opts"]["method"]]}


@st.composite
def chains(draw):
    c = draw(exact_cases(hmax=3, weak=False))
    c["n1"], c["n2"] = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    c["opts2"] = draw(exact_opts(weak=False))
    return c


def run_value(ctx, M, text, o, h, prefix, cap=True):
    o = dict(o, horizon=h)
    r = solve(ctx, text, o, prefix=prefix, cpu=15, hang=False)
    if unstable(r):
        raise Inconclusive("program warns of unstable LPs")
    return vecs(parse_alpha(ctx.read(prefix + ".alpha"), M.nS)), n_epochs(r)


def judge_chain(c, ctx):
    """horizon n1, then n2 more epochs from its file == horizon n1+n2 in one go."""
    M = Model(c["m"])
    if horizon_cap(M, c["opts"], 4) < 4 and c["n1"] + c["n2"] > 3 or any(
            horizon_cap(M, o, 3, 6000) < 3 for o in (c["opts"], c["opts2"])):
        raise Inconclusive("too many vectors")
    plain = {"stop_criteria": "exact"}
    V1, e1 = run_value(ctx, M, M.text(), dict(c["opts"], **plain), c["n1"], "one")
    V2, e2 = run_value(ctx, M, M.text(), dict(c["opts2"], terminal_values="one.alpha", **plain), c["n2"], "two")
    V3, e3 = run_value(ctx, M, M.text(), dict(c["opts"], **plain), c["n1"] + c["n2"], "three")
    if any("inc_prune" in o and o["inc_prune"] != "normal" for o in (c["opts"], c["opts2"])):
        lim = 1e-3
    else:
        lim = 2e-6
    B, _ = test_beliefs(V2, V3, n=M.nS)
    d = np.abs(value(V2, B) - value(V3, B))
    k = int(d.argmax())
    if d[k] > lim * max(1, np.abs(V3).max()):
        raise Violation("horizon %d after horizon %d gives %.10g at belief %s, horizon %d gives %.10g" % (
            c["n2"], c["n1"], value(V2, B)[k], np.round(B[k], 6).tolist(), c["n1"] + c["n2"], value(V3, B)[k]))
    return {"nontrivial": len(V3) > 1, "labels": ["%d+%d" % (c["n1"], c["n2"]), "vectors=%d" % min(len(V3), 12)]}


@st.composite
def variants(draw):
    """Runs of every kind, and long ones: only which files there are, and that they hold the epochs they should."""
    c = {"m": draw(models(s=(2, 3, 1), a=(2, 1), o=(2, 1))), "pen": draw(st.booleans()), "all": draw(st.sampled_from([True, True, False]))}
    o = {"stop_criteria": draw(st.sampled_from(["exact", "weak", "bellman"]))}
    c["kind"] = k = draw(st.sampled_from(["zlz", "zlz", "adjustable", "grid", "grid", "long"]))
    c["h"] = draw(st.integers(1, 6))
    if k == "zlz":
        o["vi_variation"] = "zlz"
        o["method"] = draw(st.sampled_from(["incprune", "witness", "twopass", "enum"]))
    elif k == "adjustable":
        o.update(vi_variation="adjustable_epsilon", start_epsilon="0.5", end_epsilon="0.001", epsilon_adjust="2")
    elif k == "grid":
        o.update(method="grid", fg_points="20", fg_type=draw(st.sampled_from(["simplex", "pairwise", "search", "initial"])),
                 fg_save=draw(st.sampled_from(["true", "false"])))
        c["h"] = draw(st.sampled_from([1, 3, 12, 130]))
    else:
        # far more epochs than usual: a grid of the corners keeps them cheap
        o.update(method="grid", fg_type="simplex")
        c["h"] = draw(st.sampled_from([99, 101, 260, 1003]))
    c["opts"] = o
    c["g"] = draw(st.sampled_from([0.3, 0.9, 0.95]))
    return c


def judge_variant(c, ctx):
    m = dict(c["m"], discount=c["g"])
    M = Model(m)
    o = dict(c["opts"], horizon=c["h"])
    if c["all"]:
        o["save_all"] = "true"
    if c["pen"]:
        o["save_penultimate"] = "true"
    r = solve(ctx, M.text(), o, prefix="x", cpu=8, hang=False)
    n = n_epochs(r)
    if not 1 <= n <= c["h"]:
        raise Violation("%d epochs for -horizon %d" % (n, c["h"]))
    want = {"x.alpha", "x.pg"}
    if c["all"]:
        # with the speedup an epoch's links do not go to the saved solution of the epoch before, so no graphs are saved
        want |= {"x.%s%d" % (e, k) for e in (("alpha",) if c["kind"] == "zlz" else ("alpha", "pg")) for k in range(1, n + 1)}
    if c["pen"] and n > 1:
        want.add("x.prev.alpha")
    if o.get("fg_save") == "true":
        want.add("x.belief")
    have = {os.path.relpath(os.path.join(d, f), ctx.scratch) for d, _, fs in os.walk(ctx.scratch) for f in fs}
    have -= {"m.POMDP", ".out", ".err"}
    if have != want:
        raise Violation("%s, %d epochs: missing %s, extra %s" % (c["kind"], n, sorted(want - have)[:5], sorted(have - want)[:5]))
    if c["kind"] != "zlz":      # the speedup comes after an epoch's files are written
        if c["all"] and (ctx.read("x.alpha"), ctx.read("x.pg")) != (ctx.read("x.alpha%d" % n), ctx.read("x.pg%d" % n)):
            raise Violation("x.alpha and x.pg differ from those of the last epoch, %d" % n)
        if c["all"] and c["pen"] and n > 1 and ctx.read("x.prev.alpha") != ctx.read("x.alpha%d" % (n - 1)):
            raise Violation("x.prev.alpha differs from the solution of epoch %d" % (n - 1))
    if c["all"]:
        for k in {1, n, n // 2 + 1}:
            al = parse_alpha(ctx.read("x.alpha%d" % k), M.nS)
            if c["kind"] != "zlz" and len(parse_pg(ctx.read("x.pg%d" % k), M.nO)) != len(al):
                raise Violation("epoch %d: %d vectors, and another number of policy graph nodes" % (k, len(al)))
    return {"nontrivial": n > 1, "labels": [c["kind"], "epochs=%d" % min(n, 10), "penultimate=%s" % c["pen"]]}


main = Check("P08", [Part("files", cases(), judge, 3000, 60000), Part("chain", chains(), judge_chain, 900, 20000),
                     Part("variants", variants(), judge_variant, 700, 15000)],
             rule="random POMDP x exact method x terminal-value file (several layouts) x -discount x -save_all x "
                  "-save_penultimate x output prefix x horizon: the first epoch is the exact backup of the file's vectors with "
                  "links into its order, exactly the documented files are written, the final and penultimate files equal the "
                  "epoch files byte for byte; and n1 epochs continued for n2 from the output equal n1+n2 epochs; runs of the variations and the grid method, up to 1003 epochs, write the documented files. Non-trivial: "
                  "several terminal vectors, a discount given, or more than one epoch.",
             assumptions=["tolerances as in P01; chained runs compared to 2e-6 relative"]).main
if __name__ == "__main__":
    main()
