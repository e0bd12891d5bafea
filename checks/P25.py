"""map_beliefs and belief_alpha_compare report the best vectors and values at every belief of the file."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.tools import *

EPS = st.sampled_from([None, None, None, "0.001", "1e-12", "0.002", "1e-6"])


@st.composite
def base(draw, two):
    n = draw(st.sampled_from([2, 3, 1, 4, 6]))
    hi = draw(st.sampled_from([4, 10]))
    c = {"n": n, "a": draw(lists(n, hi=hi)), "eps": draw(EPS), "la": draw(LAYOUTS), "lb": draw(LAYOUTS)}
    big = draw(st.integers(0, 12)) == 0
    c["rep"] = draw(st.sampled_from([20, 60, 200])) if big else 1
    c["b"] = draw(belief_lists(n))
    # values that differ by less than the precision count as equal
    c["near"] = draw(st.booleans())
    if two:
        c["a2"] = draw(lists(n, hi=hi))
        c["same"] = draw(st.sampled_from([0, 0, 1, 2]))
    return c


def setup(c, ctx):
    eps = 1e-9 if c["eps"] is None else float(c["eps"])
    b = c["b"] * c["rep"]
    a = [[x, list(v)] for x, v in c["a"]]
    big = max(abs(y) for _, v in a for y in v)
    if c["near"] and eps >= 1e-9 and big < 1e5:
        # every second vector is moved by much less than the precision
        for i in range(1, len(a), 2):
            a[i][1] = [y + eps / 8 for y in a[i][1]]
    ctx.write("b.belief", be_text(b, c["lb"]))
    ctx.write("a.alpha", al_text(a, c["la"]))
    return a, b, eps


def best(al, b, eps):
    """Best value, indices that reach it; None when a value is neither clearly equal nor clearly smaller."""
    v = [math.fsum(x * y for x, y in zip(w, b)) for _, w in al]
    m = max(v)
    sc = 1e-15 * max(abs(y) for _, w in al for y in w) * len(b)
    win = [i for i, x in enumerate(v) if x >= m - eps / 4 - sc]
    if any(m - x < 4 * eps + 4 * sc for i, x in enumerate(v) if i not in win):
        return None
    if eps < 16 * sc and len(win) > 1:
        return None
    return m, win


def tables(al, bl, eps):
    t = [best(al, b, eps) for b in bl]
    if None in t:
        raise Inconclusive("value near the precision")
    uniq = [[i for i, (_, w) in enumerate(t) if w == [k]] for k in range(len(al))]
    non = [[i for i, (_, w) in enumerate(t) if k in w and len(w) > 1] for k in range(len(al))]
    return t, uniq, non


def ints(s):
    return [int(x) for x in s.split()]


def near(x, y, eps):
    return abs(x - y) <= max(eps, 1e-9 * max(1, abs(y)))


def check_mapping(lines, al, bl, eps, what):
    """One 'Belief Mapping' report; returns the number of lines read."""
    t, uniq, non = tables(al, bl, eps)
    txt = "\n".join(lines)
    m = re.search(r"Belief List: (\d+) points\nAlpha List (\d+) vectors", txt)
    if not m or (int(m.group(1)), int(m.group(2))) != (len(bl), len(al)):
        raise Violation("%s: counts %s for %d beliefs and %d vectors" % (what, m and m.group(0), len(bl), len(al)))
    bs, _, as_ = txt.partition("--- Alpha Section --")
    B = re.findall(r"^Belief\[(\d+)\]:\n  Best Alpha Indices: ([\d ]*?)( \(non-unique\))?\nBest Alpha Value: (\S+)$", bs, re.M)
    if [int(x[0]) for x in B] != list(range(len(bl))):
        raise Violation("%s: beliefs %s reported, %d given" % (what, [x[0] for x in B][:20], len(bl)))
    for (i, idx, nu, v), (m, win) in zip(B, t):
        if sorted(ints(idx)) != win:
            raise Violation("%s: best vectors %s at belief %s %s, should be %s" % (what, idx, i, bl[int(i)], win))
        if bool(nu) != (len(win) > 1):
            raise Violation("%s: belief %s is marked %r with best vectors %s" % (what, i, nu, win))
        if not near(float(v), m, eps):
            raise Violation("%s: value %s at belief %s %s, should be %r" % (what, v, i, bl[int(i)], m))
    A = re.findall(r"^Alpha\[(\d+)\]:\n  Uniquely best:(.*)\n  Non-uniquely best:(.*)$", as_, re.M)
    if [int(x[0]) for x in A] != list(range(len(al))):
        raise Violation("%s: vectors %s reported, %d given" % (what, [x[0] for x in A][:20], len(al)))
    for (k, u, nu), x, y in zip(A, uniq, non):
        for label, s, want in (("uniquely", u, x), ("non-uniquely", nu, y)):
            got = [] if "NONE" in s else ints(s)
            if got != want or ("NONE" in s) != (not want):
                raise Violation("%s: vector %s is %s best at beliefs %s, should be %s" % (what, k, label, s.strip()[:80], want[:20]))
    return t


def judge_map(c, ctx):
    al, bl, eps = setup(c, ctx)
    tables(al, bl, eps)
    tool(ctx, "map_beliefs", "-belief", "b.belief", "-alpha1", "a.alpha", "-states", c["n"], *([] if c["eps"] is None else ["-epsilon", c["eps"]]))
    txt = ctx.read("out")
    head, _, rest = txt.partition("\nAll Belief Points:\n")
    t = check_mapping(head.split("\n"), al, bl, eps, "map_beliefs")
    pts, _, vs = rest.partition("\nAll Alpha Vectors:\n")
    P = [[float(x) for x in l.split()] for l in pts.split("\n") if l.strip()]
    if len(P) != len(bl) or any(abs(x - y) > 1e-12 for p, q in zip(P, bl) for x, y in zip(p, q)) or any(len(p) != c["n"] for p in P):
        raise Violation("map_beliefs: the belief points are not listed as given")
    if vs.count("<id=") != len(al):
        raise Violation("map_beliefs: %d vectors listed, %d given" % (vs.count("<id="), len(al)))
    return {"nontrivial": len(al) > 1 and len({tuple(w) for _, w in t}) > 1,
            "labels": ["beliefs=%s" % ("100+" if len(bl) >= 100 else "<100"), "ties" if any(len(w) > 1 for _, w in t) else "unique"]}


def judge_comp(c, ctx):
    al, bl, eps = setup(c, ctx)
    a2 = [[x, list(v)] for x, v in c["a2"]]
    if c["same"]:
        a2 = [[x, list(v)] for x, v in c["a"]][::-1] + (a2[:1] if c["same"] == 2 else [])
    ctx.write("a2.alpha", al_text(a2, c["la"]))
    t1, t2 = tables(al, bl, eps)[0], tables(a2, bl, eps)[0]
    d = [y[0] - x[0] for x, y in zip(t1, t2)]
    for x in d:
        if eps / 2 < abs(x) < 4 * eps or 0 < abs(x) < 1e-7 and eps < 1e-8 and abs(x) > eps / 2:
            raise Inconclusive("difference near the precision")
    tool(ctx, "belief_alpha_compare", "-belief", "b.belief", "-alpha1", "a.alpha", "-alpha2", "a2.alpha", "-states", c["n"],
         *([] if c["eps"] is None else ["-epsilon", c["eps"]]))
    txt = ctx.read("out")
    parts = txt.split("Belief Mapping\n")
    if len(parts) != 3:
        raise Violation("belief_alpha_compare: %d mappings" % (len(parts) - 1))
    p2, sep, p3 = parts[2].partition("  [0] Best Alpha1 Indices")
    check_mapping(parts[1].split("\n"), al, bl, eps, "belief_alpha_compare, first list")
    check_mapping(p2[:p2.rindex("Belief[0]:")].split("\n"), a2, bl, eps, "belief_alpha_compare, second list")
    p3 = p2[p2.rindex("Belief[0]:"):] + sep + p3
    R = re.findall(r"^Belief\[(\d+)\]:\n  \[(\d+)\] Best Alpha1 Indices: (.*)\n  \[\d+\] Best Alpha1 Value: (\S+)\n  \[\d+\] Best Alpha2 Indices: (.*)\n"
                   r"  \[\d+\] Best Alpha2 Value: (\S+)\n  \[\d+\] Difference: (\S+)( \(non-zero\))?$", p3, re.M)
    if [int(x[0]) for x in R] != list(range(len(bl))) or any(x[0] != x[1] for x in R):
        raise Violation("belief_alpha_compare: beliefs %s compared, %d given" % ([x[0] for x in R][:20], len(bl)))
    nz = []
    for (i, _, i1, v1, i2, v2, dv, mark), x, y, diff in zip(R, t1, t2, d):
        i = int(i)
        if sorted(ints(i1)) != x[1] or sorted(ints(i2)) != y[1] or not near(float(v1), x[0], eps) or not near(float(v2), y[0], eps):
            raise Violation("belief_alpha_compare: belief %d has %s %s and %s %s, should be %s and %s" % (i, i1, v1, i2, v2, x, y))
        if not near(float(dv), diff, 2 * eps):
            raise Violation("belief_alpha_compare: difference %s at belief %d, should be %r" % (dv, i, diff))
        if bool(mark) != (abs(diff) > eps):
            raise Violation("belief_alpha_compare: difference %s at belief %d is %smarked" % (dv, i, "" if mark else "not "))
        if mark:
            nz.append(i)
    m = re.search(r"Number of beliefs with value difference: (\d+)\nBelief indices with diffs:(.*)\nMaximal difference: (\S+) \((\d+) points\)\n"
                  r"Belief indices with maximal diffs:(.*)\n", p3)
    if not m:
        raise Violation("belief_alpha_compare: no summary: %r" % p3[-300:])
    if int(m.group(1)) != len(nz) or ints(m.group(2)) != nz:
        raise Violation("belief_alpha_compare: the summary names %s beliefs with a difference, %s; should be %s" % (m.group(1), m.group(2), nz))
    if nz:
        top = max(abs(d[i]) for i in nz)
        if not near(float(m.group(3)), top, 2 * eps):
            raise Violation("belief_alpha_compare: maximal difference %s, should be %r" % (m.group(3), top))
        win = [i for i in nz if abs(d[i]) >= top - eps / 4 - 1e-15]
        clear = all(abs(d[i]) < top - 4 * eps - 1e-12 for i in nz if i not in win)
        if clear and eps >= 1e-12 + 1e-14 * top and (ints(m.group(5)) != win or int(m.group(4)) != len(win)):
            raise Violation("belief_alpha_compare: maximal difference at beliefs %s (%s points), should be %s" % (m.group(5), m.group(4), win))
    elif int(m.group(4)) != 0 or ints(m.group(5)):
        raise Violation("belief_alpha_compare: maximal differences reported though there are none")
    return {"nontrivial": len(nz) > 0 and len(bl) > 2 and len(al) > 1, "labels": ["differences" if nz else "no difference", "beliefs=%s" % ("100+" if len(bl) >= 100 else "<100")]}


main = Check("P25", [
    Part("map", base(False), judge_map, 1500, 30000, ("asan",)),
    Part("compare", base(True), judge_comp, 1500, 30000, ("asan",)),
], rule="random lists of vectors and beliefs (up to 2400) in several file layouts and tie precisions; every line of the reports "
        "is compared with values computed from the files. Non-trivial: different beliefs have different best vectors; some but "
        "not all beliefs have a difference.",
    assumptions=["values between a quarter and four times the tie precision decide nothing"]).main
if __name__ == "__main__":
    main()
