"""The progress report and the statistics tell what the run did."""
import math, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

CONTEXTS = [("Proj-build", "PjB"), ("Proj-purge", "PjP"), ("Qa-build", "QaB"), ("Qa-merge", "QaM"), ("Zlz-Speedup", "Zlz"), ("Stop-criteria", "Stop")]
NUM = r"(-?[0-9.]+(?:e[-+]?\d+)?|-?inf|-?nan)"


@st.composite
def gen(draw, big):
    kind = draw(st.sampled_from(["exact", "exact", "exact", "grid", "zlz", "adjustable_epsilon"]))
    disc = st.sampled_from([0.5, 0.75, 0.9, 0.95, 0.3] + ([1.0] if kind == "exact" else []))
    if big:
        m = draw(models(discounts=disc, sense=True, s=(3, 4, 2), a=(3, 4), o=(2, 3)))
        o = draw(exact_opts(weak=False, methods=["incprune", "witness", "twopass"]))
        h = draw(st.sampled_from([12, 6, 20, 8]))
    else:
        m = draw(models(discounts=disc))
        o = draw(exact_opts())
        h = draw(st.sampled_from([3, 4, 2, 1, 5, None if m["discount"] < 0.9 else 3]))
    if kind == "grid":
        o = {"method": "grid", "fg_points": draw(st.sampled_from([5, 20] if not big else [200, 50])),
             "fg_type": draw(st.sampled_from(["simplex", "pairwise", "search", "initial"]))}
    elif kind == "zlz":
        o["vi_variation"] = "zlz"
    elif kind == "adjustable_epsilon":
        o.update(vi_variation=kind, start_epsilon=draw(st.sampled_from(["0.1", "0.01"])), end_epsilon="1e-9", epsilon_adjust=draw(st.sampled_from(["10", "100"])))
    o["stop_criteria"] = draw(st.sampled_from(["bellman", "weak", "exact", "bellman"]))
    c = {"m": m, "opts": o, "h": h, "kind": kind, "delta": draw(st.sampled_from([None, "1e-6", "0.01", "1", "10"])),
         "summary": big or draw(st.sampled_from([True, True, True, False])), "file": draw(st.booleans())}
    if draw(st.sampled_from([False, False, True])):
        c["tv"] = draw(st.lists(st.lists(st.integers(-40, 40), min_size=m["nS"], max_size=m["nS"]), min_size=1, max_size=4))
    return c


def near(x, y, rel, ab):
    return x == y or abs(x - y) <= rel * max(abs(x), abs(y)) + ab


def need(ok, msg, *args):
    if not ok:
        raise Violation(msg % args)


def judge(c, ctx, cpu=4):
    M = Model(c["m"])
    o = dict(c["opts"], save_all="true")
    if c["delta"]:
        o["stop_delta"] = c["delta"]
    if c["h"]:
        o["horizon"] = horizon_cap(M, o, c["h"])
    if c["summary"]:
        o["stat_summary"] = "true"
    if c["file"]:
        o["stdout"] = "report.txt"
    V0 = np.zeros((1, M.nS))
    if c.get("tv"):
        ctx.write("tv.alpha", alpha_text([(0, v) for v in c["tv"]]))
        o["terminal_values"] = "tv.alpha"
        V0 = np.array(c["tv"], float)
    t0 = os.times()
    r = solve(ctx, M.text(), o, cpu=cpu, hang=False)
    t1 = os.times()
    used = t1.children_user + t1.children_system - t0.children_user - t0.children_system
    out = ctx.read("report.txt") if c["file"] else r.out
    if c["file"]:
        need("Epoch: " not in r.out, "-stdout report.txt, and the progress is on the standard output")
    lines = out.split("\n")

    # the progress lines
    ep = []
    for i, l in enumerate(lines):
        if not l.startswith("Epoch: "):
            continue
        text = l
        dp = None
        if c["kind"] == "zlz":
            m = re.match(r"Epoch: (\d+)\.\.\.(\d+) DP vectors in [0-9.]+ secs\.$", l)
            if m:
                dp = int(m[2])
                text = "Epoch: %s...%s" % (m[1], re.sub(r"^  ZLZ: \.*", "", lines[i + 1]))
        m = re.match(r"Epoch: (\d+)\.\.\.(\d+) vectors in ([0-9.]+) secs\. \(([0-9.]+) total\) \(err=%s\)$" % NUM, text)
        need(m, "not a progress line: %r", text)
        ep.append((int(m[1]), int(m[2]), float(m[3]), float(m[4]), float(m[5]), dp))
    n = len(ep)
    need([e[0] for e in ep] == list(range(1, n + 1)) and n > 0, "the epochs reported are %s", [e[0] for e in ep])
    need(not o.get("horizon") or n <= o["horizon"], "%d epochs for horizon %s", n, o.get("horizon"))
    need(ctx.exists("m.alpha%d" % n) and not ctx.exists("m.alpha%d" % (n + 1)), "%d epochs are reported, but the last one saved is another", n)
    m = re.search(r"^\[Initial policy has (\d+) vectors\.\]$", out, re.M)
    need(m and int(m[1]) == len(V0), "initial policy: %s, it has %d vectors", m and m[0], len(V0))

    Z = [V0] + [vecs(parse_alpha(ctx.read("m.alpha%d" % i), M.nS)) for i in range(1, n + 1)]
    F = vecs(parse_alpha(ctx.read("m.alpha"), M.nS))
    for e in ep:
        saved = len(Z[e[0]])
        need((e[1] if e[5] is None else e[5]) == saved, "epoch %d: %d vectors reported, %d saved", e[0], e[1] if e[5] is None else e[5], saved)
    need(ep[-1][1] == len(F), "the last epoch is reported with %d vectors, the solution has %d", ep[-1][1], len(F))

    # times
    tot = 0.0
    for i, e in enumerate(ep):
        need(e[3] >= tot - 1e-9 and e[3] - tot >= e[2] - 0.021, "epoch %d: %.2f secs. and %.2f in total, after %.2f in total", e[0], e[2], e[3], tot)
        tot = e[3]
    m = [re.search(r"^%s (\d+) hrs\., (\d+) mins, ([0-9.]+) secs\. \(= ([0-9.]+) secs\)$" % w, out, re.M)
         for w in ("User time =", "System time =", "Total execution time =")]
    need(all(m), "no execution times in the report:\n%s", out[-400:])
    user, system, total = [float(x[4]) for x in m]
    for x in m:
        need(near(3600 * int(x[1]) + 60 * int(x[2]) + float(x[3]), float(x[4]), 0, 0.011), "not the same time: %s", x[0])
    need(near(user + system, total, 0, 0.016), "user time %.2f + system time %.2f is not %.2f", user, system, total)
    need(tot <= total + 0.016, "total time %.2f after the last epoch, %.2f at the end", tot, total)
    need(total <= used + 0.1, "total execution time %.2f, but the process used %.2f", total, used)
    need(total >= 0.7 * used - 0.3, "total execution time %.2f, but the process used %.2f", total, used)

    # the changes
    finite = 0
    loose = unstable(r) or c["kind"] != "exact" or c["opts"].get("inc_prune", "normal") != "normal"
    sc = max(1.0, max(float(np.abs(z).max()) for z in Z))
    noise = 2e-5 * sc + float(o.get("start_epsilon", 0))       # a change below the epsilon in force is none
    for i, e in enumerate(ep):
        err = e[4]
        need(not math.isnan(err) and (err >= 0), "epoch %d: the change is %s", e[0], err)
        if c["kind"] in ("grid", "zlz"):
            continue
        B, complete = test_beliefs(Z[i], Z[i + 1], n=M.nS)
        real = float(np.abs(value(Z[i + 1], B) - value(Z[i], B)).max())
        if o["stop_criteria"] == "exact":
            need(err in (0.0, math.inf), "epoch %d: the exact criterion reports the change %s", e[0], err)
            if err == 0.0:
                finite += 1
                need(len(Z[i]) == len(Z[i + 1]) and real < 1e-7 * sc, "epoch %d: no change is reported, but %d vectors become %d and the values change by %g",
                     e[0], len(Z[i]), len(Z[i + 1]), real)
            continue
        if err == math.inf:
            need(o["stop_criteria"] == "weak", "epoch %d: the change is infinite", e[0])
            D = np.abs(Z[i][:, None] - Z[i + 1][None]).max(axis=2)
            D = max(D.min(axis=0).max(), D.min(axis=1).max())
            need(D > float(c["delta"] or 1e-9) * (1 - 1e-6), "epoch %d: the weak change is more than stop_delta, but is %g", e[0], D)
            continue
        finite += 1
        low, high = real, real
        if o["stop_criteria"] == "weak":
            D = np.abs(Z[i][:, None] - Z[i + 1][None]).max(axis=2)
            low = high = max(D.min(axis=0).max(), D.min(axis=1).max())
            need(low >= real - 1e-7 * sc, "oracle")
        elif not complete:
            high = math.inf
        if err < low * 0.994 - noise or err > high * 1.006 + noise:
            if loose and o["stop_criteria"] == "bellman":
                raise Inconclusive("the linear programs may be imprecise")
            raise Violation("epoch %d (%s): the change is reported as %g, it is %s" % (
                e[0], o["stop_criteria"], err, "%g" % low if low == high else "at least %g" % low))

    # the summary
    top = out.find("** Statistic Summary **")
    need((top >= 0) == c["summary"], "-stat_summary %s, and the summary is %s", c["summary"], "there" if top >= 0 else "not there")
    busy = 0.0
    if c["summary"]:
        m = re.findall(r"^\t(\S+) time: (-?[0-9.]+) secs\.$", out[:top], re.M)
        need([x[0] for x in m] == [x[0] for x in CONTEXTS], "contexts: %s", [x[0] for x in m])
        ct = [float(x[1]) for x in m]
        m = re.search(r"^  Total context time: (-?[0-9.]+) secs\.$", out[:top], re.M)
        need(m, "no total context time")
        busy = float(m[1])
        need(min(ct) >= 0, "context times %s", ct)
        need(near(sum(ct), busy, 0, 0.036), "context times %s, and in total %.2f", ct, busy)
        need(busy <= total + 0.05, "total context time %.2f, execution time %.2f", busy, total)
        need(total < 0.3 or c["kind"] == "grid" or busy >= 0.5 * total, "total context time %.2f of %.2f: the solver does nothing else", busy, total)
        need(c["kind"] == "zlz" or ct[4] == 0, "%.2f s in the ZLZ speedup without ZLZ", ct[4])
        tail = out[top:]
        need([tuple(x) for x in re.findall(r"^\t(\S+) = (\S+) time$", tail, re.M)] == [(b, a) for a, b in CONTEXTS], "legend:\n%s", tail[:400])
        need(re.search(r"^Epoch +Size +Err +Time +Epsilon +" + " +".join(b for a, b in CONTEXTS) + " *$", tail, re.M), "heading:\n%s", tail[:600])
        rows = re.findall(r"^ *(\d+) +(\d+) +%s +(-?[0-9.]+) +(N/A|[0-9.e+-]+?) +%s *$" % (NUM, " +".join(["(-?[0-9.]+)"] * 6)), tail, re.M)
        need(len(rows) == n, "%d lines in the summary for %d epochs:\n%s", len(rows), n, tail[:1500])
        sums = np.zeros(7)
        for e, w in zip(ep, rows):
            need((int(w[0]), int(w[1]), float(w[2])) == (e[0], e[1], e[4]), "epoch %d: %d vectors, change %g in the summary: %s", e[0], e[1], e[4], w[:3])
            need(near(float(w[3]), e[2], 0, 1e-9), "epoch %d took %.2f secs., the summary says %s", e[0], e[2], w[3])
            row = [float(x) for x in (w[3],) + w[5:]]
            need(min(row) >= 0 and sum(row[1:]) <= row[0] + 0.05, "epoch %d: times %s", e[0], row)
            sums += row
        m = re.search(r"^    Totals +(-?[0-9.]+) +%s *$" % " +".join(["(-?[0-9.]+)"] * 6), tail, re.M)
        need(m, "no totals:\n%s", tail[-400:])
        got = np.array([float(x) for x in m.groups()])
        need((np.abs(got - sums) <= 0.0051 * (n + 1)).all(), "the columns add up to %s, the totals are %s", sums.tolist(), got.tolist())
        need((np.abs(got[1:] - ct) <= 0.016).all(), "totals %s, context times %s", got[1:].tolist(), ct)
        need(abs(got[0] - tot) <= 0.05 + 0.15 * tot + 0.01 * n, "%.2f s in the epochs, %.2f in total", got[0], tot)

    # the files named
    m = re.search(r"^Solution found\.  See file:\n((?:\t\S+\n)+)", out, re.M)
    need(m and m[1].split() == ["m.alpha"] + ["m.pg"] * ctx.exists("m.pg"), "files named: %s", m and m[0])
    return {"nontrivial": n > 1 and (finite > 0 or total >= 0.1),
            "labels": [c["kind"], "criterion=" + o["stop_criteria"], "finite changes" if finite else "no finite change", "summary %s" % c["summary"],
                       "time %s" % ("<0.1" if total < 0.1 else "<1" if total < 1 else "1+"), "busy %s" % (c["summary"] and total > 0.2 and round(busy / total, 1))]}


main = Check("P23", [
    Part("small", gen(False), judge, 2000, 40000),
    Part("timed", gen(True), judge, 250, 8000),
], rule="random POMDP x exact method, grid, ZLZ or adjustable epsilon x stopping criterion, stop_delta, horizon, terminal values x report to a "
        "file or not, with or without the summary. The epochs, sizes and changes in the report are compared with the vectors -save_all saves (the change of "
        "the value function is computed at every vertex of both partitions), the times with each other and with what the kernel accounts, the "
        "summary with the progress lines. Non-trivial: two epochs, and a finite change or at least 0.1 s.",
    assumptions=["changes: two more digits than printed, 2e-5 relative for the linear programs", "the changes of grid and ZLZ epochs are not recomputed",
                 "the process uses at most 0.3 s before it starts its clock", "runs above 4 s of CPU time decide nothing"]).main
if __name__ == "__main__":
    main()
