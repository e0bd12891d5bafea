"""Options of pomdp-solve: command line, configuration file, defaults, validation, precedence."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

PURGE = ["none", "domonly", "normal_prune", "epsilon_prune"]
VERBOSE = ("context lp global timing stats cmdline main alpha proj crosssum agenda enum twopass linsup witness incprune "
           "lpinterface vertexenum mdp pomdp param parsimonious region approx_mcgs zlz_speedup finite_grid mcgs").split()
# name: (kind, valid, shown when not given), from the documentation of the options (pomdp-solve-options.xml)
OPTS = {
    "stdout": ("str", None, ""), "rand_seed": ("seed", None, ""), "stat_summary": ("flag", None, "false"),
    "memory_limit": ("int", 1, "0"), "time_limit": ("int", 1, "0"), "terminal_values": ("tv", None, ""),
    "horizon": ("int", 1, "0"), "discount": ("float", (0, 1), "-1.000000"),
    "stop_criteria": ("enum", ["exact", "weak", "bellman"], "weak"), "stop_delta": ("float", (0, None), "0.000000"),
    "save_all": ("flag", None, "false"), "vi_variation": ("enum", ["normal", "zlz", "adjustable_epsilon", "fixed_soln_size"], "normal"),
    "start_epsilon": ("float", (0, None), "0.000000"), "end_epsilon": ("float", (0, None), "0.000000"),
    "epsilon_adjust": ("float", (0, None), "0.000000"), "max_soln_size": ("float", (0, None), "0.000000"),
    "history_length": ("int", 1, "0"), "history_delta": ("int", 1, "0"), "dom_check": ("flag", None, "true"),
    "prune_epsilon": ("float", (0, None), "0.000000"), "epsilon": ("float", (0, None), "0.000000"),
    "lp_epsilon": ("float", (0, None), "0.000000"), "fg_epsilon": ("float", (0, None), "0.000000"),
    "proj_purge": ("enum", PURGE, "normal_prune"), "q_purge": ("enum", PURGE, "normal_prune"),
    "witness_points": ("flag", None, "false"), "alg_rand": ("int", 0, "0"), "prune_rand": ("int", 0, "0"),
    "method": ("enum", ["enum", "twopass", "linsup", "witness", "incprune", "grid", "mcgs"], "incprune"),
    "enum_purge": ("enum", PURGE, "normal_prune"), "inc_prune": ("enum", ["normal", "restricted_region", "generalized"], "normal"),
    "fg_type": ("enum", ["simplex", "pairwise", "search", "initial"], "initial"), "fg_points": ("int", 1, "10000"),
    "fg_save": ("flag", None, "false"), "mcgs_traj_length": ("int", 1, "100"), "mcgs_num_traj": ("int", 1, "1000"),
    "mcgs_traj_iter_count": ("int", 1, "1"), "mcgs_prune_freq": ("int", 1, "100"), "fg_purge": ("enum", PURGE, "normal_prune"),
    "verbose": ("enum", VERBOSE, "context"), "save_penultimate": ("flag", None, "false"), "o": ("str", None, None),
}
NAMES = sorted(OPTS)
MODEL = """discount: 0.9
values: reward
states: 2
actions: 2
observations: 1
T: * identity
O: * uniform
R: 0 : 0 : * : * 3
R: 1 : 1 : * : * 2
"""
BADNUM = ["", "x", "abc", "1x", "nan", "1,5", "--", "1 2"]


def good(draw, name):
    k, v, _ = OPTS[name]
    if k == "flag":
        return draw(st.sampled_from(["true", "false"]))
    if k == "enum":
        return draw(st.sampled_from(v))
    if k == "int":
        return str(draw(st.sampled_from([v, v + 1, 5, 17, 250, 2147483647 if name in ("memory_limit", "fg_points", "horizon") else 31])))
    if k == "float":
        return draw(st.sampled_from(["0", "1", "0.5", "0.25", "1e-9", "0.000001", "0.125000", ".75"] + (["1.5", "40", "1e2"] if v[1] is None else [])))
    if k == "seed":
        return draw(st.sampled_from(["1:2:3", "34523:12987:50732", "0:0:0"]))
    if k == "tv":
        return "tv.alpha"
    return draw(st.sampled_from({"stdout": ["report.txt", "r"], "o": ["out", "x.y", "d.1/res", "d.1/r.e.s", "out" * 60]}[name]))


def bad(draw, name):
    k, v, _ = OPTS[name]
    if k == "flag":
        return draw(st.sampled_from(["True", "yes", "1", "0", "tru", "truee", "falsee", ""]))
    if k == "enum":
        w = draw(st.sampled_from(v))
        return draw(st.sampled_from([w.upper(), w + "x", w[:-1], "nosuch", ""]).filter(lambda x: x not in v))
    if k == "int":
        return draw(st.sampled_from(BADNUM + ["1.5", "1e3", "99999999999", "4294967297"] + (["0"] if v == 1 else [])))
    if k == "float":
        return draw(st.sampled_from(BADNUM + (["1.0001", "2", "1e9"] if v[1] == 1 else [])))
    return None


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=14, unique=True))
    cl, cf = [], []
    cfg = draw(st.sampled_from([False, True, True]))
    badone = draw(st.sampled_from([None, None, None, 0]))
    side = draw(st.booleans())
    for i, n in enumerate(names):
        where = draw(st.sampled_from(["cl", "cf", "both"])) if cfg else "cl"
        for w in (["cl"] if where == "cl" else ["cf"] if where == "cf" else ["cl", "cf"]):
            x = bad(draw, n) if badone == i and not (w == "cl" and where == "both" and side) else None
            if x is not None and w == "cf" and draw(st.integers(0, 3)) == 0:
                x = ""
            if x is None:
                x = good(draw, n)
            if OPTS[n][0] == "flag" and w == "cl" and x == "true" and draw(st.booleans()):
                x = None            # given as a flag
            (cl if w == "cl" else cf).append([n, x])
    c = {"cl": draw(st.permutations(cl)), "cf": draw(st.permutations(cf)) if cfg else None}
    c["twist"] = draw(st.sampled_from(["", "", "", "", "", "", "unknown", "dup", "unknown-flag", "help", "nofile", "syntax", "long"]))
    if c["twist"] in ("nofile", "syntax") and not cfg:
        c["twist"] = ""
    c["pos"] = draw(st.integers(0, 20))
    c["word"] = draw(st.sampled_from(["horizonn", "Horizon", "save", "x", "stop_delt", "hh", "dom-check"]))
    c["style"] = draw(st.lists(st.integers(0, 9), min_size=12, max_size=12))
    c["model"] = draw(st.sampled_from(["m.POMDP", "m.POMDP", "m.x.POMDP", "d.1/m.POMDP", "d.1/m", "m", "./d.1/m", "./d.1/m.pomdp"]))
    c["pomdp_in"] = draw(st.sampled_from(["cl", "cl", "cf"])) if cfg else "cl"
    return c


def shown(n, v):
    k = OPTS[n][0] if n in OPTS else "str"
    return "%.6f" % float(v) if k == "float" else str(int(v)) if k == "int" else v


def invalid(n, v):
    k, d, _ = OPTS[n]
    if k == "flag":
        return v not in ("true", "false")
    if k == "enum":
        return v not in d
    if k == "int":
        return not re.fullmatch(r"\d+", v) or not d <= int(v) <= 2147483647
    if k == "float":
        return not re.fullmatch(r"(\d+\.?\d*|\.\d+)(e-?\d+)?", v) or not (d[0] <= float(v) and (d[1] is None or float(v) <= d[1]))
    return False


def config_text(c):
    L, s = [], c["style"]
    for i, (n, v) in enumerate(c["cf2"]):
        k = s[i % len(s)]
        if v == "" and k < 6:
            k += 3
        if k == 1:
            L.append("# a comment = with an equals sign")
        if k == 2:
            L.append("")
        if k == 3:
            L.append("   \t ")
        L.append({4: "%s=%s", 5: "  %s\t =   %s  ", 6: "%s = %s # comment", 7: "%s =%s#x = y", 8: "\t%s= %s\t"}.get(k, "%s = %s") % (n, v))
    t = ("\r\n" if s[0] == 9 else "\n").join(L)
    return t if s[1] % 2 else t + "\n"


def judge(c, ctx):
    c = dict(c)
    cl = [list(x) for x in c["cl"]]
    cf = [list(x) for x in c["cf"]] if c["cf"] is not None else None
    err = None
    (cl if c["pomdp_in"] == "cl" else cf).insert(0, ["pomdp", c.get("model", "m.POMDP")])
    tw = c["twist"]
    if any(v is not None and (v == "" or v == "--" or " " in v) for n, v in cl):
        # an empty word or one with a dash has its own meaning on a command line; in a configuration file a space ends the value
        raise Inconclusive("word not usable on a command line")
    if cf is not None and any(" " in v for n, v in cf):
        raise Inconclusive("space in a value")
    if tw == "unknown":
        (cl if cf is None or c["pos"] % 2 else cf).append([c["word"], "3"])
        err = "unknown option"
    elif tw == "unknown-flag":
        cl.append([c["word"], None])
        err = "unknown flag"
    elif tw == "help":
        cl.append(["h", None])
        err = "help"
    elif tw == "long":
        cl.append(["o", "y" * 5000])
        err = "word too long"
    elif tw == "dup":
        t = cl if cf is None or c["pos"] % 2 else cf
        d = [x for x in t if x[1] is not None]
        if d:
            t.append(list(d[c["pos"] % len(d)]))
            err = "given twice"
    eff = {}
    for n, v in (cf or []):
        eff[n] = v
    for n, v in cl:
        eff[n] = "true" if v is None else v
    for n, v in eff.items():
        if n in OPTS and invalid(n, v):
            err = err or "invalid value %r of -%s" % (v, n)
    os.mkdir(ctx.path("d.1"))
    ctx.write(c.get("model", "m.POMDP"), MODEL)
    ctx.write("tv.alpha", "0\n1 2\n\n0\n4 0\n\n")
    files = {f: set(os.listdir(ctx.path(f))) for f in (".", "d.1")}
    if cf is not None:
        eff["f"] = "my.cfg"
        cl.append(["f", "my.cfg"])
        c["cf2"] = cf
        t = config_text(c)
        if tw == "syntax":
            t = t.rstrip("\r\n") + "\n" + ["oops", "= 3", "a b = 3", "horizon = 2 3", "horizon == 2", "horizon # = 2"][c["pos"] % 6] + "\n"
            err = "malformed configuration file"
        if tw == "nofile":
            err = "no configuration file"
        else:
            ctx.write("my.cfg", t)
    # flags last or before another option, values right after their option
    args = []
    for n, v in cl:
        args += ["-" + n] + ([] if v is None else [v])
    if "horizon" not in eff or err is None and int(eff["horizon"]) > 5:
        # keep runs short: any method, one epoch
        args = [a for i, a in enumerate(args) if not (a == "-horizon" or i and args[i - 1] == "-horizon")]
        args += ["-horizon", "1"]
        eff["horizon"] = "1"
    if not err and eff.get("vi_variation") == "zlz" and float(eff.get("discount", 0.9)) == 1:
        raise Inconclusive("the ZLZ improvement only converges with a discount below 1")
    r = ctx.run("pomdp-solve", args, variant="asan", cpu=30)
    cmd = " ".join(args)[:1500]
    if r.sanitizer:
        raise Violation("pomdp-solve %s: %s" % (cmd, r.sanitizer))
    if err:
        if r.rc != 1:
            raise Violation("%s: pomdp-solve %s exits with %d" % (err, cmd, r.rc))
        if "Usage" not in r.out or err != "help" and "*Error*" not in r.err:
            raise Violation("%s: pomdp-solve %s shows no error and usage:\n%s%s" % (err, cmd, r.out[-300:], r.err[-300:]))
        left = set(os.listdir(ctx.scratch)) - files["."] - {"my.cfg", ".out", ".err"}
        left |= set(os.listdir(ctx.path("d.1"))) - files["d.1"]
        if left:
            raise Violation("%s: pomdp-solve %s wrote %s" % (err, cmd, sorted(left)))
        return {"nontrivial": True, "labels": ["error: " + (err if err[0] != "i" else "invalid value")]}
    out = r.out
    if eff.get("stdout"):
        if r.out.strip():
            raise Violation("-stdout given, but the report went to the standard output: %r" % r.out[:200])
        out = ctx.read(eff["stdout"])
    seg = out.split("- - - - - - - - - - - - - - - - - - - -\n")
    if len(seg) < 3:
        raise Violation("no parameters shown for %s (exit %d): %s" % (cmd, r.rc, (r.out + r.err)[-500:]))
    got = dict(l.split(" =", 1) for l in seg[1].split("\n") if " =" in l)
    for n in list(OPTS) + ["pomdp", "f"]:
        if n == "o" and "o" not in eff:
            want = None
        elif n == "lp_epsilon":
            # never less precise than the general epsilon
            want = "%.6f" % min(float(eff.get(n, 1e-9)), float(eff.get("epsilon", 1e-9)))
        elif n in ("witness_points", "stop_criteria") and eff.get("vi_variation") == "zlz":
            want = {"witness_points": "true", "stop_criteria": "bellman"}[n]     # what the variation needs
        else:
            want = shown(n, eff[n]) if n in eff else (OPTS[n][2] if n in OPTS else "")
        if want is not None and got.get(n, "missing").strip() != want:
            raise Violation("option %s is %r, expected %r, for %s\nconfiguration file: %r" % (
                n, got.get(n), want, cmd, c.get("cf2")))
    runs = eff.get("method") not in ("linsup", "mcgs") and eff.get("vi_variation", "normal") == "normal"
    if runs:
        if r.rc != 0 or "Solution found" not in out:
            raise Violation("exit %d for %s:\n%s" % (r.rc, cmd, (out + r.err)[-500:]))
        if "o" in eff:
            if not ctx.exists(eff["o"] + ".alpha") or not ctx.exists(eff["o"] + ".pg"):
                raise Violation("no %s.alpha and %s.pg for %s" % (eff["o"], eff["o"], cmd))
        else:
            # the name of the model up to its last period, with the process id, or "solution"
            d, _, b = c.get("model", "m.POMDP").rpartition("/")
            if "." in b:
                b = re.escape(b.rpartition(".")[0]) + r"-\d+"
            else:
                d, b = "", "solution"
            new = set(os.listdir(ctx.path(d or "."))) - files["d.1" if d else "."]
            for e in ("alpha", "pg"):
                if not [f for f in new if re.fullmatch(b + "[.]" + e, f)]:
                    raise Violation("no %s.%s without -o: %s" % (b, e, sorted(new)))
        n = len(re.findall(r"^Epoch: ", out, re.M))
        if not 1 <= n <= int(eff["horizon"]):
            raise Violation("%d epochs for -horizon %s" % (n, eff["horizon"]))
    return {"nontrivial": len(eff) > 4, "labels": ["valid", "config" if cf else "no config", "runs" if runs else "other method"]}


@st.composite
def equiv(draw):
    c = {"m": draw(models(s=(2, 3), a=(2,), o=(2,))), "opts": draw(exact_opts(weak=False))}
    c["opts"]["horizon"] = draw(st.integers(1, 3))
    c["opts"]["save_all"] = "true"
    if draw(st.booleans()):
        c["opts"]["discount"] = draw(st.sampled_from(["0.5", "0.9"]))
    c["split"] = draw(st.lists(st.sampled_from(["cl", "cf", "both"]), min_size=len(c["opts"]), max_size=len(c["opts"])))
    return c


OTHER = {"method": "enum", "horizon": "1", "discount": "0.1", "save_all": "false", "inc_prune": "normal", "epsilon": "0.3",
         "proj_purge": "none", "q_purge": "none", "enum_purge": "none", "witness_points": "false", "dom_check": "true",
         "alg_rand": "7", "prune_rand": "9", "rand_seed": "5:5:5"}


def judge_equiv(c, ctx):
    """The same options given on the command line, or in a configuration file, or both: the same files."""
    M = Model(c["m"])
    o = dict(c["opts"], rand_seed="1:2:3")
    h = horizon_cap(M, o, o["horizon"])
    o["horizon"] = h
    r = solve(ctx, M.text(), o)
    want = {f: ctx.read(f) for f in os.listdir(ctx.scratch) if re.match(r"m\.(alpha|pg)", f)}
    for f in want:
        os.unlink(ctx.path(f))
    cl, cf = {}, []
    for (k, v), w in zip(o.items(), c["split"] + ["cf"]):
        if w != "cf":
            cl[k] = v
        if w != "cl":
            cf.append("%s = %s\n" % (k, v if w == "cf" else OTHER[k]))
    ctx.write("c.cfg", "".join(cf))
    cl["f"] = "c.cfg"
    solve(ctx, M.text(), cl)
    got = {f: ctx.read(f) for f in os.listdir(ctx.scratch) if re.match(r"m\.(alpha|pg)", f)}
    if got != want:
        raise Violation("options %s with the configuration file %r give other solutions than all on the command line: "
                        "%s and %s" % (cl, cf, sorted(got), sorted(want)))
    return {"nontrivial": len(cf) > 1, "labels": ["config lines=%d" % len(cf)]}


main = Check("P16", [Part("options", cases(), judge, 3000, 60000, ("asan",)),
                     Part("equivalent", equiv(), judge_equiv, 600, 10000)],
             rule="random sets of options with valid and invalid values, on the command line, in a configuration file of "
                  "random layout, or in both, plus unknown, repeated, overlong and malformed ones; the parameters the program "
                  "shows, its exit status and the files it writes are compared with the documented meaning. Non-trivial: an "
                  "error case, or more than four options in effect.",
             assumptions=["values are shown with six decimals"]).main
if __name__ == "__main__":
    main()
