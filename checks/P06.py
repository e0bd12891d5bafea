"""Invalid model files are rejected, valid ones accepted: mutated files against an independent reader."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import re
from hypothesis import strategies as st
from vlib.core import Check, Inconclusive, Part, Violation
from vlib.specgen import spec_texts, NAMES
from checks.P05 import LARGE, compare, dump, reference, run_dump

TOKEN = re.compile(r"#[^\n]*|[A-Za-z][A-Za-z0-9_-]*|[0-9.]+(?:[eE][+-]?[0-9]+)?|[:*+-]|\n|[^\S\n]+|.", re.S)
NUMS = ["0", "1", "2", "3", "4", "7", "0.5", "0.25", "1.0", "1.5", "0.99998", "0.999999", "1.00002", "-1", "1e-3", "0.0", "2.0",
        "1e0", "1e1", "00", ".5", "4294967296", "4294967297", "4294967298", "2147483648", "18446744073709551617", "99999999999999999999"]
WORDS = ["uniform", "identity", "reset", "start", "include", "exclude", "reward", "cost", "T", "O", "R", "states",
         "actions", "observations", "discount", "values", "*", ":", "+", "-"] + NAMES[:12] + ["nosuchname", "%", "!", "0x1", "\\"]
LINES = ["start: uniform", "start include: 0", "start include: *", "start exclude: *", "start exclude: 0 1 2 3", "start: 0", "start: 1", "start: 7",
         "start: reset", "start include: 99", "T: 0 identity", "T: * reset", "T: 0 : 0 reset", "O: 0 uniform",
         "O: * : * uniform", "O: * reset", "O: 0 : 0 reset", "O: 0 : 0 : 0 1.0", "O: 0 : * 1.0", "R: 0 1 2 3 4", "R: 0 0 0 0 0", "R: 0 : 0 : 0 : 0 3", "R: * : * 1", "R: 0 : 0 1 2", "R: 0 : 0 : 0 : 0 1e400", "R: * : 0 : 1 : * -2.5e9999",
         "R: * : * : * 1", "R: * : * : * 1 2 3 4 5 6 7 8 9", "T: 0 : 0 uniform", "T: 0 : 0 : 0 0.5", "T: 9 uniform", "T: 0 : 9 uniform", "O: 0 : 0 : 9 0",
         "T: nosuchname identity", "states: 0", "actions: 0", "observations: 0", "discount: 1.01", "discount: -0.1", "discount: 1",
         "values: reward", "values: penalty", "R: 0 : nosuchname : * : * 1", "T: 0 uniform uniform", "R:", "T: 0", "T: *\n", "@",
         "T: 4294967296 uniform", "T: 0 : 4294967296 uniform", "O: * : 4294967297 uniform", "R: * : * : * : 4294967296 1", "R: 0 : 0 : 0 : 0 4294967297",
         "R: 4294967296 : * : * : * 5", "T: 0 : 0 : 4294967296 0", "O: 0 : 0 : 0 4294967297", "states: 4294967298", "actions: 4294967297", "start: 4294967296"]


START = [l for l in LINES if l.startswith("start")] + ["start: 0 1", "start: 1 0", "start: 0.5 0.5", "start: 0.5 0.6",
         "start: 0.5", "start: 1 0 0", "start: 0 0 1.0 0", "start: a", "start: s0", "start: nosuchname", "start include: a b",
         "start exclude: a", "start exclude: 0", "start exclude: 1 1", "start include: 0 1", "start include: * 0", "start exclude: 0 *",
         "start include:", "start:", "start include: 0.5", "start: 1.5", "start: -1", "start: 2", "start: 3", "start: 1.0"]
BODY = [l for l in LINES if l[0] in "TOR@"]


@st.composite
def mutants(draw, sizes=None):
    shape = draw(st.sampled_from(["tokens", "tokens", "start", "body", "body", "both"]))
    text = draw(spec_texts(extra=2, sizes=sizes, mdp=False if sizes else None, raw_start=st.sampled_from(START) if shape in ("start", "both") else None,
                           raw_body=st.lists(st.sampled_from(BODY), min_size=1, max_size=2) if shape in ("body", "both") else None))
    toks = TOKEN.findall(text)
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])) if shape == "tokens" else draw(st.sampled_from([0, 0, 0, 1]))):
        kind = draw(st.sampled_from(["del", "dup", "swap", "num", "word", "line", "cutline", "moveline", "dupline", "nearsum"]))
        real = [i for i, t in enumerate(toks) if t.strip() and t[0] != "#"]
        if not real:
            break
        i = real[draw(st.integers(0, len(real) - 1))]
        if kind == "del":
            del toks[i]
        elif kind == "dup":
            toks[i:i] = [toks[i], " "]
        elif kind == "swap":
            j = real[draw(st.integers(0, len(real) - 1))]
            toks[i], toks[j] = toks[j], toks[i]
        elif kind == "num":
            n = [k for k in real if toks[k][0].isdigit()]
            if n:
                k = n[draw(st.integers(0, len(n) - 1))]
                toks[k] = draw(st.sampled_from(NUMS + ["11", "12", "13", "29", "30", "31", "101", "129", "130", "255", "256", "257", toks[k] + "0"]
                                               if sizes else NUMS))
        elif kind == "nearsum":
            n = [k for k in real if toks[k][0].isdigit() and "." in toks[k]]
            if n:
                k = n[draw(st.integers(0, len(n) - 1))]
                try:
                    v = float(toks[k]) + draw(st.sampled_from([3e-6, -3e-6, 3e-5, -3e-5, 1e-3, -1e-3]))
                    if v > 0:
                        toks[k] = repr(v)
                except ValueError:
                    pass
        elif kind == "word":
            toks[i] = draw(st.sampled_from(WORDS))
        else:
            L = "".join(toks).split("\n")
            j = draw(st.integers(0, len(L) - 1))
            if kind == "line":
                L.insert(j, draw(st.sampled_from(LINES)))
            elif kind == "cutline":
                del L[j]
            elif kind == "dupline":
                L.insert(draw(st.integers(0, len(L) - 1)), L[j])
            else:
                x = L.pop(j)
                L.insert(draw(st.integers(0, len(L))), x)
            toks = TOKEN.findall("\n".join(L))
    return {"text": "".join(toks)}


def judge_dump(c, ctx):
    ref, why = reference(c["text"])
    ctx.write("m.POMDP", c["text"])
    r = run_dump(ctx, ["m.POMDP"], "asan")
    ms = dump(r.out)
    accepted = r.rc == 0 and len(ms) == 1 and ms[0] is not None
    if ref is None and accepted:
        raise Violation("an invalid model was accepted (%s)" % why)
    if ref is None and r.rc != 3:
        raise Violation("reading an invalid model (%s) ended with exit %d" % (why, r.rc))
    if ref is None and "ERROR" not in r.out:
        raise Violation("an invalid model (%s) was rejected without an error message" % why)
    if ref is not None:
        if not accepted:
            raise Violation("a valid model was rejected:\n" + r.out[-600:])
        compare(ref, ms[0])
    return {"nontrivial": True, "labels": ["valid" if ref else "invalid: " + re.sub(r"[0-9]+", "N", why.split(";")[0])]}


def judge_cli(c, ctx):
    ref, why = reference(c["text"])
    ctx.write("m.POMDP", c["text"])
    r = ctx.run("pomdp-solve", ["-pomdp", "m.POMDP", "-o", "m", "-horizon", "1"], variant="asan", cpu=30)
    if r.timeout:
        raise Violation("pomdp-solve did not end")
    if r.crashed:
        raise Violation("pomdp-solve crashed (exit %d)\n%s%s" % (r.rc, r.sanitizer or "", r.err[-500:]))
    files = sorted(f for f in os.listdir(ctx.scratch) if f.startswith("m.") and f != "m.POMDP")
    if ref is None or ref.mdp:
        if r.rc == 0 or "Solution found" in r.out:
            raise Violation("pomdp-solve exits with %d for a model that is %s" % (r.rc, why or "not a POMDP"))
        if any(os.path.getsize(ctx.path(f)) for f in files):
            raise Violation("pomdp-solve wrote %s for a model that is %s" % (files, why or "not a POMDP"))
    elif r.rc != 0 or "m.alpha" not in files or "m.pg" not in files:
        raise Violation("a valid model was not solved (exit %d, files %s):\n%s" % (r.rc, files, (r.out + r.err)[-600:]))
    return {"nontrivial": True, "labels": ["MDP" if ref and ref.mdp else "valid" if ref else "invalid"]}


main = Check("P06", [Part("parser", mutants(), judge_dump, 6000, 150000, ("asan",), ("mdpdump",)),
                     Part("large", mutants(sizes=LARGE), judge_dump, 500, 12000, ("asan",), ("mdpdump",)),
                     Part("program", mutants(), judge_cli, 1200, 25000, ("asan",))],
             rule="valid random model files with 1-3 mutations (token deleted, duplicated, swapped, replaced; line inserted, "
                  "removed, moved; a probability off by 3e-6 .. 1e-3); the program must accept exactly the files that an "
                  "independent reader of the grammar accepts, with the same meaning, report the others as errors, exit with a "
                  "status other than 0 and write no solution. Non-trivial: every case the reference can decide.",
             assumptions=["inputs at a tolerance (sums within 1e-9 of 1e-5) and sizes given twice decide nothing"]).main
if __name__ == "__main__":
    main()
