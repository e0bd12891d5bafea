"""A model file means what the format says: every statement form, wildcards, names and overriding."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from vlib.core import Check, Inconclusive, Part, Violation
import numpy as np
from vlib.specgen import spec_texts
from vlib import refparser


def dump(out):
    """Parses mdpdump's output into a list of dicts."""
    ms, m = [], None
    for l in out.split("\n"):
        w = l.split()
        if not w:
            continue
        if w[0] == "MODEL":
            m = {"type": w[1], "g": float(w[2]), "values": w[3], "n": [int(x) for x in w[4:7]], "T": [], "O": [],
                 "Q": [], "R": []}
            ms.append(m)
        elif w[0] == "REJECTED":
            ms.append(None)
        elif m is not None and w[0] in ("T", "O", "Q", "R"):
            m[w[0]].append([float(x) for x in w[1:]])
        elif m is not None and w[0] == "START":
            m["start"] = [float(x) for x in w[1:]]
    return ms


def run_dump(ctx, names, variant):
    r = ctx.run("mdpdump", names, variant=variant, cpu=30)
    if r.timeout:
        raise Violation("reading the model did not end")
    if r.crashed:
        raise Violation("reading the model crashed (exit %d)\n%s%s" % (r.rc, r.sanitizer or "", r.err[-500:]))
    return r


def compare(ref, m, where=""):
    if (m["type"] == "MDP") != ref.mdp or m["n"] != [ref.S, ref.A, ref.Z] or m["values"] != ref.values \
            or abs(m["g"] - ref.g) > 1e-15:
        raise Violation("%sread as %s, discount %r, values %s, sizes %s; the file says %s, %r, %s, %s" % (
            where, m["type"], m["g"], m["values"], m["n"], "MDP" if ref.mdp else "POMDP", ref.g, ref.values,
            [ref.S, ref.A, ref.Z]))
    for k, want in (("T", ref.T), ("O", ref.O), ("R", ref.R), ("Q", ref.Q)):
        if k == "O" and ref.mdp:
            continue
        got = np.array(m[k]).reshape(want.shape)
        d = np.abs(got - want)
        if k == "Q":
            d = d / max(1, np.abs(ref.R).max())
        elif k == "R":
            d = d / np.maximum(1, np.abs(want))
        if d.max() > (1e-9 if k in "TOR" else 1e-8):
            i = np.unravel_index(d.argmax(), d.shape)
            raise Violation("%s%s%s is %.12g, the file says %.12g" % (where, k, [int(x) for x in i], got[i], want[i]))
    want = [ref.b0 if ref.b0 is not None else -1] if ref.mdp else ref.b
    if np.abs(np.array(m["start"]) - want).max() > 1e-9:
        raise Violation("%sstart is %s, the file says %s" % (where, m["start"], list(want)))


def reference(text):
    try:
        return refparser.parse(text)
    except refparser.Undecided as e:
        raise Inconclusive(str(e))


def forms(text):
    l = []
    for k in ("uniform", "identity", "reset", "include", "exclude", "*", "cost"):
        if k in text:
            l.append("uses " + k)
    return l


def judge(c, ctx):
    texts = c["texts"]
    refs = []
    for t in texts:
        ref, why = reference(t)
        if ref is None:
            raise Inconclusive("generated file is not valid: " + why)
        refs.append(ref)
    names = [ctx.write("m%d.POMDP" % i, t) for i, t in enumerate(texts)]
    r = run_dump(ctx, names, "asan")
    ms = dump(r.out)
    if r.rc != 0 or len(ms) != len(texts) or None in ms:
        raise Violation("a valid model was rejected:\n" + r.out[-800:])
    for i, (ref, m) in enumerate(zip(refs, ms)):
        compare(ref, m, "file %d: " % i if i else "")
    n = texts[0].count(":")
    return {"nontrivial": "*" in texts[0] or n > 12,
            "labels": forms(texts[0]) + ["MDP" if refs[0].mdp else "POMDP", "files=%d" % len(texts),
                                         "names" if refs[0].names["s"] else "numbers"]}


def example_files():
    d = "/repo/examples/pomdp-files"
    d = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "examples", "pomdp-files")
    return sorted(f for f in os.listdir(d) if f.endswith(".POMDP")) if os.path.isdir(d) else []


def judge_example(c, ctx):
    p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "examples", "pomdp-files", c["file"])
    if not os.path.exists(p):
        raise Inconclusive("no such example")
    text = open(p, encoding="latin1").read()
    ref, why = reference(text)
    with open(p, "rb") as f:
        ctx.write("m.POMDP", f.read())
    r = run_dump(ctx, ["m.POMDP"], "plain")
    ms = dump(r.out)
    if ref is None:
        if ms != [None]:
            raise Violation("%s was accepted although: %s" % (c["file"], why))
    elif len(ms) != 1 or ms[0] is None:
        raise Violation("%s was rejected: %s" % (c["file"], r.out[-500:]))
    else:
        compare(ref, ms[0], c["file"] + ": ")
    return {"nontrivial": ref is not None, "labels": [c["file"]]}


one = spec_texts().map(lambda t: {"texts": [t]})
LARGE = [(12, 3, 2), (30, 2, 3), (101, 1, 2), (130, 2, 1), (12, 14, 11), (3, 120, 2), (2, 2, 150), (5, 12, 30), (60, 2, 3), (257, 1, 1)]
large = st.one_of(*[spec_texts(mdp=False, sizes=LARGE)] * 3, spec_texts(mdp=True, sizes=[(12, 5, 0), (70, 3, 0), (130, 2, 0), (4, 110, 0)])).map(
    lambda t: {"texts": [t]})
several = st.lists(spec_texts(extra=2), min_size=2, max_size=3).map(lambda t: {"texts": t})
parts = [Part("statements", one, judge, 6000, 150000, ("asan",), ("mdpdump",)),
         Part("large", large, judge, 350, 12000, ("asan",), ("mdpdump",)),
         Part("sequence", several, judge, 600, 15000, ("asan",), ("mdpdump",))]
if example_files():
    parts.append(Part("examples", st.sampled_from(example_files()).map(lambda f: {"file": f}), judge_example, 60, 200,
                      ("plain",), ("mdpdump",)))
main = Check("P05", parts,
             rule="random programs of the file format: preamble in any order, names or counts, every start form, then "
                  "interleaved T/O/R statements of every form with wildcards that override each other, written with "
                  "random layout, comments and number spellings; the parser's T, O, R, expected rewards, start, discount "
                  "and type are compared with an independent reader. Non-trivial: a wildcard or more than a dozen colons. "
                  "'sequence' reads several files in one process; 'examples' reads the files of the repository.",
             assumptions=["probabilities below 1e-10 count as zero (the program's own rule)"]).main
if __name__ == "__main__":
    main()
