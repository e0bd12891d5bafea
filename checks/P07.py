"""Any bytes in any input file: the programs end by themselves, without memory errors, and malformed files are errors."""
import base64, glob, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Inconclusive, Part, Violation
from vlib.fuzz import FuzzPart
from vlib.tools import *
from vlib.specgen import spec_texts
from checks.P06 import mutants, LINES, TOKEN

MODEL = """discount: 0.9
values: reward
states: 3
actions: 2
observations: 2
start: 0.5 0.25 0.25
T: 0
uniform
T: 1
identity
O: 0
0.75 0.25
0.5 0.5
0 1
O: 1
1 0
1 0
1 0
R: 0 : 0 : * : * 3
R: 1 : 1 : * : * 2
R: 0 : 2 : 1 : 0 -1.5
"""
MODELS = [MODEL] + ["""# comment
discount: 0.95
values: cost
states: s0 s1 s-2
actions: left right
observations: o1 o2 none
start include: s0 s-2
T: left : s0 : s1 1.0
T: left : s1
0.5 0.5 0
T: left : s-2 uniform
T: right identity
T: right : s1 reset
O: * uniform
O: left : s0
0.2 0.3 0.5
R: * : * : * : * 1
R: left : s0 : s1
1 2 3
R: right : s1
1 2 3
4 5 6
7 8 -9.5e-1
""", "discount: 1.0\nvalues: reward\nstates: 2\nactions: 2\nT: *\nuniform\nR: 0 : 0 : 1 5\nR: 1 : 0\n1 2\nR: 1\n1 2 3 4\nstart: 1\n",
     "discount: 0.5\nvalues: reward\nstates: 2\nactions: a\nobservations: 1\nstart exclude: 1\nT: a 0.5 0.5 0.25 0.75\nO: a 1 1\nR: a 1 2\n",
     "discount: 0.5\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nstart: reset\nT: 0 : * : 0 0.5\nT: 0 : * : 1 0.5\nT: 1\nreset\n"]
DICT = ["discount:", "values:", "states:", "actions:", "observations:", "start:", "start include:", "start exclude:", "T:", "O:", "R:", "T: 0 : 0 : 0 1.0\n",
        "uniform", "identity", "reset", "reward", "cost", " : ", "*", "0.5", "1.0", "-", "+", "1e-5", "1e400", "#", "\n", "\n\n", " * : * ", "R: * : * : * : * 1\n", "O: * uniform\n",
        "T: * identity\n", "O: 0 : 0\n", "R: 0 : 0 : 0\n", "start include: 0 1\n", "start: 0 1\n", "start: uniform\n", "start: 1\n", "T: 1 : 1 ", " 0 ", " 1 ", "0.3333333", "s0", "a1"]
NUMBERS = ["0", "1", "-1", "1.5", "1e308", "1e400", "-1e400", "nan", "inf", "-inf", "0x10", "99999999999", "-99999999999", "2147483648", "4294967296", "-", "+", "X", "-1e", "e5", ".", "..",
           "", "1,5", "1:2", "#", "\0", "\xff", "-----", "****", "0" * 40, "1" * 400, "x" * 40, "x" * 2000, "9" * 31, "-2", "2", "3", "1e-320"]
ALPHA = "0\n1.0 2.5 -3.25 \n\n1\n4 0 0 \n\n"
BELIEF = "0.5 0.25 0.25\n1 0 0\n"
PG = "0 0  1 0 \n1 1  0  -  \n2 0 X 1\n"
CFG = "pomdp = m.POMDP\n# comment\nhorizon = 2 # more\n\nsave_all = true\nmethod=witness\n"


def run_model(ctx, text):
    ctx.write("m.POMDP", text)
    for prog, args in (("mdpdump", ["m.POMDP"]), ("pomdp-solve", ["-pomdp", "m.POMDP", "-o", "m", "-horizon", "1", "-method", "grid", "-fg_points", "3"])):
        r = ctx.run(prog, args, variant="asan", cpu=20)
        ended(r, prog)
        if prog == "pomdp-solve" and r.rc and "rror" not in r.out + r.err and "ABORT" not in r.out + r.err:
            raise Violation("pomdp-solve ends with %d and no message" % r.rc)
    return r


def ended(r, what):
    if r.timeout:
        raise Violation("%s did not end" % what)
    if r.crashed:
        raise Violation("%s crashed (exit %d): %s" % (what, r.rc, r.sanitizer or (r.out + r.err)[-300:]))


def judge_model(c, ctx):
    """The parser on a file of any bytes, by the real programs."""
    run_model(ctx, base64.b64decode(c["b64"]))
    return {"nontrivial": True, "labels": []}


def files_of(kind):
    """Command lines which read a file of the kind in.x; the other files are good."""
    t = "pomdp-tools"
    S = ["-states", "3"]
    return {
        "alpha": [(t, ["-tool", "sort_alphas", "-alpha1", "in.x", "-o", "out"] + S), (t, ["-tool", "purge_alphas", "-alpha1", "in.x", "-o", "out"] + S),
                  (t, ["-tool", "compare_alphas", "-alpha1", "in.x", "-alpha2", "a.alpha"] + S), (t, ["-tool", "compare_alphas", "-alpha1", "a.alpha", "-alpha2", "in.x"] + S),
                  (t, ["-tool", "map_beliefs", "-alpha1", "in.x", "-belief", "b.belief", "-o", "out"] + S),
                  (t, ["-tool", "belief_alpha_compare", "-alpha1", "a.alpha", "-alpha2", "in.x", "-belief", "b.belief"] + S),
                  (t, ["-tool", "pg_relink", "-pomdp", "m.POMDP", "-alpha1", "in.x", "-pg1", "g.pg", "-alpha2", "a.alpha", "-o", "out"]),
                  (t, ["-tool", "pg_relink", "-pomdp", "m.POMDP", "-alpha1", "a.alpha", "-pg1", "g.pg", "-alpha2", "in.x", "-o", "out"]),
                  ("pomdp-solve", ["-pomdp", "m.POMDP", "-terminal_values", "in.x", "-horizon", "1", "-o", "m", "-method", "witness"])],
        "belief": [(t, ["-tool", "map_beliefs", "-alpha1", "a.alpha", "-belief", "in.x", "-o", "out"] + S),
                   (t, ["-tool", "belief_alpha_compare", "-alpha1", "a.alpha", "-alpha2", "a.alpha", "-belief", "in.x"] + S)],
        "pg": [(t, ["-tool", "pg_eval", "-pomdp", "m.POMDP", "-pg1", "in.x"]),
               (t, ["-tool", "pg_relink", "-pomdp", "m.POMDP", "-alpha1", "a.alpha", "-pg1", "in.x", "-alpha2", "a.alpha", "-o", "out"])],
        "config": [("pomdp-solve", ["-f", "in.x", "-pomdp", "m.POMDP", "-o", "m", "-horizon", "1"]),
                   (t, ["-f", "in.x", "-tool", "sort_alphas", "-alpha1", "a.alpha", "-o", "out"] + S)],
        "history": [(t, ["-tool", "update_beliefs", "-pomdp", "m.POMDP"])]}[kind]


def good_files(ctx):
    ctx.write("m.POMDP", MODEL)
    ctx.write("a.alpha", ALPHA)
    ctx.write("b.belief", BELIEF)
    ctx.write("g.pg", "0 0  1 0\n1 1  0  -\n")


WORD = re.compile(rb"[^ \t\n\v\f\r]+")
NUM = re.compile(rb"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")
INT = re.compile(rb"[+-]?\d+\Z")


def malformed(kind, data):
    """True when the file is surely bad, False when surely good, None when that is open."""
    w = WORD.findall(data)
    if b"\0" in data or any(len(x) > 300 for x in w):
        return None
    sure = True
    if kind in ("alpha", "belief"):
        for i, x in enumerate(w):
            integer = kind == "alpha" and i % 4 == 0
            if not integer and (re.fullmatch(rb"[+-]?(inf|infinity|nan)", x, re.I) or NUM.match(x) and abs(float(x)) == float("inf")):
                return True
            if not (INT if integer else NUM).match(x):
                if re.match(rb"[ghj-mo-zGHJ-MO-Z*#:,=_%]", x):      # not the beginning of any number, nan or infinity
                    return True
                return None
            if integer and not -2**31 <= int(x) < 2**31:
                return True
            if integer and not 0 <= int(x) <= 1:
                sure = False
        if not w:
            return True if kind == "alpha" else None
        if len(w) % (4 if kind == "alpha" else 3):
            return True
        return False if sure else None
    if kind == "pg":
        for i, x in enumerate(w):
            if i % 4 < 2 and not INT.match(x) or i % 4 >= 2 and not INT.match(x) and x not in (b"-", b"X"):
                if re.match(rb"[A-WYZa-wyz*#:,=_%]", x):
                    return True
                return None
            if i % 4 == 1 and not 0 <= int(x) <= 1 or INT.match(x) and not -2**31 <= int(x) < 2**31:
                return True
        if not w or len(w) % 4:
            return True
        return None
    return None


def judge_file(c, ctx):
    data = base64.b64decode(c["b64"]) if "b64" in c else c["text"].encode("latin1")
    kind = c["kind"]
    good_files(ctx)
    bad = malformed(kind, data)
    cmds = files_of(kind)
    if "which" in c:
        cmds = [cmds[c["which"] % len(cmds)]]
    rcs = []
    for prog, args in cmds:
        if kind == "history":
            r = ctx.run(prog, args, variant="asan", stdin=data, cpu=20)
        else:
            ctx.write("in.x", data)
            r = ctx.run(prog, args, variant="asan", cpu=20)
        ended(r, " ".join([prog] + args))
        rcs.append(r.rc)
        if bad and not re.search(r"rror|arning|ABORT", r.out + r.err):
            raise Violation("%s: no message about a malformed %s file (exit %d)" % (" ".join(args), kind, r.rc))
        if bad and ctx.exists("out") and os.path.getsize(ctx.path("out")):
            raise Violation("%s: a result was written for a malformed %s file" % (" ".join(args), kind))
        if bad is False and kind == "belief" and r.rc:
            raise Violation("%s: a good %s file is an error (exit %d)" % (" ".join(args), kind, r.rc))
    return {"nontrivial": True, "labels": [kind, {True: "malformed", False: "well-formed", None: "open"}[bad], "exit 0" if not any(rcs) else "exit other"]}


BASE = {"alpha": ALPHA, "belief": BELIEF, "pg": PG, "config": CFG,
        "history": "0 0\n1 1\n\nquit\n0 1\n"}
EXTRA = {"config": ["=", "#", " = ", "horizon", "pomdp", "x" * 300, "y" * 127, "z" * 128, "w" * 1023, "v" * 1024, "method", "true", "stdout = out.txt", "\r\n", "\r", "-f", "f = in.x", "o", "epsilon"],
         "history": ["quit", "exit", "q", "a0", "0 0", "1 1", "0 5", "5 0", "-1 0", "0", "0 0 0", "x" * 200, "\r\n"], "alpha": [], "belief": [], "pg": ["X", "-"]}


@st.composite
def broken(draw):
    kind = draw(st.sampled_from(["alpha", "belief", "pg", "config", "history", "alpha", "pg"]))
    toks = re.findall(r"\s+|[^\s]+", BASE[kind] * draw(st.sampled_from([1, 1, 1, 40])))
    words = NUMBERS + EXTRA[kind] * 3
    for _ in range(draw(st.integers(0, 4))):
        if not toks:
            break
        i = draw(st.integers(0, len(toks) - 1))
        how = draw(st.sampled_from(["word", "word", "del", "ins", "cut", "byte", "space"]))
        if how == "word":
            toks[i] = draw(st.sampled_from(words))
        elif how == "del":
            del toks[i]
        elif how == "ins":
            toks[i:i] = [draw(st.sampled_from(words)), draw(st.sampled_from([" ", "\n", ""]))]
        elif how == "cut":
            del toks[i:]
        elif how == "byte":
            toks[i] = toks[i][:1] + draw(st.characters(max_codepoint=255)) + toks[i][1:]
        else:
            toks[i] = draw(st.sampled_from(["", " ", "\t", "\n", "\r\n", "\v", "\f", "\r", "\n" * 3000, " " * 5000]))
    return {"kind": kind, "text": "".join(toks), "which": draw(st.integers(0, 8))}


@st.composite
def rough(draw):
    """Model files with rougher damage than in P06: cut, repeated, long names and numbers, strange bytes."""
    text = draw(mutants())["text"]
    for _ in range(draw(st.integers(0, 3))):
        toks = TOKEN.findall(text)
        real = [i for i, t in enumerate(toks) if t.strip()]
        if not real:
            break
        i = real[draw(st.integers(0, len(real) - 1))]
        how = draw(st.sampled_from(["num", "num", "cut", "repeat", "long", "byte", "line", "manynames"]))
        if how == "num":
            n = [k for k in real if toks[k][0].isdigit()]
            if n:
                toks[n[draw(st.integers(0, len(n) - 1))]] = draw(st.sampled_from(["99999999999", "2147483647", "2147483648", "1e400", "1e-400", "4294967295", "0" * 50 + "1", "1" * 60, "65536", "1e99999"]))
        elif how == "cut":
            del toks[i:]
        elif how == "repeat":
            toks[i:i] = toks[i:i + draw(st.integers(1, 12))] * draw(st.sampled_from([1, 2, 60]))
        elif how == "long":
            toks[i] = draw(st.sampled_from(["x", "ab", "1", "-", "0.", "# "])) * draw(st.sampled_from([40, 300, 9000, 20000]))
        elif how == "byte":
            toks[i] = toks[i][:1] + draw(st.characters(max_codepoint=255)) + toks[i][1:]
        elif how == "manynames":
            k = draw(st.sampled_from(["states", "actions", "observations"]))
            toks[i:i] = [k, ":"] + [" n%d" % j for j in range(draw(st.sampled_from([13, 200, 1500])))] + ["\n"]
        else:
            toks[i:i] = ["\n", draw(st.sampled_from(LINES)), "\n"]
        text = "".join(toks)
    return {"text": text}


SIZE = re.compile(r"(?:states|actions|observations)[^\n]*?:?[^\n]*?(\d{3,})")


def judge_rough(c, ctx):
    t = c["text"]
    if re.search(r"(states|actions|observations)\W*\s*0*(\d{3,})", re.sub(r"#[^\n]*", "", t)) or t.count(" n1499") and not t.count("states"):
        raise Inconclusive("size that needs much memory")
    r = run_model(ctx, t.encode("latin1", "replace"))
    return {"nontrivial": True, "labels": ["accepted" if r.rc == 0 else "rejected"]}


FD = {"alpha": ["0", "1", "-1", "1e9", "nan", "inf", " ", "\n", "0x1p3", "99999999999"], "pg": ["X", "-", "0 0 1 1\n", " ", "\n", "-1", "99999999999", "1 1 0 -\n"],
      "belief": ["0.5", "1", " ", "\n", "nan", "1e-300"], "config": ["=", "#", "\n", "\r", " = ", "\t", "horizon = 3\n", "pomdp"]}
ffuzz = [FuzzPart("bytes-" + k, "fuzz_files", judge_file, 24000, 3000000, [BASE[k].encode(), BASE[k].encode() * 3], FD[k], 300 if k != "config" else 5000, k) for k in FD]

main = Check("P07", [FuzzPart("bytes-model", "fuzz_model", judge_model, 160000, 30000000, [m.encode() for m in MODELS], DICT, 500, harnesses=("mdpdump",), more=spec_texts().filter(lambda t: len(t) < 480))] + ffuzz +
             [Part("models", rough(), judge_rough, 900, 30000, ("asan",), ("mdpdump",)), Part("files", broken(), judge_file, 1600, 50000, ("asan",))],
             rule="libFuzzer inputs for the model, alpha, policy graph, belief and configuration file readers (ASan and UBSan; what the model "
                  "reader accepts must be a well-formed model), and damaged files given to the programs. Non-trivial: fuzz inputs kept because they reach new code, and every damaged file.",
             assumptions=["sizes of three or more digits are not tried: memory for them is really allocated",
                          "a suspicious fuzz input counts only when pomdp-solve or pomdp-tools (ASan) fails on it as a file"]).main
if __name__ == "__main__":
    main()
