"""The methods agree with exact dynamic programming on the example problems and on larger models."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *
from vlib import refparser

EX = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "examples", "pomdp-files")
# name, horizons that take a few seconds at most, heavy
FILES = [f for f in (("1d.POMDP", 6, 0), ("4x3.95.POMDP", 5, 0), ("aloha-10max.POMDP", 2, 1), ("bridge-repair.POMDP", 4, 0),
                     ("cheese.95.POMDP", 6, 0), ("concert.POMDP", 6, 0), ("ejs1.POMDP", 6, 0), ("ejs2.POMDP", 6, 0), ("ejs3.POMDP", 6, 0),
                     ("manuel-hartman.2013-09-19.POMDP", 6, 0), ("parr95.95.POMDP", 6, 0), ("shuttle.95.POMDP", 5, 0), ("tiger.95.POMDP", 5, 0),
                     ("tiger.aaai.POMDP", 5, 0), ("uav-search.raissa-bravo.orig.POMDP", 2, 1)) if os.path.exists(os.path.join(EX, f[0]))]
_cache = {}


class Arrays(Model):
    """A model from the reference parser's tables."""

    def __init__(self, r):
        self.m = {}
        self.nS, self.nA, self.nO, self.g = r.S, r.A, r.Z, r.g
        self.T, self.O = np.array(r.T, float), np.array(r.O, float)
        self.sign = -1.0 if r.values == "cost" else 1.0
        self.r = self.sign * np.array(r.Q, float)
        self.P = np.einsum("ast,ato->aost", self.T, self.O)


def example(name):
    if name not in _cache:
        text = open(os.path.join(EX, name), encoding="latin-1").read()
        r, why = refparser.parse(text)
        if why is not None:
            raise RuntimeError("%s: %s" % (name, why))
        _cache[name] = (text, Arrays(r))
    return _cache[name]


def beliefs(M, seed, k=150):
    """Corners, centre, edges, random ones of several sparsities, and beliefs on random histories."""
    rng = np.random.RandomState(seed)
    n = M.nS
    out = [np.full(n, 1.0 / n)] + list(np.eye(n))
    for _ in range(k):
        m = rng.randint(1, n + 1)
        b = np.zeros(n)
        b[rng.choice(n, m, replace=False)] = rng.dirichlet(np.full(m, rng.choice([0.3, 1.0, 5.0])))
        out.append(b)
    b = np.full(n, 1.0 / n)
    for i in range(k):
        p = (b @ M.P[rng.randint(M.nA)])           # [o, s']
        w = p.sum(axis=1)
        z = rng.choice(len(w), p=w / w.sum())
        b = p[z] / w[z]
        out.append(b)
        if i % 15 == 14:
            b = rng.dirichlet(np.ones(n))
    B = np.clip(np.array(out), 0, None)
    return B / B.sum(axis=1, keepdims=True)


def check_at(M, prev, alphas, B, what, warned, slack=1000.0):
    V = vecs(alphas)
    if len(V) == 0:
        raise Violation("%s: empty solution" % what)
    d = value(V, B) - M.backup(prev, B)
    t = tol(V, prev)
    if d.max() > t:
        raise Violation("%s: value at belief %s is too high by %g" % (what, np.round(B[d.argmax()], 6).tolist(), d.max()))
    if -d.min() > slack * t:
        if warned:
            raise Inconclusive("program warns of unstable LPs")
        raise Violation("%s: value at belief %s is too low by %g" % (what, np.round(B[d.argmin()], 6).tolist(), -d.min()))


def verify(M, text, o, h, ctx, seed, cpu, variant="plain"):
    o = dict(o, horizon=h, save_all="true")
    try:
        r = solve(ctx, text, o, cpu=cpu, variant=variant)
    except Hang:
        raise Inconclusive("slow")
    n = n_epochs(r)
    if not 1 <= n <= h or "Solution found" not in r.out:
        raise Violation("%d epochs for -horizon %d" % (n, h))
    B = beliefs(M, seed)
    prev = np.zeros((1, M.nS))
    for i, (alphas, pg) in enumerate(epoch_files(ctx, M, n)):
        what = "epoch %d" % (i + 1)
        check_at(M, prev, alphas, B, what, unstable(r))
        check_links(M, prev, alphas, pg, what)
        prev = vecs(alphas)
    if ctx.read("m.alpha") != ctx.read("m.alpha%d" % n):
        raise Violation("the solution is not the last epoch's")
    win = value(prev, B)
    return len({int(x) for x in (prev @ B.T).argmax(axis=0)}), len(prev), n


@st.composite
def gen_ex(draw):
    name, hmax, heavy = draw(st.sampled_from(FILES))
    o = draw(exact_opts(methods=["incprune"] if heavy else ["incprune", "witness", "incprune", "twopass", "enum"], weak=False))
    o.pop("rand_seed", None)
    if heavy:
        o.pop("proj_purge", None)
        if o.get("inc_prune") == "generalized":
            o.pop("inc_prune")
    h = draw(st.integers(2, hmax))
    return {"file": name, "opts": o, "h": h, "seed": draw(st.integers(0, 10**6))}


def judge_ex(c, ctx):
    text, M = example(c["file"])
    h = c["h"]
    if c["opts"]["method"] in ("enum", "twopass"):
        # all combinations of projections are visited
        h = horizon_cap(M, c["opts"], h, cap=300)
    best, k, n = verify(M, text, c["opts"], h, ctx, c["seed"], 6)
    return {"nontrivial": best > 1 and n > 1, "labels": [c["file"].split(".")[0], c["opts"]["method"]]}


@st.composite
def gen_large(draw):
    m = draw(models(s=(5, 6, 8, 10), a=(2, 3, 5), o=(2, 3, 4, 5), discounts=st.sampled_from([0.9, 0.5, 0.95, 1.0])))
    o = draw(exact_opts(methods=["incprune", "witness", "incprune", "twopass"], weak=False))
    return {"m": m, "opts": o, "h": draw(st.sampled_from([2, 2, 3])), "seed": draw(st.integers(0, 10**6))}


def judge_large(c, ctx):
    M = Model(c["m"])
    best, k, n = verify(M, M.text(), c["opts"], horizon_cap(M, c["opts"], c["h"], cap=500), ctx, c["seed"], 5)
    return {"nontrivial": best > 1 and n > 1, "labels": [c["opts"]["method"], "vectors=%s" % (k if k < 4 else "4+" if k < 20 else "20+")]}


# ---------------------------------------------- converged runs of the examples

CONV = [f for f, _, heavy in FILES if not heavy and f != "4x3.95.POMDP"]


@st.composite
def gen_conv(draw):
    o = {"method": draw(st.sampled_from(["incprune", "witness", "incprune"])), "stop_criteria": draw(st.sampled_from(["weak", "bellman"])),
         "stop_delta": draw(st.sampled_from(["0.01", "0.1", "1", "10"]))}
    if draw(st.booleans()):
        o["witness_points"] = "true"
    if draw(st.booleans()):
        o["discount"] = draw(st.sampled_from(["0.5", "0.8", "0.9"]))
    return {"file": draw(st.sampled_from(CONV)), "opts": o, "seed": draw(st.integers(0, 10**6))}


def judge_conv(c, ctx):
    text, M = example(c["file"])
    g = float(c["opts"].get("discount", M.g))
    if g >= 1:
        raise Inconclusive("no discount")
    old, M.g = M.g, g
    try:
        try:
            r = solve(ctx, text, c["opts"], cpu=8)
        except Hang:
            raise Inconclusive("slow")
        if "Solution found" not in r.out:
            raise Violation("no solution reported")
        V = vecs(parse_alpha(ctx.read("m.alpha"), M.nS))
        B = beliefs(M, c["seed"])
        d = np.abs(value(V, B) - M.backup(V, B))
        d1 = float(c["opts"]["stop_delta"]) * (1 - g) / (2 * g)
        lim = g * d1 + 1e-5 * max(1, np.abs(V).max())
        if d.max() > lim:
            if unstable(r):
                raise Inconclusive("program warns of unstable LPs")
            raise Violation("stopped after %d epochs, but a backup still changes the value at belief %s by %g, more than %g" % (
                n_epochs(r), np.round(B[d.argmax()], 6).tolist(), d.max(), lim))
        # the true value is within residual/(1-g); following the best action of each belief for some steps agrees
        return {"nontrivial": len(V) > 1, "labels": [c["file"].split(".")[0], c["opts"]["stop_criteria"]]}
    finally:
        M.g = old


# ---------------------------------------------- generic models: nothing close to a tie by construction

@st.composite
def gen_generic(draw):
    o = draw(exact_opts(methods=["incprune", "witness", "incprune"], weak=False, common=False))
    o.pop("proj_purge", None)
    if draw(st.booleans()):
        o["witness_points"] = "true"
    return {"S": draw(st.sampled_from([9, 6, 12, 14])), "A": draw(st.sampled_from([4, 6, 3, 8])), "Z": draw(st.sampled_from([4, 3, 5, 2])),
            "c": draw(st.sampled_from([1.0, 4.0, 0.4])), "g": draw(st.sampled_from([0.95, 0.9, 1.0, 0.5])), "opts": o,
            "h": draw(st.sampled_from([3, 3, 2])), "seed": draw(st.integers(0, 10**6))}


def judge_generic(c, ctx):
    rng = np.random.RandomState(c["seed"])
    S, A, Z = c["S"], c["A"], c["Z"]
    k = np.full(S, c["c"])
    M = Model({"nS": S, "nA": A, "nO": Z, "discount": c["g"], "values": "reward", "rk": "s",
               "T": [rng.dirichlet(k, size=S) + 1e-3 for a in range(A)], "O": [rng.dirichlet(np.full(Z, 2.0), size=S) + 1e-3 for a in range(A)],
               "R": [rng.uniform(-10, 10, size=S) for a in range(A)]})
    o = dict(c["opts"], horizon=c["h"], save_all="true")
    try:
        r = solve(ctx, M.text(), o, cpu=6)
    except Hang:
        raise Inconclusive("slow")
    B = beliefs(M, c["seed"], 300)
    prev = np.zeros((1, S))
    for i, (alphas, pg) in enumerate(epoch_files(ctx, M, n_epochs(r))):
        check_at(M, prev, alphas, B, "epoch %d" % (i + 1), unstable(r))
        check_links(M, prev, alphas, pg, "epoch %d" % (i + 1))
        prev = vecs(alphas)
    return {"nontrivial": len(prev) > 10, "labels": [o["method"], "warned" if unstable(r) else "stable", "vectors=%s" % (
        "1-10" if len(prev) <= 10 else "11-50" if len(prev) <= 50 else "51-200" if len(prev) <= 200 else "200+")]}


# ---------------------------------------------- many states, actions or observations

def judge_wide(c, ctx):
    M = Model(widen(c)["m"])
    best, k, n = verify(M, M.text(), c["opts"], horizon_cap(M, c["opts"], c["h"], cap=500), ctx, c["seed"], 4)
    return {"nontrivial": best > 1 and n > 1, "labels": [c["opts"]["method"], wide_label(c), "vectors=%s" % (k if k < 4 else "4+" if k < 20 else "20+")]}


main = Check("P10", [
    Part("examples", gen_ex(), judge_ex, 500, 5000),
    Part("large", gen_large(), judge_large, 200, 5000),
    Part("wide", wide_cases(), judge_wide, 150, 4000),
    Part("generic", gen_generic(), judge_generic, 120, 6000),
    Part("converged", gen_conv(), judge_conv, 90, 1500),
], rule="the repository's example models, and random ones of 5 to 10 states, up to 5 actions and 5 observations, x exact methods "
        "and options: every epoch against the reference backup at some 300 beliefs (corners, random ones of all sparsities, beliefs "
        "on random histories) and every policy-graph node against its vector; models with continuous random entries of 6 to 14 states, up to 8 actions and 5 observations; converged runs by their residual there. "
        "Non-trivial: more than one vector is best somewhere.",
    assumptions=["values may be lost within 1e-5 of the scale (precision of the linear programs); slow runs decide nothing"]).main
if __name__ == "__main__":
    main()
