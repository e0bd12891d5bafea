"""Models, their text form, a naive reference for POMDP algebra, and readers of the outputs."""
import itertools, math, re
import numpy as np
from hypothesis import strategies as st
from vlib.core import Hang, Inconclusive, Violation

# ---------------------------------------------------------------- generation


def weights(n, hi=6):
    """One probability row as integer weights: deterministic, sparse or dense rows."""
    def fix(l):
        if sum(l) == 0:
            l = list(l)
            l[0] = 1
        return list(l)
    det = st.integers(0, n - 1).map(lambda i: [1 if j == i else 0 for j in range(n)])
    dense = st.lists(st.integers(1, hi), min_size=n, max_size=n)
    sparse = st.lists(st.integers(0, hi), min_size=n, max_size=n).map(fix)
    return st.one_of(dense, sparse, det, dense)


@st.composite
def models(draw, s=(2, 3, 3, 4, 2, 1), a=(2, 3, 2, 3, 1), o=(2, 3, 2, 2, 1), discounts=None,
           kinds=("s", "ss", "sso"), values=("reward", "reward", "cost"), rmax=10, spread=True, sense=False, rare=False):
    nS = draw(st.sampled_from(s))
    nA = draw(st.sampled_from(a))
    nO = draw(st.sampled_from(o))
    T = [[draw(weights(nS)) for _ in range(nS)] for _ in range(nA)]
    O = [[draw(weights(nO)) for _ in range(nS)] for _ in range(nA)]
    if rare and draw(st.sampled_from([False, False, False, True])):
        # an observation or a transition that is possible, but hardly ever happens
        a, k = draw(st.integers(0, nA - 1)), 10 ** draw(st.integers(2, 7))
        W, n = draw(st.sampled_from([(O, nO), (O, nO), (T, nS)]))
        z = draw(st.integers(0, n - 1))
        for s_ in range(nS):
            W[a][s_] = [draw(st.integers(0, 3)) if j == z else (w + (sum(W[a][s_]) == W[a][s_][z])) * k
                        for j, w in enumerate(W[a][s_])] if n > 1 else [1]
    kind = draw(st.sampled_from(kinds))
    num = st.one_of(st.integers(-rmax, rmax), st.integers(-rmax * 10, rmax * 10).map(lambda v: v / 10))
    n = {"s": nS, "ss": nS * nS, "sso": nS * nS * nO}[kind]
    R = [draw(st.lists(num, min_size=n, max_size=n)) for _ in range(nA)]
    if spread and nS > 1 and draw(st.sampled_from([True, True, False])):
        # every action has states it is best in, so that several vectors survive
        bonus = draw(st.sampled_from([10, 20, 7.5]))
        w = n // nS
        R = [[x + (bonus if (i // w) % nA == a else 0) for i, x in enumerate(R[a])] for a in range(nA)]
    shape = draw(st.sampled_from(["", "", "", "idle", "ties", "few"])) if spread else ""
    if sense and draw(st.sampled_from([True, True, False])):
        # action 0 only looks, the others act: the value of information keeps many vectors
        shape = "sense"
        acc, rough = draw(st.sampled_from([3, 9, 2, 20])), draw(st.booleans())
        T[0] = [[int(i == j) for j in range(nS)] for i in range(nS)]
        O[0] = [[acc if z == s_ % nO else 1 for z in range(nO)] for s_ in range(nS)]
        cost = draw(st.sampled_from([-1, 0, -0.3, -3]))
        R[0] = [cost] * n
        w = n // nS
        up, down = draw(st.sampled_from([10, 5, 3.7, 20])), draw(st.sampled_from([-20, -10, -100, -5.5]))
        for b in range(1, nA):
            R[b] = [(up if (i // w) % (nA - 1) == b - 1 and (nA > 2 or i < w) else down) + (R[b][i] / 16 if rough else 0) for i in range(n)]
            if draw(st.booleans()):
                T[b] = [[1] * nS for _ in range(nS)]
    if shape == "idle":
        # an action that costs nothing and changes nothing
        a = draw(st.integers(0, nA - 1))
        R[a] = [0] * n
        T[a] = [[int(i == j) for j in range(nS)] for i in range(nS)]
    elif shape == "few":
        R = [[max(-1, min(1, round(x / 8))) for x in r] for r in R]
    elif shape == "ties" and nA > 1:
        # two actions that do and earn the same in some states
        a, b = draw(st.permutations(range(nA)))[:2]
        w = n // nS
        for s_ in range(nS):
            if draw(st.booleans()):
                R[b][s_ * w:(s_ + 1) * w] = R[a][s_ * w:(s_ + 1) * w]
                T[b][s_] = list(T[a][s_])
    d = draw(discounts if discounts is not None else st.sampled_from([0.9, 0.5, 0.95, 0.75, 0.3, 1.0, 0.0]))
    return {"nS": nS, "nA": nA, "nO": nO, "T": T, "O": O, "rk": kind, "R": R, "discount": d,
            "values": draw(st.sampled_from(values))}


def big_model(rnd, nS, nA, nO, discount=0.9, rmax=10):
    """A larger model in the same form, from a random.Random."""
    def row(n):
        k = rnd.choice([1, 2, 2, 3, n])
        w = [0] * n
        for i in rnd.sample(range(n), min(k, n)):
            w[i] = rnd.choice([1, 1, 2, 5])
        return w
    return {"nS": nS, "nA": nA, "nO": nO, "T": [[row(nS) for _ in range(nS)] for _ in range(nA)],
            "O": [[row(nO) for _ in range(nS)] for _ in range(nA)], "rk": "s",
            "R": [[rnd.randint(-rmax, rmax) for _ in range(nS)] for _ in range(nA)], "discount": discount,
            "values": rnd.choice(["reward", "cost"])}


class Model:
    """Arrays of a generated model.  r is in reward sense (costs are negated)."""

    def __init__(self, m):
        self.m = m
        self.nS, self.nA, self.nO = m["nS"], m["nA"], m["nO"]
        self.g = m["discount"]
        norm = lambda W: np.array([[np.array(r, float) / sum(r) for r in X] for X in W])
        self.T, self.O = norm(m["T"]), norm(m["O"])          # [a,s,s'], [a,s',o]
        S, A, Z = self.nS, self.nA, self.nO
        R = np.zeros((A, S, S, Z))
        for a in range(A):
            x = np.array(m["R"][a], float)
            R[a] = {"s": lambda: x.reshape(S, 1, 1), "ss": lambda: x.reshape(S, S, 1),
                    "sso": lambda: x.reshape(S, S, Z)}[m["rk"]]() + np.zeros((S, S, Z))
        self.Rfull = R
        self.sign = -1.0 if m["values"] == "cost" else 1.0
        self.r = self.sign * np.einsum("ast,ato,asto->as", self.T, self.O, R)
        # P[a,o,s,s'] = T(s,a,s') O(a,s',o)
        self.P = np.einsum("ast,ato->aost", self.T, self.O)

    @property
    def scale(self):
        return max(1.0, float(np.abs(self.r).max()))

    def text(self, names=None, discount=None):
        m = self.m
        S, A, Z = self.nS, self.nA, self.nO
        f = lambda v: repr(float(v))
        L = ["discount: %s" % f(self.g if discount is None else discount), "values: %s" % m["values"]]
        if names:
            L += ["states: " + " ".join(names["s"]), "actions: " + " ".join(names["a"]),
                  "observations: " + " ".join(names["o"])]
        else:
            L += ["states: %d" % S, "actions: %d" % A, "observations: %d" % Z]
        if m.get("start"):
            L.append("start: " + " ".join(f(v / sum(m["start"])) for v in m["start"]))
        for a in range(A):
            L.append("T: %d" % a)
            L += [" ".join(f(v) for v in self.T[a, s]) for s in range(S)]
            L.append("O: %d" % a)
            L += [" ".join(f(v) for v in self.O[a, s]) for s in range(S)]
        for a in range(A):
            x = m["R"][a]
            if m["rk"] == "s":
                L += ["R: %d : %d : * : * %s" % (a, s, f(x[s])) for s in range(S)]
            elif m["rk"] == "ss":
                L += ["R: %d : %d : %d : * %s" % (a, s, t, f(x[s * S + t])) for s in range(S) for t in range(S)]
            else:
                L += ["R: %d : %d : %d : %d %s" % (a, s, t, o, f(x[(s * S + t) * Z + o]))
                      for s in range(S) for t in range(S) for o in range(Z)]
        return "\n".join(L) + "\n"

    # ------------------------------------------------------------ reference

    def project(self, prev):
        """G[a,o,i,s] = discount * sum_s' P(s',o|s,a) prev_i(s')."""
        return self.g * np.einsum("aost,it->aois", self.P, np.asarray(prev, float))

    def backup_q(self, prev, B):
        """Q[a,b]: exact one-step lookahead values at beliefs B (rows) over vector list prev."""
        G = self.project(prev)
        best = np.einsum("aois,bs->aobi", G, B).max(axis=3)     # [a,o,b]
        return self.r @ B.T + best.sum(axis=1)

    def backup(self, prev, B):
        return self.backup_q(prev, B).max(axis=0)

    def cross(self, prev, limit=20000):
        """All (action, choice, vector) of the one-step cross-sum; None when more than limit."""
        prev = np.asarray(prev, float)
        n = len(prev) ** self.nO
        if n * self.nA > limit:
            return None
        G = self.project(prev)
        out = []
        for a in range(self.nA):
            for ch in itertools.product(range(len(prev)), repeat=self.nO):
                out.append((a, ch, self.r[a] + sum(G[a, o, ch[o]] for o in range(self.nO))))
        return out


# ---------------------------------------------------------------- beliefs

def corners(n):
    return np.eye(n)


def grid_beliefs(n, k=None):
    """All beliefs with coordinates multiple of 1/k."""
    k = k or {1: 1, 2: 50, 3: 14, 4: 8, 5: 6}.get(n, 4 if n <= 8 else 2 if n <= 80 else 1)
    pts = []
    for c in itertools.combinations(range(k + n - 1), n - 1):
        c = (-1,) + c + (k + n - 1,)
        pts.append([(c[i + 1] - c[i] - 1) / k for i in range(n)])
    return np.array(pts)


def value(alphas, B):
    return (np.asarray(alphas, float) @ B.T).max(axis=0)


def surface_vertices(alphas, limit=9000):
    """All vertices of the region partition of the upper surface of alphas over the simplex.

    The largest shortfall of a convex function above this surface is reached at one of them.
    None when there are too many candidate bases.
    """
    A = np.unique(np.round(np.asarray(alphas, float), 10), axis=0)
    m, n = A.shape
    if n == 1:
        return np.ones((1, 1))
    # drop vectors far below everywhere (keeps the enumeration small, never needed for the surface)
    keep = []
    for i in range(m):
        if not any(j != i and np.all(A[j] >= A[i]) and (np.any(A[j] > A[i]) or j < i) for j in range(m)):
            keep.append(i)
    A = A[keep]
    m = len(A)
    # unknowns (b_1..b_n, v): rows v >= A b (m), b_i >= 0 (n), sum b = 1
    rows = np.vstack([np.hstack([-A, np.ones((m, 1))]), np.hstack([np.eye(n), np.zeros((n, 1))])])
    k = n        # n tight constraints + equality determine n+1 unknowns
    total = math.comb(m + n, k)
    if total > limit or total * (n + 1) ** 2 > 4e6:
        return None
    idx = np.array(list(itertools.combinations(range(m + n), k)))
    idx = idx[(idx < m).any(axis=1)]
    M = np.zeros((len(idx), n + 1, n + 1))
    M[:, :k, :] = rows[idx]
    M[:, k, :n] = 1.0
    rhs = np.zeros((len(idx), n + 1))
    rhs[:, k] = 1.0
    ok = np.abs(np.linalg.det(M)) > 1e-12
    if not ok.any():
        return corners(n)
    X = np.linalg.solve(M[ok], rhs[ok][..., None])[..., 0]
    b = X[:, :n]
    good = (b > -1e-9).all(axis=1)
    b = np.clip(b[good], 0, None)
    b = b / b.sum(axis=1, keepdims=True)
    top = value(A, b)
    near = top <= X[good][:, n] + 1e-7 * max(1.0, np.abs(A).max())
    b = b[near]
    return np.vstack([np.unique(np.round(b, 12), axis=0), corners(n)])


def test_beliefs(*lists, n):
    """Vertices of the surfaces of the given lists (when few), corners and a grid."""
    parts = [corners(n), grid_beliefs(n)]
    complete = True
    for l in lists:
        v = surface_vertices(l)
        if v is None:
            complete = False
        else:
            parts.append(v)
    return np.vstack(parts), complete


# ---------------------------------------------------------------- outputs

def parse_alpha(text, nS=None, what="alpha file"):
    """[(action, values)] ; every entry is an action line, a line of values and a blank line."""
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if not lines[i].strip():
            i += 1
            continue
        try:
            act = int(lines[i].strip())
            vals = [float(x) for x in lines[i + 1].split()]
        except (ValueError, IndexError):
            raise Violation("%s is malformed at line %d: %r" % (what, i + 1, lines[i:i + 2]))
        if nS is not None and len(vals) != nS:
            raise Violation("%s has a vector of %d values for %d states" % (what, len(vals), nS))
        if not all(math.isfinite(v) for v in vals):
            raise Violation("%s has a value that is not finite: %r" % (what, vals))
        out.append((act, vals))
        i += 2
    return out


def parse_pg(text, nO=None, what="policy graph"):
    """[(action, [next...])]; next is an int, "X" or "-"."""
    out = []
    for line in text.split("\n"):
        w = line.split()
        if not w:
            continue
        try:
            nid, act = int(w[0]), int(w[1])
            nxt = [x if x in ("X", "-") else int(x) for x in w[2:]]
        except (ValueError, IndexError):
            raise Violation("%s is malformed: %r" % (what, line))
        if nid != len(out):
            raise Violation("%s: node ids are not 0,1,2,...: %r" % (what, line))
        if nO is not None and len(nxt) != nO:
            raise Violation("%s: node %d has %d successors for %d observations" % (what, nid, len(nxt), nO))
        out.append((act, nxt))
    return out


def vecs(alphas):
    return np.array([v for _, v in alphas], float)


def alpha_text(alphas):
    return "".join("%d\n%s\n\n" % (a, " ".join(repr(float(x)) for x in v)) for a, v in alphas)


# ---------------------------------------------------------------- running the solver

def opt_args(opts):
    out = []
    for k, v in opts.items():
        out.append("-" + k)
        if v is not None:
            out.append(str(v))
    return out


def solve(ctx, text, opts, variant="plain", name="m.POMDP", prefix="m", cpu=30, expect=0, hang=True):
    """Runs pomdp-solve on the model text.  Crashes and unexpected exit codes are violations."""
    ctx.write(name, text)
    args = ["-pomdp", name, "-o", prefix] + opt_args(opts)
    r = ctx.run("pomdp-solve", args, variant=variant, cpu=cpu)
    if r.timeout and not hang:
        raise Inconclusive("CPU limit of %d s" % cpu)
    if r.timeout and opts.get("method") in ("enum", "twopass"):
        # methods that visit all combinations of the previous vectors may really need that long
        ks = re.findall(r"^\[Initial policy has (\d+) vec|^Epoch: \d+\.\.\.(\d+) vectors", r.out, re.M)
        ks = [int(a or b) for a, b in ks]
        no = re.search(r"^observations: *(\d+)", text, re.M)
        if ks and no and ks[-1] ** int(no.group(1)) > 3000:
            raise Inconclusive("CPU limit of %d s with %s vectors" % (cpu, ks))
    if r.timeout:
        raise Hang("pomdp-solve did not end within %d s of CPU time: %s" % (cpu, " ".join(args)))
    if r.crashed:
        raise Violation("pomdp-solve crashed (exit %d) with %s\n%s%s" % (
            r.rc, " ".join(args), r.sanitizer or "", r.out[-300:] + r.err[-300:]))
    if expect is not None and r.rc != expect:
        raise Violation("pomdp-solve exited with %d, not %d, for %s\n%s" % (
            r.rc, expect, " ".join(args), r.out[-600:] + r.err[-300:]))
    return r


def epoch_files(ctx, M, n, prefix="m"):
    """[(alphas, pg)] of epochs 1..n written with -save_all."""
    out = []
    for i in range(1, n + 1):
        for ext in ("alpha", "pg"):
            if not ctx.exists("%s.%s%d" % (prefix, ext, i)):
                raise Violation("-save_all wrote no %s.%s%d" % (prefix, ext, i))
        out.append((parse_alpha(ctx.read("%s.alpha%d" % (prefix, i)), M.nS),
                    parse_pg(ctx.read("%s.pg%d" % (prefix, i)), M.nO)))
    return out
