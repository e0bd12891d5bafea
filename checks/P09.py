"""Equivalent descriptions of a problem have equivalent solutions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

KINDS = ["states", "actions", "observations", "scale", "shift", "cost", "copy action", "worse action", "split observation",
         "copy state", "dead state", "reward form", "names"]


class Arr(Model):
    """A model given by arrays, with rewards R[a,s] or R[a,s,s',o] in the sense of `values`."""

    def __init__(self, T, O, R, g, values):
        self.m = {"values": values}
        self.T, self.O, self.Rr, self.g = np.array(T), np.array(O), np.array(R), g
        self.nA, self.nS, _ = self.T.shape
        self.nO = self.O.shape[2]
        self.sign = -1.0 if values == "cost" else 1.0

    def text(self, style=None):
        f = lambda v: repr(float(v))
        S, A, Z = self.nS, self.nA, self.nO
        L = ["discount: %s" % f(self.g), "values: %s" % self.m["values"]]
        nm = [[str(i) for i in range(k)] for k in (S, A, Z)]
        if style == "names":
            nm = [["%s%d" % (p, i * 7 % 1009) for i in range(k)] for p, k in (("st_", S), ("Act-", A), ("obs", Z))]
            L += ["observations: " + " ".join(nm[2]), "states: " + " ".join(nm[0]), "actions: " + " ".join(nm[1])]
        else:
            L += ["states: %d" % S, "actions: %d" % A, "observations: %d" % Z]
        for a in range(A):
            if style == "names":
                L += ["T: %s : %s : %s %s" % (nm[1][a], nm[0][s], nm[0][t], f(self.T[a, s, t])) for s in range(S) for t in range(S)]
                L += ["O: %s : %s\n%s" % (nm[1][a], nm[0][s], " ".join(f(v) for v in self.O[a, s])) for s in range(S)]
            else:
                L += ["T: %d" % a] + [" ".join(f(v) for v in self.T[a, s]) for s in range(S)]
                L += ["O: %d" % a] + [" ".join(f(v) for v in self.O[a, s]) for s in range(S)]
            if self.Rr.ndim == 2:
                L += ["R: %s : %s : * : * %s" % (nm[1][a], nm[0][s], f(self.Rr[a, s])) for s in range(S)]
            else:
                L += ["R: %s : %s : %s : %s %s" % (nm[1][a], nm[0][s], nm[0][t], nm[2][o], f(self.Rr[a, s, t, o]))
                      for s in range(S) for t in range(S) for o in range(Z)]
        return "\n".join(L) + "\n"


@st.composite
def gen(draw):
    m = draw(models(s=(2, 3, 3, 4), a=(2, 3, 2, 4), o=(2, 3, 2), discounts=st.sampled_from([0.9, 0.5, 0.95, 0.75, 1.0]), values=("reward", "cost")))
    c = {"m": m, "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3, unique=True)), "seed": draw(st.integers(0, 10**6)),
         "o1": draw(exact_opts(weak=False)), "o2": draw(exact_opts(weak=False)), "h": draw(st.sampled_from([2, 3, 1, 4]))}
    return c


def transform(c):
    """(first model, second model, function from beliefs of the first to beliefs of the second, scale, shift, labels)."""
    M = Model(c["m"])
    rng = np.random.RandomState(c["seed"])
    A1 = Arr(M.T, M.O, M.sign * M.r, M.g, c["m"]["values"])
    T, O, R, g, values = M.T.copy(), M.O.copy(), M.sign * M.r, M.g, c["m"]["values"]
    E = np.eye(M.nS)            # row s: where state s goes
    scale, shift, style = 1.0, 0.0, None
    full = None
    for k in c["kinds"]:
        S, A, Z = T.shape[1], T.shape[0], O.shape[2]
        if k == "states":
            p = rng.permutation(S)
            T, O, R = T[:, p][:, :, p], O[:, p], R[:, p]
            E = E[:, p]
        elif k == "actions":
            p = rng.permutation(A)
            T, O, R = T[p], O[p], R[p]
        elif k == "observations":
            # different order for every action
            O = np.stack([x[:, rng.permutation(Z)] for x in O])
        elif k == "scale":
            x = float(rng.choice([0.5, 2, 4, 0.25, 8, 1024, 65536]))
            R, scale, shift = R * x, scale * x, shift * x
        elif k == "shift":
            x = float(rng.choice([-16, 8, 1, 100, -2e6, 3e5]))
            R, shift = R + x, shift + x
        elif k == "cost":
            R, values = -R, "cost" if values == "reward" else "reward"
            scale, shift = scale, -shift
        elif k == "copy action":
            i = rng.randint(A)
            j = rng.randint(A + 1)
            ins = lambda X: np.insert(X, j, X[i], axis=0)
            T, O, R = ins(T), ins(O), ins(R)
        elif k == "worse action":
            i = rng.randint(A)
            j = rng.randint(A + 1)
            sg = -1 if values == "cost" else 1
            R = np.insert(R, j, R[i] - sg * rng.choice([0.5, 3, 40], size=S), axis=0)
            T, O = np.insert(T, j, T[i], axis=0), np.insert(O, j, O[i], axis=0)
        elif k == "split observation":
            z = rng.randint(Z)
            w = rng.choice([0.5, 0.25, 0.75])
            O = np.concatenate([O, O[:, :, z:z + 1] * (1 - w)], axis=2)
            O[:, :, z] *= w
        elif k == "copy state":
            # state s becomes s and a twin that behaves the same; what leads to s leads to either
            s = rng.randint(S)
            w = rng.choice([0.5, 0.25, 0.0, 1.0])
            T = np.concatenate([T, T[:, s:s + 1]], axis=1)
            T = np.concatenate([T, T[:, :, s:s + 1] * (1 - w)], axis=2)
            T[:, :, s] *= w
            O = np.concatenate([O, O[:, s:s + 1]], axis=1)
            R = np.concatenate([R, R[:, s:s + 1]], axis=1)
            v = rng.choice([0.0, 0.5, 1.0])
            E = np.hstack([E, E[:, s:s + 1] * (1 - v)])
            E[:, s] *= v
        elif k == "dead state":
            # a state nothing leads to
            t = rng.dirichlet(np.ones(S + 1), size=A)[:, None, :]
            T = np.concatenate([np.concatenate([T, np.zeros((A, S, 1))], axis=2), t], axis=1)
            O = np.concatenate([O, rng.dirichlet(np.ones(Z), size=A)[:, None, :]], axis=1)
            R = np.concatenate([R, rng.randint(-10, 10, size=(A, 1))], axis=1)
            E = np.hstack([E, np.zeros((len(E), 1))])
        elif k == "reward form":
            full = True
        elif k == "names":
            style = "names"
    if full:
        # rewards by next state and observation with the same expectation
        S, A, Z = T.shape[1], T.shape[0], O.shape[2]
        N = rng.randint(-8, 9, size=(A, S, S, Z)) / 4.0
        P = np.einsum("ast,ato->asto", T, O)
        N -= np.einsum("asto,asto->as", N, P)[:, :, None, None]
        R = R[:, :, None, None] + N
    return A1, Arr(T, O, R, g, values), E, scale, shift, style


def judge(c, ctx):
    M1, M2, E, scale, shift, style = transform(c)
    h = min(horizon_cap(M, o, c["h"], cap=400) for M, o in ((M1, c["o1"]), (M2, c["o2"])))
    sols = []
    for i, (M, o) in enumerate(((M1, c["o1"]), (M2, c["o2"]))):
        try:
            r = solve(ctx, M.text(style) if i else M.text(), dict(o, horizon=h), cpu=6, prefix="s%d" % i, name="m%d.POMDP" % i)
        except Hang:
            raise Inconclusive("slow")
        sols.append((vecs(parse_alpha(ctx.read("s%d.alpha" % i), M.nS)), n_epochs(r), unstable(r), parse_alpha(ctx.read("s%d.alpha" % i))))
    (V1, n1, u1, a1), (V2, n2, u2, a2) = sols
    if n1 != h or n2 != h:
        # the weak criterion stopped the run: the values do not change any more, up to its bound
        raise Inconclusive("stopped early")
    # a shift in cost models lowers the reward
    sg = M2.sign
    total = sg * shift * (h if M1.g == 1 else (1 - M1.g ** h) / (1 - M1.g))
    B, _ = test_beliefs(V1, V2 @ E.T, n=M1.nS)
    want = scale * value(V1, B) + total
    got = value(V2, B @ E)
    d = np.abs(want - got)
    lim = 2e-5 * max(1.0, np.abs(V1).max() * scale) + 1e-8 * abs(total)
    if d.max() > lim:
        if u1 or u2:
            raise Inconclusive("program warns of unstable LPs")
        k = int(d.argmax())
        raise Violation("%s: at belief %s the value is %.9g, the solution of the equivalent model gives %.9g (%d and %d vectors)" % (
            ", ".join(c["kinds"]), np.round(B[k], 6).tolist(), want[k], got[k], len(V1), len(V2)))
    if "worse action" in c["kinds"] and c["kinds"][-1] == "worse action":
        rng = None
    return {"nontrivial": len(V1) > 1, "labels": c["kinds"]}


@st.composite
def gen_wide(draw):
    c = draw(wide_cases())
    o1 = c.pop("opts")
    return dict(c, kinds=draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3, unique=True)), o1=o1, o2=draw(exact_opts(weak=False)))


def judge_wide(c, ctx):
    if "reward form" in c["kinds"] and c["size"][0] ** 2 * c["size"][1] * c["size"][2] > 5000:
        c = dict(c, kinds=[k for k in c["kinds"] if k != "reward form"] or ["actions", "observations"])
    r = judge(widen(c), ctx)
    return dict(r, labels=r["labels"] + [wide_label(c)])


main = Check("P09", [
    Part("equivalent", gen(), judge, 1200, 30000),
    Part("wide", gen_wide(), judge_wide, 120, 4000),
], rule="random models (in one part with up to 130 states, 120 actions, 130 observations) x one to three of: permuted states, actions, observations (per action); scaled and shifted rewards; costs for "
        "rewards; a copied or a worse copy of an action; an observation split in two; a state split in two; an unreachable state; "
        "rewards by next state and observation with the same expectation; names and single entries for numbers and matrices. Both "
        "models are solved with their own random method and options and the value functions compared at the vertices of the regions. "
        "Non-trivial: more than one vector.",
    assumptions=["values agree within 2e-5 of the scale (precision of the linear programs)"]).main
if __name__ == "__main__":
    main()
