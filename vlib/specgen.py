"""Generates POMDP/MDP files: programs of preamble, start and overriding T/O/R statements, freely formatted."""
import random
from hypothesis import strategies as st
from vlib.pomdp import weights

NAMES = ["a", "b", "ab", "ba", "Tt", "T1", "O-", "R_0", "states1", "uniform2", "e5", "E", "x-1", "s0", "s1", "s10",
         "tiger-left", "tiger-right", "Tiger-left", "resetting", "include_", "startx", "costs", "rewards", "identity0",
         "open-left-door", "open-right-door", "abcd", "acbd", "badc", "discounted", "valuesx", "t", "o", "r",
         "averyveryveryverylongnameforasinglestateinthefile", "abcdefghijklmnopqrstuvwxyzabcdef1", "abcdefghijklmnopqrstuvwxyzabcdef2"]
LONG = ["n" * k + "m" + "n" * l + e for k, l in ((31, 1), (15, 17), (63, 2), (127, 1), (254, 3)) for e in ("aa", "ba")] + \
       ["n" * k + "aa" for k in (33, 34, 66, 130, 257, 258)] + ["n" * k + "mmaa" for k in (30, 62)] + ["n" * k + "nmaa" for k in (30, 62)]


def num_text(rnd, v, integer_ok=True):
    """Some spelling of the number v >= 0 that reads back as exactly v."""
    c = []
    if v == int(v) and v < 1e17:
        i = "%d" % v
        if integer_ok:
            c += [i, i, i, "0" * rnd.randint(0, 2) + i]
        c += [i + ".0", i + ".", i + "e0", i + ".00E+0"]
        if v % 10 == 0:
            c.append("%de1" % (v // 10))
    else:
        r = repr(float(v))
        c += [r, r, "%.17e" % v, "0" + r]
        if "e" not in r:
            c.append(r + "0")
        c.append("%.17g" % v if "." in "%.17g" % v else r)
    x = rnd.choice(c)
    return x if float(x) == v else repr(float(v))


class W:
    """Token writer with free layout."""

    def __init__(self, rnd, style):
        self.rnd, self.style, self.out = rnd, style, []

    def gap(self, must=True):
        r, s = self.rnd, self.style
        if s == 0:
            return " "
        x = r.random()
        if x < 0.6 or s == 1 and x < 0.9:
            return " "
        if x < 0.75:
            return "  " if must else ""
        if x < 0.85:
            return "\t"
        if x < 0.93:
            return "\n"
        if x < 0.96:
            return " # " + r.choice(["comment", "T: 0 : 0 : 0 1.0", "\"'{}%$", "äöü", "states: 7 # more"]) + "\n"
        return "\r\n" if x < 0.98 else "\n\n   "

    def put(self, *toks):
        for t in toks:
            if t == ":" and self.style and self.rnd.random() < 0.4:
                self.out.append(":")
                continue
            self.out.append(self.gap() + t)

    def line(self):
        self.out.append("\n")

    def text(self):
        return "".join(self.out) + "\n"


def row(draw, n, rnd=None):
    if rnd is not None and n > 6:       # too much to draw one by one
        k = rnd.choice([1, 1, 2, 3, n // 2, n])
        w = [0] * n
        for i in rnd.sample(range(n), k):
            w[i] = rnd.choice([1, 1, 2, 3, 7, 20])
        return [x / sum(w) for x in w]
    w = draw(weights(n))
    if n > 1 and draw(st.integers(0, 5)) == 0:
        w = [float(x) for x in w]
        w[draw(st.integers(0, n - 1))] = draw(st.sampled_from([1e-3, 1e-6, 1e-7, 5e-8, 4e-9]))
    t = sum(w) or 1.0
    return [x / t for x in w]


BIG = [2147483647, 2147483648, 4294967296, 4294967297, -5000000000, 10 ** 10, -10 ** 15, 1e12 + 0.5, 65536, -70000, 1e300, 1e-300, 3e-9, 123456.789]
SPECIAL = {"T": ["uniform", "identity"], "O": ["uniform"]}


@st.composite
def spec_texts(draw, mdp=None, extra=5, raw_start=None, raw_body=None, sizes=None):
    """Text of a valid model (up to rounding of sums)."""
    if mdp is None:
        mdp = draw(st.sampled_from([False, False, False, True]))
    S, A = draw(st.sampled_from([1, 2, 2, 3, 3, 4])), draw(st.sampled_from([1, 2, 2, 3]))
    Z = 0 if mdp else draw(st.sampled_from([1, 2, 2, 3]))
    rnd = random.Random(draw(st.integers(0, 2 ** 20)))
    if sizes is not None:
        S, A, Z = draw(st.sampled_from(sizes))
        Z = 0 if mdp else Z
    w = W(rnd, draw(st.sampled_from([0, 1, 2])))
    names = {}
    for c, n in (("s", S), ("a", A), ("o", Z)):
        if n > 6:
            f = draw(st.sampled_from([None, "s%d", "%dx", "st-%d", "state_with_a_longer_name_%d", "%d%d"]))
            if f == "%d%d":             # the same letters in other places
                names[c] = ["q" + "".join(chr(97 + int(d)) for d in "%d" % (i + 100)) for i in range(n)]
            elif f == "%dx":
                names[c] = ["x" * (i % 23) + "y%d" % i for i in range(n)]
            else:
                names[c] = [f % i for i in range(n)] if f else None
            if names[c] and draw(st.booleans()):
                rnd.shuffle(names[c])
            continue
        names[c] = draw(st.one_of(st.none(), *[st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True)] * 3,
                                    st.lists(st.sampled_from(LONG), min_size=n, max_size=n, unique=True))) if n else None

    def ref(c, i):
        if i == "*":
            return "*"
        if names[c] and rnd.random() < 0.7:
            return names[c][i]
        return rnd.choice(["%d" % i] * 3 + ["0%d" % i])
    P = lambda v: num_text(rnd, v)

    def N(v):
        t = num_text(rnd, abs(v))
        if v < 0:
            return ["-", t] if rnd.random() < 0.2 else ["-" + t]
        return rnd.choice([[t], [t], [t], ["+" + t], ["+", t]])
    # preamble
    g = draw(st.sampled_from([0.9, 0.95, 0.5, 1.0, 0.0, 0.123456789]))
    pre = [["discount", ":"] + N(g), ["values", ":", draw(st.sampled_from(["reward", "cost"]))]]
    for c, n, k in (("s", S, "states"), ("a", A, "actions"), ("o", Z, "observations")):
        if n:
            pre.append([k, ":"] + (names[c] if names[c] else ["%d" % n]))
    if draw(st.booleans()):
        rnd.shuffle(pre)
    for l in pre:
        w.put(*l)
        w.line()
    # start
    if mdp:
        start = draw(st.sampled_from(["none", "index", "name"]))
    else:
        start = draw(st.sampled_from(["none", "probs", "uniform", "name", "include", "exclude"]))
    if start == "name" and not names["s"]:
        start = "none"
    if start == "exclude" and S == 1:
        start = "include"
    raw = draw(raw_start) if raw_start is not None else None
    if raw is not None:
        w.out.append(raw)
        start = "raw"
    elif start == "probs":
        w.put("start", ":", *[P(x) for x in row(draw, S, rnd)])
    elif start == "uniform":
        w.put("start", ":", "uniform")
    elif start == "name":
        w.put("start", ":", names["s"][draw(st.integers(0, S - 1))])
    elif start == "index":
        w.put("start", ":", "%d" % draw(st.integers(0, S - 1)))
    elif start in ("include", "exclude"):
        l = draw(st.lists(st.integers(0, S - 1), min_size=1, max_size=min(20, S - (start == "exclude")), unique=True))
        w.put("start", start, ":", *[ref("s", x) for x in l])
    w.line()
    idx = lambda n: draw(st.one_of(st.integers(0, n - 1), st.just("*"), st.integers(0, n - 1)))

    def rows(k, a, s, n):
        """A statement group that gives row(s) s of action(s) a a new distribution."""
        form = draw(st.sampled_from(["row", "row", "uniform", "single", "reset"]))
        if form == "reset" and (k == "O" or (mdp and start == "none")):
            form = "row"
        c = "s" if k == "T" else "o"
        if form == "uniform":
            return [[k, ":", ref("a", a), ":", ref("s", s), "uniform"]]
        if form == "reset":
            return [[k, ":", ref("a", a), ":", ref("s", s), "reset"]]
        p = row(draw, n, rnd)
        if form == "row":
            return [[k, ":", ref("a", a), ":", ref("s", s)] + [P(x) for x in p]]
        out = []
        order = list(range(n))
        rnd.shuffle(order)
        if rnd.random() < 0.5:       # clear by wildcard, then set the entries that are not zero
            d = draw(st.sampled_from([0.0, 0.0, 1.0, 0.25]))
            out.append([k, ":", ref("a", a), ":", ref("s", s), ":", "*", P(d)])
            order = [i for i in order if p[i] != d]
        return out + [[k, ":", ref("a", a), ":", ref("s", s), ":", ref(c, i), P(p[i])] for i in order]

    def whole(k, a, n):
        form = draw(st.sampled_from(["matrix", "matrix", "rows"] + SPECIAL[k]))
        if form in ("uniform", "identity"):
            return [[k, ":", ref("a", a), form]]
        if form == "matrix":
            return [[k, ":", ref("a", a)] + [P(x) for _ in range(S) for x in row(draw, n, rnd)]]
        return sum([rows(k, a, s, n) for s in range(S)], [])
    groups = []
    for k, n in (("T", S),) + ((("O", Z),) if Z else ()):
        first = []
        if draw(st.booleans()) or A > 20:
            first.append(whole(k, "*", n))
        else:
            first += [whole(k, a, n) for a in range(A)]
        more = []
        for _ in range(draw(st.integers(0, extra))):
            if draw(st.sampled_from([True, True, False])):
                more.append(rows(k, idx(A), idx(S), n))
            else:
                more.append(whole(k, idx(A), n))
        groups.append([x for x in first + more])
    val = st.one_of(st.integers(-20, 20).map(float), st.integers(-200, 200).map(lambda v: v / 10), st.just(0.0),
                    st.sampled_from(BIG).map(float))
    rs = []
    for _ in range(draw(st.integers(0, 2 * extra))):
        if mdp:
            form = draw(st.sampled_from(["row", "vec", "mat"]))
        else:
            form = draw(st.sampled_from(["single", "single", "row", "mat"]))
        h = ["R", ":", ref("a", idx(A))]
        if form != "mat" or not mdp:
            h += [":", ref("s", idx(S))]
        if form in ("row", "single"):
            h += [":", ref("s", idx(S))]
        if form == "single":
            h += [":", ref("o", idx(Z))]
        n = {"single": 1, "row": 1 if mdp else Z, "vec": S, "mat": S * S if mdp else S * Z}[form]
        if n > 30:
            h += sum([N(rnd.choice([0.0, 0.0, 1.0, -3.5, 20.0, rnd.randint(-9, 9) / 4])) for _ in range(n)], [])
        else:
            h += sum([N(draw(val)) for _ in range(n)], [])
        rs.append([h])
    groups.append(rs)
    # interleave the groups, keeping the order inside each
    if draw(st.booleans()):
        order = [i for i, g in enumerate(groups) for _ in g]
        rnd.shuffle(order)
    else:
        order = [i for i, g in enumerate(groups) for _ in g]
    its = [iter(g) for g in groups]
    raws = draw(raw_body) if raw_body is not None else []
    at = {draw(st.integers(0, len(order))): r for r in raws}
    for j, i in enumerate(order):
        if j in at:
            w.out.append(at[j] + "\n")
        for stm in next(its[i]):
            w.put(*stm)
            w.line()
    if len(order) in at:
        w.out.append(at[len(order)] + "\n")
    return w.text()
