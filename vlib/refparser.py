"""A second reader of the POMDP file format, written from the grammar; the oracle for accepted models.

parse(text) returns (model, None) for a valid file, (None, reason) for an invalid one, and raises
Undecided for inputs whose meaning the format leaves open.
"""
import re
import numpy as np

RESERVED = {"discount", "values", "states", "actions", "observations", "T", "O", "R", "uniform", "identity",
            "reward", "cost", "start", "include", "exclude", "reset"}
TOK = re.compile(r"""(?P<float>[0-9]+(?:\.[0-9]*(?:[eE][+-]?[0-9]+)?|[eE][+-]?[0-9]+))|(?P<int>[0-9]+)|
                     (?P<word>[A-Za-z][A-Za-z0-9_-]*)|(?P<comment>\#[^\n]*)|(?P<punct>[*:+-])|(?P<space>[ \t\r\n]+)|(?P<bad>.)""",
                 re.X | re.S)
SUM_TOL = 1e-5
ZERO = 1e-10


class Undecided(Exception):
    pass


class Invalid(Exception):
    pass


def tokens(text):
    out, bad = [], False
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k in ("comment", "space"):
            continue
        if k == "bad":
            bad = True
            continue
        v = m.group()
        if k == "word" and v in RESERVED:
            out.append((v, v))
        elif k == "punct":
            out.append((v, v))
        else:
            out.append((k, v))
    return out, bad


class Ref:
    def __init__(self, text):
        self.t, bad = tokens(text)
        self.i = 0
        self.errors = ["illegal character"] if bad else []

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def eat(self, *kinds):
        k = self.peek()
        if k is None or (kinds and k not in kinds):
            raise Invalid("syntax: %s where %s is expected" % (k, "/".join(kinds)))
        v = self.t[self.i][1]
        self.i += 1
        return v

    def err(self, why):
        self.errors.append(why)

    def integer(self, s):
        return int(s)

    def count(self, s):
        n = int(s)
        if n >= 2 ** 31:
            raise Invalid("syntax: too large a count")
        if n > 9999:
            raise Undecided("very large model")
        return n

    # --------------------------------------------------------------- preamble
    def number(self):
        sign = 1.0
        if self.peek() in ("+", "-"):
            sign = -1.0 if self.eat() == "-" else 1.0
        k = self.peek()
        s = self.eat("int", "float")
        if float(s) == float("inf"):
            self.err("number too large")
        return sign * float(s)

    def parse(self):
        self.g = self.values = None
        self.n = {"s": None, "a": None, "o": None}
        self.names = {"s": {}, "a": {}, "o": {}}
        while self.peek() in ("discount", "values", "states", "actions", "observations"):
            k = self.eat()
            self.eat(":")
            if k == "discount":
                self.g = self.number()
                if not 0 <= self.g <= 1:
                    self.err("discount")
            elif k == "values":
                self.values = self.eat("reward", "cost")
            else:
                c = k[0]
                if self.n[c] is not None:
                    raise Undecided("%s given twice" % k)
                if self.peek() == "int":
                    self.n[c] = self.count(self.eat())
                    if self.n[c] < 1:
                        self.err("number of " + k)
                        self.n[c] = 1
                else:
                    if self.peek() != "word":
                        raise Invalid("syntax: " + k)
                    i = 0
                    while self.peek() == "word":
                        w = self.eat()
                        if w in self.names[c]:
                            self.err("duplicate name")
                        else:
                            self.names[c][w] = i
                            i += 1
                    self.n[c] = i
        for k, v in (("discount", self.g), ("values", self.values), ("states", self.n["s"]), ("actions", self.n["a"])):
            if v is None:
                self.err("missing " + k)
        S, A, Z = self.n["s"] or 1, self.n["a"] or 1, self.n["o"]
        self.mdp = Z is None
        self.S, self.A, self.Z = S, A, Z or 0
        if S * S * A * max(1, self.Z) > 300000:
            raise Undecided("too large for the reference")
        self.T = np.zeros((A, S, S))
        self.O = np.zeros((A, S, self.Z))
        self.R = np.zeros((A, S, S, max(1, self.Z)))
        self.b = np.zeros(S)
        self.b0 = None
        self.start()
        while self.peek() is not None:
            k = self.eat("T", "O", "R")
            self.eat(":")
            getattr(self, "stmt_" + k)()
        for a in range(A):
            for s in range(S):
                self.check_sum(self.T[a, s], "T sum")
                if not self.mdp:
                    self.check_sum(self.O[a, s], "O sum")
        if self.errors:
            raise Invalid("; ".join(self.errors[:4]))
        return self

    def check_sum(self, row, what):
        d = abs(row.sum() - 1)
        if abs(d - SUM_TOL) < 1e-9 or np.any((row != 0) & (row < 2 * ZERO)):
            raise Undecided("probability at a tolerance")
        if not d < SUM_TOL:
            self.err(what)

    # --------------------------------------------------------------- start
    def start(self):
        S = self.S
        if self.peek() != "start":
            self.b[:] = 1.0 / S
            return
        self.eat()
        if self.peek() in ("include", "exclude"):
            k = self.eat()
            self.eat(":")
            l = []
            while self.peek() in ("int", "word", "*"):
                l.append(self.ref("s"))
            if not l:
                raise Invalid("syntax: empty list")
            if self.mdp:
                self.err("start list in an MDP")
                return
            self.b[:] = 0 if k == "include" else 1
            for x in l:
                self.b[x] = 1 if k == "include" else 0
            if self.b.sum() == 0:
                self.err("no start state left")
            else:
                self.b /= self.b.sum()
            return
        self.eat(":")
        k = self.peek()
        if k == "word":
            w = self.eat()
            if w not in self.names["s"]:
                self.err("start name")
            elif self.mdp:
                self.b0 = self.names["s"][w]
            else:
                self.b[self.names["s"][w]] = 1
        elif k == "uniform":
            self.eat()
            self.b[:] = 1.0 / S
            if self.mdp:
                self.err("uniform start in an MDP")
        elif k == "reset":
            self.err("start: reset")
            self.eat()
        else:
            l = self.probs(check=not self.mdp)
            if self.mdp:
                if len(l) != 1 or l[0] != int(l[0]) or "float" in self.kinds:
                    self.err("start of an MDP")
                elif not 0 <= l[0] < S:
                    self.err("start out of range")
                else:
                    self.b0 = int(l[0])
            elif len(l) != S:
                self.err("start entries")
            else:
                self.b[:] = l
                if abs(abs(sum(l) - 1) - SUM_TOL) < 1e-9:
                    raise Undecided("probability at a tolerance")
                if not abs(sum(l) - 1) < SUM_TOL:
                    self.err("start sum")

    # --------------------------------------------------------------- statements
    def ref(self, c):
        k = self.peek()
        v = self.eat("int", "word", "*")
        n = {"s": self.S, "a": self.A, "o": self.Z}[c]
        if k == "*":
            return slice(None)
        if k == "int":
            i = self.integer(v)
        else:
            i = self.names[c].get(v, -1)
        if not 0 <= i < n:
            self.err("reference to %s %s" % (c, v))
            return slice(0, 0)
        return i

    def prob(self, check=True):
        k = self.peek()
        s = self.eat("int", "float")
        v = float(s)
        if check and not 0 <= v <= 1:
            self.err("probability")
        return v

    def probs(self, check=True):
        if self.peek() not in ("int", "float"):
            raise Invalid("syntax: numbers expected, got %s" % self.peek())
        l, self.kinds = [], set()
        while self.peek() in ("int", "float"):
            self.kinds.add(self.peek())
            l.append(self.prob(check))
        return l

    def numbers(self):
        l = [self.number()]
        while self.peek() in ("int", "float", "+", "-"):
            l.append(self.number())
        return l

    def fit(self, l, n):
        if len(l) != n:
            self.err("%d entries, not %d" % (len(l), n))
        return (l + [0.0] * n)[:n]

    def stmt_T(self):
        S = self.S
        a = self.ref("a")
        if self.peek() != ":":
            if self.peek() == "uniform":
                self.eat()
                self.T[a] = 1.0 / S
            elif self.peek() == "identity":
                self.eat()
                self.T[a] = np.eye(S)
            else:
                self.T[a] = np.array(self.fit(self.probs(), S * S)).reshape(S, S)
            return
        self.eat(":")
        s = self.ref("s")
        if self.peek() == ":":
            self.eat()
            t = self.ref("s")
            self.T[(a, s, t)] = self.prob()
        elif self.peek() == "uniform":
            self.eat()
            self.T[a, s] = 1.0 / S
        elif self.peek() == "reset":
            self.eat()
            if self.mdp:
                if self.b0 is None:
                    self.err("reset without start state")
                else:
                    self.T[a, s] = np.eye(S)[self.b0]
            else:
                self.T[a, s] = self.b
        else:
            self.T[a, s] = self.fit(self.probs(), S)

    def stmt_O(self):
        S, Z = self.S, self.Z
        if self.mdp:
            self.err("observation in an MDP")
        a = self.ref("a")
        if self.peek() != ":":
            if self.peek() == "uniform":
                self.eat()
                if Z:
                    self.O[a] = 1.0 / Z
            elif self.peek() == "reset":
                self.eat()
                self.err("reset")
            else:
                l = self.probs()
                if Z:
                    self.O[a] = np.array(self.fit(l, S * Z)).reshape(S, Z)
            return
        self.eat(":")
        s = self.ref("s")
        if self.peek() == ":":
            self.eat()
            o = self.ref("o")
            self.O[(a, s, o)] = self.prob()
        elif self.peek() == "uniform":
            self.eat()
            if Z:
                self.O[a, s] = 1.0 / Z
        elif self.peek() == "reset":
            self.eat()
            self.err("reset")
        else:
            l = self.probs()
            if Z:
                self.O[a, s] = self.fit(l, Z)

    def stmt_R(self):
        S, Z = self.S, self.Z
        a = self.ref("a")
        if self.peek() != ":":
            l = self.numbers()
            if not self.mdp:
                self.err("R: action matrix in a POMDP")
            else:
                self.R[a] = np.array(self.fit(l, S * S)).reshape(S, S, 1)
            return
        self.eat(":")
        s = self.ref("s")
        if self.peek() != ":":
            l = self.numbers()
            if self.mdp:
                self.R[a, s] = np.array(self.fit(l, S)).reshape(S, 1)
            else:
                self.R[a, s] = np.array(self.fit(l, S * Z)).reshape(S, Z)
            return
        self.eat(":")
        t = self.ref("s")
        if self.peek() != ":":
            l = self.numbers()
            if self.mdp:
                self.R[(a, s, t)] = self.fit(l, 1)[0]
            else:
                self.R[a, s, t] = self.fit(l, Z)
            return
        self.eat(":")
        o = self.ref("o")
        v = self.number()
        if self.mdp:
            self.err("R with observation in an MDP")
        else:
            self.R[(a, s, t, o)] = v


def parse(text):
    r = Ref(text)
    try:
        r.parse()
    except Invalid as e:
        return None, str(e)
    r.Q = np.einsum("ast,asto->as", r.T, r.R) if r.mdp else np.einsum("ast,ato,asto->as", r.T, r.O, r.R)
    return r, None
