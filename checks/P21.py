"""The containers: lists of vectors and beliefs, sparse matrices, associative arrays; operation histories against a model."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Part
from vlib.exact import *

g = lambda v: "%.10g" % v
fmt = lambda v: " ".join(g(x) for x in v)


class Node:
    def __init__(self, action, alpha, id=-1, witness=None):
        self.action, self.alpha, self.id, self.mark, self.witness = action, tuple(alpha), id, 0, witness

    def __str__(self):
        return " (%d %d %d %s%s)" % (self.action, self.id, self.mark, fmt(self.alpha), " w " + fmt(self.witness) if self.witness else "")


class Model:
    """What the operations are documented to do, on Python lists."""

    def __init__(self):
        self.r = [[] for _ in range(4)]
        self.b, self.m, self.a = [], None, {}

    def show(self, r):
        return " <%d %d:%s>" % (r, len(self.r[r]), "".join(str(n) for n in self.r[r]))

    def add(self, r, n, front=False):
        L = self.r[r]
        n.id = 0 if not L else L[0].id - 1 if front else L[-1].id + 1
        L.insert(0 if front else len(L), n)

    def gone(self, r, k):
        return " NULL" if k < 0 else str(self.r[r].pop(k))

    def find(self, r, v):
        return next((k for k, n in enumerate(self.r[r]) if n.alpha == v), -1)

    def best(self, r, b, floor=-math.inf):
        best, at = floor, -1
        for k, n in enumerate(self.r[r]):
            v = sum(x * y for x, y in zip(n.alpha, b))
            if v > best or at >= 0 and v == best and n.alpha > self.r[r][at].alpha:
                best, at = v, k
        return best, at

    @staticmethod
    def dom(v, w):
        return all(x > y for x, y in zip(v, w))

    def step(self, o):
        """The expected line, after the name."""
        op, a, R = o[0], o[1:], self.r
        if op in ("append", "prepend"):
            self.add(a[0], Node(a[1], a[2]), op == "prepend")
            return " %d%s" % (0 if op == "prepend" else len(R[a[0]]) - 1, self.show(a[0]))
        if op == "unique":
            if self.find(a[0], a[2]) >= 0:
                return " -1" + self.show(a[0])
            self.add(a[0], Node(a[1], a[2]))
            return " %d%s" % (len(R[a[0]]) - 1, self.show(a[0]))
        if op == "witness":
            R[a[0]][a[1]].witness = a[2]
        elif op == "mark":
            R[a[0]][a[1]].mark = 1
        elif op == "dequeue":
            return self.gone(a[0], 0 if R[a[0]] else -1) + self.show(a[0])
        elif op == "move":
            if R[a[0]]:
                n = R[a[0]].pop(0)
                self.add(a[1], n)
            return self.show(a[0]) + self.show(a[1])
        elif op == "extract":
            return self.gone(a[0], self.find(*a)) + self.show(a[0])
        elif op == "extractnode":
            return self.gone(*a) + self.show(a[0])
        elif op == "remove":
            k = self.find(*a)
            self.gone(a[0], k)
            return " %d%s" % (k >= 0, self.show(a[0]))
        elif op == "removebest":
            return self.gone(a[0], self.best(*a)[1]) + self.show(a[0])
        elif op == "best":
            v, k = self.best(*a)
            return " %d" % k + (" " + g(v) if k >= 0 else "")
        elif op == "bestprimed":
            v, k = self.best(a[0], a[2], a[1])
            return " %d %s" % (k, g(v))
        elif op == "find":
            k = self.find(*a)
            return " %d %d" % (k, k >= 0)
        elif op == "dominated":
            return " %d" % any(self.dom(n.alpha, a[1]) for n in R[a[0]])
        elif op in ("markdom", "removedom"):
            if op == "removedom":
                for n in R[a[0]]:
                    n.mark = 0
            hit = [n for n in R[a[0]] if not n.mark and self.dom(a[1], n.alpha)]
            for n in hit:
                n.mark = 1
            if op == "removedom":
                R[a[0]] = [n for n in R[a[0]] if not n.mark]
            return " %d%s" % (len(hit), self.show(a[0]))
        elif op in ("markall", "clearmark"):
            for n in R[a[0]]:
                n.mark = int(op == "markall")
        elif op == "unmarked":
            u = [k for k, n in enumerate(R[a[0]]) if not n.mark]
            return " %d %d %d" % (len(u), not u, u[0] if u else -1)
        elif op == "extractunmarked":
            return self.gone(a[0], next((k for k, n in enumerate(R[a[0]]) if not n.mark), -1)) + self.show(a[0])
        elif op == "extractmarked":
            out = [n for n in R[a[0]] if n.mark]
            R[a[0]] = [n for n in R[a[0]] if not n.mark]
            R[a[1]] = []
            for n in out:
                n.mark = 0
                self.add(a[1], n)
            return self.show(a[0]) + self.show(a[1])
        elif op == "removemarked":
            n = len(R[a[0]])
            R[a[0]] = [n for n in R[a[0]] if not n.mark]
            return " %d%s" % (n - len(R[a[0]]), self.show(a[0]))
        elif op == "sort":
            out = sorted(R[a[0]], key=lambda n: n.alpha)
            R[a[0]] = []
            for n in out:
                self.add(a[0], n)
        elif op == "renumber":
            for k, n in enumerate(R[a[0]]):
                n.id = k
        elif op == "clear":
            R[a[0]] = []
        elif op in ("duplicate", "dupwitness"):
            R[a[1]] = [Node(n.action, n.alpha, n.id, n.witness if op == "dupwitness" else None) for n in R[a[0]]]
            return self.show(a[0]) + self.show(a[1])
        elif op == "dupnode":
            n = R[a[0]][a[1]]
            self.add(a[2], Node(n.action, n.alpha))
            return self.show(a[0]) + self.show(a[2])
        elif op == "union":
            if not R[a[1]]:
                return self.show(a[0])
            R[a[0]] += R[a[1]]
            R[a[1]] = []
            return self.show(a[0]) + self.show(a[1])
        elif op == "same":
            x, y = [[n.alpha for n in R[k]] for k in a]
            return " %d %d" % (x == y, len(x) == len(y) and set(x) == set(y))
        elif op == "maxsize":
            return " %d" % max(len(l) for l in R)
        elif op == "lexi":
            v, w = a
            return " %d %d %d %d 0" % (v > w, self.dom(v, w), v == w, not any(v))
        elif op in ("bappend", "bprepend"):
            self.b.insert(0 if op == "bprepend" else len(self.b), a[0])
            return " %d" % len(self.b) + "".join(" ( %s)" % fmt(b) for b in self.b)
        elif op == "bfind":
            return " %d" % (self.b.index(a[0]) if a[0] in self.b else -1)
        elif op == "bclear":
            self.b = []
            return ""
        elif op == "mnew":
            self.m = [{} for _ in range(a[0])]
            return ""
        elif op in ("mset", "madd"):
            row, col, v = a
            d = self.m[row]
            if op == "madd":
                if v:
                    d[col] = d.get(col, 0) + v
            elif v:
                d[col] = v
            else:
                d.pop(col, None)
            return " %d %s" % (sum(map(len, self.m)), g(sum(d.values())))
        elif op == "mshow":
            return "".join(" [%d %s:%s |%s]" % (len(d), g(sum(d.values())), "".join(" %d=%s" % (k, g(d[k])) for k in sorted(d)),
                                                "".join(" " + g(d.get(k, 0)) for k in range(a[0]))) for d in self.m)
        elif op == "put":
            new = a[0] not in self.a
            if new and len(self.a) == 6:
                return " -1 6"
            self.a[a[0]] = a[1]
            return " %d %d" % (new, len(self.a))
        elif op == "get":
            return " " + self.a.get(a[0], "NULL")
        return self.show(a[0])


LIST = ["append", "append", "append", "prepend", "unique", "witness", "mark", "mark", "dequeue", "move", "extract", "extractnode", "remove", "removebest", "best",
        "bestprimed", "find", "dominated", "markdom", "removedom", "markall", "clearmark", "unmarked", "extractunmarked", "extractmarked",
        "removemarked", "sort", "renumber", "clear", "duplicate", "dupwitness", "dupnode", "union", "same", "maxsize", "lexi"]
OTHER = ["bappend", "bappend", "bprepend", "bfind", "bclear", "mset", "mset", "madd", "madd", "mshow", "mnew", "put", "put", "get"]


@st.composite
def scripts(draw, names):
    n = draw(st.sampled_from([2, 3, 1, 2]))
    comp = draw(st.sampled_from([st.integers(-1, 1), st.integers(0, 3), st.integers(-20, 20).map(lambda v: v / 4)]))
    vec = st.tuples(*[comp] * n)
    reg = draw(st.sampled_from([st.just(0), st.integers(0, 3), st.integers(0, 1)]))
    M, out, known = Model(), [], []
    some = draw(st.lists(st.sampled_from(names), min_size=1, max_size=8, unique=True))
    if names is LIST and "append" not in some:
        some += ["append", "append"]

    def v():
        if known and draw(st.integers(0, 2)):
            return draw(st.sampled_from(known))
        x = draw(vec)
        known.append(x)
        return x
    cols = draw(st.integers(1, 6))
    if names is OTHER:
        out.append(["mnew", draw(st.integers(1, 4))])
        M.step(out[-1])
    for _ in range(draw(st.integers(1, 40))):
        op = draw(st.sampled_from(some))
        r = draw(reg)
        L = M.r[r]
        if op in ("append", "prepend", "unique"):
            o = [op, r, draw(st.integers(0, 7)), v()]
        elif op in ("witness", "mark", "extractnode", "dupnode"):
            if not L:
                continue
            o = [op, r, draw(st.integers(0, len(L) - 1))] + ([v()] if op == "witness" else [draw(st.integers(0, 3))] if op == "dupnode" else [])
            if op == "dupnode" and L[o[2]].witness:
                continue                        # shares the witness
        elif op in ("move", "extractmarked", "duplicate", "dupwitness", "union", "same"):
            s = draw(st.integers(0, 3))
            if s == r and op != "move" and op != "same":
                s = (r + 1) % 4
            if op == "dupwitness" and not all(n.witness for n in L):
                continue
            o = [op, r, s]
        elif op in ("extract", "remove", "find", "dominated", "markdom", "removedom"):
            o = [op, r, v()]
        elif op in ("best", "removebest", "bestprimed"):
            b = tuple(draw(st.sampled_from([0, 0.25, 0.5, 1])) for _ in range(n))
            o = [op, r, b] if op != "bestprimed" else [op, r, draw(st.sampled_from([0, 1, -1, 0.5, 2])), b]
        elif op == "sort":
            if len(set(n.alpha for n in L)) < len(L):
                continue                        # any order of equal vectors will do
            o = [op, r]
        elif op == "lexi":
            o = [op, v(), v()]
        elif op in ("maxsize", "bclear"):
            o = [op]
        elif op in ("bappend", "bprepend", "bfind"):
            o = [op, v()]
        elif op == "mnew":
            o = [op, draw(st.integers(1, 4))]
        elif op in ("mset", "madd"):
            o = [op, draw(st.integers(0, len(M.m) - 1)), draw(st.integers(0, cols - 1)), draw(st.sampled_from([0.5, 0.25, 1, 0, 3, -1, 0.125]))]
        elif op == "mshow":
            o = [op, cols]
        elif op == "put":
            o = [op, draw(st.sampled_from("a b c d e f g h aa ab abc b1".split())), draw(st.sampled_from("x y xy zzz longer-value 1 0".split()))]
        elif op == "get":
            o = [op, draw(st.sampled_from("a b c d e f g h aa ab abc b1 z".split()))]
        else:
            o = [op, r]
        M.step(o)
        out.append(o)
    if names is OTHER:
        out.append(["mshow", cols])
    return {"n": n, "ops": out}


def judge(c, ctx):
    M, want, text = Model(), [], ["S %d" % c["n"]]
    peak = 0
    for o in c["ops"]:
        o = [tuple(x) if isinstance(x, list) else x for x in o]
        text.append(" ".join(fmt(x) if isinstance(x, tuple) else str(x) for x in o))
        want.append(o[0] + M.step(o))
        peak = max([peak] + [len(l) for l in M.r])
    r = ctx.run("lists", [], variant="asan", stdin=("\n".join(text) + "\n").encode(), cpu=20, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99"})
    got = r.out.split("\n")[:-1]
    for k, (a, b) in enumerate(zip(want, got)):
        if a != b:
            raise Violation("after %s\nthe operation %s\nshould give  %s\nand gives    %s" % ("; ".join(text[1:k + 1])[-600:], text[k + 1], a, b))
    if r.sanitizer or r.rc != 0 or len(got) != len(want):
        raise Violation("%s: exit %d after %d of %d operations\n%s" % (c["ops"], r.rc, len(got), len(want), r.sanitizer or r.err[-800:]))
    return {"nontrivial": len(c["ops"]) >= 6 and (peak >= 3 or c["ops"][-1][0] == "mshow"), "labels": sorted({o[0] for o in c["ops"]})}


main = Check("P21", [
    Part("vector lists", scripts(LIST), judge, 6000, 200000, ("asan",), ("lists",)),
    Part("matrices, beliefs, arrays", scripts(OTHER), judge, 3000, 100000, ("asan",), ("lists",)),
], rule="histories of up to 40 operations (append, prepend, extract, mark, remove, sort, duplicate, unite, compare, best vector, ...) on four vector lists, a belief list, a "
        "sparse matrix built piece by piece and an associative array, every result and the whole state after each compared with a model. "
        "Non-trivial: at least 6 operations with three or more vectors in a list, or a matrix built.",
    assumptions=["components are small dyadic numbers, so that no comparison depends on rounding",
                 "the order of equal vectors after a sort, and copies of nodes with a witness (shared on purpose) are not claimed"]).main
if __name__ == "__main__":
    main()
