"""No memory error on any valid use: what the other checks generate, under AddressSanitizer/UBSan and MemorySanitizer."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import Check, Ctx, Hang, Part
from vlib.exact import *

# check, part, weight
USES = [("P01", "small", 2), ("P01", "larger", 1), ("P03", "terminal", 1), ("P05", "statements", 2), ("P08", "files", 2), ("P08", "chain", 1),
        ("P09", "equivalent", 1), ("P11", "grid", 2), ("P12", "sort", 1), ("P12", "purge", 1), ("P12", "compare", 1), ("P13", "histories", 2),
        ("P14", "values", 1), ("P14", "solved", 1), ("P15", "random", 1), ("P15", "solver", 1), ("P16", "options", 3), ("P16", "equivalent", 1),
        ("P17", "same", 1), ("P18", "bound", 2), ("P18", "adjustable", 1), ("P19", "converged", 1), ("P19", "improving", 1), ("P22", "signals", 1),
        ("P25", "map", 1), ("P25", "compare", 1), ("P10", "wide", 2), ("P05", "large", 1), ("P08", "variants", 1), ("P13", "long", 1), ("P14", "large", 1),
        ("P15", "large", 1), ("P09", "wide", 1)]


class Ended(BaseException):
    """The run is over: the time it may take says nothing here."""


class Forced(Ctx):
    """Runs every program as built with one sanitizer, and looks only at the sanitizer's reports."""

    def __init__(self, ctx, variant):
        self.__dict__.update(ctx.__dict__)
        self.variant, self.runs, self.found = variant, 0, None

    def exe(self, name, variant="plain"):
        return os.path.join(self.builds[self.variant], name)

    def run(self, name, args, variant="plain", cpu=30, wall=None, **kw):
        r = super().run(name, args, variant=self.variant, cpu=min(cpu, 6), wall=wall, **kw)
        self.runs += 1
        if r.sanitizer and not self.found:
            self.found = "%s %s\n%s" % (name, " ".join(map(str, args))[:600], r.sanitizer)
        if r.timeout:
            raise Ended
        return r


PART = {}
for check, name, w in USES:
    c = importlib.import_module("checks." + check).main.__self__
    PART["%s-%s" % (check, name)] = (next(p for p in c.parts if p.name == name), w)


@st.composite
def cases(draw, names):
    n = draw(st.sampled_from([n for n in names for _ in range(PART[n][1])]))
    return {"use": n, "case": draw(PART[n][0].strategy)}


def use(variant):
    def judge(c, ctx):
        f = Forced(ctx, variant)
        end = "ended"
        try:
            PART[c["use"]][0].judge(c["case"], f)
        except Ended:
            end = "CPU limit"
        except (Inconclusive, Violation, ValueError, IndexError, KeyError, FileNotFoundError, TypeError, ArithmeticError):
            end = "ended, judged by its own check"
        if f.found:
            raise Violation(f.found)
        return {"nontrivial": f.runs > 0 and end != "CPU limit", "labels": [c["use"], end]}
    return judge


ALL = sorted(PART)
parts = [Part("address", cases(ALL), use("asan"), 800, 60000, ("asan",), ("mdpdump",)),
         Part("uninitialised", cases(ALL), use("msan"), 1200, 80000, ("msan",), ("mdpdump",))]

main = Check("P24", parts, rule="the cases of the other checks (models x options of all methods and variations, model texts, files for every tool, signals) "
             "run with programs built with AddressSanitizer and UndefinedBehaviorSanitizer, and with MemorySanitizer; any report fails. "
             "Non-trivial: a program ran to its end.",
             assumptions=["address leaks are not counted", "a run cut off by the CPU limit decides nothing"]).main
if __name__ == "__main__":
    main()
