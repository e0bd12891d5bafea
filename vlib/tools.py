"""Vector and belief files for the tools of pomdp-tools."""
from vlib.exact import *

DY = st.one_of(st.integers(-40, 40).map(float), st.integers(-4000, 4000).map(lambda v: v / 64), st.sampled_from([0.0, 0.0, 1.0, -1.0, 1e6, -123456.75]))

MILD = st.one_of(st.integers(-40, 40).map(float), st.integers(-4000, 4000).map(lambda v: v / 64), st.sampled_from([0.0, 0.0, 1.0, -1.0]))


@st.composite
def lists(draw, n, lo=1, hi=12, values=DY, acts=4, near=(1.0, -1.0, 0.25, -0.015625)):
    """A list of (action, vector), with repeated and nearly repeated vectors."""
    k = draw(st.integers(lo, hi))
    out = []
    for _ in range(k):
        how = draw(st.sampled_from(["new", "new", "new", "copy", "tweak", "mix"])) if out else "new"
        if how == "new":
            v = draw(st.lists(values, min_size=n, max_size=n))
        else:
            v = list(out[draw(st.integers(0, len(out) - 1))][1])
            if how == "tweak":
                for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
                    v[draw(st.integers(0, n - 1))] += draw(st.sampled_from(near))
            elif how == "mix":
                w = out[draw(st.integers(0, len(out) - 1))][1]
                v = [(x + y) / 2 for x, y in zip(v, w)]
        # files hold 25 decimals; keep to numbers they hold exactly
        out.append([draw(st.integers(0, acts - 1)), [round(x, 14) for x in v]])
    return out


@st.composite
def belief_lists(draw, n, lo=1, hi=12):
    """Beliefs with coordinates multiple of 1/8 (exact dot products with dyadic vectors), some repeated."""
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        c = sorted(draw(st.lists(st.integers(0, 8), min_size=n - 1, max_size=n - 1)))
        c = [0] + c + [8]
        out.append([(c[i + 1] - c[i]) / 8 for i in range(n)])
        if draw(st.integers(0, 5)) == 0:
            out.append(list(out[draw(st.integers(0, len(out) - 1))]))
    return out


def al_text(l, layout="plain"):
    f = {"exp": lambda x: "%.17e" % x, "fixed": lambda x: "%.25f" % x}.get(layout, lambda x: repr(float(x)))
    if layout == "columns":
        return "".join("%d\n%s\n" % (a, "\n".join(f(x) for x in v)) for a, v in l)
    if layout == "sparse":
        return "".join("\n\n  %d \t\r\n  %s  \n" % (a, " \t ".join(f(x) for x in v)) for a, v in l)
    if layout == "line":
        return " ".join("%d %s" % (a, " ".join(f(x) for x in v)) for a, v in l)
    return "".join("%d\n%s \n\n" % (a, " ".join(f(x) for x in v)) for a, v in l)


def be_text(l, layout="plain"):
    f = {"exp": lambda x: "%.17e" % x, "fixed": lambda x: "%.25f" % x}.get(layout, lambda x: repr(float(x)))
    if layout == "columns":
        return "".join("\n".join(f(x) for x in v) + "\n" for v in l)
    if layout == "line":
        return " ".join(" ".join(f(x) for x in v) for v in l)
    return "".join("%s \n" % " ".join(f(x) for x in v) for v in l)


LAYOUTS = st.sampled_from(["plain", "fixed", "columns", "sparse", "exp", "line"])


def tool(ctx, name, *args, variant="asan", rc=0, out="out", cpu=20):
    """Runs a tool; it must end with the exit code."""
    a = ["-tool", name] + [str(x) for x in args] + (["-o", out] if out else [])
    r = ctx.run("pomdp-tools", a, variant=variant, cpu=cpu)
    if r.timeout or r.crashed or (rc is not None and r.rc != rc):
        raise Violation("pomdp-tools %s: %s: %s" % (" ".join(a), "timeout" if r.timeout else "exit %s" % r.rc,
                                                    r.sanitizer or (r.out + r.err)[-300:]))
    return r
