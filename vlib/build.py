"""Build pomdp-solve from /repo's current working tree (never from its build products).

The sources under /repo/src are copied to a private folder and compiled there, with
whatever parser C code the project's own build would use: the committed parser.c /
scanner.c, unless only the .y/.l source was edited, in which case bison/flex is run.
Builds are cached by content hash under /verif/.build (git-ignored).
"""
import hashlib, os, re, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

VARIANTS = {
    "plain": dict(cc="gcc", cflags=["-g", "-O2"], ld=[]),
    "asan": dict(cc="gcc",
                 cflags=["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                         "-fno-sanitize=alignment,float-divide-by-zero,shift",
                         "-fno-sanitize-recover=undefined"],
                 ld=["-fsanitize=address,undefined"]),
    "msan": dict(cc="clang",
                 cflags=["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=memory",
                         "-Wno-implicit-int", "-Wno-implicit-function-declaration",
                         "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types",
                         "-Wno-deprecated-non-prototype"],
                 ld=["-fsanitize=memory"]),
    "fuzz": dict(cc="clang",
                 cflags=["-g", "-O1", "-fno-omit-frame-pointer",
                         "-fsanitize=fuzzer-no-link,address,undefined",
                         "-fno-sanitize=alignment,shift,function",
                         "-fno-sanitize-recover=undefined",
                         "-Wno-implicit-int", "-Wno-implicit-function-declaration",
                         "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types",
                         "-Wno-deprecated-non-prototype"],
                 ld=["-fsanitize=fuzzer,address,undefined"]),
}

GEN = [("src/mdp/parser.y", ["src/mdp/parser.c", "src/mdp/parser.h"], "bison"),
       ("src/mdp/scanner.l", ["src/mdp/scanner.c"], "flex"),
       ("src/lp-solve/lp.y", ["src/lp-solve/lp.c", "src/lp-solve/lp.h"], "bison"),
       ("src/lp-solve/lex.l", ["src/lp-solve/lex.c"], "flex")]


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except FileNotFoundError:
        return None


def tree_hash(extra=()):
    h = hashlib.sha256()
    top = os.path.join(REPO, "src")
    for d, dirs, files in sorted(os.walk(top)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h", ".y", ".l", ".am")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for p in [os.path.join(REPO, "config.h")] + list(extra):
        h.update((sha(p) or "").encode())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:20]


def _am_sources(path, prefix_vars):
    """Source lists of a Makefile.am: {variable: [files]} with $(VAR) expanded."""
    text = open(path).read().replace("\\\n", " ")
    var = {}
    for m in re.finditer(r"^\s*([A-Za-z_][A-Za-z_0-9]*)\s*=\s*(.*)$", text, re.M):
        var.setdefault(m.group(1), m.group(2))

    def exp(s, depth=0):
        if depth > 10:
            return s
        return re.sub(r"\$\((\w+)\)", lambda m: exp(var.get(m.group(1), ""), depth + 1), s)
    return {v: [w for w in exp(var.get(v, "")).split() if w.endswith((".c", ".y", ".l"))]
            for v in prefix_vars}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build(variant, harnesses=()):
    """Returns the folder with pomdp-solve, pomdp-tools, and the named C harnesses.

    harnesses: names of /verif/harness/<name>.c, each linked with all library objects.
    """
    hs = [os.path.join(VERIF, "harness", h + ".c") for h in harnesses]
    key = variant + "-" + tree_hash(hs) + ("-" + "-".join(sorted(harnesses)) if harnesses else "")
    out = os.path.join(BUILD, key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, key + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".done")):
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        _build(variant, out, harnesses)
        open(os.path.join(out, ".done"), "w").close()
        _prune(keep=key)
    return out


def _prune(keep, maximum=12):
    ds = sorted((d for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d)) and d != keep),
                key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in ds[:-maximum]:
        if os.path.exists(os.path.join(BUILD, d, ".done")):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def _build(variant, out, harnesses):
    cfg = VARIANTS[variant]
    src = os.path.join(out, "src")
    shutil.copytree(os.path.join(REPO, "src"), src,
                    ignore=lambda d, fs: [f for f in fs if f.endswith((".o", ".a")) or f.startswith(".")
                                          or f in ("pomdp-solve", "pomdp-tools", "pomdp-fg")])
    if os.path.exists(os.path.join(REPO, "config.h")):
        shutil.copy(os.path.join(REPO, "config.h"), out)
    base = dict(reversed(l.split()) for l in open(os.path.join(VERIF, "vlib", "parser-base.sha256")))
    for y, cs, tool in GEN:
        if sha(os.path.join(REPO, y)) != base[y] and all(sha(os.path.join(REPO, c)) == base[c] for c in cs):
            yo, co = os.path.join(out, y), os.path.join(out, cs[0])
            if tool == "bison":
                _run(["bison", "-y", "-d", "-o", co, yo])
            else:
                _run(["flex", "-o", co, yo])
    inc = ["-DHAVE_CONFIG_H", "-I" + out, "-I" + src] + \
          ["-I" + os.path.join(src, d) for d in ("mdp", "lp-solve", "laspack")]
    am = _am_sources(os.path.join(src, "Makefile.am"),
                     ["pomdp_solve_SOURCES", "pomdp_tools_SOURCES", "pomdp_fg_SOURCES"])
    mdp = _am_sources(os.path.join(src, "mdp", "Makefile.am"), ["libmdp_a_SOURCES"])["libmdp_a_SOURCES"]
    lpk = _am_sources(os.path.join(src, "lp-solve", "Makefile.am"), ["liblpk_a_SOURCES"])["liblpk_a_SOURCES"]
    las = _am_sources(os.path.join(src, "laspack", "Makefile.am"), ["liblaspack_a_SOURCES"])["liblaspack_a_SOURCES"]
    fix = lambda fs: list(dict.fromkeys(re.sub(r"\.[yl]$", ".c", f) for f in fs))
    solve, tools, fg = (fix(am[k]) for k in ("pomdp_solve_SOURCES", "pomdp_tools_SOURCES", "pomdp_fg_SOURCES"))
    libs = [os.path.join("mdp", f) for f in fix(mdp)] + [os.path.join("lp-solve", f) for f in fix(lpk)] \
        + [os.path.join("laspack", f) for f in fix(las)]
    extra = [f for f in ("index-list.c", "double-vector.c") if os.path.exists(os.path.join(src, f))]
    allsrc = list(dict.fromkeys(solve + tools + libs + extra))

    def comp(f):
        o = os.path.join(out, "obj", f.replace("/", "__")[:-2] + ".o")
        _run([cfg["cc"]] + cfg["cflags"] + ["-w"] + inc + ["-c", os.path.join(src, f), "-o", o])
        return f, o
    os.makedirs(os.path.join(out, "obj"))
    with ThreadPoolExecutor(8) as ex:
        obj = dict(ex.map(comp, allsrc))
    ldx = [x.replace("fuzzer,", "") for x in cfg["ld"]]
    lib = []
    for name, sub in (("mdp", "mdp/"), ("lpk", "lp-solve/"), ("laspack", "laspack/")):
        ar = os.path.join(out, "lib%s.a" % name)
        _run(["ar", "rcs", ar] + [obj[f] for f in libs if f.startswith(sub)])
        lib.append(ar)
    cc = [cfg["cc"]]
    _run(cc + [obj[f] for f in solve] + lib + ldx + ["-lm", "-o", os.path.join(out, "pomdp-solve")])
    _run(cc + [obj[f] for f in tools] + lib + ldx + ["-lm", "-o", os.path.join(out, "pomdp-tools")])
    common = [obj[f] for f in dict.fromkeys(tools + solve + extra)
              if f not in ("main.c", "pomdp-tools-main.c")]
    har = os.path.join(out, "libcommon.a")
    _run(["ar", "rcs", har] + common)
    for h in harnesses:
        hf = os.path.join(VERIF, "harness", h + ".c")
        o = os.path.join(out, "obj", "H_" + h + ".o")
        _run(cc + cfg["cflags"] + ["-w"] + inc + ["-c", hf, "-o", o])
        fz = h.startswith("fuzz_")       # its own main, and exits of the code under test come back to it
        _run(cc + [o, har] + lib + (cfg["ld"] if fz else ldx) + (["-Wl,--wrap=exit"] if fz else [])
             + ["-lm", "-o", os.path.join(out, h)])
    shutil.rmtree(os.path.join(out, "obj"))


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan"]:
        print(build(v))
