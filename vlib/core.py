"""Common runner of the checks: generated-input search with Hypothesis, in parallel workers.

A check is a list of parts.  A part has a Hypothesis strategy that makes JSON-able cases and a
function judge(case, ctx) that runs the real program, compares with its oracle, raises
Violation when the property is broken, and otherwise returns a dict with at least
{"nontrivial": bool, "labels": [...]}.  Because cases are plain JSON, a shrunk failure is
saved as a replay file which is judged again without Hypothesis.
"""
import argparse, hashlib, json, multiprocessing as mp, os, queue, random, resource, shutil, signal
import subprocess, sys, tempfile, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.environ.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")     # the workers are the parallelism
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_SECONDS = 40


class Violation(Exception):
    pass


class Hang(Violation):
    """The program did not end within a CPU limit far above what the case needs; never shrunk."""


class Inconclusive(Exception):
    """The case says nothing (outside the domain, or the oracle cannot decide it)."""


class Result:
    def __init__(self, rc, out, err, timeout, files_dir):
        self.rc, self.out, self.err, self.timeout, self.dir = rc, out, err, timeout, files_dir

    @property
    def crashed(self):
        """Killed by a signal, or stopped by a sanitizer."""
        return self.rc < 0 or self.sanitizer is not None

    @property
    def sanitizer(self):
        for t in (self.err, self.out):
            for k in ("ERROR: AddressSanitizer", "runtime error:", "ERROR: LeakSanitizer", "WARNING: MemorySanitizer"):
                i = t.find(k)
                if i >= 0:
                    return t[i:i + 1500]
        return None


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=0:symbolize=1:max_allocation_size_mb=2000",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
            "MSAN_OPTIONS": "exitcode=99:symbolize=1:allocator_may_return_null=1:poison_in_dtor=0"}


class Ctx:
    """What a judge may use: the built programs and a private scratch folder."""

    def __init__(self, scratch, builds):
        self.scratch, self.builds = scratch, builds
        self.n = 0

    def clean(self):
        for f in os.listdir(self.scratch):
            p = os.path.join(self.scratch, f)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def write(self, name, text):
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(self.path(name), mode) as f:
            f.write(text)
        return name

    def read(self, name):
        with open(self.path(name), errors="replace") as f:
            return f.read()

    def readb(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(self.path(name))

    def exe(self, name, variant="plain"):
        return os.path.join(self.builds[variant], name)

    def run(self, name, args, variant="plain", stdin=b"", cpu=30, env=None, wall=None, fsize=64 << 20):
        """Runs a built program in the scratch folder; CPU-limited, output to files."""
        def limits():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if variant == "plain":
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "HOME": self.scratch}
        e.update(ASAN_ENV)
        if env:
            e.update(env)
        so, se = self.path(".out"), self.path(".err")
        timeout = False
        with open(so, "wb") as fo, open(se, "wb") as fe:
            p = subprocess.Popen([self.exe(name, variant)] + list(args), cwd=self.scratch, env=e,
                                 stdin=subprocess.PIPE, stdout=fo, stderr=fe, preexec_fn=limits)
            try:
                p.communicate(stdin, timeout=wall or cpu * 6)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                timeout = True
            except BrokenPipeError:
                p.wait()
        if p.returncode in (-signal.SIGXCPU,):
            timeout = True
        with open(so, "rb") as f:
            out = f.read(8 << 20).decode("utf-8", "replace")
        with open(se, "rb") as f:
            err = f.read(1 << 20).decode("utf-8", "replace")
        return Result(p.returncode, out, err, timeout, self.scratch)


class Part:
    def __init__(self, name, strategy, judge, quick, thorough, variants=("plain",), harnesses=()):
        self.name, self.strategy, self.judge = name, strategy, judge
        self.quick, self.thorough = quick, thorough
        self.variants, self.harnesses = variants, harnesses


def canon(case):
    return json.dumps(case, sort_keys=True)


def _judge(part, case, ctx):
    ctx.clean()
    try:
        return part.judge(case, ctx) or {}
    except (ValueError, IndexError, KeyError, FileNotFoundError, TypeError, ArithmeticError) as e:
        # never seen on a tree where the property holds: outputs do not have their documented form
        raise Violation("output could not be interpreted: %s" % "".join(traceback.format_exception(e))[-900:])


def _worker(wid, part, n, seed, builds, stop, q, deadline):
    scratch = tempfile.mkdtemp(prefix="pv%d-" % wid)
    st = {"eval": 0, "labels": Counter(), "nontrivial": set(), "samples": [], "inconclusive": 0,
          "skipped": 0, "fails": [], "error": None}
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings, seed as hseed
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        ctx = Ctx(scratch, builds)
        state = {"failed": False}

        def body(case):
            if not state["failed"] and (stop.is_set() or time.time() > deadline):
                st["skipped"] += 1
                return
            if not state["failed"]:
                st["eval"] += 1
            try:
                r = _judge(part, case, ctx)
            except Inconclusive as e:
                if not state["failed"]:
                    st["inconclusive"] += 1
                    st["labels"]["inconclusive:" + str(e)[:60]] += 1
                return
            except Violation as e:
                state["failed"] = True
                st["fails"].append((len(canon(case)), case, str(e)))
                stop.set()
                if isinstance(e, Hang):
                    raise KeyboardInterrupt
                raise
            if state["failed"]:
                return
            for l in r.get("labels", ()):
                st["labels"][l] += 1
            if r.get("nontrivial"):
                st["nontrivial"].add(hashlib.sha256(canon(case).encode()).hexdigest()[:16])
                if len(st["samples"]) < 2 and len(canon(case)) < 6000:
                    st["samples"].append(case)
        test = given(part.strategy)(body)
        test = settings(max_examples=max(1, n), database=None, deadline=None, print_blob=False,
                        report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck))(test)
        test = hseed(seed)(test)
        try:
            test()
        except Violation:
            pass
        except BaseException as e:   # Flaky and friends are decided by the replay
            if not st["fails"]:
                st["error"] = "".join(traceback.format_exception(e))[-3000:]
                stop.set()
    except BaseException as e:
        st["error"] = "".join(traceback.format_exception(e))[-3000:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        st["fails"].sort(key=lambda t: t[0])
        st["fails"] = st["fails"][:3] + st["fails"][-1:]
        q.put((wid, st))


def known_findings(prop):
    """Committed known findings: list of {property, part, case, what}."""
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


class Check:
    def __init__(self, prop, parts, rule, level="exploration", assumptions=(), extra=None):
        self.prop, self.parts, self.rule, self.level = prop, parts, rule, level
        self.assumptions, self.extra = list(assumptions), extra

    def build(self, parts):
        from vlib.build import build
        return {v: build(v, sorted({h for p in parts if v in p.variants for h in p.harnesses
                                    if h.startswith("fuzz_") == (v == "fuzz")}))
                for v in sorted({v for p in parts for v in p.variants})}

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--replay")
        ap.add_argument("--part")
        ap.add_argument("--scale", type=float, default=1.0)
        a = ap.parse_args()
        if a.replay:
            sys.exit(self.replay_file(a.replay))
        sys.exit(self.run(a.tier, int(os.environ.get("VERIF_SEED", "1") or 1), a.part, a.scale))

    def part(self, name):
        return next(p for p in self.parts if p.name == name)

    def replay(self, part, case, builds):
        """Message of the violation, or None."""
        scratch = tempfile.mkdtemp(prefix="pvr-")
        try:
            _judge(part, case, Ctx(scratch, builds))
        except Violation as e:
            return str(e)
        except Inconclusive:
            return None
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return None

    def replay_file(self, path):
        d = json.load(open(path))
        part = self.part(d["part"])
        m = self.replay(part, d["case"], self.build([part]))
        if m:
            print(m)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("replay holds: property=%s" % self.prop)
        return 0

    def run(self, tier, seed, only=None, scale=1.0):
        t0 = time.time()
        parts = [p for p in self.parts if not only or p.name == only]
        violation, error = None, None
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": self.rule, "samples": [],
               "parts": {}, "inconclusive": 0}
        try:
            builds = self.build(parts)
        except Exception as e:
            builds, error = None, "build failed: %s" % e
        limit = (450 if tier == "quick" else 6 * 3600)
        if builds:
            for k in known_findings(self.prop):
                m = self.replay(self.part(k["part"]), k["case"], builds)
                if m:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                cov.setdefault("known_findings_replayed", []).append({"what": k["what"], "still_fails": bool(m)})
            rd = os.path.join(VERIF, "regressions", self.prop)
            if os.path.isdir(rd):
                for f in sorted(os.listdir(rd)):
                    d = json.load(open(os.path.join(rd, f)))
                    if only and d["part"] != only:
                        continue
                    cov["regressions_replayed"] = cov.get("regressions_replayed", 0) + 1
                    m = self.confirm(self.part(d["part"]), d["case"], builds)
                    if m:
                        violation = (self.part(d["part"]), d["case"], m)
                        break
            for pi, p in enumerate(parts):
                if violation:
                    break
                n = max(1, int((p.quick if tier == "quick" else p.thorough) * scale))
                run = p.run_fuzz if hasattr(p, "run_fuzz") else lambda *a: self.run_part(p, *a)
                st, error = run(n, seed * 1000 + pi * 100, builds, t0 + limit)
                c = {"evaluations": st["eval"], "distinct_nontrivial": len(st["nontrivial"]),
                     "inconclusive": st["inconclusive"], "classes": dict(st["labels"].most_common(60))}
                c.update(st.get("extra", {}))
                if st["skipped"]:
                    c["not_run_out_of_time"] = st["skipped"]
                cov["parts"][p.name] = c
                cov["evaluations"] += st["eval"]
                cov["distinct_nontrivial"] += len(st["nontrivial"])
                cov["inconclusive"] += st["inconclusive"]
                cov["samples"] += [{"part": p.name, "case": s} for s in st["samples"][:2]]
                for _, case, msg in sorted(st["fails"], key=lambda t: t[0]):
                    m = self.confirm(p, case, builds)
                    if m:
                        violation = (p, case, m)
                        break
                    cov["unconfirmed_failures"] = cov.get("unconfirmed_failures", 0) + 1
                    print("note: a failure did not repeat in three replays: %s" % msg[:300])
                if error:
                    break
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2),
              "violations": 1 if violation else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d inconclusive, %.1f s" % (
            self.prop, cov["evaluations"], cov["distinct_nontrivial"], cov["inconclusive"], time.time() - t0))
        if violation:
            p, case, m = violation
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (
                self.prop, hashlib.sha256(canon(case).encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "part": p.name, "case": case, "message": m}, f, indent=1)
            print(m[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if error:
            print("CHECK ERROR: %s" % error)
            return 2
        return 0

    def confirm(self, part, case, builds):
        m = None
        for _ in range(3):
            m = self.replay(part, case, builds)
            if not m:
                return None
        return m

    def run_part(self, part, n, seed, builds, deadline):
        w = max(min(WORKERS, n), min(6 * WORKERS, n // 8))    # more shards than workers: slow ones even out
        ctxm = mp.get_context("fork")
        stop, q = ctxm.Event(), ctxm.Queue()
        ps = [ctxm.Process(target=_worker, args=(i, part, (n + w - 1) // w, seed + i, builds, stop, q, deadline))
              for i in range(w)]
        waiting = ps[:]

        def launch():
            while waiting and sum(p.pid is not None and p.is_alive() for p in ps) < WORKERS:
                waiting.pop(0).start()
        st = {"eval": 0, "labels": Counter(), "nontrivial": set(), "samples": [], "inconclusive": 0,
              "skipped": 0, "fails": []}
        error = None
        left = set(range(w))
        while left:
            launch()
            try:
                wid, s = q.get(timeout=0.5 if waiting else 5)
            except queue.Empty:
                dead = [i for i in left if ps[i].pid is not None and not ps[i].is_alive()]
                if dead and q.empty():
                    for i in dead:
                        left.discard(i)
                    error = "worker died"
                continue
            left.discard(wid)
            for k in ("eval", "inconclusive", "skipped"):
                st[k] += s[k]
            st["labels"].update(s["labels"])
            st["nontrivial"] |= s["nontrivial"]
            st["samples"] += s["samples"]
            st["fails"] += s["fails"]
            if s["error"]:
                error = s["error"]
        for p in ps:
            p.join()
        if st["fails"]:
            error = None
        return st, error
