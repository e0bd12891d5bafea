"""Coverage-guided fuzzing (libFuzzer) as a part of a check.

The harness finds suspicious inputs; the deciding judge runs the real programs on them, so what a
harness does to repeat runs within a process never raises an alarm.  Failures are shrunk here.
"""
import base64, hashlib, os, re, shutil, subprocess, tempfile, time
from collections import Counter
from vlib.core import ASAN_ENV, WORKERS, Ctx, Inconclusive, Violation, _judge


def examples(strategy, n, seed):
    """n texts of a Hypothesis strategy."""
    from hypothesis import HealthCheck, Phase, given, settings, seed as hseed
    got = []

    def body(t):
        got.append(t.encode("latin1", "replace"))
    t = settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate],
                 suppress_health_check=list(HealthCheck))(given(strategy)(body))
    hseed(seed)(t)()
    return got


class FuzzPart:
    def __init__(self, name, harness, judge, quick, thorough, seeds, dictionary, max_len=600, kind=None, variants=("asan",), harnesses=(), more=None):
        self.name, self.harness, self.judge, self.quick, self.thorough = name, harness, judge, quick, thorough
        self.seeds, self.dictionary, self.max_len, self.kind = seeds, dictionary, max_len, kind
        self.more = more
        self.variants = tuple(variants) + ("fuzz",)
        self.harnesses = tuple(harnesses) + (harness,)

    def case(self, data):
        c = {"b64": base64.b64encode(data).decode()}
        if self.kind:
            c["kind"] = self.kind
        return c

    def bad(self, data, builds, scratch):
        try:
            _judge(self, self.case(data), Ctx(scratch, builds))
        except Violation as e:
            return str(e)
        except Inconclusive:
            pass
        return None

    def shrink(self, data, builds, scratch, seconds=40):
        """Removes pieces of the input while the real programs still fail on it."""
        end, size = time.time() + seconds, max(1, len(data) // 2)
        while size and time.time() < end:
            i, any_ = 0, False
            while i < len(data) and time.time() < end:
                d = data[:i] + data[i + size:]
                if d and self.bad(d, builds, scratch):
                    data, any_ = d, True
                else:
                    i += size
            if not any_ or size > 1:
                size = size // 2
        return data

    def run_fuzz(self, n, seed, builds, deadline):
        st = {"eval": 0, "labels": Counter(), "nontrivial": set(), "samples": [], "inconclusive": 0,
              "skipped": 0, "fails": [], "extra": {}}
        top = tempfile.mkdtemp(prefix="pvf-")
        error = None
        scratch = os.path.join(top, "scratch")
        os.mkdir(scratch)
        seeds = list(self.seeds)
        if self.more is not None:
            seeds += examples(self.more, 40, seed)
        try:
            with open(os.path.join(top, "dict"), "w") as f:
                for w in self.dictionary:
                    f.write('"%s"\n' % w.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\x0a"))
            jobs = []

            def start(i, runs, sd):
                d = os.path.join(top, "w%d" % i)
                for s in ("corpus", "art", "cwd"):
                    os.makedirs(os.path.join(d, s), exist_ok=True)
                if not os.listdir(os.path.join(d, "corpus")):
                    for k, b in enumerate(seeds):
                        with open(os.path.join(d, "corpus", "seed%03d" % k), "wb") as f:
                            f.write(b)
                env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "FUZZ_COUNTS": os.path.join(d, "counts"), "FUZZ_KIND": self.kind or "",
                       "ASAN_OPTIONS": ASAN_ENV["ASAN_OPTIONS"].replace("exitcode=99:", "") + ":quarantine_size_mb=16",
                       "UBSAN_OPTIONS": ASAN_ENV["UBSAN_OPTIONS"]}
                left = max(5, int(deadline - time.time()))
                cmd = [os.path.join(builds["fuzz"], self.harness), "-runs=%d" % runs, "-seed=%d" % sd, "-max_len=%d" % self.max_len,
                       "-dict=" + os.path.join(top, "dict"), "-artifact_prefix=" + os.path.join(d, "art", ""), "-detect_leaks=0",
                       "-rss_limit_mb=3500", "-timeout=25", "-close_fd_mask=3", "-print_final_stats=1", "-max_total_time=%d" % left,
                       os.path.join(d, "corpus")]
                with open(os.path.join(d, "log"), "ab") as log:
                    return subprocess.Popen(cmd, cwd=os.path.join(d, "cwd"), env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL)
            per = max(1, n // WORKERS)
            jobs = [[i, start(i, per, seed + i + 1), 0] for i in range(WORKERS)]
            suspicious = []
            while jobs:
                for j in jobs[:]:
                    i, p, again = j
                    if p.poll() is None:
                        continue
                    d = os.path.join(top, "w%d" % i)
                    log = open(os.path.join(d, "log"), errors="replace").read()
                    arts = sorted(os.listdir(os.path.join(d, "art")))
                    jobs.remove(j)
                    for a in arts:
                        path = os.path.join(d, "art", a)
                        data = open(path, "rb").read()
                        os.unlink(path)
                        m = self.bad(data, builds, scratch)
                        if m:
                            suspicious.append(data)
                        else:
                            st["labels"]["harness stopped, the programs are right: " + a.split("-")[0]] += 1
                    if suspicious:
                        for k in jobs:
                            k[1].kill()
                            k[1].wait()
                        jobs = []
                        break
                    if p.returncode and not arts:
                        error = "fuzzing stopped with %d: %s" % (p.returncode, log[-600:])
                    elif p.returncode and again < 4 and time.time() < deadline:
                        jobs.append([i, start(i, per // 2, seed + 1000 * (again + 1) + i), again + 1])
                time.sleep(0.1)
            acc = 0
            for i in range(WORKERS):
                d = os.path.join(top, "w%d" % i)
                try:
                    run, ok, ex, sk = map(int, open(os.path.join(d, "counts")).read().split())
                    st["eval"] += run
                    acc += ok
                    st["inconclusive"] += sk
                except (OSError, ValueError):
                    pass
                for f in sorted(os.listdir(os.path.join(d, "corpus"))):
                    if f.startswith("seed"):
                        continue
                    with open(os.path.join(d, "corpus", f), "rb") as fh:
                        b = fh.read()
                    st["nontrivial"].add(hashlib.sha256(b).hexdigest()[:16])
                    if len(st["samples"]) < 2 and len(b) > 60:
                        st["samples"].append(dict(self.case(b), text=b.decode("latin1")))
            st["extra"] = {"accepted_inputs": acc, "inputs_kept_for_new_coverage": len(st["nontrivial"]), "seed_inputs": len(seeds)}
            for data in suspicious[:1]:
                data = self.shrink(data, builds, scratch)
                st["fails"].append((len(data), self.case(data), self.bad(data, builds, scratch) or "not repeated"))
            if st["fails"]:
                error = None
        finally:
            for j in jobs:
                j[1].kill()
            shutil.rmtree(top, ignore_errors=True)
        return st, error
