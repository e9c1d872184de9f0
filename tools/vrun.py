"""Runner library: every check builds its drivers from /repo's current tree, runs them, judges what they
observed, and writes the evidence file.

Verdicts: exit 0 the property held on everything explored; exit 1 a violation that is not a listed finding
(VIOLATION line, replay file); exit 3 the check could not reach a verdict (harness problem)."""
import concurrent.futures
import fnmatch
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402

VERIF = vbuild.VERIF
REPO = vbuild.REPO
KNOWN = os.path.join(VERIF, "known_findings.json")


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.tier = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.rule = ""
        self.assumptions = []
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.stats = {}
        self.configs = []
        self.viol = []  # (key, msg, replay)
        self.lock = threading.Lock()
        self.known_hits = {}
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.level = "exploration"
        try:
            self.known = [f for f in json.load(open(KNOWN))["findings"] if f["property"] == pid and f["status"] == "known"]
        except FileNotFoundError:
            self.known = []
        self.replay_arg = os.environ.get("VERIF_REPLAY")
        self.replay_case = json.load(open(self.replay_arg)) if self.replay_arg else None
        self.exhaustive = None

    # ---- accounting ----
    def add(self, ev=0, distinct=0, samples=(), stats=None):
        self.evaluations += ev
        self.distinct += distinct
        for s in samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, v in (stats or {}).items():
            if k.startswith("max."):
                self.stats[k] = max(self.stats.get(k, 0), v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v

    def violation(self, key, msg, replay=None):
        """Every violation goes through the findings list."""
        for f in self.known:
            if fnmatch.fnmatchcase(key, f["key"]) and re.search(f.get("match", ""), msg):
                self.known_hits.setdefault(f["id"], (f, msg))
                return
        self.viol.append((key, msg, replay or {}))

    def subdir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ---- running drivers ----
    def run(self, exe, args=(), label=None, timeout=None, env=None, crash_ok=False, cwd=None, min_eval=1, hang_violation=True, wrap=()):
        label = label or os.path.basename(exe).rsplit("-", 1)[0]
        timeout = timeout or (6000 if self.thorough else 400)
        d = cwd or self.subdir(label)
        a = list(wrap) + [exe, "seed=%d" % self.seed, "tier=%s" % self.tier, "dir=%s" % d] + list(args)
        if self.replay_case and self.replay_case.get("driver") == label:
            if self.replay_case.get("case", "-") not in ("", "-"):
                a.append("case=" + self.replay_case["case"])
        elif self.replay_case and self.replay_case.get("driver"):
            return None
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1")
        e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:exitcode=98")
        e.setdefault("TSAN_OPTIONS", "exitcode=96:halt_on_error=1")
        e.setdefault("OMP_NUM_THREADS", "1")
        if env:
            e.update(env)
        t = time.time()
        hang = False
        p = subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=e, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            hang = True
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        with self.lock:
            return self._post(p, out, err, hang, label, args, t, timeout, crash_ok, min_eval, hang_violation)

    def _post(self, p, out, err, hang, label, args, t, timeout, crash_ok, min_eval, hang_violation):
        out = out.decode("utf-8", "replace")
        err = err.decode("utf-8", "replace")
        info = {"driver": label, "args": list(args), "rc": p.returncode, "wall_s": round(time.time() - t, 2)}
        self.configs.append(info)
        stats = None
        nviol = 0
        for line in out.splitlines():
            if line.startswith("@VIOL "):
                parts = line[6:].split("\t", 2)
                key, case, msg = (parts + ["", ""])[:3]
                self.violation(key, msg, {"driver": label, "case": case, "seed": self.seed, "key": key, "message": msg, "args": list(args)})
                nviol += 1
            elif line.startswith("@STATS "):
                stats = json.loads(line[7:])
            elif line.startswith("SHIM-VIOLATION"):
                m = re.match(r"SHIM-VIOLATION key=(\S+) rank=(\S+) context=\[(.*?)\] (.*)", line)
                key, case, msg = (m.group(1), m.group(3), m.group(4)) if m else ("shim", "", line)
                self.violation(key, msg, {"driver": label, "case": case, "seed": self.seed, "key": key, "message": line, "args": list(args)})
                nviol += 1
        if stats:
            info.update(evaluations=stats["evaluations"], distinct=stats["distinct"])
            self.add(stats["evaluations"], stats["distinct"], ["[%s] %s" % (label, s) for s in stats["samples"]], stats["stats"])
        if hang:
            if "HARNESS-" in out or not hang_violation:
                raise HarnessError("%s: time limit" % label)
            self.violation("hang", "%s did not finish within %d s (normally a few seconds)" % (label, timeout),
                           {"driver": label, "case": last_case(out), "seed": self.seed})
            return stats
        if p.returncode == 70:
            raise HarnessError("%s: %s" % (label, (out + err)[-2000:]))
        if stats is None and nviol == 0:
            if crash_ok:
                return None
            key, msg = crash_reason(p.returncode, out, err)
            if key is None:
                raise HarnessError("%s rc=%s without statistics: %s" % (label, p.returncode, (out + err)[-3000:]))
            self.violation(key, "%s: %s" % (label, msg), {"driver": label, "case": last_case(out), "seed": self.seed, "args": list(args),
                                                         "stderr": err[-6000:]})
            return None
        if stats is not None and p.returncode not in (0, 1) and nviol == 0:
            key, msg = crash_reason(p.returncode, out, err)
            self.violation(key or "exit", "%s: %s" % (label, msg), {"driver": label, "seed": self.seed, "stderr": err[-6000:]})
        if stats is not None and nviol == 0 and stats["evaluations"] < min_eval and not self.replay_case:
            raise HarnessError("%s observed only %d cases" % (label, stats["evaluations"]))
        return stats

    def run_many(self, jobs, workers=8):
        """jobs: (function giving the executable, args, label, keyword arguments); builds and runs overlap"""
        def one(j):
            mk, args, label, kw = j
            return self.run(mk() if callable(mk) else mk, args, label=label, **kw)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(one, j) for j in jobs]
            err = None
            for fu in futs:
                try:
                    fu.result()
                except Exception as e:  # report after every job is done
                    err = err or e
            if err:
                raise err

    def finish(self):
        cov = {
            "evaluations": int(self.evaluations),
            "distinct_nontrivial": int(self.distinct),
            "rule": self.rule,
            "samples": self.samples,
            "observed": {k: (int(v) if float(v).is_integer() else v) for k, v in sorted(self.stats.items())},
            "runs": self.configs,
        }
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
            "known_findings": sorted(self.known_hits),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.pid)
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        for i, (f, msg) in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, i, f["what"]))
        seen = set()
        rd = os.path.join(VERIF, "evidence", "replay")
        n = 0
        for key, msg, rep in self.viol:
            if key in seen or n >= 10:
                continue
            seen.add(key)
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.pid, n))
            n += 1
            with open(path, "w") as fh:
                json.dump(dict(rep, property=self.pid, key=key, message=msg, tier=self.tier), fh, indent=1)
            print("%s: %s" % (key, msg[:1200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s: %d cases (%d distinct non-trivial), %d violations, %.1f s" % (
            self.pid, self.tier, self.evaluations, self.distinct, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0


def last_case(out):
    c = re.findall(r"^@CASE (\S+)", out, re.M)
    return c[-1] if c else "-"


def crash_reason(rc, out, err):
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer|MemorySanitizer): ([^\n]*)", err)
    if m:
        kind = m.group(2).split()[0]
        if kind in ("out", "failed", "allocator") and "out of memory" in m.group(2):
            return "sanitizer:oom", m.group(0)
        fr = re.findall(r"#\d+ 0x\w+ in ([^\n]*)", err)
        return "sanitizer:" + kind, m.group(0)[:200] + " | " + " <- ".join(f[:120] for f in fr[:4])
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n]*)", err)
    if m:
        return "sanitizer:tsan", m.group(0) + " " + err[-1500:]
    m = re.search(r"([^\n]*runtime error: [^\n]*)", err)
    if m:
        return "sanitizer:ub", m.group(1)[:300]
    m = re.search(r"terminate called after throwing[^\n]*\n([^\n]*)", err)
    if m:
        return "uncaught-exception", m.group(0)[:300]
    if "terminate called" in err:
        return "terminate", err[-300:]
    if rc == 97:
        m = re.search(r"==\d+== ([^\n]*)((?:\n==\d+==    (?:at|by)[^\n]*){0,6})", err)
        return "memcheck", (m.group(1) + " | " + re.sub(r"\n==\d+==\s+", " <- ", m.group(2)) if m else err[-500:])[:700]
    if rc is not None and rc < 0:
        return "crash:" + signal.Signals(-rc).name, (out[-300:] + err[-700:])
    return None, ""


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: run_check.py ID [--thorough] [--replay FILE]; known ids: %s" % " ".join(sorted(registry)))
        return 3
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        os.environ["VERIF_REPLAY"] = f
        r = json.load(open(f))
        os.environ["VERIF_SEED"] = str(r.get("seed", 1))
        os.environ["VERIF_TIER"] = r.get("tier", "quick")
    ctx = Ctx(sys.argv[1])
    try:
        registry[sys.argv[1]](ctx)
        return ctx.finish()
    except vbuild.BuildError as e:
        print("HARNESS-ERROR (build): %s" % str(e)[-5000:])
        return 3
    except HarnessError as e:
        if ctx.viol:
            return ctx.finish()
        print("HARNESS-ERROR: %s" % e)
        return 3
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
