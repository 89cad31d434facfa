#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--replay FILE]

Builds what the property needs from /repo's working tree, runs the workload on all
cores, collects what the monitors report, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no verdict.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = max(1, min(8, os.cpu_count() or 1))


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
}


def run(cmd, timeout=None, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=e, cwd=cwd, input=stdin)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")


def build_all(cmds, what):
    """Runs independent compile commands in parallel."""
    def one(c):
        rc, o, e = run(c, timeout=700)
        return rc, c, o + e
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, c, out in ex.map(one, cmds):
            if rc != 0:
                log(out[-3000:])
                raise NoVerdict("building %s failed: %s" % (what, " ".join(c)[:300]))


def crash_key(err, rc):
    """A stable name for a crash: what, and where in the code under test."""
    kind = "signal %d" % -rc if rc is not None and rc < 0 else "exit %s" % rc
    m = re.search(r"SUMMARY: (\w+)Sanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1) + ":" + m.group(2)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        kind = "UB:" + re.sub(r"-?\d[\d.e+x-]*", "N", m.group(1))[:60]
    if "VERIF-DCHECK" in err:
        kind = "DCHECK:" + re.search(r"VERIF-DCHECK[^\n]*", err).group(0)[13:80]
    if "VERIF-A64: guest pc is" in err:
        # a bad load or store of the emulated code
        g = re.search(r"VERIF-A64: guest pc is (\S+?)\+0x", err)
        return "crash:%s@%s" % (kind.strip(), g.group(1)[-120:] if g else "?")
    if "VERIF-A64: " in err:
        return "crash:" + re.search(r"VERIF-A64: ([^\n]*)", err).group(1)[:80]
    where = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ (?:in )?(\S+).*?(larq_compute_engine/[\w/.]+)", err):
        fn = re.sub(r"[<(].*", "", m.group(1))
        where = os.path.basename(m.group(2)) + ":" + fn.split("::")[-1]
        break
    if where == "?":
        m = re.search(r"larq_compute_engine/[\w/.]+", err)
        if m:
            where = os.path.basename(m.group(0))
    return "crash:%s@%s" % (kind.strip(), where)


class Result:
    def __init__(self):
        self.viols = {}      # key -> (detail, replay dict)
        self.stat = {}
        self.sigs = set()
        self.samples = []
        self.inconclusive = []
        self.assumptions = []

    def viol(self, key, detail, replay):
        if key not in self.viols:
            self.viols[key] = (detail, replay)

    def merge(self, o):
        for k, v in o.viols.items():
            self.viols.setdefault(k, v)
        for k, v in o.stat.items():
            self.stat[k] = self.stat.get(k, 0) + v
        self.sigs |= o.sigs
        self.samples += o.samples
        self.inconclusive += o.inconclusive


def read_case(prog):
    try:
        with open(prog, "rb") as f:
            return struct.unpack("<Q", f.read(8))[0]
    except Exception:
        return None


def run_watched(argv, limit, stall, prog, env, cwd):
    """run(), but also given up when the case in the progress file does not change for `stall` seconds."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    with tempfile.TemporaryFile() as so, tempfile.TemporaryFile() as se:
        p = subprocess.Popen(argv, stdout=so, stderr=se, env=e, cwd=cwd, stdin=subprocess.DEVNULL)
        t0 = moved = time.time()
        at, rc, wait = None, None, .05
        while True:
            try:
                rc = p.wait(wait)
                break
            except subprocess.TimeoutExpired:
                pass
            wait = min(2.0, wait * 1.5)
            now, c = time.time(), read_case(prog)
            if c != at:
                at, moved = c, now
            if now - t0 > limit or now - moved > stall:
                p.kill()
                p.wait()
                break
        so.seek(0)
        se.seek(0)
        return rc, so.read().decode("utf8", "replace"), se.read().decode("utf8", "replace")


class Shared:
    """What the shards of one run know of one another: code that crashes or hangs everywhere has been judged
    after a few crashes, and there is no point in spending the check's time on more of them."""

    def __init__(self):
        self.crashes, self.hung, self.t0 = 0, False, time.time()

    def enough(self):
        return self.hung or self.crashes >= 8 or (self.crashes and time.time() - self.t0 > 300)


def run_shard(argv_of, first, count, per_case_s, tmp, env=None, cwd=None, shared=None):
    """Runs cases [first, first+count) of a harness that speaks the line protocol
    (VIOL key case detail / STAT / SAMPLE / SIGS / DONE). A crash is attributed to the
    case in the progress file, and the rest is still run."""
    res = Result()
    shared = shared or Shared()
    at, end = first, first + count
    crashes = 0
    prog = os.path.join(tmp, "p%d" % first)
    while at < end:
        if shared.enough():
            res.stat["cases_not_run_after_crashes"] = res.stat.get("cases_not_run_after_crashes", 0) + end - at
            break
        if os.path.exists(prog):
            os.unlink(prog)
        argv = argv_of(at, end - at, prog)
        rc, out, err = run_watched(argv, 120 + per_case_s * (end - at), min(90 + 20 * per_case_s, 180), prog, env, cwd)
        done = False
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "VIOL" and len(f) >= 4:
                res.viol(f[1], f[3], {"argv": argv_of(int(f[2]), 1, "/dev/null")[:-1], "case": int(f[2])})
            elif f[0] == "STAT":
                res.stat[f[1]] = res.stat.get(f[1], 0) + int(f[2])
            elif f[0] == "SAMPLE":
                res.samples.append(f[1])
            elif f[0] == "SIGS":
                res.sigs.update(f[1:])
            elif f[0] == "NOVERDICT":
                raise NoVerdict(" ".join(f[1:]))
            elif f[0] == "DONE":
                done = True
        if done and rc == 0:
            break
        case = at
        try:
            case = struct.unpack("<Q", open(prog, "rb").read(8))[0]
        except Exception:
            if rc is not None:
                raise NoVerdict("the harness does not start: rc=%s %s" % (rc, err[-1500:]))
        if shared.enough():
            continue
        one = argv_of(case, 1, prog)
        rc2, out2, err2 = run(one, timeout=min(90 + 20 * per_case_s, 240), env=env, cwd=cwd)
        if rc is None and rc2 is not None and rc2 == 0:
            res.inconclusive.append("case %d: the run timed out, but not on its own" % case)
        elif rc2 is None:
            shared.hung = True
            res.viol("hang", "case %d does not end" % case, {"argv": one[:-1], "case": case})
        else:
            text = err2 if rc2 != 0 else err
            key = crash_key(text, rc2 if rc2 != 0 else rc)
            m = re.search(r"(runtime error|ERROR: |WARNING: Thread|VERIF-DCHECK|VERIF-A64|terminate called)[^\n]*", text)
            res.viol(key, (m.group(0) if m else text.strip()[-200:]).replace("\t", " ")[:300],
                     {"argv": one[:-1], "case": case, "stderr": text[:4000]})
        crashes += 1
        shared.crashes += rc2 is None or rc2 != 0 or rc is not None
        if crashes >= 4:
            res.stat["cases_not_run_after_crashes"] = res.stat.get("cases_not_run_after_crashes", 0) + end - case - 1
            break
        at = case + 1
    return res


def run_harness(argv_of, cases, per_case_s=2.0, env=None, cwd=None, jobs=None, base=0):
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    total = Result()
    try:
        n = (jobs or JOBS) * (3 if cases >= 96 else 1)
        step = max(1, (cases + n - 1) // n)
        shared = Shared()
        shards = [(i, min(step, cases - i)) for i in range(0, cases, step)]
        with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
            fs = [ex.submit(run_shard, argv_of, base + f, c, per_case_s, tmp, env, cwd, shared) for f, c in shards]
            for f in fs:
                total.merge(f.result())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return total


def known_findings(pid):
    """'known: property=<id> key=<key> :: <what fails>' lines. Others are ignored."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def main():
    from checks import CHECKS
    pid = sys.argv[1]
    check = CHECKS[pid]
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        res = check["run"](work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = known_findings(pid)
    bad, seen = [], []
    for key, (detail, replay) in sorted(res.viols.items()):
        (seen if key in known else bad).append((key, detail, replay))
    evals = res.stat.get("evaluations", 0)
    rep_dir = os.path.join(VERIF, "replays")
    ran = {k: v for k, v in sorted(res.stat.items())}
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(res.sigs),
        "rule": check["rule"],
        "samples": res.samples[:8] or ["none"],
        "observed": ran,
    }
    if res.inconclusive:
        cov["inconclusive"] = res.inconclusive[:10]
    json.dump({
        "property": pid, "tier": TIER, "seed": SEED, "level": check.get("level", "exploration"),
        "coverage": cov, "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(bad),
    }, open(ev, "w"), indent=1)
    log("%s: %d evaluations, %d distinct, %.1f s; %s" % (pid, evals, len(res.sigs), time.time() - t0,
        ", ".join("%s=%s" % kv for kv in list(ran.items())[:14])))
    for key, detail, _ in seen:
        log("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[key], key))
    if bad:
        os.makedirs(rep_dir, exist_ok=True)
        for n, (key, detail, replay) in enumerate(bad[:8]):
            path = os.path.join(rep_dir, "%s-%d.json" % (pid, n))
            json.dump({"property": pid, "key": key, "detail": detail, "seed": SEED, "replay": replay},
                      open(path, "w"), indent=1)
            log("  %s: %s" % (key, detail[:600]))
            log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    # A run that observed nothing proves nothing.
    if evals < check.get("min_evaluations", 1):
        raise NoVerdict("only %d evaluations" % evals)
    for k in check.get("must_observe", []):
        if not res.stat.get(k):
            raise NoVerdict("never observed: " + k)
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except NoVerdict as x:
        log("NO VERDICT:", x)
        rc = 2
    sys.exit(rc)
