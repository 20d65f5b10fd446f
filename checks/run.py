#!/usr/bin/env python3
"""Decides one property: builds what it needs from /repo's working tree, runs the workloads under
the monitors and sanitizers, and reports.

  run.py <property> [--tier quick|thorough] [--seed N] [--jobs N]
  run.py --replay FILE

Exit: 0 held on everything explored; 1 violated (VIOLATION lines); 2 no verdict (build or harness failure).
"""
import argparse
import concurrent.futures
import json
import os
import re
import signal
import struct
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = B.VERIF
FINDINGS = os.path.join(VERIF, "known-findings.txt")

SAN = re.compile(r"(ERROR: AddressSanitizer|ERROR: LeakSanitizer|WARNING: ThreadSanitizer|runtime error:|AddressSanitizer:DEADLYSIGNAL|terminate called|Assertion .* failed|FATAL: ThreadSanitizer)")

print_lock = threading.Lock()

# Set once something certain was found: what still runs is ended, and the rest is not started.
stop = threading.Event()
running = set()
running_lock = threading.Lock()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def stop_all():
    stop.set()
    with running_lock:
        for p in running:
            kill(p)


def say(*a):
    with print_lock:
        print(*a, flush=True)


def job_env(flavor, seed):
    e = dict(os.environ)
    supp = os.path.join(VERIF, "checks")
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=67:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:detect_invalid_pointer_pairs=0:allocator_may_return_null=0:malloc_context_size=12"
    # Freed memory is kept from reuse, except in some runs, where what is remembered by address meets new objects at old addresses
    if flavor == "gasan" or seed // 1000 % 2:
        e["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=67"
    e["LSAN_OPTIONS"] = "exitcode=67:use_tls=1:report_objects=0"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(supp, "tsan.supp")
    return e


class Job:
    def __init__(self, spec, seed, tier):
        self.harness, self.flavor, self.scenario = spec["harness"], spec["flavor"], spec["scenario"]
        self.spec, self.seed, self.tier = spec, seed, tier
        self.budget = spec.get("budget", {}).get(tier, 0)

    def name(self):
        return "%s-%s-%s-%d" % (self.harness, self.flavor, self.scenario, self.seed)

    def cmd(self, out):
        c = [B.binary(self.harness, self.flavor), "--scenario", self.scenario, "--seed", str(self.seed), "--tier", self.tier, "--out", out]
        if self.budget:
            c += ["--budget", str(self.budget)]
        return c


def frames(text):
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", text):
        out.append((m.group(1), m.group(2)))
    return out


def lib_frame(text):
    """The first frame in the code under test, as a stable name."""
    for fn, path in frames(text):
        if "/lib/src/" in path or "/lib/include/" in path:
            return re.sub(r"\(.*", "", fn)[:80]
    fs = frames(text)
    return re.sub(r"\(.*", "", fs[0][0])[:80] if fs else "?"


def parse_sanitizer(err):
    """[(key, detail)] from a sanitizer's output."""
    res = []
    if "WARNING: ThreadSanitizer" in err:
        for part in re.split(r"(?==+\nWARNING: ThreadSanitizer)", err):
            m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", part)
            if m:
                res.append(("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), lib_frame(part)), part[:6000]))
    for m in re.finditer(r"([^\n]*): runtime error: ([^\n]*)", err):
        res.append(("ubsan:%s" % lib_frame(err[m.start():]), err[m.start():m.start() + 4000]))
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        res.append(("asan:%s:%s" % (m.group(1), lib_frame(err[m.start():])), err[m.start():m.start() + 6000]))
    if "ERROR: LeakSanitizer" in err:
        i = err.index("ERROR: LeakSanitizer")
        res.append(("leak:%s" % lib_frame(err[i:]), err[i:i + 6000]))
    if not res and SAN.search(err):
        m = SAN.search(err)
        res.append(("abort:%s" % re.sub(r"\W+", "-", m.group(1)), err[m.start():m.start() + 3000]))
    return res


def run_job(job, outdir, timeout, tag="", until=None):
    """Returns dict(status, violations=[{key, soft, detail}], report)."""
    out = os.path.join(outdir, job.name() + tag + ".json")
    if stop.is_set() or timeout <= 0:
        return dict(status="not run", violations=[], report=None, rc=None, err="", wall=0)
    for p in (out, out + ".hashes"):
        if os.path.exists(p):
            os.remove(p)
    t0 = time.time()
    p = subprocess.Popen(job.cmd(out), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=job_env(job.flavor, job.seed),
                         start_new_session=True, cwd=outdir)
    with running_lock:
        running.add(p)
        if stop.is_set():
            kill(p)
    # The output is watched as it comes: a run that has shown what it had to need not go on.
    lines, errs, enough = [], [], threading.Event()

    def read_out():
        for raw in p.stdout:
            line = raw.decode("utf-8", "replace")
            lines.append(line)
            if until and line.startswith("@VIOL "):
                try:
                    v = json.loads(line[6:])
                except ValueError:
                    continue
                grace = until(v)
                if grace is not None:
                    t = threading.Timer(grace, lambda: (enough.set(), kill(p)))
                    t.daemon = True
                    timers.append(t)
                    t.start()

    def read_err():
        for raw in iter(lambda: p.stderr.read1(65536), b""):
            errs.append(raw)

    timers = []
    readers = [threading.Thread(target=f, daemon=True) for f in (read_out, read_err)]
    for t in readers:
        t.start()
    timed_out = False
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGABRT)
            p.wait(timeout=10)
        except Exception:
            kill(p)
            p.wait()
    for t in timers:
        t.cancel()
    for t in readers:
        t.join(30)
    with running_lock:
        running.discard(p)
    so, se = "".join(lines), b"".join(errs).decode("utf-8", "replace")
    rc = p.returncode
    if enough.is_set() and rc == -signal.SIGKILL:
        rc = 1
    if stop.is_set() and rc == -signal.SIGKILL:
        return dict(status="not run", violations=[], report=None, rc=rc, err="", wall=time.time() - t0)
    viol = []
    for line in so.splitlines():
        if line.startswith("@VIOL "):
            try:
                v = json.loads(line[6:])
            except ValueError:
                continue
            viol.append(v)
    san = [] if timed_out else parse_sanitizer(se)
    for k, d in san:
        viol.append(dict(key=k, soft=False, detail=d, san=True))
    status = "ok"
    if timed_out:
        viol.append(dict(key="hang:" + job.scenario, soft=True, detail="the workload did not end within %d s\n%s" % (timeout, se[-2000:]), san=True))
    elif rc == 3:
        status = "harness-error"
    elif rc < 0 and not san:
        if rc == -signal.SIGKILL:
            status = "killed"
        else:
            viol.append(dict(key="crash:%s:%s" % (signal.Signals(-rc).name, job.scenario), soft=False, detail=se[-3000:], san=True))
    elif rc not in (0, 1) and not viol:
        viol.append(dict(key="exit-%d:%s" % (rc, job.scenario), soft=False, detail=se[-3000:], san=True))
    report = None
    if os.path.exists(out):
        try:
            report = json.load(open(out, errors="replace"))
            hs = out + ".hashes"
            report["hashes"] = open(hs, "rb").read() if os.path.exists(hs) else b""
        except ValueError:
            report = None
    return dict(status=status, violations=viol, report=report, rc=rc, err=se[-4000:], wall=time.time() - t0)


def load_findings():
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("known:"):
                res.append(json.loads(line[6:]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid, tier = a.property, a.tier
    if pid not in PROPS:
        say("unknown property", pid)
        return 2
    P = PROPS[pid]
    t0 = time.time()
    specs = [j for j in P["jobs"] if tier in j["tiers"]]
    built, failed, log = B.build({(j["harness"], j["flavor"]) for j in specs})
    t_build = time.time() - t0
    optional = {(j["harness"], j["flavor"]) for j in specs if j.get("optional")}
    hard_failed = [f for f in failed if f not in optional]
    notes = []
    for f in sorted(failed):
        notes.append("harness %s (%s) does not build against this tree" % f)
        say("note:", notes[-1])
    usable = [j for j in specs if (j["harness"], j["flavor"]) in built]
    if hard_failed or not usable:
        say(log[-5000:])
        say("no verdict: the harness or the library does not build")
        return 2
    outdir = os.path.join(B.BUILD, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    replay_dir = os.path.join(B.BUILD, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    jobs = []
    for j in usable:
        for k in range(j["seeds"][tier]):
            jobs.append(Job(j, a.seed + 1000 * k, tier))
    ncpu = os.cpu_count() or 4
    workers = a.jobs or P.get("workers") or max(2, ncpu - 1)
    findings = [f for f in load_findings() if f.get("property") == pid]
    job_limit, total_limit = (150, 620) if tier == "quick" else (3000, 40000)

    def limit():
        return min(job_limit, total_limit - (time.time() - t0))

    def mine(job, v):
        if v.get("san"):
            return True
        pat = job.spec.get("keys")
        return pat is None or re.search(pat, v["key"]) is not None

    def certain(job):
        """How long a run goes on after it reported this: in the quick tier, no longer than needed."""
        def f(v):
            if tier != "quick" or not mine(job, v) or known_finding(v):
                return None
            return 15 if v["soft"] else 0.5
        return f

    def seen_again(job, keys):
        return lambda v: 0.1 if tier == "quick" and v["key"] in keys else None

    def known_finding(v):
        return [f for f in findings if re.fullmatch(f["key"], v["key"]) and re.search(f.get("detail", ""), v["detail"], re.S)]

    def once(job, tag=""):
        r = run_job(job, outdir, limit(), tag, certain(job))
        if r["status"] not in ("ok", "not run"):
            r = run_job(job, outdir, limit(), tag + "-again", certain(job))
        return r

    lock = threading.Lock()
    confirmed, known, unconfirmed, others = [], [], [], []

    def judge(job):
        r = once(job)
        soft, seen = [], set()
        for v in r["violations"]:
            if not mine(job, v):
                others.append(v["key"])
                continue
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            kf = known_finding(v)
            if kf:
                known.append((kf[0], v))
            elif v["soft"]:
                soft.append(v)
            else:
                confirmed.append((job, v))
                if tier == "quick":
                    stop_all()
        # What depends on time has to be seen in another run too, when the other workloads are through.
        return job, r, soft

    jobs.sort(key=lambda j: -j.spec.get("cost", 1))
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        outcomes = list(ex.map(judge, jobs))
    outcomes.sort(key=lambda o: o[0].name())
    results = [(j, r) for j, r, _ in outcomes]
    harness_errors = [(j, r) for j, r in results if r["status"] != "ok" and not (stop.is_set() and r["status"] == "not run")]
    for job, r, soft in outcomes:
        for v in soft if confirmed else ():
            unconfirmed.append((job.name(), v["key"] + " (not tried)"))
    todo = [] if confirmed else [(j, r, soft) for j, r, soft in outcomes if soft]
    for job, r, soft in todo:
        if confirmed:
            unconfirmed += [(job.name(), v["key"] + " (not tried)") for v in soft]
            continue
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            rs = list(ex.map(lambda k: run_job(job, outdir, limit(), "-confirm%d" % k, seen_again(job, {v["key"] for v in soft})), range(2)))
        keys = {w["key"] for x in rs for w in x["violations"] if mine(job, w)}
        for v in soft:
            if v["key"] in keys or any(k.startswith("hang:") for k in keys):
                confirmed.append((job, v))
            else:
                unconfirmed.append((job.name(), v["key"]))

    # ---- evidence ----
    counts, samples, evals = {}, [], 0
    distinct = set()
    for job, r in results:
        rep = r["report"]
        if not rep:
            continue
        for k, n in rep["counts"].items():
            counts[k] = counts.get(k, 0) + n
        pat = job.spec.get("evals")
        for k, n in rep["counts"].items():
            if pat and re.fullmatch(pat, k):
                evals += n
        raw = rep["hashes"]
        for (h,) in struct.iter_unpack("<Q", raw[:len(raw) // 8 * 8]):
            distinct.add((job.scenario, h))
        for s in rep["samples"][:2]:
            if len(samples) < 8:
                samples.append("%s: %s" % (job.scenario, s))
    evidence = dict(
        property=pid, tier=tier, seed=a.seed, level=P["level"],
        coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=P["rule"], samples=samples,
                      observed=counts,
                      runs=["%s (%s), seed %d: rc %s, %.1f s" % (j.harness + "/" + j.scenario, j.flavor, j.seed, r["rc"], r["wall"]) for j, r in results],
                      not_confirmed=["%s %s" % u for u in unconfirmed], notes=notes,
                      seen_but_of_other_properties=sorted(set(others)),
                      build_s=round(t_build, 1)),
        assumptions=P.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for f, v in known:
        say("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for k, (job, v) in enumerate(confirmed):
        path = os.path.join(replay_dir, "%s-%d.json" % (pid, k))
        with open(path, "w") as f:
            json.dump(dict(property=pid, harness=job.harness, flavor=job.flavor, scenario=job.scenario, seed=job.seed,
                           tier=job.tier, budget=job.budget, key=v["key"], detail=v["detail"]), f, indent=1)
        say("--- %s: %s\n%s" % (job.name(), v["key"], v["detail"][:1500]))
        say("VIOLATION property=%s replay=%s" % (pid, path))
        if k >= 7:
            break
    say("%s %s: %d workloads, %d evaluations, %d distinct, %d violations, %d known, build %.0f s, total %.0f s" % (
        pid, tier, len(results), evals, len(distinct), len(confirmed), len(known), t_build, time.time() - t0))
    if confirmed:
        return 1
    if harness_errors:
        for job, r in harness_errors:
            say("no verdict from %s: %s rc=%s\n%s" % (job.name(), r["status"], r["rc"], r["err"][-1500:]))
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    built, failed, log = B.build({(d["harness"], d["flavor"])})
    if failed:
        say(log[-4000:])
        return 2
    j = Job(dict(harness=d["harness"], flavor=d["flavor"], scenario=d["scenario"], budget={d["tier"]: d["budget"]}), d["seed"], d["tier"])
    outdir = os.path.join(B.BUILD, "out", "replay")
    os.makedirs(outdir, exist_ok=True)
    r = run_job(j, outdir, 3000)
    for v in r["violations"]:
        say(v["key"], "\n", v["detail"][:4000])
    say("replayed:", d["key"], "seen" if any(v["key"] == d["key"] for v in r["violations"]) else "not seen")
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
