"""Run one property: generated cases, an explicit oracle, shrinking, replay files and evidence.

A property is a module pbt.props.<id> (lower case) with

    RULE       how cases are made and what makes one non-trivial (for the evidence)
    BUDGET     {"quick": cases, "thorough": cases} over all workers
    TARGETS    what to build (default ("pasm",)), FLAVOUR the build flavour (default "plain")
    cases()    a hypothesis strategy of JSON-serialisable cases
    check(case, env)  raises Violation; returns a dict of classification labels, where
               "nontrivial" says whether the case counts by RULE
    enumerate_cases()   optional: cases that are always run (finite sub-spaces), as an iterator
"""
import importlib
import json
import hashlib
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as builder

VERIF = builder.VERIF
WORKERS = int(os.environ.get("PASM_WORKERS", "8"))
SHRINK_TIME = 90          # seconds of shrinking after the first failure


class Violation(Exception):
    """The oracle and the code disagree. signature identifies the failing call site / input class."""

    def __init__(self, message, signature=None):
        Exception.__init__(self, message)
        self.signature = signature


class Env:
    """What a check needs to run the code under test: the build and a private scratch directory."""

    def __init__(self, bindir, scratch):
        self.bin = bindir
        self.pasm = os.path.join(bindir, "pasm")
        self.unitdrv = os.path.join(bindir, "unitdrv")
        self.eolconvert = os.path.join(bindir, "eolconvert")
        self.scratch = scratch
        self.runs = 0


def load(pid):
    return importlib.import_module("pbt.props." + pid.lower())


def known_findings(pid):
    """signatures of the listed findings of this property -> text."""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    res[d["signature"]] = d
    return res


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]


class Counter:
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.known = {}

    def add(self, case, info):
        self.evaluations += 1
        if info is None:
            info = {}
        if info.get("nontrivial"):
            k = case_key(case)
            if k not in self.keys:
                self.keys.add(k)
                n = len(self.keys)
                if n in (3, 30, 150) and len(self.samples) < 3:
                    self.samples.append(info.get("sample", case))
        for lab in info.get("labels", ()):
            self.labels[lab] = self.labels.get(lab, 0) + 1


def _worker(pid, tier, seed, index, nworkers, bindir, scratch, known, q):
    try:
        sys.setrecursionlimit(20000)
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        mod = load(pid)
        os.makedirs(scratch)
        env = Env(bindir, scratch)
        cnt = Counter()
        last = {}

        def one(case):
            if last and time.time() > last["time"] + SHRINK_TIME:
                raise KeyboardInterrupt     # enough shrinking: keep the smallest failure found so far
            try:
                info = mod.check(case, env)
            except Violation as v:
                if v.signature in known:
                    cnt.known[v.signature] = cnt.known.get(v.signature, 0) + 1
                    cnt.evaluations += 1
                    return
                last.setdefault("time", time.time())
                last["case"] = case
                last["message"] = str(v)
                raise
            cnt.add(case, info)

        budget = max(1, mod.BUDGET[tier] // nworkers)
        try:
            if hasattr(mod, "enumerate_cases"):
                for i, case in enumerate(mod.enumerate_cases(tier)):
                    if i % nworkers == index:
                        one(case)
            if hasattr(mod, "cases"):
                test = settings(max_examples=budget, deadline=None, database=None, derandomize=False,
                                report_multiple_bugs=False, print_blob=False,
                                suppress_health_check=list(HealthCheck),
                                phases=(Phase.generate, Phase.shrink))(
                    hypothesis.seed(seed * 1000003 + index * 7919 + 17)(given(mod.cases())(one)))
                test()
            failed = False
        except BaseException as e:  # noqa: B902  hypothesis wraps some failures
            if "case" not in last:
                raise
            failed = True
        q.put((index, "fail" if failed else "ok", cnt, last))
    except BaseException:
        q.put((index, "error", None, {"message": traceback.format_exc()}))


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(pid, tier, seed, replay=None):
    t0 = time.time()
    mod = load(pid)
    bindir = builder.build(getattr(mod, "FLAVOUR", "plain"), getattr(mod, "TARGETS", ("pasm",)))
    _limits()
    base = tempfile.mkdtemp(prefix="pasm-%s-" % pid)
    os.chmod(base, 0o755)
    try:
        if replay is not None:
            return _replay(pid, mod, bindir, base, replay)
        return _run(pid, tier, seed, mod, bindir, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _replay(pid, mod, bindir, base, path):
    with open(path) as f:
        d = json.load(f)
    env = Env(bindir, os.path.join(base, "r"))
    os.makedirs(env.scratch)
    known = known_findings(pid)
    try:
        mod.check(d["case"], env)
    except Violation as v:
        if v.signature in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[v.signature]["what"]))
            return 0
        print(str(v))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("held: %s" % path)
    return 0


def _run(pid, tier, seed, mod, bindir, base, t0):
    known = known_findings(pid)
    nworkers = getattr(mod, "WORKERS", WORKERS)
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    procs = [ctx.Process(target=_worker, args=(pid, tier, seed, i, nworkers, bindir,
                                               os.path.join(base, "w%d" % i), known, q))
             for i in range(nworkers)]
    for p in procs:
        p.start()
    results = []
    fail = None
    while len(results) < nworkers:
        try:
            r = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in procs) and q.empty():
                break
            continue
        results.append(r)
        if r[1] == "fail":
            # take the first failure that reproduces; do not wait for the others to shrink theirs
            if _confirm(pid, r[3]["case"]):
                fail = r
                break
            print("a failure did not reproduce three times; treated as an error: %s" % r[3]["message"][:600])
            r = (r[0], "error", None, r[3])
            results[-1] = r
    for p in procs:
        if fail is not None:
            p.terminate()
        p.join()
    total = Counter()
    for r in sorted(results, key=lambda r: r[0]):
        c = r[2]
        if c is None:
            continue
        total.evaluations += c.evaluations
        total.keys |= c.keys
        total.samples += c.samples
        for k, v in c.labels.items():
            total.labels[k] = total.labels.get(k, 0) + v
        for k, v in c.known.items():
            total.known[k] = total.known.get(k, 0) + v
    errors = [r for r in results if r[1] == "error"]
    missing = nworkers - len(results) if fail is None else 0
    # the listed findings: replay each one, so that a repaired one no longer prints its line
    excluded = dict(total.known)
    for sig, d in sorted(known.items()):
        env = Env(bindir, os.path.join(base, "k"))
        os.makedirs(env.scratch, exist_ok=True)
        try:
            mod.check(d["case"], env)
        except Violation as v:
            if v.signature == sig:
                print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = total.samples[:4]
    if not samples and total.keys:
        samples = ["(small run: no sample kept)"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.keys),
            "rule": mod.RULE,
            "samples": samples,
            "classes": dict(sorted(total.labels.items())),
            "matched_known_findings": excluded,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if fail else 0,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if fail is not None:
        path = _write_replay(pid, fail[3])
        print(fail[3]["message"])
        print("case: " + json.dumps(fail[3]["case"])[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors or missing:
        for r in errors[:1]:
            print(r[3]["message"][-2500:])
        print("error: %d worker(s) failed, %d missing" % (len(errors), missing))
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s" %
          (pid, tier, total.evaluations, len(total.keys), time.time() - t0))
    if os.environ.get("PBT_VERBOSE"):
        print(json.dumps(total.labels, sort_keys=True))
    return 0


def _write_replay(pid, last):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(last["case"], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump({"property": pid, "message": last["message"], "case": last["case"]}, f, indent=1)
        f.write("\n")
    return path


def _confirm(pid, case):
    """Replay three times, each in a fresh process and scratch directory."""
    fd, path = tempfile.mkstemp(suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump({"property": pid, "case": case}, f)
    try:
        for _ in range(3):
            r = subprocess.run([sys.executable, "-m", "pbt.run", pid, "--replay", path], cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 1 or "VIOLATION property=%s " % pid not in r.stdout:
                return False
        return True
    finally:
        os.unlink(path)
