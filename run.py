#!/usr/bin/env python3
"""run.py PROPERTY [PROPERTY...] | --setup | --list

Builds the harnesses a property needs from /repo's current working tree, runs its jobs over generated
cases and reports.  Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Any
other exit: the check itself could not give an answer.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough), VERIF_REPO (default /repo)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from jobs import JOBS, HARNESSES  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
CORES = max(1, min(8, os.cpu_count() or 1))
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
T0 = time.time()
HARD_STOP = 820 if TIER == "quick" else 6 * 3600  # an answer must come before the caller's limit

ENV = dict(os.environ)
ENV.update(
    HOME=os.environ.get("HOME", "/root"), LC_ALL="C.UTF-8",
    PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    OMPI_CC="gcc", OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
    OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_ess_singleton_isolated="1",
    OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_hwloc_base_binding_policy="none",
    OMPI_MCA_btl_vader_single_copy_mechanism="none", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
    OMPI_MCA_orte_tmpdir_base="/tmp", OMPI_MCA_mpi_yield_when_idle="1",
    MALLOC_PERTURB_="165",  # fresh heap memory is never accidentally zero
    ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
)
ENV.pop("PETSC_OPTIONS", None)

BASE_FLAGS = ["-std=gnu++14", "-O1", "-g1", "-w", "-ftrivial-auto-var-init=pattern",
              "-include", os.path.join(HERE, "engine", "petsc_compat.h"),
              f"-I{PETSC}/include", "-I/usr/include/hdf5/openmpi"]
LINK = [f"-L{PETSC}/lib", f"-Wl,-rpath,{PETSC}/lib", "-lpetsc_real"]
SAN = ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]


class Broken(Exception):
    """the check cannot give an answer"""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "cafes"), os.path.join(REPO, "external_packages"),
             os.path.join(HERE, "harness"), os.path.join(HERE, "engine")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p[len(r):].encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


_hash = None


def binary(harness):
    """builds (if needed) and returns the path of a harness; NAME or NAME+asan"""
    global _hash
    if _hash is None:
        _hash = tree_hash()
    name, _, variant = harness.partition("+")
    out = os.path.join(BUILD, f"{name}{'-' + variant if variant else ''}-{_hash}")
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, f"{name}{'-' + variant if variant else ''}-????????????????")):
        os.unlink(old)
    spec = HARNESSES.get(name, {})
    inc = [f"-I{REPO}/cafes", f"-I{REPO}/external_packages/qhull"]
    tmp = out + f".tmp{os.getpid()}"
    objs = []
    work = tempfile.mkdtemp(prefix="obj", dir=BUILD)
    try:
        san = SAN if variant == "asan" else []
        cmds = []
        for src in spec.get("qhull", []):
            o = os.path.join(work, src.replace("/", "_") + ".o")
            cc = "gcc" if src.endswith(".c") else "g++"
            cmds.append([cc, "-O1", "-g1", "-w", *san, f"-I{REPO}/external_packages/qhull", "-c",
                         os.path.join(REPO, "external_packages", "qhull", src), "-o", o])
            objs.append(o)
        main = os.path.join(work, "main.o")
        cmds.append(["mpicxx", *BASE_FLAGS, *inc, *san, *spec.get("flags", []), "-c",
                     os.path.join(HERE, "harness", name + ".cpp"), "-o", main])
        with cf.ThreadPoolExecutor(CORES) as ex:
            for cmd, r in zip(cmds, ex.map(lambda c: subprocess.run(c, env=ENV, capture_output=True, text=True), cmds)):
                if r.returncode:
                    raise Broken("the harness does not build: " + shlex.join(cmd) + "\n" + r.stderr[-4000:])
        r = subprocess.run(["mpicxx", *san, main, *objs, "-o", tmp, *LINK, *spec.get("link", [])],
                           env=ENV, capture_output=True, text=True)
        if r.returncode:
            raise Broken("the harness does not link:\n" + r.stderr[-4000:])
        os.replace(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


# ---------------------------------------------------------------------------- running
class Task:
    """one process (group): a slice of the cases of one job"""

    def __init__(self, prop, job, first, cases, workdir, k):
        self.prop, self.job, self.first, self.cases = prop, job, first, cases
        self.dir = os.path.join(workdir, f"t{k}")
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "out.json")
        self.weight = job.get("np", 1)


def run_cmd(job, args, cwd, timeout):
    """starts the process (group) again when MPI itself does not come up"""
    for attempt in range(4):
        log_file = os.path.join(cwd, "log.txt")
        start = os.path.getsize(log_file) if os.path.exists(log_file) else 0
        rc = run_once(job, args, cwd, timeout)
        if rc in (0, 1, "timeout"):
            return rc
        with open(log_file, errors="replace") as f:
            f.seek(start)
            txt = f.read()
        if "before MPI_INIT completed" not in txt and "ORTE_ERROR_LOG" not in txt and "orte_init failed" not in txt:
            return rc
        time.sleep(1 + attempt)
    return rc


def run_once(job, args, cwd, timeout):
    exe = binary(job["harness"])
    np = job.get("np", 1)
    cmd = [exe, "--prop", job["prop"], "--cpu", str(job.get("cpu", 60)), *args]
    if np > 1:
        cmd = ["mpirun", "-np", str(np), *cmd]
    # a session directory of its own: processes that start and end at the same time do not share one
    env = dict(ENV, OMPI_MCA_orte_tmpdir_base=cwd, TMPDIR=cwd)
    if job["harness"].endswith("+asan"):
        env.pop("MALLOC_PERTURB_", None)
        env["PBT_MEMORY_ONLY"] = "1"
    with open(os.path.join(cwd, "log.txt"), "ab") as lf:
        lf.write(("+ " + shlex.join(cmd) + "\n").encode())
        lf.flush()
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            import signal
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return "timeout"


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def crash_choices(out):
    """choices of the case that was running when the process died"""
    try:
        with open(out + ".fail") as f:
            return f.read().strip()
    except OSError:
        pass
    try:
        import array
        a = array.array("Q")
        with open(out + ".log", "rb") as f:
            a.frombytes(f.read())
        if a[0] == 0:
            return None
        return " ".join(str(v) for v in a[2:2 + a[1]])
    except OSError:
        return None


def tail(path, n=2500):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def interesting(text):
    """the lines of a crash log that say what happened"""
    keep = [l for l in text.splitlines() if any(k in l for k in (
        "ERROR: AddressSanitizer", "runtime error", "PBT-HANG", "Assertion", "Segmentation", "terminate called", "what():",
        "signal", "SUMMARY", "    #0", "    #1", "    #2"))]
    return " | ".join(keep[:8])[:900]


def replay(job, choices, workdir, timeout=400):
    """one replay in a fresh process -> (failed, message, description)"""
    d = tempfile.mkdtemp(prefix="r", dir=workdir)
    f = os.path.join(d, "choices")
    with open(f, "w") as fh:
        fh.write(choices + "\n")
    out = os.path.join(d, "out.json")
    rc = run_cmd(job, ["--replay", f, "--out", out], d, timeout)
    r = load(out)
    txt = tail(os.path.join(d, "log.txt"), 20000)
    shutil.rmtree(d, ignore_errors=True)
    if r is not None and rc in (0, 1):
        return bool(r["failed"]), r["msg"], r["desc"]
    if rc == "timeout":
        return None, "no answer in %d s" % timeout, ""
    return True, "the process died (exit %s) %s" % (rc, interesting(txt)), ""


def shrink_crash(job, choices, workdir, budget=60):
    """delete blocks / zero choices while a fresh process still dies or fails"""
    best = choices.split()
    t_end = time.time() + 120

    def bad(c):
        nonlocal budget
        if budget <= 0 or time.time() > t_end:
            return False
        budget -= 1
        return replay(job, " ".join(c), workdir, 120)[0] is True
    for n in (16, 8, 4, 2, 1):
        i = 0
        while i + n <= len(best) and budget > 0:
            c = best[:i] + best[i + n:]
            if bad(c):
                best = c
            else:
                i += n
    for i in range(len(best)):
        if best[i] != "0" and budget > 0:
            c = best[:i] + ["0"] + best[i + 1:]
            if bad(c):
                best = c
    return " ".join(best)


def run_task(t):
    left = HARD_STOP - (time.time() - T0)
    if left < 5:
        raise Broken("out of time before all the cases were run")
    rc = run_cmd(t.job, ["--seed", str(SEED), "--first", str(t.first), "--cases", str(t.cases), "--out", t.out,
                         "--shrink", str(t.job.get("shrink", 300))], t.dir, left)
    r = load(t.out)
    if r is not None and rc in (0, 1):
        return r
    if rc == "timeout":
        raise Broken(f"{t.job['prop']}: cases {t.first}..{t.first + t.cases} did not finish in the time allowed")
    txt = tail(os.path.join(t.dir, "log.txt"), 20000)
    c = crash_choices(t.out)
    if c is None:
        raise Broken(f"{t.job['prop']}: exit {rc} outside any case\n{txt[-3000:]}")
    return dict(prop=t.job["prop"], evaluations=1, skipped=0, nontrivial=[], labels={}, samples=[],
                failure=dict(case=-1, choices=c, msg=f"the process died (exit {rc}) {interesting(txt)}", desc="", crash=True))


def confirm(prop, t, failure, workdir):
    """replays a failure three times; returns the final record or None when it does not reproduce"""
    job = t.job
    choices = failure["choices"]
    if failure.get("crash") and "PBT-HANG" not in failure["msg"]:
        if replay(job, choices, workdir)[0] is True:
            choices = shrink_crash(job, choices, workdir)
    n = 3
    with cf.ThreadPoolExecutor(3 if job.get("np", 1) <= 2 else 1) as ex:
        res = list(ex.map(lambda _: replay(job, choices, workdir), range(n)))
    bad = sum(r[0] is True for r in res)
    rec = dict(property=prop, harness=job["harness"], job=job["prop"], np=job.get("np", 1), choices=choices,
               message=next((r[1] for r in res if r[0]), failure["msg"]), input=next((r[2] for r in res if r[0] and r[2]), failure["desc"]),
               seed=SEED, case=failure["case"], replays=f"{bad}/{n}")
    if bad == n:
        return rec
    # may depend on the cases before it: run the same slice again
    again = 0
    for k in range(3):
        t2 = Task(prop, job, t.first, t.cases, workdir, f"again{time.time_ns()}")
        try:
            again += run_task(t2)["failure"] is not None
        except Broken:
            pass
    rec["first"], rec["cases"] = t.first, t.cases
    rec["replays"] = f"{bad}/{n} alone, {again}/3 as a sequence of cases"
    if again == 3 or bad + again >= 2:
        return rec
    return None


def check(prop):
    t_start = time.time()
    jobs = JOBS[prop]["jobs"]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"run-{prop}-", dir="/tmp")
    try:
        hs = sorted({j["harness"] for j in jobs})
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(binary, hs))
        tasks = []
        for j in jobs:
            n = j["quick"] if TIER == "quick" else j.get("thorough", j["quick"] * 10)
            np = j.get("np", 1)
            split = 1 if n < 8 else max(1, CORES // np)
            split = min(split, j.get("split", split))
            for s in range(split):
                a, b = n * s // split, n * (s + 1) // split
                if b > a:
                    tasks.append(Task(prop, j, a, b - a, work, len(tasks)))
        # weight-bounded pool, widest first
        results = []
        import threading
        cond = threading.Condition()
        free = [CORES]

        def go(t):
            w = min(t.weight, CORES)
            with cond:
                while free[0] < w:
                    cond.wait()
                free[0] -= w
            try:
                return run_task(t)
            finally:
                with cond:
                    free[0] += w
                    cond.notify_all()
        order = sorted(tasks, key=lambda t: -t.weight)
        with cf.ThreadPoolExecutor(max(1, len(order))) as ex:
            results = list(ex.map(go, order))
        evaluations = sum(r["evaluations"] for r in results)
        skipped = sum(r["skipped"] for r in results)
        distinct = len({h for r in results for h in r["nontrivial"]})
        labels, samples = {}, []
        for r in results:
            for k, v in r["labels"].items():
                key = f"{r['prop']}: {k}"
                labels[key] = labels.get(key, 0) + v
        seen = set()
        for r in results:
            if r["prop"] not in seen and r["samples"]:
                seen.add(r["prop"])
                samples += r["samples"][:2]
        violations, flaky = [], []
        done = set()
        for t, r in zip(order, results):
            if r["failure"] and t.job["prop"] not in done:
                rec = confirm(prop, t, r["failure"], work)
                if rec:
                    done.add(t.job["prop"])
                    violations.append(rec)
                else:
                    flaky.append((t.job["prop"], r["failure"]))
        known = known_findings(prop, work)
        ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="exploration",
                  coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=JOBS[prop]["rule"], samples=samples[:12],
                                classes=labels, skipped=skipped, jobs=[f"{j['harness']}:{j['prop']} np={j.get('np', 1)}" for j in jobs]),
                  assumptions=JOBS[prop].get("assumptions", []), wall_s=round(time.time() - t_start, 2), violations=len(violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{prop}: {evaluations} cases, {distinct} distinct non-trivial, {skipped} skipped, {ev['wall_s']} s, seed {SEED}, {TIER}")
        for k in known:
            log(f"KNOWN-FINDING: property={prop} {k}")
        if violations:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, v in enumerate(violations):
                path = os.path.join(REPLAYS, f"{prop}-{i}.json")
                v["how"] = "python3 run.py --replay " + path
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                log(f"  {v['job']}: {v['message']}")
                log(f"  input: {v['input']}")
                log(f"VIOLATION property={prop} replay={path}")
            return 1
        if flaky:
            log(f"{prop}: a failure did not reproduce: {flaky}")
            return 3
        if evaluations < sum(1 for _ in jobs):
            log(f"{prop}: no case was run")
            return 3
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings(prop, work):
    """re-runs the listed findings of this property on their own input; says which still fail"""
    r = []
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            entries = json.load(f)["findings"]
    except OSError:
        return r
    for e in entries:
        if e["property"] != prop or e.get("status") == "fixed":
            continue
        job = dict(harness=e["harness"], prop=e["job"], np=e.get("np", 1))
        failed, msg, _ = replay(job, e.get("choices", ""), work)
        if failed:
            r.append(f"{e['id']}: {e['what']}")
    return r


def main():
    args = sys.argv[1:]
    try:
        if args == ["--list"]:
            for p in JOBS:
                print(p, [f"{j['harness']}:{j['prop']}" for j in JOBS[p]["jobs"]])
            return 0
        if args == ["--setup"]:
            hs = sorted({j["harness"] for p in JOBS.values() for j in p["jobs"]})
            with cf.ThreadPoolExecutor(4) as ex:
                list(ex.map(binary, hs))
            log("built", *hs)
            return 0
        if args[:1] == ["--replay"]:
            with open(args[1]) as f:
                v = json.load(f)
            job = dict(harness=v["harness"], prop=v["job"], np=v["np"])
            work = tempfile.mkdtemp(prefix="replay-", dir="/tmp")
            try:
                failed, msg, desc = replay(job, v["choices"], work)
            finally:
                shutil.rmtree(work, ignore_errors=True)
            log("failed" if failed else "passed", msg, desc)
            return 1 if failed else 0
        rc = 0
        for p in args:
            r = check(p)
            rc = r if rc == 0 or r == 1 else rc
        return rc
    except Broken as e:
        log("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
