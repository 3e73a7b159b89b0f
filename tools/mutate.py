#!/usr/bin/env python3
"""Mutation sweep (a development aid, no check uses it): small changes to single lines of the library, one at a
time, in scratch copies; tells which ones no property notices.

  mutate.py OUT.jsonl COUNT SEED HARNESS[,HARNESS] FILE[:FIRST-LAST]... [--only LINES.json]
  mutate.py OUT.jsonl --again HARNESS[,HARNESS] EARLIER.jsonl...     the survivors of earlier runs, with other harnesses

LINES.json: {file: [executed lines]} (from gcov); without it every code line is a candidate."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run  # noqa: E402
from jobs import HARNESSES, JOBS  # noqa: E402

SCALE = float(os.environ.get("MUT_SCALE", "0.15"))
WORKERS = int(os.environ.get("MUT_WORKERS", "6"))
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")

RULES = [
    (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"/=", "*="),
    (r"(?<=[\w\)\]])\*(?=[\w\(])", "/"), (r"(?<=[\w\)\]])/(?=[\w\(])", "*"), (r"(?<=[\w\)\]])\+(?=[\w\(])", "-"), (r"(?<=[\w\)\]])-(?=[\w\(])", "+"),
    (r"(?<![<>\-=])<(?![<=])(?=[ \w])", "<="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
    (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\[i\]", "[0]"), (r"\[d\]", "[0]"), (r"\[d1\]", "[d2]"), (r"\[d2\]", "[d1]"), (r"\[ipart\]", "[0]"),
    (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b2\b", "1"), (r"(?<![\w.])\.5\b", "1."), (r"\b2\*", ""), (r"\b0\.", "1."), (r"\b1\.", "2."),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"ADD_VALUES", "INSERT_VALUES"), (r"INSERT_VALUES", "ADD_VALUES"),
    (r"std::sin", "std::cos"), (r"std::cos", "std::sin"), (r"\bfloor\b", "ceil"), (r"\bceil\b", "floor"), (r"std::min", "std::max"), (r"std::max", "std::min"),
    (r"\bmx\b", "my"), (r"\bmy\b", "mx"), (r"\.xs\b", ".gxs"), (r"\.ys\b", ".xs"), (r"\bxm\b", "ym"), (r"\bx\b", "y"), (r"\bp1\b", "p2"), (r"\bp2\b", "p1"),
    (r"-(?=[\w\(])", ""), (r"^(\s*)[^{}]*;(\s*)$", r"\1;\2"),
]
SKIP = re.compile(r"^\s*(//|\*|#|assert|static_assert|using|template|ierr = PetscOptions)|CHKERRQ\(ierr\);\s*$(?<!=)|std::cout|PetscPrintf|__FUNCT__|PetscFunction")


def candidates(path, first, last, only):
    with open(path) as f:
        lines = f.read().split("\n")
    out = []
    for n, l in enumerate(lines, 1):
        if n < first or n > last or (only is not None and n not in only):
            continue
        code = l.split("//")[0]
        if not code.strip() or re.match(r"^\s*(//|\*|#|assert|static_assert|using|template)", code) or "std::cout" in code or "__FUNCT__" in code:
            continue
        if re.match(r"^\s*CHKERRQ", code) or "PetscFunction" in code:
            continue
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():] + l[len(code):]
                if new != l:
                    out.append((n, l, new))
    return out


def build(h, repo, d):
    spec = HARNESSES[h]
    exe = os.path.join(d, h)
    objs = []
    if spec.get("qhull"):
        objs = sorted(os.path.join(ROOT, "qhull", f) for f in os.listdir(os.path.join(ROOT, "qhull")))
    r = subprocess.run(["timeout", "400", "mpicxx", *run.BASE_FLAGS, "-g0", *HARNESSES[h].get("flags", []), f"-I{repo}/cafes", f"-I{run.REPO}/external_packages/qhull",
                        os.path.join(HERE, "harness", h + ".cpp"), "-o", exe, *objs, *run.LINK, *spec.get("link", [])], env=run.ENV, capture_output=True, text=True)
    return exe if r.returncode == 0 else None


def props(h):
    seen = {}
    for p, j in JOBS.items():
        for x in j["jobs"]:
            if x["harness"] == h and x["prop"] not in seen:
                seen[x["prop"]] = x
    return seen.values()


def one(k, rel, line, old, new, hs):
    d = os.path.join(ROOT, f"m{k}")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(run.REPO, "cafes"), os.path.join(d, "cafes"))
    p = os.path.join(d, rel)
    with open(p) as f:
        lines = f.read().split("\n")
    assert lines[line - 1] == old
    lines[line - 1] = new
    with open(p, "w") as f:
        f.write("\n".join(lines))
    res = "survived"
    try:
        for h in hs:
            exe = build(h, d, d)
            if exe is None:
                res = "does not build"
                break
            for j in props(h):
                n = max(3, int(j["quick"] * SCALE))
                np = min(j.get("np", 1), 3)
                cmd = [exe, "--prop", j["prop"], "--seed", "11", "--first", "0", "--cases", str(n), "--out", os.path.join(d, "o.json"), "--cpu", "30", "--shrink", "0"]
                if np > 1:
                    cmd = ["mpirun", "-np", str(np), *cmd]
                try:
                    r = subprocess.run(cmd, env=dict(run.ENV, OMPI_MCA_orte_tmpdir_base=d, TMPDIR=d), cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc != 0:
                    res = f"{j['prop']} rc {rc}"
                    break
            if res != "survived":
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(file=rel, line=line, old=old.strip(), new=new.strip(), result=res)


def main():
    a = sys.argv[1:]
    only = None
    if "--only" in a:
        i = a.index("--only")
        with open(a[i + 1]) as f:
            only = {k: set(v) for k, v in json.load(f).items()}
        del a[i:i + 2]
    if a[1] == "--again":
        out, hs, count, seed = a[0], a[2].split(","), 10**9, 0
        c = set()
        for p in a[3:]:
            with open(p) as f:
                for r in map(json.loads, f):
                    if r["result"] == "survived":
                        with open(os.path.join(run.REPO, r["file"])) as g:
                            l = g.read().split("\n")[r["line"] - 1]
                        if l.strip() == r["old"]:  # the line may have changed since
                            c.add((r["file"], r["line"], l, r["new"]))
        c, files = sorted(c), []
    else:
        out, count, seed, hs = a[0], int(a[1]), int(a[2]), a[3].split(",")
        c, files = [], a[4:]
    for spec in files:
        rel, _, rng = spec.partition(":")
        f, l = (int(x) for x in rng.split("-")) if rng else (1, 10**9)
        c += [(rel, *x) for x in candidates(os.path.join(run.REPO, rel), f, l, None if only is None else only.get(rel, set()))]
    rnd = random.Random(seed)
    rnd.shuffle(c)
    c = c[:count]
    os.makedirs(ROOT, exist_ok=True)
    if any(HARNESSES[h].get("qhull") for h in hs):
        q = os.path.join(ROOT, "qhull")
        os.makedirs(q, exist_ok=True)
        for src in HARNESSES["tri"]["qhull"]:
            o = os.path.join(q, src.replace("/", "_") + ".o")
            if not os.path.exists(o):
                subprocess.check_call(["gcc" if src.endswith(".c") else "g++", "-O1", "-w", f"-I{run.REPO}/external_packages/qhull", "-c",
                                       os.path.join(run.REPO, "external_packages/qhull", src), "-o", o])
    with open(out, "a") as fo, cf.ThreadPoolExecutor(WORKERS) as ex:
        for r in ex.map(lambda kv: one(os.path.basename(out) + str(kv[0]), *kv[1], hs), enumerate(c)):
            fo.write(json.dumps(r) + "\n")
            fo.flush()


main()
