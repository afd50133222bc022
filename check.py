#!/usr/bin/env python3
"""Runs the property-based check of one property: check.py C01 [--tier quick|thorough]
Replays a saved failure:                         check.py --replay FILE

Builds the harness from /repo's working tree, runs generated cases in parallel,
shrinks a failure to a replay file, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
from checks_config import CHECKS, VARIANTS

ENV = dict(os.environ)
ENV.update({
    "OMP_WAIT_POLICY": "passive",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=4000:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=0",
    "LC_ALL": "C",
})


def compile_one(job):
    src, obj, flags = job
    cmd = ["g++", "-std=gnu++17", "-w", "-fopenmp", "-I" + REPO + "/include", "-I" + REPO + "/apps", "-I" + HERE + "/h", "-I" + HERE + "/h/sapporo", "-I" + HERE + "/h/cudd"] + flags + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    return p.returncode, " ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")


def build(cfg, variants, scratch):
    """Returns {variant: binary} or raises RuntimeError(log)."""
    jobs, objs = [], {}
    for v in variants:
        objs[v] = []
        for part in range(cfg.get("parts", 1)):
            obj = os.path.join(scratch, "%s-%d.o" % (v, part))
            fl = VARIANTS[v]["cflags"] + ["-DPART=%d" % part] + (["-DPBT_NO_MAIN"] if part else [])
            jobs.append((os.path.join(HERE, "h", cfg["src"]), obj, fl))
            objs[v].append(obj)
    aux = {}  # the repository's own programs, from their sources
    for v in variants:
        for name, d in cfg.get("aux", {}).items():
            for src in sorted(glob.glob(os.path.join(REPO, "apps", d, "*.cpp"))):
                obj = os.path.join(scratch, "%s-aux-%s-%s.o" % (v, name, os.path.basename(src)[:-4]))
                jobs.append((src, obj, VARIANTS[v]["cflags"] + (["-DNDEBUG"] if v == "plain" else [])))
                aux.setdefault((v, name), []).append(obj)
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(compile_one, jobs))
        bad = [k for k, r in enumerate(res) if r[0] != 0]
        for k in bad:  # once more, alone: rules out a passing shortage of memory
            res[k] = compile_one(jobs[k])
            if res[k][0] != 0:
                raise RuntimeError(res[k][1])
    bins, links = {}, []
    for v in variants:
        bins[v] = os.path.join(scratch, v)
        links.append((v, objs[v], bins[v]))
    for (v, name), o in aux.items():
        os.makedirs(os.path.join(scratch, v + "-aux"), exist_ok=True)
        links.append((v, o, os.path.join(scratch, v + "-aux", name)))
    for v, o, b in links:
        p = subprocess.run(["g++", "-fopenmp"] + VARIANTS[v]["lflags"] + o + ["-o", b],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if p.returncode != 0:
            raise RuntimeError(p.stdout.decode("utf8", "replace"))
    return bins


def replay_path(pid, seed, tag):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-s%d-%s.replay" % (pid, seed, tag))


def write_evidence(pid, cfg, tier, seed, runs, t0, violations, extra=None):
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2),
              violations=violations, assumptions=cfg.get("assumptions", []))
    cov = dict(evaluations=sum(r.get("evaluations", 0) for r in runs),
               distinct_nontrivial=0, rule=cfg["rule"], samples=[], runs=[])
    for r in runs:
        cov["samples"] += r.get("samples", [])[:6]
        cov["runs"].append({k: r[k] for k in r if k not in ("samples", "choices")})
    # variants share generators but not seeds; the sets are disjoint up to coincidence, count the largest plus
    # nothing else to stay conservative where the same cases could be drawn
    cov["distinct_nontrivial"] = max([r.get("distinct_nontrivial", 0) for r in runs] or [0])
    cov["samples"] = cov["samples"][:14]
    if extra:
        cov.update(extra)
    ev["coverage"] = cov
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def known_findings(pid):
    """Lines 'known: property=<id> <key> :: <text>' of known_findings.txt."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (\S+) :: (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


# failures that an overloaded machine can cause by itself
SPURIOUS = re.compile(r"did not terminate|signal 9\b|bad_alloc|Thread creation|annot allocate|out of memory|unavailable", re.I)


def run_harness(binary, cfg, variant, seed, cases, tlimit, scratch, label, solo=None):
    out = os.path.join(scratch, "out-%s.json" % variant)
    rep = cfg.get("repeat", 1)
    cmd = [binary, "--seed", str(seed), "--cases", str(cases), "--workers", str(cfg.get("workers", 8)),
           "--tlimit", str(tlimit), "--hang", str(cfg.get("hang", 120)), "--repeat", str(rep),
           "--shrink", "60", "--out", out, "--label", label]
    if solo:  # one property function with the machine to itself
        cmd += ["--only", solo, "--workers", "1"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, PBT_AUX=binary + "-aux"), cwd=scratch)
    try:
        r = json.load(open(out))
    except Exception:
        r = dict(status="error", message="harness engine failed: rc=%d %s" % (p.returncode, p.stdout.decode("utf8", "replace")[-2000:]))
    r["variant"] = variant
    return r


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[pid]
    t0 = time.time()
    if "custom" in cfg:
        mod = __import__(cfg["custom"])
        return mod.run(pid, cfg, tier, seed, t0, sys.modules[__name__])
    scratch = tempfile.mkdtemp(prefix="tdzdd-%s-" % pid)
    try:
        plan = cfg[tier]
        try:
            bins = build(cfg, list(plan), scratch)
        except RuntimeError as e:
            path = replay_path(pid, seed, "build")
            with open(path, "w") as f:
                f.write("kind build\nproperty %s\n" % pid + str(e))
            print("the harness, which uses the public interface only, no longer compiles against the tree; see", path)
            write_evidence(pid, cfg, tier, seed, [], t0, 1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        build_s = time.time() - t0
        for key, text in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        runs, rc = [], 0
        budget = (cfg.get("tlimit", 420) if tier == "quick" else cfg.get("tlimit_thorough", 1800))
        todo, unsure, again = [(v, n, None) for v, n in plan.items()], 0, 0
        todo += [("plain", n if tier == "quick" else 10 * n, prop) for prop, n in cfg.get("solo", {}).items()]
        while todo:
            v, cases, solo = todo.pop(0)
            left = max(30, budget - (time.time() - t0))
            r = run_harness(bins[v], cfg, v, seed + 7919 * again, cases, left / (1 + len(todo)), scratch, "%s-%s-%s" % (pid, v, tier), solo)
            runs.append(r)
            if r["status"] == "pass":
                continue
            if r["status"] == "error":
                print("engine error:", r["message"])
                r = dict(r, confirmed=True, prop="?", desc="", choices=[], first_message="", reproduced=0)
            if not r["confirmed"]:
                print("note: a failure in %s did not reproduce: %s" % (v, r["first_message"]))
                r["evaluations"] = r.get("case", 0)
                again += 1
                if not SPURIOUS.search(r["first_message"]):
                    unsure += 1
                if unsure < 2:  # go on with other cases
                    if again <= 3 and cases > r["evaluations"]:
                        todo.insert(0, (v, cases - r["evaluations"], solo))
                    continue
                # twice wrong, though not at will: it depends on timing or on what ran before in the process
                r["message"] = "fails now and then (%d times in this run): %s" % (unsure, r["first_message"])
            tag = "%s-%s" % (v, r["prop"])
            path = replay_path(pid, seed, tag)
            with open(path, "w") as f:
                f.write("kind pbt\nproperty %s\nvariant %s\nprop %s\nmessage %s\n" % (pid, v, r["prop"], r["message"].replace("\n", " ")))
                f.write("desc %s\n" % r["desc"].replace("\n", "\\n"))
                f.write("choices %s\n" % " ".join(map(str, r["choices"])))
            print("property function %s (%s build): %s" % (r["prop"], v, r["message"]))
            print("minimal case: %s" % r["desc"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
            break
        write_evidence(pid, cfg, tier, seed, runs, t0, rc, dict(build_s=round(build_s, 1)))
        if rc == 0:
            print("%s %s: held on %d evaluations (%d distinct non-trivial), %.0f s" % (
                pid, tier, sum(r.get("evaluations", 0) for r in runs), max(r.get("distinct_nontrivial", 0) for r in runs), time.time() - t0))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    head = {}
    for line in open(path):
        k, _, v = line.rstrip("\n").partition(" ")
        head.setdefault(k, v)
    pid = head["property"]
    cfg = CHECKS[pid]
    if head["kind"] == "custom":
        mod = __import__(cfg["custom"])
        return mod.replay(pid, cfg, head, path, sys.modules[__name__])
    scratch = tempfile.mkdtemp(prefix="tdzdd-replay-")
    try:
        try:
            bins = build(cfg, [head.get("variant", "plain")], scratch)
        except RuntimeError as e:
            print(e)
            return 1
        if head["kind"] == "build":
            return 0
        p = subprocess.run([list(bins.values())[0], "--replay", os.path.abspath(path), "--repeat", str(cfg.get("repeat", 1)), "--out", scratch + "/o"], env=dict(ENV, PBT_AUX=list(bins.values())[0] + "-aux"), cwd=scratch)
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
