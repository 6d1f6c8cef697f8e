#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property against /repo's working tree.

Builds the property's harnesses from /repo/include, runs the bounded exhaustive explorer on each,
writes evidence/<ID>.json and prints KNOWN-FINDING / VIOLATION lines. Exit 0: held, 1: violated, 2: error."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = os.environ.get("VERIF_CXX", "clang++-18")
BASE = ["-std=gnu++17", "-g1", "-O1", "-DNDEBUG", "-fno-omit-frame-pointer", "-Wno-everything",
        "-include", HERE + "/mc/linux_compat.h", "-I" + REPO + "/include", "-I" + HERE + "/mc", "-I" + HERE + "/harness"]
ASAN = ["-fsanitize=address,return,bounds", "-fno-sanitize-recover=all"]
LIBS = ["-lz", "-lpthread", "-lnuma", "-luuid", "-ldl"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:quarantine_size_mb=8:allocator_release_to_os_interval_ms=-1:max_allocation_size_mb=512",
           UBSAN_OPTIONS="print_stacktrace=0", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC",
           ASAN_SYMBOLIZER_PATH="/usr/lib/llvm-18/bin/llvm-symbolizer")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(unit, out):
    """Compiles one unit (and the explorer) and links it. kind: asan (sequential), plain, sched (threads under the scheduler)."""
    kind = unit.get("kind", "asan")
    opt = unit.get("flags", [])
    src = HERE + "/harness/" + unit["src"]
    objs, jobs = [], []
    def cc(s, o, fl):
        r = sh([CXX] + BASE + fl + ["-c", s, "-o", o])
        return (s, r.returncode, r.stdout)
    if kind == "sched":
        plan = [(src, ["-fsanitize=thread"] + opt), (HERE + "/mc/mc.cpp", ["-O2"]), (HERE + "/mc/sched.cpp", ["-O2"])]
        link = ["-rdynamic"]
    elif kind == "plain":
        plan = [(src, opt), (HERE + "/mc/mc.cpp", ["-O2"])]
        link = []
    else:
        plan = [(src, ASAN + opt), (HERE + "/mc/mc.cpp", ASAN)]
        link = ["-fsanitize=address,return,bounds"]
    os.makedirs(out, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = []
        for i, (s, fl) in enumerate(plan):
            o = "%s/%d.o" % (out, i); objs.append(o)
            fs.append(ex.submit(cc, s, o, fl))
        for f in fs:
            s, rc, txt = f.result()
            if rc:
                raise RuntimeError("cannot compile %s:\n%s" % (s, txt[-4000:]))
    exe = out + "/h"
    r = sh([CXX] + link + objs + unit.get("link", []) + LIBS + ["-o", exe])
    if r.returncode:
        raise RuntimeError("cannot link %s:\n%s" % (unit["src"], r.stdout[-4000:]))
    return exe

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = next(p for p in PROPS if p["id"] == pid)
    t0 = time.time()
    known = [f for f in json.load(open(HERE + "/known_findings.json"))["findings"] if f["property"] == pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        shm = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/dev/shm")  # in memory: harnesses may create many files
    except OSError:
        shm = work
    rdir = HERE + "/replays/" + pid
    shutil.rmtree(rdir, ignore_errors=True)
    results, errors, viol = [], [], []
    hit = {}
    try:
        units = P["units"]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(lambda iu: build(iu[1], "%s/u%d" % (work, iu[0])), enumerate(units)))
        for ui, (unit, exe) in enumerate(zip(units, exes)):
            names = unit.get("harnesses") or sh([exe, "--list"], env=ENV).stdout.split()
            for n in names:
                if tier == "quick" and n in unit.get("thorough_only", []):
                    continue
                scratch = tempfile.mkdtemp(prefix="h-", dir=shm)
                out = scratch + "/out.json"
                cmd = [exe, "--harness", n, "--out", out, "--tmp", scratch, "--workers", str(unit.get("workers", 8)),
                       "--cap", str(unit.get("cap_" + tier, 240 if tier == "quick" else 3000)), "--hang", str(unit.get("hang", 30))]
                if tier == "thorough":
                    cmd.append("--thorough")
                for k in known:
                    cmd += ["--known", k["key"]]
                env = dict(ENV, VERIF_SCRATCH=scratch)
                r = sh(cmd, env=env, cwd=scratch)
                try:
                    j = json.load(open(out))
                except Exception:
                    errors.append("%s: exit %d, no result\n%s" % (n, r.returncode, r.stdout[-2000:]))
                    continue
                j["unit"] = unit["src"]
                results.append(j)
                print("%s %s: executions=%d states=%d transitions=%d outcomes=%d depth=%d exhaustive=%s %.1fs" % (
                    pid, n, j["executions"], j["states"], j["transitions"], j["outcomes"], j["max_depth"], j["exhaustive"], j["wall_s"]), flush=True)
                if j["internal_error"]:
                    errors.append("%s: %s" % (n, j["internal_error"]))
                for k, c in j["known"].items():
                    hit[k] = hit.get(k, 0) + c
                for v in j["violations"]:
                    kf = [k for k in known if k["key"] == v["key"]]
                    if kf:
                        hit[v["key"]] = hit.get(v["key"], 0) + 1
                        errors.append("%s: known finding %s ended the exploration" % (n, v["key"]))
                        continue
                    viol.append((unit, n, v, ui))
                if viol:
                    break
            if viol:
                break
    except RuntimeError as e:
        errors.append(str(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(shm, ignore_errors=True)
    S = lambda k: sum(r[k] for r in results)
    lvl = P["level"]
    cov = {"harnesses": [{k: r[k] for k in ("unit", "harness", "executions", "transitions", "states", "outcomes", "nontrivial", "jobs", "max_depth", "exhaustive", "wall_s")} for r in results],
           "exhaustive": bool(results) and all(r["exhaustive"] for r in results),
           "samples": [s for r in results for s in r["samples"]][:12],
           "bounds": P.get("bounds", ""),
           "known_findings_hit": hit}
    if lvl == "model_checking":
        cov.update(states=S("states"), transitions=S("transitions"), traces_validated_against_impl=S("executions"), distinct_outcomes=S("outcomes"))
    else:
        cov.update(evaluations=S("executions"), distinct_nontrivial=S("nontrivial") if S("nontrivial") else S("outcomes"))
    cov["rule"] = P["rule"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k["key"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for unit, n, v, ui in viol[:3]:
        os.makedirs(rdir, exist_ok=True)
        f = "%s/%s.txt" % (rdir, hashlib.sha1((n + v["choices"] + v["key"]).encode()).hexdigest()[:12])
        with open(f, "w") as fp:
            fp.write("property: %s\nharness: %s (harness/%s)\nkey: %s\n%s\nreplay: python3 %s/replay.py %s %s '%s' --unit=%d%s\n\ntrace:\n%s\n" % (
                pid, n, unit["src"], v["key"], v["msg"], HERE, pid, n, v["choices"], ui, " --thorough" if tier == "thorough" else "", v["trace"]))
        print("%s: %s" % (v["key"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, f), flush=True)
    for e in errors:
        print("ERROR: " + e, flush=True)
    if viol:
        return 1
    return 2 if errors else 0

if __name__ == "__main__":
    sys.exit(main())
