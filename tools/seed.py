#!/usr/bin/env python3
"""seed.py SPEC.py...: makes seeded/<id>/ from specs (dicts: id, property, file, edits, needs, breaks, demo[, seconds]) and confirms each
in a scratch copy of /repo: builds, stable tests pass, demo passes without and fails with the change, the property's check reports it."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Exit 0: the property holds in this scenario; nonzero: it does not.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
clang++-18 -std=gnu++17 -O1 -g1 -DNDEBUG %s -Wno-everything -include "$D/compat.h" -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" -lz -lpthread -lnuma -luuid || exit 2
cd "$T" && timeout %d ./demo
'''
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def main():
    specs = []
    only = set(a for a in sys.argv[1:] if not a.endswith(".py"))
    for f in sys.argv[1:]:
        if f.endswith(".py"):
            s = importlib.util.spec_from_file_location("spec", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); specs += m.SEEDS
    for s in specs:
        if only and s["id"] not in only: continue
        d = HERE + "/seeded/" + s["id"]
        w = tempfile.mkdtemp(prefix="seed-")
        try:
            sh(["git", "clone", "-q", "--shared", "/repo", w + "/repo"])
            p = w + "/repo/include/stdex/" + s["file"]
            t = open(p, newline="").read()
            for e in s["edits"]:
                old, new, n = (list(e) + [0])[:3]
                assert t.count(old) > n, (s["id"], "not found", old)
                parts = t.split(old); t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w", newline="").write(t)
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            with open(d + "/patch.diff", "w", newline="") as f: f.write(subprocess.run(["git", "-C", w + "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout)
            shutil.copy(HERE + "/mc/linux_compat.h", d + "/compat.h")
            open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(SH % (s.get("flags", ""), s.get("seconds", 60))); os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r0 = sh(["bash", d + "/demo.sh"], cwd="/repo"); r1 = sh(["bash", d + "/demo.sh"], cwd=w + "/repo")
            ok = r0.returncode == 0 and r1.returncode not in (0, 2)
            tests = "?"
            if sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout == "":
                try:
                    sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
                    b = sh(["bash", "/opt/vp/build.sh"]); sh(["bash", "/opt/vp/test.sh", w + "/t.json"])
                    j = json.load(open(w + "/t.json")); stable = json.load(open("/opt/vp/BASELINE.json"))
                    st = stable.get("stable") or stable.get("passed") or stable.get("tests")
                    bad = [x for x in st if x not in j["passed"]] if st else "?"
                    tests = "build %d, broken tests %s" % (b.returncode, bad)
                finally:
                    sh(["git", "-C", "/repo", "checkout", "--", "."])
            c = sh([sys.executable, HERE + "/check.py", s["property"]], env=dict(os.environ, VERIF_REPO=w + "/repo"))
            print("%s %s: demo %d -> %d; %s; check %s %s" % ("OK  " if ok and c.returncode == 1 and "0, broken tests []" in tests else "BAD ", s["id"], r0.returncode, r1.returncode, tests, s["property"], {1: "caught", 0: "MISSED"}.get(c.returncode, "ERROR")), flush=True)
            if not ok: print(r0.stdout[-800:], "----", r1.stdout[-1500:])
        finally:
            shutil.rmtree(w)
main()
