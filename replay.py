#!/usr/bin/env python3
"""replay.py ID HARNESS CHOICES [--unit=N] [--thorough]: rebuilds the harness from /repo and re-executes one recorded execution, printing its trace."""
import os, shutil, subprocess, sys, tempfile
from check import build, sh, ENV, PROPS
pid, name, choices = sys.argv[1:4]
P = next(p for p in PROPS if p["id"] == pid)
work = tempfile.mkdtemp(prefix="verif-replay-")
try:
    for i, u in enumerate(P["units"]):
        if any(a.startswith("--unit=") and a != "--unit=%d" % i for a in sys.argv):
            continue
        exe = build(u, "%s/u%d" % (work, i))
        if name in sh([exe, "--list"], env=ENV).stdout.split():
            sys.exit(subprocess.run([exe, "--harness", name, "--replay", choices, "--tmp", work] + (["--thorough"] if "--thorough" in sys.argv else []), env=dict(ENV, VERIF_SCRATCH=work), cwd=work).returncode)
    sys.exit("no such harness")
finally:
    shutil.rmtree(work, ignore_errors=True)
