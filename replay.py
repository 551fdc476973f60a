#!/usr/bin/env python3
"""Replays one case with its operation trace: replay.py ID VARIANT MODE CASE (seed from VERIF_SEED)."""
import sys, os, tempfile, shutil
sys.argv, a = [sys.argv[0]], sys.argv[1:]
import run
w = tempfile.mkdtemp(prefix="vf-replay-")
try:
    run.build(run.CHECKS[a[0]], [a[1]], w)
    args = ["--seed", os.environ.get("VERIF_SEED", "1")] + (["--probe", a[3]] if a[2] == "probe" else ["--mode", a[2], "--from", a[3], "--to", str(int(a[3]) + 1)]) + ["--trace"]
    rc, out, err = run.execute(w, a[1], args, 600, "replay")
    sys.stdout.write(out + err[-40000:]); print("status", rc)
finally: shutil.rmtree(w, ignore_errors=True)
