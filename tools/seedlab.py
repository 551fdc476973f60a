#!/usr/bin/env python3
"""Developer tool: turns bug descriptions into /verif/seeded/<id>/ after confirming them in scratch copies, and reports which checks catch them.
usage: seedlab.py FILE.py [id ...]   FILE defines BUGS = [dict(id, prop, edits=[(path, old, new)], demo="C source", needs, breaks, san=False)]
Never run by a check."""
import sys, os, subprocess, shutil, json, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; LAB = "/tmp/sl"; BASE = "516e009"
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#define NEED(c) do { if( !(c) ) { fprintf(stderr, "demo: line %d: %s\\n", __LINE__, #c); exit(1); } } while( 0 )
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy(d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r = sh(f"git -C /repo archive HEAD | tar -x -C {d}"); assert r.returncode == 0, r.stdout
def demo_sh(b):
    fl = "-fsanitize=address,undefined -fno-sanitize=alignment,pointer-overflow,nonnull-attribute -fno-sanitize-recover=all -fno-omit-frame-pointer" if b.get("san") else b.get("cflags", "")
    fl += " " + b.get("cflags2", "")
    return f'''#!/bin/bash
# run in the repository; builds the demonstration with the repository's sources in its own scratch directory
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p /tmp/vf-demo-{b["id"]}
gcc -std=gnu11 -w -O1 -g {fl} -I. "$D/demo.c" $(find . -name '*.c' ! -name 'test_*' ! -path './_build/*') -rdynamic -o /tmp/vf-demo-{b["id"]}/demo -lm -ldl -lpthread || exit 3
( cd /tmp/vf-demo-{b["id"]} && ASAN_OPTIONS=detect_leaks={1 if b.get("leaks") else 0}:allocator_may_return_null=1 timeout 100 ./demo )
r=$?
rm -rf /tmp/vf-demo-{b["id"]}
exit $r
'''
def one(b):
    i = b["id"]; log = []; d = f"{LAB}/{i}"
    try:
        copy(d); sh(f"cd {d} && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x")
        for path, old, new in b["edits"]:
            s = open(f"{d}/{path}").read(); n = s.count(old)
            if n != 1: return i, "BAD-EDIT", f"{path}: {n} matches for {old[:60]!r}"
            open(f"{d}/{path}", "w").write(s.replace(old, new))
        patch = sh(f"git -C {d} diff").stdout
        # removed lines must be lines of the original repository
        ours = []
        for path in {e[0] for e in b["edits"]}:
            base = set(subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{path}"], stdout=subprocess.PIPE, text=True).stdout.split("\n"))
            cur = None
            for l in sh(f"git -C {d} diff -- {path}").stdout.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:] not in base: ours.append(l)
        s = f"{LAB}/{i}.seed"; shutil.rmtree(s, ignore_errors=True); os.makedirs(s)
        open(f"{s}/demo.c", "w").write(PRE + b["demo"]); open(f"{s}/demo.sh", "w").write(demo_sh(b)); os.chmod(f"{s}/demo.sh", 0o755); open(f"{s}/patch.diff", "w").write(patch)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{s}/meta.json", "w"), indent=1)
        clean = f"{LAB}/clean"
        r = sh(f"cd {clean} && bash {s}/demo.sh")
        if r.returncode: return i, "DEMO-FAILS-CLEAN", r.stdout[-600:]
        r = sh(f"cd {d} && bash {s}/demo.sh")
        if r.returncode == 0: return i, "DEMO-PASSES-PATCHED", ""
        if r.returncode == 3: return i, "NO-BUILD", r.stdout[-600:]
        dem = r.stdout.strip().split("\n")[-1][:100]
        r = sh(f"sed 's#/repo#{d}#g' /opt/vp/build.sh > {s}.b; sed 's#/repo#{d}#g' /opt/vp/test.sh > {s}.t; bash {s}.b && bash {s}.t {s}.json")
        if not os.path.exists(f"{s}.json"): return i, "NO-BUILD", r.stdout[-600:]
        t = r.stdout.strip().split("\n")
        if "34 passed" not in r.stdout: return i, "TESTS-FAIL", r.stdout[-300:]
        r = sh(f"cd {V} && VF_REPO={d} VF_EVID={s} python3 run.py {b['prop']}", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        last = [l for l in r.stdout.strip().split("\n")]
        caught = r.returncode == 1 and f"VIOLATION property={b['prop']}" in r.stdout
        res = "CAUGHT" if caught else f"MISSED(rc={r.returncode})"
        out = f"{V}/seeded/{i}"; shutil.rmtree(out, ignore_errors=True); shutil.copytree(s, out)
        return i, res, (last[0][:170] if caught else last[-1][:300]) + (f"  [ours: {ours[:2]}]" if ours else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for x in ("", ".b", ".t", ".json"):
            p = f"{LAB}/{i}.seed{x}"
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else (os.path.exists(p) and os.unlink(p))
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
want = sys.argv[2:]; bugs = [b for b in mod.BUGS if not want or b["id"] in want]
os.makedirs(LAB, exist_ok=True); copy(f"{LAB}/clean")
with ThreadPoolExecutor(3) as ex:
    for i, res, note in ex.map(one, bugs): print(f"{i:24} {res:20} {note}", flush=True)
