#!/usr/bin/env python3
"""Runs one property's check: builds the harness with /repo's current sources in several instrumented
variants, drives the workload in parallel, and turns what the monitors report into a verdict.
usage: run.py C01        (VERIF_SEED, VERIF_TIER in the environment; VF_REPO overrides /repo for experiments)
exit 0 held / 1 violation / 2 inconclusive or harness error"""
import sys, os, re, json, time, shutil, subprocess, tempfile, struct, glob, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
REPO = os.environ.get("VF_REPO", "/repo")
NCPU = int(os.environ.get("VF_JOBS", "8"))
WRAPS = ["malloc", "calloc", "realloc", "free", "rand", "srand", "time"]
UB = "-fsanitize=undefined -fno-sanitize=function,nonnull-attribute,returns-nonnull-attribute,pointer-overflow,alignment -fno-sanitize-recover=all".split()
VARIANTS = {
    # name: (compiler, instrumentation flags, environment)
    "asan":  ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"] + UB,
              {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:exitcode=99:detect_stack_use_after_return=1:quarantine_size_mb=16:malloc_context_size=5:print_legend=0",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}),
    "msan":  ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=0"],
              {"MSAN_OPTIONS": "allocator_may_return_null=1:max_allocation_size_mb=1024:exitcode=99"}),
    "tsan":  ("clang", ["-O0", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DVF_NOLEDGER"],
              {"TSAN_OPTIONS": "halt_on_error=1:exitcode=99:report_thread_leaks=0"}),
    "plain": ("gcc", ["-O2", "-g"], {}),
}
class HarnessError(Exception): pass
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
def lib_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d not in ("_build",))
        for f in sorted(files):
            if f.endswith(".c") and not f.startswith("test_"):
                out.append(os.path.join(root, f))
    if not out: raise HarnessError("no sources under " + REPO)
    return out
def build(spec, variants, work):
    srcs = lib_sources(); jobs = []
    with ThreadPoolExecutor(NCPU) as ex:
        for v in variants:
            cc, fl, _ = VARIANTS[v]; d = os.path.join(work, v); os.makedirs(d, exist_ok=True)
            for i, s in enumerate(srcs):
                # unoptimised for the race detector: an optimiser may remove a racing store to a static variable that the source really makes
                jobs.append((ex.submit(sh, [cc, "-std=c99", "-w", *fl, "-I", REPO, "-c", s, "-o", f"{d}/l{i}.o"]), s, v))
            for n, s in (("vf", f"{HERE}/lib/vf.c"), ("h", f"{HERE}/harness/{spec['harness']}")):
                jobs.append((ex.submit(sh, [cc, "-std=gnu11", "-w", *fl, *spec.get("cflags", []), "-I", f"{HERE}/lib", "-I", REPO, "-c", s, "-o", f"{d}/{n}.o"]), s, v))
            for s in spec.get("extra", []):
                n = os.path.basename(s).replace(".", "_")
                jobs.append((ex.submit(sh, [cc, "-std=gnu11", "-w", *fl, "-I", f"{HERE}/lib", "-I", REPO, "-c", f"{HERE}/harness/{s}", "-o", f"{d}/x{n}.o"]), s, v))
        for fut, s, v in jobs:
            r = fut.result()
            if r.returncode: raise HarnessError(f"compile failed [{v}] {s}\n" + r.stderr.decode(errors="replace")[-3000:])
            if b"warning" in r.stderr and os.environ.get("VF_VERBOSE"): sys.stderr.write(r.stderr.decode())
        wr = [f"-Wl,--wrap={w}" for w in WRAPS + spec.get("wraps", [])]
        links = []
        for v in variants:
            cc, fl, _ = VARIANTS[v]; d = os.path.join(work, v)
            objs = sorted(glob.glob(f"{d}/*.o"))
            links.append((ex.submit(sh, [cc, *fl, *objs, "-o", f"{d}/harness", *wr, "-rdynamic", "-lm", "-ldl", "-lpthread"]), v))
        for fut, v in links:
            r = fut.result()
            if r.returncode: raise HarnessError(f"link failed [{v}]\n" + r.stderr.decode(errors="replace")[-3000:])
def unusable(spec, variants, work, text):
    """The harness does not build against the library: is it because something the library's own headers offer cannot be used?"""
    m = re.match(r"compile failed \[(\w+)\] (\S+)", text)
    if m and m.group(2).endswith("/harness/" + spec["harness"]):
        cc, fl, _ = VARIANTS[m.group(1)]
        r = sh([cc, "-std=gnu11", "-w", *fl, *spec.get("cflags", []), "-DVF_NO_GENERICS", "-I", f"{HERE}/lib", "-I", REPO, "-fsyntax-only", m.group(2)])
        if r.returncode == 0: return "generic-unusable", "a type-generic call offered by the headers does not compile for a type it lists"
    if text.startswith("link failed"):
        syms = sorted(set(re.findall(r"undefined (?:reference to|symbol:?) [`']?(\w+)", text)))
        heads = "".join(open(os.path.join(d, f), errors="replace").read() for d, _, fs in os.walk(REPO) for f in fs if f.endswith(".h"))
        if syms and all(re.search(r"\b%s\s*\(" % re.escape(x), heads) for x in syms): return "declared-but-missing", "declared by the headers but defined nowhere: " + ", ".join(syms)
    return None
def env_for(v):
    e = {k: x for k, x in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    e["LC_ALL"] = "C"; e.update(VARIANTS[v][2]); return e
def limit_core():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (16 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
def execute(work, v, args, timeout, tag):
    scratch = os.path.join(work, "scratch-" + tag); os.makedirs(scratch, exist_ok=True)
    outp, errp = os.path.join(work, f"out-{tag}"), os.path.join(work, f"err-{tag}")
    with open(outp, "wb") as o, open(errp, "wb") as e:
        try:
            rc = subprocess.run([f"{work}/{v}/harness", *args, "--scratch", scratch], stdout=o, stderr=e, stdin=subprocess.DEVNULL,
                                env=env_for(v), cwd=scratch, timeout=timeout, preexec_fn=limit_core).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    def tail(p, n):
        with open(p, "rb") as f:
            f.seek(0, 2); s = f.tell(); f.seek(max(0, s - n)); return f.read().decode(errors="replace")
    res = rc, tail(outp, 1 << 20), tail(errp, 1 << 18)
    os.unlink(outp); os.unlink(errp); shutil.rmtree(scratch, ignore_errors=True)
    return res
def classify(rc, out, err):
    """-> ("ok", stats) | ("violation", sig, case, op, msg) | ("hang", ...) | ("error", text)"""
    if rc == 0:
        m = re.search(r"^VF-DONE (\{.*\})$", out, re.M)
        if m: return ("ok", json.loads(m.group(1)))
        if "VF-PROBE-OK" in out: return ("ok", None)
        return ("error", "no VF-DONE line (the process ended early with status 0)\n" + err[-1500:])
    m = re.search(r"VF-VIOLATION sig=(\S+) mode=(\S+) case=(\d+) op=(\d+) msg=(.*)", err)
    if m: return ("violation", m.group(1), int(m.group(3)), int(m.group(4)), m.group(5))
    c = re.search(r"VF-CRASH what=(\S+) mode=(\S+) case=(\d+) op=(\d+)", err)
    if c and c.group(1) == "hang": return ("hang", "hang", int(c.group(3)), int(c.group(4)), "operation did not finish within the CPU limit")
    san = re.search(r"(ERROR: (?:Address|Memory|Thread|Leak)Sanitizer:? \S+|WARNING: (?:Memory|Thread)Sanitizer: [^\n(]*|runtime error: [^\n]*)", err)
    fr = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) " + re.escape(REPO), err)
    if c or san:
        what = (san.group(1) if san else c.group(1)).replace(" ", "-")[:90]
        return ("violation", "crash:" + what + (":" + fr.group(1) if fr else ""), int(c.group(3)) if c else -1, int(c.group(4)) if c else -1,
                ((san.group(1) if san else c.group(1)) + (" in " + fr.group(1) if fr else "")))
    if rc == "timeout": return ("timeout", "wall-clock watchdog")
    if "VF-HARNESS" in err or rc == 3: return ("error", err[-1500:])
    if isinstance(rc, int) and rc < 0:
        if rc == -9: return ("error", "killed (out of memory?)\n" + err[-1500:])
        return ("violation", f"crash:signal{rc}", -1, -1, f"process killed by signal {-rc} (e.g. stack exhaustion)")
    return ("error", f"status {rc}\n" + err[-1500:])
def known_findings(pid):
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid: known.append((m.group(2), m.group(3)))
    return known
def main():
    pid = sys.argv[1]; spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time(); work = tempfile.mkdtemp(prefix=f"vf-{pid}-"); os.chmod(work, 0o711)
    try: return run(pid, spec, tier, seed, t0, work)
    except HarnessError as e:
        print(f"HARNESS-ERROR property={pid}: {e}"); return 2
    finally: shutil.rmtree(work, ignore_errors=True)
def run(pid, spec, tier, seed, t0, work):
    ti = 0 if tier == "quick" else 1
    plan = []   # (variant, mode, from, to)
    for mode, var in spec["modes"].items():
        base = 0
        for v, counts in var.items():
            n = counts[ti]; chunk = max(1, -(-n // (NCPU * (2 if ti == 0 else 6))))
            plan += [(v, mode, a, min(a + chunk, base + n)) for a in range(base, base + n, chunk)]
            base += n
    variants = sorted({p[0] for p in plan})
    unbuilt = None
    try: build(spec, variants, work)
    except HarnessError as e:
        u = unusable(spec, variants, work, str(e))
        if not u: raise
        unbuilt = (variants[0], "build", 0, ("violation", u[0], 0, 0, u[1]), str(e)); plan = []
    t_build = time.time() - t0
    # longest-running variants first
    plan.sort(key=lambda p: {"tsan": 0, "msan": 1, "asan": 2, "plain": 3}[p[0]])
    wall = 800 if tier == "quick" else 6 * 3600
    totals, counters, hashes, per_var = {"cases": 0, "trivial": 0, "ops": 0, "checks": 0}, {}, set(), {}
    found, errors, stop = unbuilt, [], unbuilt is not None
    def one(i):
        if stop: return None
        v, mode, a, b = plan[i]; hf = f"{work}/hash-{i}"
        args = ["--seed", str(seed), "--mode", mode, "--from", str(a), "--to", str(b), "--hashes", hf]
        return plan[i], classify(*execute(work, v, args, wall, str(i))), hf
    def confirm(v, mode, case, hang):
        args = ["--seed", str(seed), "--mode", mode, "--from", str(case), "--to", str(case + 1), "--trace"] + (["--cpu-scale", "3"] if hang else [])
        raw = execute(work, v, args, 300, f"confirm-{v}-{mode}-{case}")
        return classify(*raw), raw[2]
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(one, i) for i in range(len(plan))]
        for f in as_completed(futs):
            r = f.result()
            if r is None or found: continue
            (v, mode, a, b), res, hf = r
            if res[0] == "ok":
                s = res[1]
                if s is None: errors.append("no statistics"); continue
                for k in totals: totals[k] += s[k]
                for k, n in s["counters"].items(): counters[k] = counters.get(k, 0) + n
                pv = per_var.setdefault(v, {"cases": 0, "operations": 0}); pv["cases"] += s["cases"]; pv["operations"] += s["ops"]
                data = open(hf, "rb").read(); hashes.update(struct.unpack(f"<{len(data)//8}Q", data)); os.unlink(hf)
            elif res[0] in ("violation", "hang"):
                case = res[2]; trace = ""
                if case >= 0:
                    again, trace = confirm(v, mode, case, res[0] == "hang")
                    if again[0] in ("violation", "hang"): res = again
                    elif res[0] == "hang":
                        errors.append(f"inconclusive: case {mode}/{case} exceeded its CPU limit once but finished when re-run"); continue
                found = (v, mode, case, res, trace); stop = True
            else:
                errors.append(f"{v}/{mode} cases {a}..{b}: {res[0]}: {res[1]}")
                if res[0] != "timeout": stop = True
    wall_s = time.time() - t0
    known = known_findings(pid); known_lines = []
    if not found:
        for probe, text in known:
            v = spec.get("probe_variant", variants[0])
            res = classify(*execute(work, v, ["--seed", str(seed), "--probe", probe], 120, "probe-" + probe))
            if res[0] in ("violation", "hang"): known_lines.append(f"KNOWN-FINDING: property={pid} {probe}: {text}")
            elif res[0] == "ok": print(f"note: known finding {probe} of {pid} no longer reproduces")
            else: errors.append(f"probe {probe}: {res}")
    samples = []
    if not found:
        seen = set()
        for v, mode, a, b in plan:
            if mode in seen or len(samples) >= 4: continue
            seen.add(mode)
            raw = execute(work, v, ["--seed", str(seed), "--mode", mode, "--from", str(a), "--to", str(a + 1), "--trace"], 120, "sample-" + mode)
            ops = [l[3:] for l in raw[2].splitlines() if l.startswith("OP ")]
            samples.append({"mode": mode, "case": a, "operations": ops[:14], "operations_total": len(ops)})
    evid = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "wall_s": round(time.time() - t0, 2), "violations": 1 if found else 0,
        "assumptions": spec.get("assumptions", []),
        "coverage": {"evaluations": totals["cases"], "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples,
            "operations_monitored": totals["ops"], "oracle_checks": totals["checks"], "trivial_cases": totals["trivial"],
            "events": dict(sorted(counters.items())), "per_build_variant": per_var, "build_s": round(t_build, 1),
            "known_findings_reproduced": len(known_lines)}}
    EV = os.environ.get("VF_EVID", f"{HERE}/evidence"); os.makedirs(EV, exist_ok=True)
    if found:
        v, mode, case, res, trace = found
        rdir = f"{EV}/replay"; os.makedirs(rdir, exist_ok=True)
        rp = f"{rdir}/{pid}-{v}-{mode}-{case}.txt"
        with open(rp, "w") as f:
            f.write(f"property={pid} seed={seed} variant={v} mode={mode} case={case}\nsignature={res[1]}\nmessage={res[4]}\n"
                    f"replay: VERIF_SEED={seed} python3 replay.py {pid} {v} {mode} {case}\n\n{trace[-200000:]}\n")
        evid["coverage"]["samples"] = [{"violation": res[1], "message": res[4], "mode": mode, "case": case, "variant": v}]
    with open(f"{EV}/{pid}.json", "w") as f: json.dump(evid, f, indent=1)
    if found:
        print(f"{res[0]}: {res[1]}: {res[4]}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(rp, HERE)}"); return 1
    for l in known_lines: print(l)
    for k, n in spec.get("min_events", {}).items():
        if counters.get(k, 0) < n: errors.append(f"inconclusive: event '{k}' observed {counters.get(k,0)} times, need {n}")
    if errors:
        print(f"INCONCLUSIVE property={pid}: " + "; ".join(errors[:5])); return 2
    print(f"held: property={pid} tier={tier} seed={seed} cases={totals['cases']} distinct={len(hashes)} ops={totals['ops']} checks={totals['checks']} wall={wall_s:.1f}s")
    if os.environ.get("VF_VERBOSE"): print(json.dumps(evid["coverage"]["events"], indent=1))
    return 0
if __name__ == "__main__": sys.exit(main())
