#!/usr/bin/env python3
"""Developer tool: rewrites the "fixed:" lines of known_findings.txt from the fix commits in /repo (never run by a check)."""
import subprocess, re, os
H = os.path.dirname(os.path.abspath(__file__)) + "/.."
BASE = "516e009"
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=@%h %s", "--name-only", BASE + ".."], text=True)
DIRS = {"array": "C02", "deque": "C03", "map": "C01", "bytebuffer": "C06", "tuple": "C07", "tree": "C08", "variant": "C09", "bistack": "C10", "region": "C10", "objpool": "C11", "mempool": "C12", "math": "C16", "msg_span": "C21", "plugins": "C22", "str": "C04", "mtwister": "C28", "msg_sys": "C21"}
RULES = [("string_new reports|write_utf8_str adds all|mempool.*failed alloc|replace_cstr: report a failed|tuple_init: report|out of memory during a lookup|failed allocation while changing|multi_recalloc: leave every|replace_range: leave the text unchanged when memory|element cannot be copied|ignores? .*alloc|memory runs out|no memory|failed alloc", "C23"),
 ("shared its indentation", "C29"), ("log tables|log table|logarithm tables|byte masks|smallest integer negated|character count of the smallest", "C25"), ("tail of a singly", "C27"),
 ("harbol_recalloc: do not leak", "C24"), ("array_shift_up|harbol_recalloc|multi_recalloc|dup_cstr|sprintf_alloc|resize_string", "C26"), ("make_buffer", "C15"), ("count_cstr|cstr_offsets|scan accept", "C05"),
 ("octal_escape|unicode_char", "C14"), ("convert_runes_to_base", "C13"), ("rune|utf8", "C15"), ("number|scanners? (accept|swallow|leave|take)|hex scan|octal|binary|convert_|decimal", "C13:lex/"), ("", "C14:lex/"),
 ("written unreadably|build_file", "C19"), ("key paths|setting or evaluating|its own text", "C20"), ("crash|leaked|overflowed the stack", "C18:cfg/"), ("", "C17:cfg/")]
out = []
for block in log.split("@")[1:]:
    lines = [l for l in block.strip().split("\n") if l]; h, msg = lines[0].split(" ", 1); files = lines[1:]
    if not msg.startswith("fix:"): continue
    msg = msg[5:]; pid = None
    for pat, p in RULES:
        p, _, pre = p.partition(":")
        if pre and not any(f.startswith(pre) for f in files): continue
        if not pat and not pre: continue
        if re.search(pat, msg): pid = p; break
    own = re.search(r"\((C\d\d)\)", msg)
    if own: pid = own.group(1)
    if not pid: pid = DIRS.get(os.path.dirname(files[0]).split("/")[-1], "C26")
    out.append(f"fixed: property={pid} {h} {msg}")
p = H + "/known_findings.txt"
keep = [l.rstrip("\n") for l in open(p)] if os.path.exists(p) else []
keep = [l for l in keep if not l.startswith("fixed:")]
if not keep: keep = ["# known: property=<id> probe=<name> <what fails>    (the check runs the probe and prints KNOWN-FINDING)", "# fixed: property=<id> <commit> <what failed>         (suppresses nothing)"]
open(p, "w").write("\n".join(keep + out) + "\n"); print(len(out))
