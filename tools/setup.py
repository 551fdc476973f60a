#!/usr/bin/env python3
"""Framework self-test: the instrumented builds work offline and a deliberately broken program is caught by each."""
import subprocess, tempfile, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run
BAD = {"asan": "int main(int c,char**v){char*p=malloc(4);p[c+3]=1;free(p);return 0;}",
       "msan": "int main(int c,char**v){int*p=malloc(16);if(p[c]==7)puts(\"x\");free(p);return 0;}",
       "tsan": "static int g;static void*f(void*a){g++;return a;}int main(){pthread_t a,b;pthread_create(&a,0,f,0);pthread_create(&b,0,f,0);pthread_join(a,0);pthread_join(b,0);return 0;}",
       "plain": "int main(int c,char**v){abort();}"}
ok = True
with tempfile.TemporaryDirectory(prefix="vf-setup-") as d:
    for v, (cc, fl, env) in run.VARIANTS.items():
        src = f"{d}/{v}.c"; open(src, "w").write("#include <stdlib.h>\n#include <stdio.h>\n#include <pthread.h>\n" + BAD[v])
        r = subprocess.run([cc, *[f for f in fl if not f.startswith("-DVF")], src, "-o", f"{d}/{v}", "-lpthread"], capture_output=True)
        if r.returncode: print("build failed", v, r.stderr.decode()); ok = False; continue
        r = subprocess.run([f"{d}/{v}"], capture_output=True, env=run.env_for(v), preexec_fn=run.limit_core)
        print(f"{v}: planted error {'caught' if r.returncode else 'MISSED'}"); ok &= r.returncode != 0
sys.exit(0 if ok else 1)
