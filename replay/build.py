#!/usr/bin/env python3
"""build.py MODULE.ll EXE: the module as a native program under replay/rt.c's scheduler."""
import os, re, subprocess, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
src, exe = sys.argv[1:3]
NAMES = ["pthread_create", "pthread_join", "pthread_self", "gettid", "nanosleep", "clock_nanosleep", "sched_yield", "clock_gettime", "getrandom", "syscall", "pthread_key_create", "getenv", "sysconf", "dlsym"]
ZERO = ["pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setstacksize", "pthread_setname_np", "pthread_detach", "pthread_setspecific", "pthread_key_delete",
        "__cxa_thread_atexit_impl", "sigaltstack", "pthread_getattr_np", "pthread_attr_getguardsize", "pthread_attr_getstack"]
rx = re.compile(r"@(%s)\b(?=[(,) ]|$)" % "|".join(NAMES + ZERO))
at = re.compile(r"^\s+(%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg|load volatile atomic)\b")
decl, out = set(), []
for l in open(src, errors="surrogateescape"):
    if "@" in l:
        l = l.replace("@llvm.x86.sse2.pause(", "@__rt_pause(")
        l = rx.sub(lambda m: "@rt_" + m.group(1), l)
        if l.startswith("declare") and ("@__rt_pause(" in l):
            continue
    out.append(l)
    if at.match(l):
        out.append("  call void @__rt_point()\n")
out.append("declare void @__rt_point()\ndeclare void @__rt_pause()\n")
ll = exe + ".ll"
open(ll, "w", errors="surrogateescape").writelines(out)
llc = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/llc"))[0]
c = open(os.path.join(here, "rt.c")).read()
c += "".join(f"\nint rt_{n}(void) {{ return 0; }}" for n in ZERO)
open(exe + ".c", "w").write(c)
for cmd in ([llc, "-O0", "--relocation-model=pic", "-filetype=obj", ll, "-o", exe + ".o"],
            ["gcc", "-O1", "-w", "-rdynamic", exe + ".c", exe + ".o", "-o", exe, "-lpthread", "-ldl", "-lm", "-lgcc_s"]):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.exit(p.stdout[-3000:])
for x in (ll, exe + ".o", exe + ".c"):
    os.unlink(x)
