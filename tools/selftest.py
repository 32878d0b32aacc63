#!/usr/bin/env python3
"""Setup: check that the compilers and sanitizers the monitors need are there."""
import os, subprocess, sys, tempfile
ok = True
with tempfile.TemporaryDirectory(prefix="mon-setup-") as d:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("#include <string>\n#include <thread>\nint main(){ std::string s(3, 'x'); std::thread t([&]{ s += 'y'; }); t.join(); return s.size() != 4; }\n")
    for comp in ("g++", "clang++"):
        for flags in ([], ["-fsanitize=address,undefined"], ["-fsanitize=thread"]) + (([ "-fsanitize=memory"],) if comp == "clang++" else ()):
            exe = os.path.join(d, "a")
            r = subprocess.run([comp, "-std=c++14", "-pthread"] + flags + [src, "-o", exe])
            r2 = subprocess.run([exe], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")) if r.returncode == 0 else r
            print(comp, " ".join(flags), "ok" if r2.returncode == 0 else "FAILED (%d)" % r2.returncode)
            ok = ok and r2.returncode == 0
sys.exit(0 if ok else 1)
