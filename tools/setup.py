#!/usr/bin/env python3
"""nothing is to be installed: every check builds what it needs. This one makes
sure that the compiler and its sanitizers work here."""
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    s = os.path.join(d, "t.cpp")
    open(s, "w").write("#include <thread>\nint main(){ std::thread t([]{}); t.join(); return 0; }\n")
    for san in ("address", "address,undefined"):
        x = os.path.join(d, "t")
        subprocess.check_call(["g++", "-std=gnu++17", "-pthread", "-fsanitize=" + san, s, "-o", x])
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        subprocess.check_call([x], env=env)
print("ok")
