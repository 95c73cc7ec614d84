#!/usr/bin/env python3
"""checks that the toolchain the checks rely on works offline (nothing is installed)"""
import subprocess, sys, tempfile, os
ok = True
for cxx, fl in (("g++", "-fsanitize=address,undefined"), ("clang++", "-fsanitize=address,undefined"), ("clang++", "-fsanitize=thread")):
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "a.cpp"); exe = os.path.join(d, "a")
        open(src, "w").write("#include <string>\nint main(){return std::string(\"x\").size()==1?0:1;}\n")
        for cmd in ([cxx, fl, src, "-o", exe], [exe]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                ok = False; print("setup:", " ".join(cmd), "failed:", r.stdout.decode(errors="replace")[-500:])
sys.exit(0 if ok else 1)
