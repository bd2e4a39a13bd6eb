#!/usr/bin/env python3
"""Nothing is installed: checks that the tools the harnesses need are present."""
import os, shutil, subprocess, sys, tempfile
if not shutil.which("g++"): sys.exit("g++ missing")
d = tempfile.mkdtemp()
try:
    open(d + "/a.cpp", "w").write("#include <boost/version.hpp>\nint main(){}\n")
    for f in ([], ["-fsanitize=address,undefined"], ["-fsanitize=thread"]):
        subprocess.check_call(["g++", *f, d + "/a.cpp", "-o", d + "/a", "-lboost_thread", "-lboost_system", "-lpthread"])
finally: shutil.rmtree(d)
print("ok")
