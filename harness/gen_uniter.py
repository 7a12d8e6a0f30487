"""Builds the uniter, and a header that says where it is.  usage: gen_uniter.py OUT"""
import os
import subprocess
import sys

repo = os.environ.get("VERIF_REPO", "/repo")
out = os.path.abspath(sys.argv[-1])
subprocess.check_call(["g++", "-std=c++17", "-O1", "-w", os.path.join(repo, "tools/uniter/uniter.cc"), "-o", out + ".exe"])
with open(out, "w") as f:
    f.write('#define UNITER_EXE "%s.exe"\n' % out)
