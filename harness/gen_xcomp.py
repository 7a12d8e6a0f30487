"""The generated family of gen_types.py, with the type hashes another compiler computes.

usage: gen_xcomp.py SEED COUNT OUT
"""
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
out = sys.argv[-1]
subprocess.check_call([sys.executable, os.path.join(here, "gen_types.py"), *sys.argv[1:]])
with tempfile.TemporaryDirectory() as d:
    exe = os.path.join(d, "dump")
    subprocess.check_call(
        ["g++", "-std=c++17", "-O0", "-w", "-DCISTA_FNV1A=1", "-I" + os.path.join(repo, "include"), "-I" + here,
         '-DFAMILY_HEADER="%s"' % os.path.abspath(out), "-DDUMP_HASHES", os.path.join(here, "version.cc"), "-o", exe])
    hashes = subprocess.check_output([exe], text=True).split()
with open(out, "a") as f:
    f.write("#define OTHER_COMPILER \\\n" + "".join("  %sULL, \\\n" % h for h in hashes) + "\n")
