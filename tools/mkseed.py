"""Helper that writes seeded/<id>/ from an edit of the headers and a demo."""
import json, os, subprocess, shutil, tempfile
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_SH = '''#!/bin/bash
# cwd: the repository.  Exit 0 if the property held in the demonstration.
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$out"' EXIT
%(cxx)s %(flags)s -w -I"$PWD/include" "$here/demo.cc" -o "$out/demo" || exit 2
cd "$out" && timeout 120 ./demo
'''
REPO = os.environ.get("VERIF_REPO", "/repo")
def full(path):
    return path if path.startswith("tools/") else "include/cista/" + path
def seed(i, prop, needs, breaks, edits, demo, cxx="clang++",
         flags="-std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr,function", sh=None):
    base = "157630b"
    tmp = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", REPO, tmp + "/r"])
    for path, old, new in edits:
        p = tmp + "/r/" + full(path)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (i, path, s.count(old))
        orig = subprocess.run(["git", "-C", tmp + "/r", "show", base + ":" + full(path)],
                              capture_output=True, text=True).stdout.splitlines()
        import difflib
        s2 = s.replace(old, new)
        gone = [l[2:] for l in difflib.ndiff(s.splitlines(), s2.splitlines()) if l.startswith("- ")]
        assert gone, (i, "no line changed")
        for l in gone:
            assert l in orig, (i, "not an original line: " + l)
        open(p, "w", newline="").write(s2)
    d = os.path.join(SEEDED, i)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"])
    open(d + "/patch.diff", "wb").write(diff)
    if demo:
        open(d + "/demo.cc", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(sh or DEMO_SH % {"cxx": cxx, "flags": flags})
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # quick local trial
    r = []
    for tree in (REPO, tmp + "/r"):
        x = subprocess.run(["bash", d + "/demo.sh"], cwd=tree, capture_output=True, text=True)
        r.append(x.returncode)
    shutil.rmtree(tmp)
    print(i, prop, "demo clean/patched:", r, "" if r[0] == 0 and r[1] not in (0,) else "  <-- BAD", x.stdout[-200:], x.stderr[-300:] if r[1]==2 else "")
