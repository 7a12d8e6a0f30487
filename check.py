#!/usr/bin/env python3
"""Builds and runs the generated-input check(s) of one property.

usage: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]
                   [--only TARGET] [--scale X] [--keep]
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run (e.g. the tree does not compile).
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = {"clang": "clang++", "gcc": "g++"}
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=vptr,function"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
BASE = ["-gline-tables-only", "-fno-omit-frame-pointer", "-w",
        "-DFMT_HEADER_ONLY", "-I" + os.path.join(REPO, "include"),
        "-I" + HARNESS]


def san_for(b):
    san = list(SAN[b.get("san", "asan")])
    if b.get("cxx", "clang") == "gcc":
        san = [x.replace("vptr,function", "vptr") for x in san]
    return san


def flags_for(b):
    f = ["-std=" + b.get("std", "c++17"), b.get("opt", "-O1")] + BASE
    if b.get("cxx", "clang") == "gcc":
        f = [x for x in f if x != "-gline-tables-only"] + ["-g1"]
    f += san_for(b)
    f += ["-D" + d for d in b.get("defs", ["CISTA_FNV1A=1"])]
    f += [x.replace("$REPO", REPO) for x in b.get("flags", [])]
    return f


def build(pid, bins, outdir, seed):
    """Compiles every translation unit of the check in parallel."""
    procs, mains, ok, nobuild = [], {}, True, []
    for b in bins:
        f = flags_for(b)
        cxx = CXX[b.get("cxx", "clang")]
        key = (cxx,) + tuple(SAN[b.get("san", "asan")])
        if key not in mains:
            o = os.path.join(outdir, "main%d.o" % len(mains))
            mains[key] = o
            procs.append((o, subprocess.Popen(
                [cxx, *f, "-c", os.path.join(HARNESS, "pbt_main.cc"), "-o", o],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if "gen" in b:  # generated header
            h = os.path.join(outdir, b["name"] + "_gen.h")
            r = subprocess.run(
                [sys.executable, os.path.join(HARNESS, b["gen"][0]),
                 *[str(x).replace("$SEED", str(seed)) for x in b["gen"][1:]], h],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print("GENERATOR-ERROR %s\n%s" % (b["name"], r.stdout[-3000:]))
                ok = False
                continue
            f = f + ['-DFAMILY_HEADER="%s"' % h]
        o = os.path.join(outdir, b["name"] + ".o")
        b["_o"], b["_main"], b["_cmd"] = o, key, [cxx, *f]
        procs.append((o, subprocess.Popen(
            [cxx, *f, "-c", os.path.join(HARNESS, b["src"]), "-o", o],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for o, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            b = next((b for b in bins if b.get("_o") == o), None)
            if b is not None and "control" in b and builds_without(b, outdir):
                nobuild.append((b, out))
            else:
                ok = False
            print("BUILD-ERROR %s\n%s" % (o, out[:6000]))
    if ok and nobuild:
        return report_nobuild(pid, nobuild, seed)
    if not ok:
        return False
    for b in bins:
        b["_bin"] = os.path.join(outdir, b["name"])
        r = subprocess.run(
            [CXX[b.get("cxx", "clang")], *san_for(b), b["_o"],
             mains[b["_main"]], "-o", b["_bin"], "-lpthread",
             *b.get("libs", [])],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print("LINK-ERROR %s\n%s" % (b["name"], r.stdout[:6000]))
            return False
    return True


def builds_without(b, outdir):
    """For generated programs: does the program compile without the calls
    under test?  (Then that it does not compile with them breaks the property.)"""
    r = subprocess.run(
        [*b["_cmd"], "-D" + b["control"], "-c", os.path.join(HARNESS, b["src"]),
         "-o", os.path.join(outdir, "control.o")],
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return r.returncode == 0


def report_nobuild(pid, nobuild, seed):
    for b, out in nobuild:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-nobuild.replay" % (pid, b["name"]))
        with open(p, "w") as f:
            f.write("seed %d\n# does not compile: %s\n# %s\n" % (
                seed, " ".join(map(str, b.get("gen", []))),
                "\n# ".join(out.splitlines()[:40])))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    return "nobuild"


def known_findings(pid):
    """{(probe name): text} of the known findings listed for this property."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                probe, text = rest.split(" ", 1)
                res[probe[len("probe="):]] = text
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", default="1.0")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    spec = CHECKS[a.pid]
    if a.replay:  # generated sources depend on the seed
        for line in open(a.replay):
            if line.startswith("seed "):
                a.seed = int(line.split()[1])
    bins = [dict(b) for b in spec["bins"]
            if a.tier == "thorough" or not b.get("thorough_only")]
    outdir = tempfile.mkdtemp(prefix="cista-%s-" % a.pid)
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        env.pop(k, None)
    env["TSAN_OPTIONS"] = "exitcode=99 halt_on_error=1"
    env["PBT_REPO"] = REPO
    if spec.get("schedule"):  # failures may depend on the schedule
        env["PBT_SCHED"] = "1"
    try:
        built = build(a.pid, bins, outdir, a.seed)
        if built == "nobuild":
            return 1
        if not built:
            print("ERROR: property=%s harness does not build against the tree"
                  % a.pid)
            return 2
        t_build = time.time() - t0
        if a.replay:
            rc = 3
            for b in bins:
                r = subprocess.run([b["_bin"], "--replay", a.replay], env=env)
                if r.returncode in (0, 1):
                    rc = r.returncode
                    break
            return rc
        replay_dir = os.path.join(VERIF, "evidence", "replay", a.pid)
        shutil.rmtree(replay_dir, ignore_errors=True)
        os.makedirs(replay_dir, exist_ok=True)
        results, failures = [], []
        known = known_findings(a.pid)
        truncated = False
        for b in bins:
            rj = os.path.join(outdir, b["name"] + ".json")
            deadline = 500 if a.tier == "quick" else 3 * 3600
            cmd = [b["_bin"], "--tier", a.tier, "--seed", str(a.seed), "--out",
                   rj, "--replay-dir", replay_dir, "--scale", a.scale,
                   "--deadline", str(max(30, int(deadline - (time.time() - t0))))]
            if a.only:
                cmd += ["--only", a.only]
            r = subprocess.run(cmd, env=env)
            if r.returncode not in (0, 1) or not os.path.exists(rj):
                print("ERROR: property=%s runner %s ended with %d" %
                      (a.pid, b["name"], r.returncode))
                return 2
            res = json.load(open(rj))
            truncated = truncated or res["truncated"]
            for t in res["targets"]:
                t["binary"] = b["name"]
            results += res["targets"]
            failures += res["failures"]
            if failures and not os.environ.get("PBT_KEEP_GOING"):
                break
        # probes: targets named known_<x>; a failing probe is a known finding
        for b in bins:
            for probe in b.get("probes", []):
                r = subprocess.run(
                    [b["_bin"], "--replay",
                     os.path.join(VERIF, "probes", probe + ".replay")],
                    env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True)
                if r.returncode == 1 and probe in known:
                    print("KNOWN-FINDING: property=%s %s" %
                          (a.pid, known[probe]))
                elif r.returncode == 1:
                    failures.append({"target": probe, "message": r.stdout[-500:],
                                     "replay": os.path.join(VERIF, "probes", probe + ".replay")})
        wall = time.time() - t0
        ev = {
            "property": a.pid, "tier": a.tier, "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": sum(t["evaluations"] for t in results),
                "distinct_nontrivial": sum(t["distinct_nontrivial"] for t in results),
                "rule": spec["rule"],
                "samples": [t["name"] + ": " + s for t in results
                            for s in t["samples"]][:24] or ["(none)"],
                "targets": [{k: t[k] for k in
                             ("name", "binary", "planned", "evaluations",
                              "distinct_nontrivial", "unreproduced", "labels")}
                            for t in results],
                "stopped_early_by_deadline": truncated,
                "build_s": round(t_build, 1),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 1),
            "violations": len(failures),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not a.only:
            with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print("property=%s tier=%s seed=%d cases=%d nontrivial=%d build=%.0fs "
              "wall=%.0fs" % (a.pid, a.tier, a.seed,
                              ev["coverage"]["evaluations"],
                              ev["coverage"]["distinct_nontrivial"], t_build,
                              wall))
        for f in failures:
            print("  %s: %s" % (f["target"], f["message"]))
            print("VIOLATION property=%s replay=%s" % (a.pid, f["replay"]))
        return 1 if failures else 0
    finally:
        if not a.keep:
            shutil.rmtree(outdir, ignore_errors=True)
        else:
            print("kept", outdir)


if __name__ == "__main__":
    sys.exit(main())
