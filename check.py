#!/usr/bin/env python3
"""Run one property check.

  check.py ID [--tier quick|thorough] [--replay FILE] [--facet NAME] [--scale X]

Builds the harness for property ID (checks/ID*.cpp), the engine (harness/) and the
library sources of the current /repo working tree, in a scratch directory of its own,
runs the generated-input search, and writes evidence/ID.json.

exit 0: the property held on everything explored (listed findings are printed)
exit 1: VIOLATION line printed, with the minimal reproduction in a replay file
exit 2: the check itself could not run
"""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

BASE = ["-g1", "-fno-omit-frame-pointer", "-w", "-D_GLIBCXX_ASSERTIONS"]
# Harness translation units (they instantiate the library's templates, and come first on the
# link line, so that their instrumented instantiations are the ones kept).
HARNESS = {"asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
           "thread": ["-O1", "-fsanitize=thread"]}
# Library translation units (format.cpp and xchar.cpp are large; this is what keeps a check under a minute).
LIBRARY = {"asan": ["-O0", "-fsanitize=address", "-funreachable-traps"],
           "thread": ["-O0", "-fsanitize=thread", "-funreachable-traps"]}
LINK = {"asan": ["-fsanitize=address,undefined"], "thread": ["-fsanitize=thread"]}
# "src": which library sources the harness needs; when that does not link, all are used.
DEFAULT = {"std": "gnu++20", "san": "asan", "assume": [], "src": "all-but-xchar"}
GROUPS = {
    "none": lambda f: False,
    "utf": lambda f: "/utf/" in f,
    "container": lambda f: f.endswith("/container.cpp"),
    "all-but-xchar": lambda f: not f.endswith("/xchar.cpp"),
    "all": lambda f: True,
}
# per-property deviations from the default build
CONFIG = json.load(open(os.path.join(HERE, "checks", "config.json")))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(pid, tmp):
    cfg = dict(DEFAULT)
    cfg.update(CONFIG.get(pid, {}))
    san = cfg["san"]
    cxx = cfg.get("cxx", "g++")
    common = [cxx, "-std=" + cfg["std"]] + BASE + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")] + cfg.get("flags", [])
    srcs = sorted(glob.glob(os.path.join(HERE, "checks", pid + "*.cpp")))
    if not srcs:
        print("no harness for", pid)
        sys.exit(2)
    lib = []
    for root, _, files in sorted(os.walk(os.path.join(REPO, "src"))):
        lib += [os.path.join(root, f) for f in sorted(files) if f.endswith(".cpp")]
    need = GROUPS[cfg["src"]]
    done = {}

    def one(job):
        s, flags = job
        o = os.path.join(tmp, "o%d_%s.o" % (abs(hash(s)) % 10**9, os.path.basename(s)))
        r = run(common + flags + ["-c", s, "-o", o])
        return s, o, r

    def compile_all(jobs):
        # the big ones first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**7 if j[0].endswith(("/xchar.cpp", "/format.cpp")) else 0))
        with ThreadPoolExecutor(8) as ex:
            for s, o, r in ex.map(one, jobs):
                if r.returncode != 0:
                    print("build failed for", s)
                    print(r.stdout[-6000:])
                    sys.exit(2)
                done[s] = o

    engine = os.path.join(HERE, "harness", "vpbt.cpp")
    compile_all([(s, HARNESS[san]) for s in srcs] + [(engine, ["-O1"])] + [(s, LIBRARY[san]) for s in lib if need(s)])
    exe = os.path.join(tmp, "harness")

    def link():
        objs = [done[s] for s in srcs] + [done[engine]] + [done[s] for s in lib if s in done]
        return run([cxx] + LINK[san] + objs + ["-o", exe, "-lpthread"] + cfg.get("libs", []))

    r = link()
    if r.returncode != 0 and any(s not in done for s in lib):
        print("note: using all library sources")
        compile_all([(s, LIBRARY[san]) for s in lib if s not in done])
        r = link()
    if r.returncode != 0:
        print("link failed")
        print(r.stdout[-6000:])
        sys.exit(2)
    return exe, cfg


def known_findings():
    """known_findings.txt lines: 'known: property=<id> demo=<name> <what fails>' or 'fixed: ...'."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                w = line.split()
                prop = w[1].split("=", 1)[1]
                demo = w[2].split("=", 1)[1]
                out[(prop, demo)] = " ".join(w[3:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--cap")
    a = ap.parse_args()
    pid = a.property
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        exe, cfg = build(pid, tmp)
        t_build = time.time() - t0
        scratch = os.path.join(tmp, "scratch")
        os.mkdir(scratch)
        env = dict(os.environ, LC_ALL="C", TMPDIR=scratch, VP_SCRATCH=scratch)
        if a.replay:
            r = run([exe, "--replay", os.path.abspath(a.replay), "--tmp", tmp], env=env, cwd=scratch)
            print(r.stdout)
            return r.returncode
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(os.path.join(rdir, pid + "-*.replay")):
            os.remove(old)
        res = os.path.join(tmp, "res.json")
        cap = a.cap or ("150" if a.tier == "quick" else "600")
        cmd = [exe, "--property", pid, "--tier", a.tier, "--seed", str(seed), "--out", res, "--replay-dir", rdir,
               "--tmp", tmp, "--scale", a.scale, "--cap", cap]
        if a.facet:
            cmd += ["--facet", a.facet]
        r = run(cmd, env=env, cwd=scratch)
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1, 2) or not os.path.exists(res):
            print("harness failed with exit status", r.returncode)
            return 2
        j = json.load(open(res))
        listed = known_findings()
        rc = 0
        violations = 0
        for d in j["demos"]:
            name, path, msg = d.split("\t", 2)
            if (pid, name) in listed:
                print("KNOWN-FINDING: property=%s %s" % (pid, listed[(pid, name)]))
                os.remove(path)
            else:
                print("regression demonstration %s fails: %s" % (name, msg[:600]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                rc = 1
                violations += 1
        if j["violation_file"]:
            print("VIOLATION property=%s replay=%s" % (pid, j["violation_file"]))
            rc = 1
            violations += 1
        elif r.returncode != 0 and rc == 0:
            rc = 2
        samples = []
        for f in j["facets"]:
            for s in f.pop("samples"):
                samples.append("%s: %s" % (f["name"], s))
        ev = {
            "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(f["cases"] for f in j["facets"]),
                "distinct_nontrivial": j["distinct_nontrivial"],
                "rule": "Each case is a choice sequence from a PRNG seeded by (VERIF_SEED, facet, case index). Non-trivial, per facet: "
                        + "; ".join("%s: %s" % (f["name"], f["rule"]) for f in j["facets"]),
                "samples": samples or ["(stopped at a violation before samples were collected)"],
                "facets": j["facets"],
                "regression_demonstrations_run": j["demos_run"],
                "stopped_by_time_cap": j["timed_out"],
            },
            "assumptions": cfg.get("assume", []) + ["Built from the current tree with %s, asserts and libstdc++ assertions on; the search does not establish absence." % ("ThreadSanitizer" if cfg.get("san") == "thread" else "Address- and UndefinedBehaviorSanitizer")],
            "wall_s": round(time.time() - t0, 2),
            "build_s": round(t_build, 2),
            "violations": violations,
        }
        if j["inconclusive"]:
            ev["coverage"]["inconclusive"] = j["inconclusive"]
        if not a.facet:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs%s" % (
            pid, a.tier, seed, ev["coverage"]["evaluations"], j["distinct_nontrivial"], t_build, ev["wall_s"],
            " (time cap reached)" if j["timed_out"] else ""))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
