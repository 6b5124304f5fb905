#!/usr/bin/env python3
"""Build and run one check:  check.py <property id> [--tier quick|thorough] [--suite NAME] [--replay FILE]

Compiles /repo's current sources (headers and code/src/*.cc) with AddressSanitizer together with the
harness of the property, runs the exhaustive exploration, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: error of the check.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = "clang++-18"
FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize=return,unreachable,bounds",
         "-fno-sanitize-recover=all", "-Wno-everything", "-I", os.path.join(REPO, "code/include"), "-I", os.path.join(VERIF, "mc"),
         "-I", os.path.join(VERIF, "harness")]
# Checks that observe memory accesses: the library and the harness get the access instrumentation of the compiler, mc/monitor.cc what it calls.
PLAIN = [f for f in FLAGS if not f.startswith(("-fsanitize", "-fno-sanitize"))] + ["-DMC_NO_ASAN"]
WATCHED = PLAIN + ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
CACHE = os.path.join(VERIF, "build", "cache")


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def compile_one(src, flags, headers):
    """Compile src, reusing an object of identical source, headers and flags (content hash)."""
    key = digest([src] + headers, " ".join(flags))
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj, ""


def prune_cache():
    objs = sorted(glob.glob(os.path.join(CACHE, "*")), key=os.path.getmtime)
    for o in objs[:-400]:
        try:
            os.unlink(o)
        except OSError:
            pass


def build(cfg, out):
    os.makedirs(CACHE, exist_ok=True)
    repo_h = sorted(glob.glob(os.path.join(REPO, "code/include/**/*"), recursive=True))
    repo_h = [h for h in repo_h if os.path.isfile(h)]
    # headers beside the sources, should there be any
    repo_h += sorted(glob.glob(os.path.join(REPO, "code/src/*.h")))
    my_h = sorted(glob.glob(os.path.join(VERIF, "mc/*.h")) + glob.glob(os.path.join(VERIF, "harness/*.h")))
    watched = cfg.get("watched")
    flags = WATCHED if watched else FLAGS
    jobs = [(os.path.join(VERIF, "harness", s), flags, repo_h + my_h) for s in cfg["sources"]]
    jobs += [(s, flags, repo_h) for s in sorted(glob.glob(os.path.join(REPO, "code/src/*.cc")))]
    jobs.append((os.path.join(VERIF, "mc/mc.cc"), PLAIN if watched else FLAGS, my_h))
    link = FLAGS[:7]
    if watched:
        monitor = os.path.join(VERIF, "mc/monitor.cc")
        jobs.append((monitor, PLAIN, my_h))
        wraps = sorted(set(re.findall(r"__wrap_(\w+)\(", open(monitor).read()) + re.findall(r"^(?:LOCK\(|(?:OUT|IN|OWN)\([\w ]+\*?, )(\w+), ", open(monitor).read(), re.M)))
        link = ["-rdynamic"] + ["-Wl,--wrap=" + w for w in wraps]
    objs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for obj, err in ex.map(lambda j: compile_one(*j), jobs):
            if obj is None:
                die(err)
            objs.append(obj)
    r = subprocess.run([CXX] + link + ["-fuse-ld=lld" if shutil.which("ld.lld-18") or shutil.which("ld.lld") else "-fuse-ld=bfd"] + objs + ["-o", out] + cfg.get("ldflags", []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("link failed:\n" + r.stdout[-4000:])


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <text>` of known_findings.txt."""
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) >= 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                keys[w[2][4:]] = w[3].strip()
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--suite")
    ap.add_argument("--replay")
    ap.add_argument("--workers", default="8")
    a = ap.parse_args()
    if a.id not in CHECKS:
        die("no such check: " + a.id)
    cfg = CHECKS[a.id]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_dir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev_dir, exist_ok=True)
    rp_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rp_dir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % a.id)
    # files made by the code under test, as an unprivileged user
    scratch = tempfile.mkdtemp(prefix="mc-%s-files-" % a.id, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(scratch, 0o777)
    os.chmod(tmp, 0o755)
    os.environ["MC_SCRATCH"] = scratch
    try:
        exe = os.path.join(tmp, "harness")
        build(cfg, exe)
        t_build = time.time() - t0
        if a.replay:
            sys.exit(subprocess.call([exe, "--replay", a.replay, "--tmp", tmp]))
        keys = known_findings(a.id)
        stats = os.path.join(tmp, "stats.json")
        cmd = [exe, "--tier", a.tier, "--stats", stats, "--tmp", tmp, "--replay-dir", rp_dir, "--property", a.id, "--seed", str(seed),
               "--workers", a.workers, "--deadline", "700" if a.tier == "quick" else "100000"]
        for k in keys:
            cmd += ["--known", k]
        if a.suite:
            cmd += ["--suite", a.suite]
        sys.stdout.flush()
        env = dict(os.environ)
        sym = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
        if sym:
            env["ASAN_SYMBOLIZER_PATH"] = sym
        env["TZ"] = "UTC"
        env["LC_ALL"] = "C"
        rc = subprocess.call(cmd, env=env)
        if rc not in (0, 1) or not os.path.exists(stats):
            die("harness ended with status %d" % rc)
        st = json.load(open(stats))
        if rc == 0 and st["executions"] == 0:
            die("nothing was explored")
        for k in st["known"]:
            print("KNOWN-FINDING: property=%s %s %s" % (a.id, k, keys.get(k, "")))
        level = cfg["level"]
        cov = {"suites": st["suites"], "samples": st["samples"], "exhaustive": not st["capped"] and rc == 0,
               "executions": st["executions"], "pruned_by_state_match": st["pruned"], "build_s": round(t_build, 1),
               "capped": st["capped"], "bound": cfg["bound"]}
        if level == "model_checking":
            cov.update(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=st["executions"])
            cov["how_traces_were_validated"] = ("every transition is an execution of the real library code; each of the "
                                                "traces is compared step by step with the reference model")
        else:
            cov.update(evaluations=st["executions"], distinct_nontrivial=st["distinct_outcomes"],
                       rule=cfg["rule"])
        ev = {"property": a.id, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": st["violations"]}
        if not a.suite:
            with open(os.path.join(ev_dir, a.id + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print("%s %s: %s, %d executions, %d transitions, %d states, %d distinct outcomes, build %.1fs, total %.1fs" % (
            a.id, a.tier, "violated" if rc else "held", st["executions"], st["transitions"], st["states"], st["distinct_outcomes"],
            t_build, time.time() - t0))
        prune_cache()
        sys.exit(rc)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
