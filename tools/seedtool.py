#!/usr/bin/env python3
"""Planted bugs: generate /verif/seeded/<id>/ from tools/seeds/*.py and try them in scratch copies of /repo.

seedtool.py gen              write patch.diff, demo.*, meta.json for every bug
seedtool.py try [ids..]      build, test, demo and check each bug in a scratch copy (8 at a time); --no-check to skip the check
"""
import concurrent.futures, glob, json, os, queue, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDS = []
SAN = " -fsanitize=address -fno-omit-frame-pointer"
DEMO_SH = """#!/bin/bash
# Compile the demonstration against the tree in the current directory and run it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
clang++-18 -std=c++17 -g -w -pthread%s -I code/include "$here/demo.cc" %s -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
"""


def bug(id, prop, edits, demo, needs, breaks, san=False, static=True):
    """edits: [(file, old, new)...]; demo: C++ source with main()"""
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, san=san, static=static))


NS = {}


def load():
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/seeds/*.py"))):
        NS["bug"] = bug
        exec(compile(open(f).read(), f, "exec"), NS)


def edit(tree, s):
    for f, old, new in s["edits"]:
        p = os.path.join(tree, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))


def original(wt, patch, id):
    """A planted bug counts only if it changes lines of the original repository."""
    base = subprocess.check_output(["git", "-C", wt, "log", "--format=%h", "--reverse"], text=True).split()[0]
    base_lines, n = set(), 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            base_lines = {x.strip() for x in subprocess.check_output(["git", "-C", wt, "show", base + ":" + l[6:]], text=True).splitlines()}
        elif l.startswith("-") and not l.startswith("---"):
            n += l[1:].strip() in base_lines
    if n == 0:
        print(id, "changes no line of the original repository")


def gen():
    wt = "/tmp/seedgen"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", REPO, wt])
    out = os.path.join(VERIF, "seeded")
    shutil.rmtree(out, ignore_errors=True)
    for s in SEEDS:
        edit(wt, s)
        d = os.path.join(out, s["id"])
        os.makedirs(d)
        patch = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
        open(d + "/patch.diff", "w").write(patch)
        original(wt, patch, s["id"])
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
        open(d + "/demo.cc", "w").write(s["demo"].strip() + "\n")
        lib = "code/src/*.cc" if s["san"] else "_build/code/libswoc-static-*.a"
        open(d + "/demo.sh", "w").write(DEMO_SH % (SAN if s["san"] else "", lib))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(wt)


def sh(cmd, cwd, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def build(tree):
    return sh("CC=clang-18 CXX=clang++-18 cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DLIBSWOC_TEST=ON -DCMAKE_C_COMPILER=clang-18 -DCMAKE_CXX_COMPILER=clang++-18 >/dev/null && ninja -C _build", tree)


def tests(tree):
    rc, o = sh("rm -rf _build/vp_tmp; python3 /opt/vp/run_catch.py _build/unit_tests/test_libswoc _build/vp_tmp _build/vp_results.txt", tree)
    if rc:
        return "runner failed"
    src = open("/opt/vp/results.py").read().replace("/repo", tree)
    open(tree + "/_build/r.py", "w").write(src)
    rc, o = sh("cp /opt/vp/BASELINE.json _build/ ; python3 _build/r.py _build/o.json lines:%s/_build/vp_results.txt" % tree, tree)
    o = json.load(open(tree + "/_build/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("stable_pass", base.get("stable", base.get("passed", []))))
    miss = sorted(want - set(o["passed"]))
    return "" if not miss else "tests failed: %s" % miss[:3]


def attempt(s, tree, check):
    d = os.path.join(VERIF, "seeded", s["id"])
    res = {}
    sh("git checkout -q -- .", tree)
    rc, o = build(tree)
    rc0, o0 = sh(["bash", d + "/demo.sh"], tree, 300)
    res["demo clean"] = rc0
    rc, o = sh(["git", "apply", d + "/patch.diff"], tree)
    if rc:
        return "patch does not apply: " + o
    rc, o = build(tree)
    if rc:
        sh("git checkout -q -- .", tree)
        return "does not build: " + o[-1500:]
    res["tests"] = tests(tree) or "pass"
    rc1, o1 = sh(["bash", d + "/demo.sh"], tree, 300)
    res["demo bug"] = rc1
    if check:
        t = time.time()
        env = "VERIF_REPO=%s VERIF_EVIDENCE=%s/_build/ev " % (tree, tree)
        rc2, o2 = sh(env + "python3 %s/check.py %s" % (VERIF, s["prop"]), VERIF)
        v = [l for l in o2.splitlines() if l.startswith("VIOLATION")]
        res["check"] = "%s %s (%.0fs)" % (rc2, "CAUGHT" if rc2 == 1 and v else "MISSED " + o2[-300:], time.time() - t)
    sh("git checkout -q -- .", tree)
    ok = rc0 == 0 and rc1 not in (0, 2, 124) and res["tests"] == "pass"
    if rc0:
        res["out"] = o0[-1500:]
    elif rc1 == 0 or rc1 == 2:
        res["out"] = o1[-1500:]
    return ("ok  " if ok else "BAD ") + str(res)


def main():
    load()
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    check = "--no-check" not in sys.argv
    par = 3
    for a in sys.argv:
        if a.startswith("-j"):
            par = int(a[2:])
    gen()
    if sys.argv[1] == "gen":
        return
    todo = [s for s in SEEDS if not ids or s["id"] in ids or s["prop"] in ids]
    par = min(par, len(todo))
    trees = queue.Queue()
    for i in range(par):
        t = "/tmp/seedtree%d" % i
        if not os.path.exists(t + "/.git"):
            subprocess.check_call(["git", "clone", "-q", REPO, t])
        else:
            sh("git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD", t)
            h = subprocess.check_output(["git", "-C", REPO, "rev-parse", "HEAD"], text=True).strip()
            sh("git reset -q --hard " + h, t)
        trees.put(t)

    def one(s):
        t = trees.get()
        try:
            r = attempt(s, t, check)
        finally:
            trees.put(t)
        print("%-28s %s" % (s["id"], r), flush=True)

    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        list(ex.map(one, todo))


main()
