#!/usr/bin/env python3
"""Mutation testing of the checks (a tool for development; no check uses it).

mutate.py FILE [checks...]    FILE relative to code/, e.g. include/swoc/TextView.h

All mutants of a file are compiled into one harness per check and selected at run time (SWOC_MUT=n). Works in /tmp/mut, on a
copy of /repo.  MUT_NARROW=uint8_t for mutants of types. Result: /tmp/mut/<file>.result with one line per mutant: killed <check> | survived | unreached.
Needs /tmp/mut/sites (tools/sites.cc linked with libclang-cpp).
"""
import bisect, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = os.environ.get("MUT_DIR", "/tmp/mut")
NARROW = os.environ.get("MUT_NARROW", "")  # e.g. uint8_t: mutants that compute in this type instead of the usual ones
CHECKS_OF = {
    "IntrusiveDList.h": "C10 C11", "IntrusiveHashMap.h": "C11 C23", "RBTree.h": "C05 C01", "RBTree.cc": "C05 C01", "DiscreteRange.h": "C04 C01 C02 C03",
    "MemArena.h": "C06 C07 C08", "MemArena.cc": "C06 C07 C08", "ArenaWriter.h": "C18 C08", "ArenaWriter.cc": "C18 C08", "Vectray.h": "C09",
    "TextView.h": "C12 C13 C14 C15 C16 C34", "TextView.cc": "C12 C13 C14 C15 C16 C34", "string_view_util.h": "C14 C13", "string_view_util.cc": "C14 C13",
    "MemSpan.h": "C17 C14", "BufferWriter.h": "C18 C19", "bwf_base.h": "C19 C20 C21 C22 C24 C23 C36", "bw_format.cc": "C20 C21 C22 C19 C35", "Lexicon.h": "C23",
    "Scalar.h": "C24", "Errata.h": "C25", "Errata.cc": "C25", "IPAddr.h": "C26 C27 C30", "IPRange.h": "C28 C29 C03 C36", "IPSrv.h": "C30 C36",
    "IPEndpoint.h": "C30 C36", "swoc_ip.cc": "C26 C27 C28 C29 C30", "bw_ip_format.cc": "C36 C28 C29", "bwf_ip.h": "C36", "swoc_file.h": "C31 C32 C33",
    "swoc_file.cc": "C31 C33 C32", "bwf_std.h": "C35", "bwf_ex.h": "C35", "swoc_ip_util.h": "C26 C36 C03", "swoc_meta.h": "C35 C24", "HashFNV.h": "C34",
}
SWAP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "+": "-", "-": "+", "*": "+", "/": "*", "%": "+", "<<": ">>", ">>": "<<",
        "&": "|", "|": "&", "^": "|", "+=": "-=", "-=": "+=", "|=": "&=", "&=": "|=", "<<=": ">>=", ">>=": "<<="}
RT = r"""
#pragma once
#include <cstdlib>
#include <cstdint>
#include <type_traits>
#include <fcntl.h>
#include <sys/mman.h>
extern int swoc_mut_n; extern unsigned char *swoc_mut_cov;
inline bool swoc_mut_rt(int n) { if (swoc_mut_cov) swoc_mut_cov[n] = 1; return n == swoc_mut_n; }
constexpr bool M_(int n) { return __builtin_is_constant_evaluated() ? false : swoc_mut_rt(n); }
"""
RTCC = r"""
#include "mutrt.h"
int swoc_mut_n = -1;
unsigned char *swoc_mut_cov = nullptr;
__attribute__((constructor(101))) static void swoc_mut_init() {
  if (char const *s = getenv("SWOC_MUT")) swoc_mut_n = atoi(s);
  if (char const *s = getenv("SWOC_MUT_COV")) {
    int fd = open(s, O_RDWR);
    swoc_mut_cov = static_cast<unsigned char *>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
}
"""


class File:
    def __init__(self, path, rel, dead):
        self.src = open(path).read()
        self.raw = self.src.encode()
        assert len(self.raw) == len(self.src), "non-ascii"
        tu = path if rel.endswith(".cc") else os.path.join(M, "tu.cc")
        if not rel.endswith(".cc"):
            open(tu, "w").write('#include "%s"\n' % rel.replace("include/", ""))
        inc = os.path.join(M, "tree/code/include")
        p = subprocess.run([M + "/sites", rel.replace("include/", ""), tu, "-std=c++17", "-I" + inc, "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if "error:" in p.stderr:
            print(p.stderr[-2000:])
        sites = set()
        for l in p.stdout.splitlines():
            k, op, *n = l.split("\t")
            sites.add((k, op) + tuple(map(int, n)))
        order = {"stmt": 0, "cond": 1}
        self.sites = sorted(sites, key=lambda s: (s[2], -s[3], order.get(s[0], 2), s[0], s[1]))
        self.nl = [i for i, ch in enumerate(self.src) if ch == "\n"]
        self.muts = []  # (text before, text after, first line, last line)
        self.dead = dead

    def line(self, off):
        return bisect.bisect_left(self.nl, off) + 1

    def new(self, s, after, what=None):
        """number of a new mutant or None if dead; numbers are stable"""
        n = len(self.muts)
        self.muts.append((self.line(s[2]), self.line(s[3]), self.src[s[2]:s[3]], after))
        return None if n in self.dead else n

    def wrap(self, s, inner):
        k, op, b, e, lb, le, rb, re_ = s
        t = self.src
        flat = lambda a, z: " ".join(t[a:z].split())
        if "//" in t[b:e] or "/*" in t[b:e] or "#" in t[b:e] or "[](" in t[b:e] or "[&]" in t[b:e] or "[=" in t[b:e]:
            return inner
        if NARROW and k != "bin":
            return inner
        if k == "stmt":
            if t[b:e].startswith("assert"):
                return inner
            n = self.new(s, "(deleted)")
            return inner if n is None else "if (M_(%d)) ; else %s" % (n, inner)
        alts = []
        if NARROW:
            if k == "bin":
                L, R = flat(lb, le), flat(rb, re_)
                if op in ("<", "<=", ">", ">=", "==", "!="):
                    alts.append("%s(%s) %s %s(%s)" % (NARROW, L, op, NARROW, R))
                elif op in ("+", "-", "*", "/"):
                    alts.append("std::remove_cv_t<std::remove_reference_t<decltype(%s %s %s)>>(%s(%s %s %s))" % (L, op, R, NARROW, L, op, R))
        elif k == "bin":
            L, R = flat(lb, le), flat(rb, re_)
            if op in SWAP:
                if "<<" in L and op == "<<":
                    return inner
                alts.append("(%s) %s (%s)" % (L, SWAP[op], R) if op[-1] != "=" or op in ("<=", ">=", "==", "!=") else "%s %s (%s)" % (L, SWAP[op], R))
            elif op in ("&&", "||"):
                alts += ["bool(%s)" % L, "bool(%s)" % R]
        elif k == "int":
            m = re.match(r"^(0[xX][0-9a-fA-F']+|[0-9']+)([uUlLzZ]*)$", t[b:e])
            if m:
                v = int(m.group(1).replace("'", ""), 0 if not re.match(r"^0[0-7]", m.group(1)) else 8)
                alts += ["%d%s" % (v + 1, m.group(2))] + (["%d%s" % (v - 1, m.group(2))] if v else [])
        elif k == "chr":
            alts.append("char(%s + 1)" % t[b:e])
        elif k == "bool":
            alts.append("false" if op == "true" else "true")
        elif k in ("not", "minus", "compl"):
            x = flat(lb, le)
            alts.append("bool(%s)" % x if k == "not" else "(%s)" % x)
        elif k == "cond":
            n = self.new(s, "!(...)")
            return inner if n is None else "(M_(%d) ? !(%s) : bool(%s))" % (n, flat(b, e), inner)
        elif k == "call":
            for x, y in (("std::min", "std::max"), ("std::max", "std::min")):
                if t[b:e].startswith(x):
                    alts.append(y + flat(b, e)[len(x):])
        text = ""
        for a in alts:
            n = self.new(s, a)
            if n is not None:
                text += "M_(%d) ? %s : " % (n, a)
        return "(%s(%s))" % (text, inner) if text else inner

    def emit(self):
        self.muts = []
        pos = 0

        def rec(i, end, b):
            """text of [b, end) with sites from index i on; returns (text, next index)"""
            out, p = "", b
            while i < len(self.sites) and self.sites[i][2] < end:
                s = self.sites[i]
                if s[3] > end or s[2] < p:  # overlaps without nesting: cannot be
                    i += 1
                    continue
                out += self.src[p:s[2]]
                inner, i2 = rec(i + 1, s[3], s[2])
                out += self.wrap(s, inner)
                p, i = s[3], i2
            return out + self.src[p:end], i
        return rec(0, len(self.src), 0)[0]


def run(exe, c, n, workers, timeout, part=None):
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    os.chmod(tmp, 0o777)
    os.mkdir(tmp + "/s"); os.chmod(tmp + "/s", 0o777)
    env = dict(os.environ, MC_SCRATCH=tmp + "/s", TZ="UTC", LC_ALL="C")
    env["MC_HANG"] = "6"
    if part:
        env["MC_PART"] = part
    env["ASAN_OPTIONS"] = "symbolize=0"
    if n >= 0:
        env["SWOC_MUT"] = str(n)
    else:
        open(M + "/cov-" + c, "wb").write(bytes(65536)); os.chmod(M + "/cov-" + c, 0o666)
        env["SWOC_MUT_COV"] = M + "/cov-" + c
    p = subprocess.Popen(["setsid", exe, "--tier", "quick", "--stats", tmp + "/st.json", "--tmp", tmp, "--replay-dir", tmp, "--property", c, "--seed", "1",
                          "--workers", str(workers), "--deadline", "100000"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        o = p.communicate(timeout=timeout)[0]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        subprocess.call(["pkill", "-9", "-f", tmp])
        p.communicate()
        rc, o = 124, ""
    shutil.rmtree(tmp, ignore_errors=True)
    return rc, o


def rerun():
    """mutate.py --run FILE n,n,.. [checks]: the full exploration for these mutants"""
    base = sys.argv[2]
    for n in sys.argv[3].split(","):
        for c in sys.argv[4:] or CHECKS_OF[base].split():
            t = time.time()
            rc, o = run(M + "/bin/" + base + "-" + c, c, int(n), 8, 900)
            print(n, c, rc, "%.0fs" % (time.time() - t), [l for l in o.splitlines() if "VIOL" in l or "what" in l][:2], flush=True)
            if rc:
                break


def again():
    """mutate.py --again BASE: the full exploration for every survivor, the result file is updated"""
    base = sys.argv[2]
    cap = float(os.environ.get("MUT_CAP", "600"))
    lines = open(M + "/" + base + ".result").read().splitlines()

    def one(l):
        t = l.split("\t")
        if not t[1].startswith("survived") or "full" in t[1]:
            return l
        out = []
        for c in CHECKS_OF[base].split():
            if not open(M + "/cov-" + base + "-" + c, "rb").read()[int(t[0])] if os.path.exists(M + "/cov-" + base + "-" + c) else False:
                continue
            rc, o = run(M + "/bin/" + base + "-" + c, c, int(t[0]), 1, cap)
            if rc == 124:
                out.append(c)
            elif rc:
                t[1] = "killed " + c
                return "\t".join(t)
        t[1] = "survived full" + (" capped " + " ".join(out) if out else "")
        return "\t".join(t)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MUT_J", "8"))) as ex:
        lines = list(ex.map(one, lines))
    open(M + "/" + base + ".result", "w").write("\n".join(lines) + "\n")


def main():
    if sys.argv[1] == "--again":
        return again()
    if sys.argv[1] == "--run":
        return rerun()
    rel = sys.argv[1]
    base = os.path.basename(rel)
    checks = sys.argv[2:] or CHECKS_OF[base].split()
    tree = M + "/tree"
    if not os.path.exists(tree):
        subprocess.check_call(["git", "clone", "-q", "/repo", tree])
    subprocess.check_call(["git", "-C", tree, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", tree, "pull", "-q"])
    os.environ["VERIF_REPO"] = tree
    sys.path.insert(0, VERIF)
    import check as ck
    open(M + "/mutrt.h", "w").write(RT)
    open(M + "/mutrt.cc", "w").write(RTCC)
    path = tree + "/code/" + rel
    orig = open(path).read()
    dead = set()
    for rnd in range(12):
        f = File(path, rel, dead) if rnd == 0 else f
        f.dead = dead
        text = f.emit()
        open(path, "w").write(text)
        errs = ""
        extra = ["-include", M + "/mutrt.h", "-ferror-limit=0", "-Wno-invalid-constexpr", "-Wno-c++11-narrowing"]
        jobs = [M + "/mutrt.cc"]
        import glob
        jobs += [os.path.join(VERIF, "harness", s) for c in checks for s in ck.CHECKS[c]["sources"]]
        jobs += sorted(glob.glob(tree + "/code/src/*.cc")) + [os.path.join(VERIF, "mc/mc.cc")]
        jobs = list(dict.fromkeys(jobs))
        objs = {j: M + "/obj/" + os.path.basename(j) + ".o" for j in jobs}
        os.makedirs(M + "/obj", exist_ok=True)

        def comp(j):
            flags = [x for x in ck.FLAGS]
            r = subprocess.run([ck.CXX] + flags + (extra if not j.endswith(("mutrt.cc",)) else ["-I", M]) + ["-c", j, "-o", objs[j]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.stdout if r.returncode else ""
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = "".join(ex.map(comp, jobs))
        if not errs:
            break
        lines = {int(m.group(1)) for m in re.finditer(re.escape(path) + r":(\d+):\d+: (?:fatal )?error", errs)}
        # errors elsewhere with notes in the file (instantiation)
        if not lines:
            lines = {int(m.group(1)) for m in re.finditer(re.escape(path) + r":(\d+):\d+: note", errs)}
        more = {i for i, m in enumerate(f.muts) if any(m[0] <= l <= m[1] for l in lines)} - dead
        if not more:
            print(errs[-3000:])
            open(path, "w").write(orig)
            sys.exit("cannot build")
        dead |= more
    open(path, "w").write(orig)
    live = [i for i in range(len(f.muts)) if i not in dead]
    print("%s: %d mutants, %d do not compile" % (base, len(live), len(dead)), flush=True)
    exes = {}
    os.makedirs(M + "/bin", exist_ok=True)
    for c in checks:
        exes[c] = M + "/bin/" + base + "-" + c
        o = [objs[os.path.join(VERIF, "harness", s)] for s in ck.CHECKS[c]["sources"]] + [objs[j] for j in jobs if "/harness/" not in j]
        subprocess.check_call([ck.CXX] + ck.FLAGS[:7] + ["-fuse-ld=lld" if shutil.which("ld.lld") else "-fuse-ld=bfd"] + o + ["-o", exes[c]] + ck.CHECKS[c].get("ldflags", []))
    cap = float(os.environ.get("MUT_CAP", "40"))

    cov, full = {}, {}
    for c in checks:
        t = time.time()
        rc, o = run(exes[c], c, -1, 8, 900)
        full[c] = time.time() - t
        if rc:
            print("unmutated", c, rc, o[-500:])
        cov[c] = open(M + "/cov-" + c, "rb").read()
        shutil.copy(M + "/cov-" + c, M + "/cov-" + base + "-" + c)
        print(c, "reaches", sum(1 for i in live if cov[c][i]), "%.0fs" % (time.time() - t), flush=True)

    def one(n):
        cs = [c for c in checks if cov[c][n]]
        if not cs:
            return n, "unreached"
        capped = []
        for k in range(2):
            for c in cs:
                parts = max(1, int(full[c] * 8 / 8))
                if k >= parts:
                    continue
                rc, o = run(exes[c], c, n, 1, cap, "%d/%d" % (k, parts))
                if rc == 124:
                    capped.append(c)
                elif rc:
                    return n, "killed " + c
        return n, "survived" + (" capped " + " ".join(capped) if capped else "")
    res = {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MUT_J", "8"))) as ex:
        for n, r in ex.map(one, live):
            res[n] = r
    with open(M + "/" + base + ".result", "w") as g:
        for n in live:
            m = f.muts[n]
            g.write("%d\t%s\t%s:%d\t%s\t=>\t%s\n" % (n, res[n], base, m[0], " ".join(m[2].split())[:150], m[3][:150]))
    k = sum(r.startswith("killed") for r in res.values())
    print("%s: killed %d, survived %d, unreached %d" % (base, k, sum(r.startswith("surv") for r in res.values()), sum(r == "unreached" for r in res.values())), flush=True)


main()
