"""Write known_findings.txt: `fixed:` lines from the fix: commits in /repo (property by subject), then tools/findings.txt."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [l.rstrip("\n").split("\t") for l in open(os.path.join(V, "tools/fix_props.tsv")) if l.strip()]
out, bad = [], 0
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    props = [p for p, pat in RULES if s.startswith(pat)]
    if not props:
        print("no property for", s)
        bad = 1
        continue
    for p in props[0].split(","):
        out.append("fixed: property=%s %s %s" % (p, h, s))
head = "# Defects of libswoc found by the checks.  fixed: repaired in /repo by the named commit.  finding: recorded, not repaired;\n" \
       "# a check reports it as KNOWN-FINDING by its key and nothing else is tolerated.\n"
f = os.path.join(V, "tools/findings.txt")
known = open(f).read() if os.path.exists(f) else ""
open(os.path.join(V, "known_findings.txt"), "w").write(head + "\n".join(out) + "\n" + known)
sys.exit(bad)
