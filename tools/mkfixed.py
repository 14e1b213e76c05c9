"""Regenerates the 'fixed:' lines of known_findings.jsonl from /repo's fix: commits.  The property of each comes from FIXED below (by subject)."""
import subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [  # (word in subject, property), first match wins
    ("three-dimensional mask", "R02"), ("slices that select no rows", "R02"), ("vertex_coords", "R03"), ("extent of", "R03"), ("coordinates of slices", "R03"),
    ("nearest sampling", "R04"), ("bilinear", "R04"), ("sample a grid at three", "R04"), ("profile never", "R04"),
    ("aschunks", "R05"), ("clip to", "R05"), ("resize to", "R05"), ("merge misplaced", "R05"), ("merge of integer", "R05"),
    ("sums and differences", "R07"), ("divergence treated", "R08"), ("polygon masks", "R06"), ("mask_by_poly", "R06"),
    ("geotiff", "R09"), ("ESRI ASCII", "R10"), ("Table", "V01"),
]
p = os.path.join(V, "tools", "fix_rules.py")
if os.path.exists(p):
    exec(open(p).read())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().strip().split("\n")
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    pid = [q for w, q in RULES if w in s]
    if not pid:
        print("no property for:", s); pid = ["?"]
    fixed.append("fixed: property=%s %s %s" % (pid[0], h, s[4:].strip()))
kf = os.path.join(V, "known_findings.jsonl")
old = [l for l in open(kf).read().split("\n") if l and not l.startswith("fixed:")] if os.path.exists(kf) else []
open(kf, "w").write("\n".join(old + fixed) + "\n")
print(len(fixed), "fixed,", len([l for l in old if l.startswith("{")]), "open findings")
