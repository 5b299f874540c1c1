#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from the fix: commits in /repo (key: start of the subject)."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("fix: laymine_op", "C01"), ("fix: iterating a SafeBoardRow", "C04"), ("fix: Board stores", "C03"), ("fix: GameBoard drops", "C03"), ("fix: GameBoard reports", "C03"),
 ("fix: solve_enumerate", "C07"), ("fix: sample_3BVs_exp", "C25"), ("fix: refresh_matrixses", "C05"), ("fix: cal_possibility accepts", "C08"),
 ("fix: cal_possibility reports", "C08"), ("fix: cal_possibility gives", "C09"), ("fix: solve_direct", "C09"), ("fix: enumeration has no", "C09"),
 ("fix: laymine_solvable_adjust", "C12"), ("fix: laymine_solvable_thread", "C12"), ("fix: is_guess", "C13"), ("fix: is_good_chording", "C29")]
exec(open(os.path.join(ROOT, "tools", "fixed_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "fixed_more.py")) else None
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
p = os.path.join(ROOT, "known_findings.txt")
keep = [l for l in open(p).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(p) else ["# known: property=<id> sig=<signature> | text   (suppresses exactly that signature)", "# fixed: property=<id> <commit> <what failed>   (suppresses nothing)"]
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        ids = [i for k, i in MAP if s.startswith(k)]
        assert len(ids) == 1, s
        out.append(f"fixed: property={ids[0]} {h} {s[5:]}")
open(p, "w").write("\n".join(keep + out) + "\n")
