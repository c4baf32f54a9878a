#!/usr/bin/env python3
"""usage: hunt.py [SEEDED ID..] [--prop Cxx] [--seed N]   runs the checks against planted bugs, in a scratch copy"""
import json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = os.environ.get("HUNT", "0")
WT, VF = f"/tmp/seed/hunt{N}", f"/tmp/seed/verif{N}"
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    args = sys.argv[1:]
    prop = args[args.index("--prop") + 1] if "--prop" in args else None
    seed = args[args.index("--seed") + 1] if "--seed" in args else "1"
    ids = [a for a in args if os.path.isdir(f"{ROOT}/seeded/{a}")] or sorted(os.listdir(f"{ROOT}/seeded"))
    if not os.path.exists(WT): sh(["git", "clone", "-q", "/repo", WT])
    sh(["git", "-C", WT, "checkout", "-q", "."]); sh(["git", "-C", WT, "pull", "-q"])
    sh(["rsync", "-a", "--exclude=work", "--exclude=harness/target", "--exclude=.git", ROOT + "/", VF]) if shutil.which("rsync") else sh(["bash", "-c", f"mkdir -p {VF}; cd {ROOT} && tar c --exclude=./work --exclude=./harness/target --exclude=./.git . | tar x -C {VF}"])
    p = f"{VF}/harness/Cargo.toml"; s = open(p).read(); open(p, "w").write(s.replace('"/repo"', f'"{WT}"'))
    for i in ids:
        sh(["git", "-C", WT, "checkout", "-q", "."])
        r = sh(["git", "-C", WT, "apply", f"{ROOT}/seeded/{i}/patch.diff"])
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout[:200]); continue
        p = prop or json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
        t = time.time()
        r = sh(["python3", "run/check.py", p], cwd=VF, env={**os.environ, "VERIF_SEED": seed, "VERIF_TIER": "quick"})
        got = "CAUGHT" if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout else "missed" if r.returncode == 0 else "BROKEN"
        print(f"{i:10} {p} {got} {time.time()-t:.0f}s", "" if got != "BROKEN" else r.stdout[-400:], flush=True)
    sh(["git", "-C", WT, "checkout", "-q", "."])
main()
