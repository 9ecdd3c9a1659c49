#!/usr/bin/env python3
"""Runs the check of its property against each planted bug, applied to /repo.

usage: try_seeded.py [-p PROP] [ID...]   (results in /tmp/plant/results.json)"""
import json, os, re, subprocess, sys, time
from pathlib import Path

SEEDED, OUT = Path("/verif/seeded"), Path("/tmp/plant/results.json")


def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)


def main():
    args, prop = sys.argv[1:], None
    if args[:1] == ["-p"]:
        prop, args = args[1], args[2:]
    if git("status", "--porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    res = json.loads(OUT.read_text()) if OUT.is_file() else {}
    for d in sorted(SEEDED.iterdir()):
        if (args and d.name not in args) or not (d / "meta.json").is_file():
            continue
        p = prop or json.loads((d / "meta.json").read_text())["property"]
        a = git("apply", str(d / "patch.diff"))
        if a.returncode:
            print(d.name, "does not apply", a.stderr)
            continue
        t = time.time()
        try:
            r = subprocess.run(["/verif/check.py", p], capture_output=True, text=True, errors="replace", timeout=900,
                               env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
            lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            first = next((l for l in r.stdout.splitlines() if l.startswith("  [")), "")[:300]
            got = {"rc": r.returncode, "violations": len(lines), "caught": r.returncode == 1 and bool(lines), "first": first, "err": r.stderr[-500:]}
        except subprocess.TimeoutExpired:
            got = {"rc": None, "caught": False, "first": "timeout"}
        finally:
            git("checkout", "--", ".")
        got["s"] = round(time.time() - t)
        res[f"{d.name}@{p}"] = got
        OUT.write_text(json.dumps(res, indent=1))
        print(f"{d.name} by {p}: {'CAUGHT' if got['caught'] else 'MISSED'} rc {got['rc']} {got['s']} s {got['first']} {got.get('err','') if not got['caught'] else ''}", flush=True)


if __name__ == "__main__":
    main()
