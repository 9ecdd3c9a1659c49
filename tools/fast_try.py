#!/usr/bin/env python3
"""Runs the monitors of its property against each planted bug, in one or two
of the configurations, in scratch copies of /repo and the harness (several
bugs at a time): quicker than try_seeded.py, which runs the real check.

usage: fast_try.py [-j N] ID..."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

sys.path.insert(0, "/verif")
from lib.plans import MON
from lib import build as B

SEEDED, ROOT = Path(os.environ.get("SEEDED", "/verif/seeded")), Path("/tmp/ft")
CONFIGS = [("stable", "pemdas,opt"), ("stable", "pejmdas,opt"), (B.NIGHTLY, "pejmdas"), (B.NIGHTLY, "pemdas,opt")]


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)


def prepare(w):
    d = ROOT / w
    d.mkdir(parents=True, exist_ok=True)
    sh("rm", "-rf", str(d / "repo"), str(d / "hv"))
    sh("git", "clone", "-q", "/repo", str(d / "repo"))
    shutil.copytree("/verif/harness", d / "hv")
    m = d / "hv/mon/Cargo.toml"
    m.write_text(m.read_text().replace('path = "/repo"', f'path = "{d}/repo"'))
    assert str(d) in m.read_text()


def attempt(w, bug, prop):
    d = ROOT / w
    sh("git", "-C", str(d / "repo"), "checkout", "-q", "--", ".")
    a = sh("git", "-C", str(d / "repo"), "apply", str(SEEDED / bug / "patch.diff"))
    if a.returncode:
        return "does not apply " + a.stderr
    for tool, feats in CONFIGS:
        e = {**os.environ, "CARGO_TARGET_DIR": str(d / ("t-" + tool[:6] + feats.replace(",", "-"))), "RUSTFLAGS": "-Awarnings", "CARGO_INCREMENTAL": "1"}
        b = sh("cargo", "+" + tool, "build", "--offline", "-q", "--features", feats, "--bin", "mon", cwd=d / "hv/mon", env=e)
        if b.returncode:
            return "does not build " + b.stderr[-600:]
        if prop == "C18":
            b = sh("cargo", "+" + tool, "build", "--offline", "-q", "--no-default-features", "--features", feats.replace("opt", "compile-time-optimizations"), "--bin", "repl", cwd=d / "repo", env=e)
            if b.returncode:
                return "does not build " + b.stderr[-600:]
            e["XPRS_REPL"] = e["CARGO_TARGET_DIR"] + "/debug/repl"
        scale = MON[prop][0] if prop in MON else 4
        try:
            r = sh(e["CARGO_TARGET_DIR"] + "/debug/mon", prop, "--seed", "1", "--config", "x", "--scale", str(scale), "--budget", "200", "--out", str(d / "o.json"), env=e, timeout=400)
        except subprocess.TimeoutExpired:
            return "CAUGHT (timeout) " + feats
        if r.returncode:
            first = re.sub(r"\s+", " ", (r.stdout + r.stderr))[:160]
            return f"CAUGHT [{tool[:6]} {feats}] rc {r.returncode} {first}"
    return "MISSED"


def main():
    args, n = sys.argv[1:], 5
    if args[:1] == ["-j"]:
        n, args = int(args[1]), args[2:]
    q = Queue()
    for i in range(n):
        prepare(str(i))
        q.put(str(i))

    def one(bug):
        prop = json.loads((SEEDED / bug / "meta.json").read_text())["property"]
        w, t = q.get(), time.time()
        try:
            r = attempt(w, bug, prop)
        except Exception as x:
            r = "error " + repr(x)
        finally:
            q.put(w)
        print(f"{bug} by {prop}: {r} ({time.time() - t:.0f} s)", flush=True)

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, args or sorted(d.name for d in SEEDED.iterdir())))


if __name__ == "__main__":
    main()
