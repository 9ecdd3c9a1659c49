#!/usr/bin/env python3
"""Plants bugs described in a definitions file into /verif/seeded.

usage: plant.py DEFS.py [ID...]    (confirms each in a scratch copy of /repo)

DEFS.py holds BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (Rust source of a main.rs), configs (list of 'toolchain|features'),
needs, breaks. A bug is kept when it compiles, every test of every
configuration passes with it, and its demonstration tells it from the
unchanged tree."""
import json, os, re, runpy, shutil, subprocess, sys
from pathlib import Path

SCRATCH = Path("/tmp/plant/repo")
SEEDED = Path("/verif/seeded")
ST = "stable-x86_64-unknown-linux-gnu"
NI = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
OPT, RAW = f"{ST}|pemdas compile-time-optimizations", f"{ST}|pemdas"

DEMO = '''#!/bin/bash
# Exits 0 if what main.rs asserts holds in each of these configurations of the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/" && cd "$d" || exit 2
for c in %(configs)s; do
  features=$(echo "${c#*|}" | sed 's/[^ ]*/"&"/g; s/ /, /g')
  cat > Cargo.toml <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xprs = { path = "$repo", default-features = false, features = [$features] }
miette = { version = "7.2.0", features = ["fancy-no-backtrace"] }
[profile.dev]
debug = 0
%(profile)s[workspace]
T
  export RUSTUP_TOOLCHAIN=${c%%%%|*} CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
  cargo build --offline -q || exit 3
%(extra)s  timeout -s KILL 60 "$d/target/debug/demo" || exit 1
done
'''
REPL = '''  cargo build --offline -q --manifest-path "$repo/Cargo.toml" --locked --no-default-features --features "${c#*|}" --bin repl || exit 3
  export XPRS_REPL="$d/target/debug/repl"
'''


def sh(cmd, cwd=SCRATCH, env=None, timeout=900):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env={**os.environ, **(env or {})}, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def configs():
    t = Path("/opt/vp/env.sh").read_text().replace("$STABLE", ST).replace("$NIGHTLY", NI)
    return [m.groups() for m in re.finditer(r"^ *\"([^\"|]*)\|([^\"|]*)\|([^\"|]*)\|([^\"|]*)\"$", t, re.M)]


def tests():
    for label, tool, target, feats in configs():
        e = {"RUSTUP_TOOLCHAIN": tool, "CARGO_TARGET_DIR": target.replace("/repo", str(SCRATCH)), "CARGO_NET_OFFLINE": "true",
             "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_INCREMENTAL": "1"}
        p = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--locked", "--no-default-features", "--features", feats], env=e)
        if p.returncode:
            return f"{label}: " + "\n".join(l for l in p.stdout.splitlines() if re.search(r"error|FAILED|panicked|failed", l))[:1500]
    return None


def main():
    bugs = runpy.run_path(sys.argv[1], {"OPT": OPT, "RAW": RAW, "ST": ST, "NI": NI})["BUGS"]
    only = sys.argv[2:]
    if not SCRATCH.is_dir():
        SCRATCH.parent.mkdir(parents=True, exist_ok=True)
        sh(["cp", "-a", "/repo", str(SCRATCH)], cwd="/")
    sh("git checkout -q --detach; git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd")
    for b in bugs:
        if only and b["id"] not in only:
            continue
        if not only and (SEEDED / b["id"] / "meta.json").exists():
            continue
        sh("git checkout -q -f .")
        bad = None
        d = Path("/tmp/plant/new") / b["id"]
        if d.is_dir():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / "main.rs").write_text(b["demo"])
        cs = " ".join(f"'{c}'" for c in b.get("configs", [OPT]))
        (d / "demo.sh").write_text(DEMO % {"configs": cs, "extra": REPL if b.get("repl") else "", "profile": b.get("profile", "")})
        os.chmod(d / "demo.sh", 0o755)
        p = sh(["bash", str(d / "demo.sh")])
        if p.returncode:
            print(f"{b['id']}: demo fails on the unchanged tree: {p.returncode} {p.stdout[-1500:]}", flush=True)
            continue
        for f, old, new in b["edits"]:
            t = (SCRATCH / f).read_text()
            if t.count(old) != 1:
                bad = f"{f}: {t.count(old)} matches of {old!r}"
                break
            (SCRATCH / f).write_text(t.replace(old, new))
        bad = bad or tests()
        if bad:
            print(f"{b['id']}: {bad}", flush=True)
            continue
        p = sh(["bash", str(d / "demo.sh")])
        if p.returncode in (0, 2, 3):
            print(f"{b['id']}: demo gives {p.returncode} on the changed tree: {p.stdout[-800:]}", flush=True)
            continue
        (d / "patch.diff").write_text(sh("git diff").stdout)
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        to = SEEDED / b["id"]
        if to.is_dir():
            shutil.rmtree(to)
        shutil.copytree(d, to)
        print(f"{b['id']}: kept; {p.stdout.strip().splitlines()[-3:] if p.stdout.strip() else p.returncode}", flush=True)
    sh("git checkout -q -f .")


if __name__ == "__main__":
    main()
