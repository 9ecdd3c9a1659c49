"""Builds of the harness against /repo's working tree."""
import hashlib, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
TARGET = VERIF / "target"
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"  # the one the crate's NIGHTLY code compiles with
TOOL = {"stable": "stable", "nightly": NIGHTLY}


class HarnessError(Exception):
    """Something of the machinery failed; no verdict."""


class Config:
    """A way of building the crate: toolchain, order of operations,
    optimisations, profile, sanitizer."""

    def __init__(self, tool, mode, opt, profile="dev", san=""):
        self.tool, self.mode, self.opt, self.profile, self.san = tool, mode, opt, profile, san

    @property
    def name(self):
        n = f"{self.tool}-{self.mode}-{'opt' if self.opt else 'raw'}"
        if self.profile != "dev":
            n += f"-{self.profile}"
        return n + (f"-{self.san}" if self.san else "")

    @property
    def features(self):
        return self.mode + (",opt" if self.opt else "")

    @property
    def dir(self):
        return TARGET / self.name

    def launch(self, name):
        """The command that starts a program built in this configuration."""
        return [str(self.binary(name))]

    def environ(self):
        return {"asan": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1"},
                "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}}.get(self.san, {})

    def binary(self, name):
        sub = "debug" if self.profile == "dev" else self.profile
        if self.san == "tsan":
            return self.dir / "x86_64-unknown-linux-gnu" / sub / name
        if self.san == "asan":
            return self.dir / "x86_64-unknown-linux-gnu" / sub / name
        return self.dir / sub / name


CHECKED = [Config(t, m, o) for t in ("stable", "nightly") for m in ("pemdas", "pejmdas") for o in (True, False)]
RELEASE = [Config("stable", "pemdas", True, "release"), Config("nightly", "pejmdas", True, "release")]
ASAN = [Config("stable", "pemdas", True, "dev", "asan"), Config("stable", "pejmdas", False, "dev", "asan")]
TSAN = [Config("stable", "pemdas", True, "dev", "tsan")]


MIRI_HOME = VERIF / "harness" / "miri"
MIRI_SRC = TARGET / "miri-src"


class Miri(Config):
    """Interpretation by Miri. Its toolchain is a newer nightly than the one
    the nightly-only code of the crate is written for: that code is left out,
    through a manifest of its own without the build script, and the keyword
    `box` of its patterns, which no longer parses, is dropped from a copy."""

    def __init__(self, mode, opt, flags="", variant=""):
        super().__init__("nightly", mode, opt, san="miri" + variant)
        self.flags = flags

    @property
    def dir(self):
        return TARGET / f"miri-{self.mode}-{'opt' if self.opt else 'raw'}"

    @property
    def name(self):
        return f"{self.mode}-{'opt' if self.opt else 'raw'}-{self.san}"

    def launch(self, name):
        return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", str(MIRI_HOME / "Cargo.toml"),
                "--features", self.features, "--bin", name, "--"]

    def environ(self):
        return {"CARGO_TARGET_DIR": str(self.dir), "RUSTFLAGS": "-Awarnings", "CARGO_INCREMENTAL": "0", "CARGO_NET_OFFLINE": "true",
                "MIRIFLAGS": f"-Zmiri-disable-isolation -Zmiri-deterministic-floats {self.flags}".strip()}


MIRI = [Miri("pemdas", True), Miri("pejmdas", False), Miri("pemdas", True, "-Zmiri-tree-borrows", "-tree"),
        Miri("pejmdas", True, "-Zmiri-strict-provenance", "-strict")]


def miri_source(key):
    stamp = MIRI_SRC / ".tree"
    if stamp.is_file() and stamp.read_text() == key:
        return
    if MIRI_SRC.is_dir():
        shutil.rmtree(MIRI_SRC)
    for f in sorted((REPO / "src").rglob("*")):
        if f.is_file():
            to = MIRI_SRC / f.relative_to(REPO)
            to.parent.mkdir(parents=True, exist_ok=True)
            b = f.read_bytes()
            if f.suffix == ".rs":
                b = re.sub(rb"\bbox\s+(?=[A-Za-z_(&])", b"", b)
            to.write_bytes(b)
    stamp.write_text(key)


def build_miri(cfgs, bins, key=None):
    """Compiles for Miri; {name: error} of what failed."""
    key = key or tree_hash()
    miri_source(key)

    def one(c):
        e = c.environ()
        fresh(c.dir, key)
        for b in bins:
            p = subprocess.run(c.launch(b) + [{"mon": "C16", "threads": "C17"}[b], "--only", "nothing#0"], cwd=MIRI_HOME, env=env(e),
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, errors="replace")
            if p.returncode:
                return c.name, p.stdout
        (c.dir / ".tree").write_text(key)
        return c.name, None
    # those that share a directory one after the other
    groups = {}
    for c in cfgs:
        groups.setdefault(c.dir, []).append(c)
    with ThreadPoolExecutor(8) as ex:
        res = [r for g in ex.map(lambda g: [one(c) for c in g], groups.values()) for r in g]
    return {n: o for n, o in res if o is not None}


def tree_hash():
    """Content of everything a build depends on."""
    h = hashlib.sha256()
    roots = [REPO / "src", REPO / "examples", VERIF / "harness"]
    files = [REPO / "Cargo.toml", REPO / "build.rs", REPO / "Cargo.lock", REPO / "rust-toolchain.toml"]
    for r in roots:
        files += sorted(p for p in r.rglob("*") if p.is_file() and "target" not in p.parts)
    for f in files:
        if f.is_file():
            h.update(str(f).encode() + b"\0" + f.read_bytes() + b"\0")
    return h.hexdigest()


def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["RUSTFLAGS"] = "-Awarnings"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def cargo(tool, args, cwd, extra_env, timeout=800):
    p = subprocess.run(["cargo", f"+{tool}", *args], cwd=cwd, env=env(extra_env), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def fresh(dir, key):
    """Makes cargo forget the products of the crate and of the harness when the
    tree is not the one they were built from (times of files cannot tell)."""
    stamp = dir / ".tree"
    if stamp.is_file() and stamp.read_text() == key:
        return
    dir.mkdir(parents=True, exist_ok=True)
    stamp.unlink(missing_ok=True)
    for fp in dir.glob("**/.fingerprint"):
        for d in fp.iterdir():
            if re.match(r"(xprs|mon|mon-miri|refmodel)-[0-9a-f]+$", d.name):
                shutil.rmtree(d)


def build(cfg, bins, key, cwd=None):
    """Builds binaries in one configuration. Returns compiler output on failure."""
    cwd = cwd or VERIF / "harness" / "mon"
    ex = {"CARGO_TARGET_DIR": str(cfg.dir)}
    args = ["build", "--offline", "--features", cfg.features]
    tgt = []
    if cfg.profile == "release":
        args.append("--release")
    if cfg.san:
        tgt = ["--target", "x86_64-unknown-linux-gnu"]
        args += tgt
        ex["RUSTC_BOOTSTRAP"] = "1"
        if cfg.san == "asan":
            ex["RUSTFLAGS"] = "-Awarnings -Zsanitizer=address -Cforce-frame-pointers=yes"
        if cfg.san == "tsan":
            ex["RUSTFLAGS"] = "-Awarnings -Zsanitizer=thread -Cforce-frame-pointers=yes"
            args += ["-Zbuild-std"]
    for b in bins:
        args += ["--bin", b]
    fresh(cfg.dir, key)
    rc, out = cargo(TOOL[cfg.tool], args, cwd, ex)
    if rc == 0:
        (cfg.dir / ".tree").write_text(key)
        return None
    return out


def repl_path(cfg):
    return TARGET / f"repl-{cfg.name}" / "debug" / "repl"


def build_repl(cfgs, key=None):
    """Builds the REPL program; {name: error} of what failed."""
    key = key or tree_hash()

    def one(cfg):
        dir = TARGET / f"repl-{cfg.name}"
        fresh(dir, key)
        feats = cfg.mode + (",compile-time-optimizations" if cfg.opt else "")
        rc, out = cargo(TOOL[cfg.tool], ["build", "--offline", "--locked", "--no-default-features", "--features", feats, "--bin", "repl"],
                        REPO, {"CARGO_TARGET_DIR": str(dir)})
        if rc == 0:
            (dir / ".tree").write_text(key)
            return cfg.name, None
        return cfg.name, out
    with ThreadPoolExecutor(8) as ex:
        return {n: o for n, o in ex.map(one, cfgs) if o is not None}


def build_all(cfgs, bins, key=None):
    """Builds all configurations side by side; {name: error} of those that failed."""
    key = key or tree_hash()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda c: (c.name, build(c, bins, key)), cfgs))
    return {n: o for n, o in res if o is not None}
