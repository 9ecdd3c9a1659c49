"""Runs of the monitors, verdicts and evidence."""
import array, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from . import build as B

VERIF = B.VERIF
EVID = VERIF / "evidence"
REPLAYS = EVID / "replays"


def limits(cpu, mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    return f


class Job:
    """One monitor process."""

    def __init__(self, cfg, prop, seed, scale=1.0, budget=120, cpu=600, mem=8, binary="mon", extra=(), envx=None, label=None):
        self.cfg, self.prop, self.seed, self.scale, self.budget = cfg, prop, seed, scale, budget
        if cfg.san:
            mem = 0  # they map far more than they use
        self.cpu, self.mem, self.binary, self.extra = cpu, mem, binary, list(extra)
        self.envx = {**cfg.environ(), **(envx or {})}
        self.label = label or cfg.name

    def command(self, only=None):
        c = [*self.cfg.launch(self.binary), self.prop, "--seed", str(self.seed), "--config", self.cfg.name,
             "--scale", str(self.scale), "--budget", str(self.budget), *self.extra]
        if only:
            c += ["--only", only]
        return c

    def environ(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO"))}
        e.update(self.envx)
        return e

    def run(self, tmp, only=None, tag=""):
        base = Path(tmp) / f"{self.label}-{self.prop}{tag}"
        out, hashes, trace = (str(base) + s for s in (".json", ".hashes", ".trace"))
        cmd = self.command(only) + ["--out", out, "--hashes", hashes, "--trace", trace]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, env=self.environ(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=600 if self.budget < 300 else self.budget * 3, preexec_fn=limits(self.cpu, self.mem), errors="replace", cwd=str(tmp))
        except subprocess.TimeoutExpired:
            return {"job": self, "status": "timeout", "wall": time.time() - t0}
        r = {"job": self, "rc": p.returncode, "stderr": p.stderr[-60000:], "stdout": p.stdout[-6000:], "wall": time.time() - t0}
        try:
            r["report"] = json.loads(Path(out).read_text())
            r["status"] = "done"
        except (OSError, ValueError):
            r["status"] = "crash"
            try:
                r["at"] = Path(trace).read_text().splitlines()[0].strip()
            except (OSError, IndexError):
                r["at"] = ""
        try:
            a = array.array("Q")
            a.frombytes(Path(hashes).read_bytes())
            r["hashes"] = a
        except OSError:
            r["hashes"] = []
        for f in (out, hashes, trace):
            try:
                os.unlink(f)
            except OSError:
                pass
        return r


class Check:
    """Collects what the runs of one property observed and says the verdict."""

    def __init__(self, prop, tier, seed, rule, assumptions=()):
        self.prop, self.tier, self.seed, self.rule = prop, tier, seed, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evaluations = 0
        self.hashes = set()
        self.extra_distinct = 0
        self.classes, self.samples, self.configs, self.notes = {}, [], {}, {}
        self.violations, self.problems, self.known, self.min_obs = [], [], [], {}
        self.findings = load_findings(prop)
        EVID.mkdir(exist_ok=True)
        if REPLAYS.is_dir():
            for f in REPLAYS.glob(f"{prop}-*"):
                f.unlink()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")

    def violation(self, msg, replay):
        self.violations.append((msg, replay))

    def problem(self, msg):
        self.problems.append(msg)

    def build(self, cfgs, bins=("mon",), key=None):
        t = time.time()
        bad = B.build_all(cfgs, list(bins), key)
        self.notes["build_s"] = round(self.notes.get("build_s", 0) + time.time() - t, 1)
        for n, o in bad.items():
            self.problem(f"build of {n} failed:\n{o[-3000:]}")
        return [c for c in cfgs if c.name not in bad]

    def build_miri(self, cfgs, bins):
        """What Miri cannot compile is left out, and noted."""
        t = time.time()
        bad = B.build_miri(cfgs, list(bins))
        self.notes["miri_build_s"] = round(time.time() - t, 1)
        for n, o in bad.items():
            self.notes[f"without {n}"] = o[-600:]
        return [c for c in cfgs if c.name not in bad]

    def run_jobs(self, jobs, parallel=8):
        with ThreadPoolExecutor(parallel) as ex:
            for r in ex.map(lambda j: j.run(self.tmp), jobs):
                self.absorb(r)

    def absorb(self, r):
        job = r["job"]
        if r["status"] == "timeout":
            if job.cfg.san.startswith("miri"):
                self.notes[f"without {job.label}"] = "not finished in time"
            else:
                self.problem(f"{job.label}: monitor did not finish in time")
            return
        if r["status"] == "crash":
            self.crash(r)
            return
        rep = r["report"]
        self.evaluations += rep["evaluations"]
        self.hashes.update(r["hashes"])
        c = self.configs.setdefault(job.label, {"evaluations": 0, "distinct": 0, "seconds": 0})
        c["evaluations"] += rep["evaluations"]
        c["distinct"] += rep["distinct"]
        c["seconds"] = round(c["seconds"] + rep["seconds"], 1)
        if rep["truncated"]:
            c["truncated"] = True
        for k, v in rep["classes"].items():
            self.classes[k] = self.classes.get(k, 0) + v
        for k, v in rep["notes"].items():
            self.notes.setdefault(k, v)
        n = len(rep["samples"])
        for i in sorted({n * k // 3 + len(self.configs) % 3 for k in range(3)}):
            if i < n and len(self.samples) < 24:
                self.samples.append(f"{job.label} {rep['samples'][i]}")
        for v in rep["violations"]:
            self.found(job, f"{v['stream']}#{v['idx']}", v["msg"])
        if not rep["violations"] and r["rc"] != 0:
            self.problem(f"{job.label}: exit status {r['rc']} after a clean report: {r['stderr'][-800:]}")

    def found(self, job, only, msg, kind="case"):
        i = len(self.violations)
        path = REPLAYS / f"{self.prop}-{i}.json"
        REPLAYS.mkdir(parents=True, exist_ok=True)
        path.write_text(json.dumps({"property": self.prop, "config": job.cfg.name, "seed": job.seed, "case": only,
                                    "message": msg, "kind": kind, "command": job.command(only), "env": job.envx,
                                    "tree": B.tree_hash()}, indent=1))
        self.violations.append((f"[{job.label} seed {job.seed} {only}] {msg}", path))

    def crash(self, r):
        """The process died: repeat the case it was in on its own."""
        job, rc, at = r["job"], r["rc"], r["at"]
        sig = -rc if rc < 0 else 0
        san = re.search(r"(AddressSanitizer|ThreadSanitizer|MemorySanitizer|LeakSanitizer|error: Undefined Behavior|error: memory leaked"
                        r"|error: the evaluated program|error: abnormal termination)[^\n]*", r["stderr"])
        if job.cfg.san.startswith("miri") and not san:
            # an interpreter may lack something the code uses: no verdict from it
            self.notes[f"without {job.label}"] = (r["stderr"][-600:] or "no report")
            return
        if san:
            r["stderr"] = r["stderr"][r["stderr"].find(san.group(0)):][:1500]
        if sig == signal.SIGKILL and not san:
            self.problem(f"{job.label}: monitor was killed at {at or 'start'} (memory?)")
            return
        what = f"died by {signal.Signals(sig).name}" if sig else f"exit status {rc}"
        tail = (r["stderr"][:900] if san else r["stderr"][-700:]).replace("\n", " / ")
        if not at:
            self.problem(f"{job.label}: monitor {what} before its first case: {tail}")
            return
        again = job.run(self.tmp, only=at, tag="-again")
        if sig == signal.SIGXCPU and again["status"] == "done" and not again["report"]["violations"]:
            self.problem(f"{job.label}: out of processor time at {at}, which ends when run alone")
            return
        if sig or san or again["status"] == "crash":
            alone = "reproduced alone" if again["status"] == "crash" else "not reproduced alone"
            self.found(job, at, f"the process {what} ({alone}): {tail}", "crash")
        else:
            self.problem(f"{job.label}: monitor {what} at {at}: {tail}")

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        distinct = len(self.hashes) + self.extra_distinct
        if not self.violations and not self.problems:
            if distinct < 2:
                self.problem("nothing was observed")
            for k, n in self.min_obs.items():
                if self.classes.get(k, 0) < n:
                    self.problem(f"too few observations of {k!r}: {self.classes.get(k, 0)} of {n}")
        wall = round(time.time() - self.t0, 1)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": distinct, "rule": self.rule,
                "samples": self.samples[:16] or ["none"], "observed": self.classes, "configurations": self.configs,
                "notes": self.notes, "known_findings": self.known,
            },
            "assumptions": self.assumptions, "wall_s": wall, "violations": len(self.violations),
        }
        if self.problems:
            ev["coverage"]["inconclusive"] = [p[:1500] for p in self.problems[:10]]
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False) + "\n")
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for m, path in self.violations:
            print("  " + m[:2500])
            print(f"VIOLATION property={self.prop} replay={path}")
        for p in self.problems:
            print(f"inconclusive: {p}", file=sys.stderr)
        print(f"{self.prop} {self.tier} seed {self.seed}: {self.evaluations} evaluations, {distinct} distinct, "
              f"{self.classes.get('observations', 0)} observations, {len(self.violations)} violations, {wall} s")
        if self.violations:
            return 1
        return 2 if self.problems else 0


def load_findings(prop):
    """Signatures of the known findings of a property: {signature: description}."""
    out = {}
    f = VERIF / "known_findings.txt"
    if f.is_file():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out
