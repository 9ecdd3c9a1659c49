"""What is run for each property."""
import json, os, re, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from . import build as B
from .run import Check, Job, REPLAYS, limits

ALL = B.CHECKED + B.RELEASE

# property: (scale quick, scale thorough, rule, classes that must have been seen)
MON = {
    "C02": (8, 160, "expressions generated as every short operator chain, literal chains, random trees printed with random parentheses and spacing, and single operators on arbitrary doubles, evaluated in several environments and compared with the reference evaluation; distinct accepted texts (with context) count", {"observations": 100000}),
    "C03": (8, 160, "texts with adjacent operands (every pair of operand forms in every surrounding operator, random chains, random trees with products left implicit) compared with the reference parse and with their explicit form; distinct texts with an adjacency count", {"observations": 100000, "adjacent literals refused": 100}),
    "C04": (6, 120, "every text of a few tokens over fixed alphabets, every character in simple positions, random, damaged and random-token texts, long texts; acceptance and variables compared with the reference grammar; distinct texts that are accepted or longer than two bytes count", {"accepted": 10000, "rejected": 10000}),
    "C05": (30, 600, "random literals, decimal expansions halfway between doubles, printed doubles (compared with exact rational arithmetic) and texts around the end of a literal (compared with the reference tokenizer); distinct literals and texts count", {"observations": 50000, "malformed literal": 100}),
    "C06": (40, 800, "every built-in on special values and random doubles of all magnitudes, any number of arguments for the variadic ones, factorials of all integers and neighbours; through variables, constants and partial evaluation; distinct calls count", {"observations": 50000, "no arguments": 10}),
    "C07": (9, 180, "instances and near instances of every algebraic rule, closed and open expressions, compared with the reference evaluation of the expression as written, after parsing and after vacuous and real partial evaluation; distinct expressions with at least one comparable value count", {"observations": 100000, "closed": 1000, "open": 1000}),
    "C08": (4, 80, "random expressions given some of their variables in one or several steps, in place, by consuming and pairwise, then evaluated with the rest and compared with the original expression and the reference evaluation; distinct (expression, given values) count", {"observations": 50000}),
    "C09": (3, 60, "sets of variables of parsed, simplified and cloned expressions compared with those displayed and those that evaluation and binding really need, with each given, missing and added variable tried; distinct expressions count", {"observations": 50000}),
    "C10": (10, 200, "every bind form with permuted, repeated, superfluous and missing names, up to hundreds of variables, results compared bit for bit with the evaluation of the expression; distinct (expression, names) count", {"observations": 50000}),
    "C15": (2, 40, "the displayed form of parsed and simplified expressions parsed again in the same context and both evaluated, every operator under every other one, negative and extreme constants; distinct displayed texts count", {"observations": 50000}),
    "C19": (8, 160, "pairs of expressions that differ in one place, in operand order, in functions or not at all, compared with ==, through x - x and x / x and with the reference model; distinct pairs count", {"observations": 50000}),
    "C01": (5, 100, "every text of up to four tokens of a hostile alphabet, random, damaged, non-ASCII, wide and moderately deep texts, in random contexts; every result displayed, debugged, cloned, compared with others, evaluated, bound and simplified, every error displayed and rendered; distinct texts count", {"observations": 100000}),
    "C11": (12, 240, "sessions of texts parsed again and again by one parser and fresh ones, and expressions evaluated in every form, in random order, with values before and after other evaluations, compared with each other, with the first results and with the reference; distinct (text, context, values) count", {"observations": 50000}),
    "C12": (20, 400, "every symbol form under every name, and random histories of definitions, replacements, clones and parses, compared with a model of the name resolution after every step; arguments passed to recording functions; distinct histories and texts count", {"observations": 50000}),
    "C13": (8, 160, "calls with every number of arguments of functions of every declared number, static, dynamic and made by the macro, nested; acceptance, the number told, and the arguments received compared with the model; distinct calls count", {"observations": 50000}),
    "C14": (5, 100, "every short rejected token text, damaged and random texts with multi-byte characters and odd spacing; kind, location, message, help and renderings of the error compared with the text and the reference tokenizer and grammar; distinct rejected texts count", {"observations": 50000}),
    "C20": (16, 320, "texts parsed under random declarations of variables, repeated, emptied, replaced and with one variable left out, compared with the variables of the same text without declaration; distinct (text, declaration) count", {"observations": 20000}),
    "C21": (1, 20, "texts nested in every pair of frames, bushy, damaged and flat texts at doubling sizes: processor time and memory requests of each operation; and counted applications of every call under each operation; distinct texts count", {"observations": 100000, "with calls": 5000}),
    "C22": (20, 400, "bound expressions registered as functions and called from other expressions in several layers, shared and redefined, compared bit for bit with the value of the definitions inlined; distinct calling expressions count", {"observations": 5000}),
}


SHALLOW, DEEP, FAMILIES = 500, 100_000, 19


def deep_probes(c, cfgs):
    """C01: texts nested hundreds of levels deep work; the known finding is
    that tens of thousands of levels exhaust the stack."""
    def one(a):
        cfg, fam, n = a
        cmd = [str(cfg.binary("mon")), "deep", str(fam), str(n)]
        try:
            p = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, timeout=200,
                               errors="replace", preexec_fn=limits(100, 8))
            return cfg, fam, n, cmd, p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            return cfg, fam, n, cmd, -24, "timeout"
    todo = [(k, f, SHALLOW) for k in cfgs for f in range(FAMILIES)] + [(cfgs[0], f, DEEP) for f in range(FAMILIES)]
    overflowed = []
    with ThreadPoolExecutor(8) as ex:
        for cfg, fam, n, cmd, rc, err in ex.map(one, todo):
            c.evaluations += 1
            if rc == 0:
                continue
            if n == DEEP and rc == -signal.SIGABRT and "has overflowed its stack" in err and "deep-recursion" in c.findings:
                overflowed.append(fam)
                continue
            path = REPLAYS / f"C01-deep-{cfg.name}-{fam}-{n}.json"
            REPLAYS.mkdir(parents=True, exist_ok=True)
            path.write_text(json.dumps({"property": "C01", "config": cfg.name, "seed": 0, "kind": "deep", "command": cmd, "env": {}}))
            c.violation(f"[{cfg.name}] text family {fam}, {n} levels deep: exit status {rc}: {err[-400:]!r}", path)
    if overflowed:
        c.known.append(f"{c.findings['deep-recursion']} ({len(overflowed)} of {FAMILIES} families at {DEEP} levels)")
    c.notes["families of deep texts"] = f"{FAMILIES} at {SHALLOW} levels in {len(cfgs)} configurations, and at {DEEP} levels in one"


def check_c16(tier, seed):
    quick = tier != "thorough"
    c = Check("C16", tier, seed, "sessions of parsers, contexts, expressions, bound and user functions with a panic injected at every application of every operation, random histories with panics, borrowed scopes, texts cut at exact allocations, and general workloads; judged by counting allocations and drops, AddressSanitizer and Miri; distinct texts and histories count")
    c.min_obs = {"observations": 100000, "with panics": 5000, "histories": 500}
    cfgs = c.build(ALL + B.ASAN)
    miri = c.build_miri(B.MIRI, ["mon"])
    if not c.problems:
        b = 150 if quick else 2400
        jobs = [Job(k, "C16", seed, 0.01 if quick else 0.5, budget=110 if quick else 3000, cpu=800 if quick else 9000, extra=["--stride", "300" if quick else "10"]) for k in miri]
        jobs += [Job(k, "C16", seed, (3 if k.san else 12) * (1 if quick else 20), budget=b, cpu=500 if quick else 5000) for k in cfgs]
        c.run_jobs(jobs, 10)
        c.notes["sanitizers"] = ", ".join(j.label for j in jobs if j.cfg.san and j.label in c.configs)
    return c.finish()


def check_c17(tier, seed):
    quick = tier != "thorough"
    c = Check("C17", tier, seed, "parses, evaluations, clones, simplifications, comparisons, lookups and bound calls on shared objects by 2 to 8 threads with user functions that yield, spin and panic, each result compared with that of the same operation alone; under ThreadSanitizer and Miri as well; distinct orders of beginnings and ends of operations count")
    c.min_obs = {"observations": 100000, "operations overlapping others": 50000, "relay": 30, "large texts": 30, "rejected texts": 300, "first uses in a process of its own": 100, "one kind at once": 500}
    t = time.time()
    bad = B.build_all(ALL + B.TSAN, ["threads"])
    c.notes["build_s"] = round(time.time() - t, 1)
    for n, o in bad.items():
        # the monitor uses objects from several threads, which is what the property says one can do
        m = re.search(r"error\[E0277\]: (`[^\n]*` cannot be (?:sent|shared) between threads safely)", o)
        if m and "could not compile `mon`" in o and "could not compile `xprs`" not in o:
            path = REPLAYS / f"C17-build-{n}.txt"
            REPLAYS.mkdir(parents=True, exist_ok=True)
            path.write_text(o)
            c.violation(f"[{n}] {m.group(1)}", path)
        else:
            c.problem(f"build of {n} failed:\n{o[-3000:]}")
    if not bad:
        miri = c.build_miri(B.MIRI, ["threads"])
        b = 100 if quick else 2400
        jobs = [Job(k, "C17", seed + 1000 * i, 0.006 if quick else 0.2, budget=100 if quick else 3000, cpu=800 if quick else 9000, binary="threads",
                    envx={"MIRIFLAGS": k.environ()["MIRIFLAGS"] + f" -Zmiri-seed={seed * 7 + i} -Zmiri-preemption-rate=0.0{1 + 2 * (i % 3)}"}) for i, k in enumerate(miri)]
        jobs += [Job(k, "C17", seed, (1.5 if k.san else 3) * (1 if quick else 20), budget=b, cpu=900 if quick else 20000, binary="threads") for k in ALL + B.TSAN]
        c.run_jobs(jobs, 6)
        c.notes["sanitizers"] = ", ".join(j.label for j in jobs if j.cfg.san and j.label in c.configs)
    return c.finish()


def check_c18(tier, seed):
    quick = tier != "thorough"
    c = Check("C18", tier, seed, "sessions of random accepted, rejected, empty, repeated and non-ASCII lines driven over pipes question by question or given at once, ended by exit or the end of the input in every way; answers compared with the library, the reference model and the answers given; distinct lines and scripts count")
    c.min_obs = {"observations": 10000, "accepted lines": 1000, "rejected lines": 1000, "questions": 1000, "ends": 100}
    cfgs = c.build(B.CHECKED)
    for n, o in B.build_repl(B.CHECKED).items():
        c.problem(f"build of the REPL, {n}, failed:\n{o[-3000:]}")
    if not c.problems:
        c.run_jobs([Job(k, "C18", seed, 3 if quick else 100, budget=200 if quick else 2400, cpu=500 if quick else 5000,
                        envx={"XPRS_REPL": str(B.repl_path(k))}) for k in cfgs])
        far_error_probe(c, cfgs)
    return c.finish()


def far_error_probe(c, cfgs):
    """C18: a rejected line is reported wherever in the line its error is; the
    known finding is that miette cannot lay out locations beyond column 65535."""
    hit = []
    for cfg in cfgs:
        repl, line = str(B.repl_path(cfg)), " " * 70_000 + "$"
        try:
            p = subprocess.run([repl], input=f"{line}\n1+1\n", capture_output=True, timeout=100, text=True, errors="replace", preexec_fn=limits(60, 8))
        except subprocess.TimeoutExpired:
            p = subprocess.CompletedProcess(repl, -24, "", "timeout")
        c.evaluations += 1
        if p.returncode == 0 and "Evaluated: 2.0" in p.stdout:
            continue
        if p.returncode == 101 and "miette" in p.stderr and "Formatting argument out of range" in p.stderr and "far-error-column" in c.findings:
            hit.append(cfg.name)
            continue
        path = REPLAYS / f"C18-far-{cfg.name}.json"
        REPLAYS.mkdir(parents=True, exist_ok=True)
        path.write_text(json.dumps({"property": "C18", "config": cfg.name, "seed": 0, "kind": "far error", "command": [repl], "env": {}}))
        c.violation(f"[{cfg.name}] a line with its error after 70000 blanks: exit status {p.returncode}: {p.stderr[-400:]!r}", path)
    if hit:
        c.known.append(f"{c.findings['far-error-column']} ({len(hit)} of {len(cfgs)} configurations)")


OWN = {"C18": check_c18, "C16": check_c16, "C17": check_c17}
EXTRA = {"C01": deep_probes}


def check(prop, tier, seed):
    quick = tier != "thorough"
    if prop in OWN:
        return OWN[prop](tier, seed)
    if prop in MON:
        sq, st, rule, need = MON[prop]
        c = Check(prop, tier, seed, rule)
        c.min_obs = need
        cfgs = c.build(ALL)
        if not c.problems:
            c.run_jobs([Job(k, prop, seed, sq if quick else st, budget=150 if quick else 2400,
                            cpu=500 if quick else 5000) for k in cfgs])
            if prop in EXTRA:
                EXTRA[prop](c, cfgs)
        return c.finish()
    raise SystemExit(f"unknown property {prop}")


def replay(path):
    d = json.loads(Path(path).read_text())
    every = {c.name: c for c in ALL + B.ASAN + B.TSAN + B.MIRI}
    cfg = every.get(d["config"])
    binary = "threads" if d["property"] == "C17" else "mon"
    if cfg is not None:
        bad = (B.build_miri if isinstance(cfg, B.Miri) else B.build_all)([cfg], [binary])
        if d["property"] == "C18":
            bad.update(B.build_repl([cfg]))
        if bad:
            print(bad)
            return 2
    e = dict(os.environ)
    e.update(d.get("env", {}))
    print(" ".join(d["command"]))
    return subprocess.run(d["command"], env=e).returncode


def setup():
    # one after the other where they share a directory
    bad = B.build_all(ALL, ["mon", "threads"])
    bad.update(B.build_all(B.ASAN, ["mon"]))
    bad.update(B.build_all(B.TSAN, ["threads"]))
    bad.update(B.build_repl(B.CHECKED))
    miri = B.build_miri(B.MIRI, ["mon", "threads"])
    for n, o in {**bad, **miri}.items():
        print(n, o[-3000:])
    return 1 if bad else 0

# property: (technique, what the check assures)
_REF = "online reference-model monitor over generated and exhaustive workloads in 8 checked configurations and 2 release ones"
_HELD = "Held on the executions counted in the evidence, not proved. Trusts the reference model in harness/refmodel, the double operations of std and libm, and the compilers. "
TECH = {
    "C01": ("online monitor of panics, aborts and processor time over exhaustive token sequences and hostile texts in 8 checked configurations and 2 release ones, with a watchdog per case and child processes for deep texts", _HELD + "Stack exhaustion by texts about 100000 levels deep is a recorded finding; 500 levels must work."),
    "C11": (_REF, _HELD),
    "C12": (_REF, _HELD),
    "C13": (_REF, _HELD),
    "C14": (_REF, _HELD + "What the message should say is judged by what it quotes and counts, not by its wording."),
    "C16": ("AddressSanitizer, Miri (stacked and tree borrows), a counting allocator and functions that notice use after drop, over sessions with panics injected at each application of a user function", _HELD + "Undefined behaviour is only seen where it happens in the executions; Miri interprets a copy of the sources without the nightly-only rules."),
    "C17": ("online comparison of concurrent results with those alone, ThreadSanitizer and Miri's data race detector, over shared objects used by 2 to 8 threads with yields, spins and panics injected in user functions; compilation of the threaded monitor for Send and Sync", _HELD + "Interleavings are those that happened, counted in the evidence."),
    "C20": (_REF, _HELD),
    "C21": ("online monitor of processor time, memory requests and applications of user functions, over families of texts of doubling sizes", _HELD + "Polynomial is judged as at most 24 times the memory requests for twice the levels, and 3 s of processor time per operation."),
    "C02": (_REF, _HELD + "With optimisations, values that are not finite throughout are only judged for closed expressions (C07)."),
    "C03": (_REF, _HELD + "Disagreements that the explicit form of the same expression shares are left to C02."),
    "C04": (_REF, _HELD + "The grammar is the one in harness/refmodel/src/parse.rs, written from the documentation."),
    "C05": (_REF + " with exact rational arithmetic", _HELD),
    "C06": (_REF, _HELD + "Sums and means are compared with a tolerance for the order of additions."),
    "C07": (_REF, _HELD + "Open expressions are only compared where every subexpression is finite whatever the signs of zeros, as stated."),
    "C08": (_REF, _HELD + "Values compared where every subexpression of the original is finite; exactly without optimisations."),
    "C09": (_REF, _HELD),
    "C10": (_REF, _HELD),
    "C15": (_REF, _HELD + "Functions registered under another key than their name are excluded, as stated."),
    "C18": ("online monitor of the dialogue with the REPL process over pipes, against the library and the reference model, in 8 configurations", _HELD + "Lines are UTF-8 and every question is answered with a number."),
    "C19": (_REF, _HELD),
    "C22": (_REF, _HELD),
}
