"""Lists the planted bugs whose patches change only lines that commits of this work added (they would not count)."""
import os, re, subprocess, sys
BASE = "ef77110"
def diff(*a): return subprocess.run(["git", "-C", "/repo", "diff", "-U0", *a], capture_output=True, text=True).stdout
cache = {}
def added(p):
    if p not in cache:
        s = set()
        for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", diff(BASE, "HEAD", "--", p)):
            s.update(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
        cache[p] = s
    return cache[p]
for n in sorted(os.listdir("seeded")):
    t = open(f"seeded/{n}/patch.diff").read()
    ok = False
    for part in re.split(r"(?m)^diff --git ", t)[1:]:
        p = re.search(r"(?m)^--- a/(\S+)", part)[1]
        for h in re.split(r"(?m)^(?=@@ )", part)[1:]:
            at = int(re.match(r"@@ -(\d+)", h)[1]); old = []; prev = None; ins = False; mods = []
            hunks = []; cur = None
            for l in h.splitlines()[1:]:
                if l.startswith(("-", "+")):
                    if cur is None: cur = [at - 1, [], None]
                    if l[0] == "-": cur[1].append(at); at += 1
                elif l.startswith("\\"): pass
                else:
                    if cur is not None: cur[2] = at; hunks.append(cur); cur = None
                    at += 1
            if cur is not None: cur[2] = at; hunks.append(cur)
            for b, dels, a in hunks:
                if dels: ok |= any(x not in added(p) for x in dels)
                else: ok |= b not in added(p) and a not in added(p)
    if not ok: print(n)
