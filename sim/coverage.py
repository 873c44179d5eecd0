#!/usr/bin/env python3
"""Which lines of the library the simulated runs reach.
usage: coverage.py [scale [property ...]]   (development aid; no check uses it)
Builds the simulator with line tables in a scratch directory, runs the checks with SIM_SCALE=scale,
maps every reached code edge to its source line and prints the lines of /repo/src that have an edge
in the program and were never reached."""
import os, re, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scale = sys.argv[1] if len(sys.argv) > 1 else "0.1"
props = sys.argv[2:] or "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C16 C17 C18 C19".split()
d = tempfile.mkdtemp(prefix="simcov")
try:
    for f in ("sim", "check.sh", "known_findings.txt"):
        src = os.path.join(here, f)
        (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, f))
    toml = os.path.join(d, "sim/Cargo.toml")
    t = open(toml).read().replace("debug = false", 'debug = "line-tables-only"')
    t = t.replace('opt-level = 1', 'opt-level = 0')  # or inlining blurs the lines
    open(toml, "w").write(t)
    hit = set()
    for p in props:
        env = dict(os.environ, SIM_SCALE=scale, SIM_COVDUMP=os.path.join(d, "cov"))
        r = subprocess.run(["./check.sh", p], cwd=d, env=env, capture_output=True, text=True)
        got = {int(x) for x in open(os.path.join(d, "cov")).read().split()}
        print(p, "exit", r.returncode, len(got), "edges", file=sys.stderr)
        hit |= got
    exe = os.path.join(d, "target/debug/simwl")
    start = int(next(l.split()[0] for l in subprocess.check_output(["nm", exe], text=True).splitlines() if "__start___sancov_guards" in l), 16)
    at, last = [], None
    for l in subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True).stdout:
        m = re.search(r"lea .*%rdi +# ([0-9a-f]+) <__start___sancov_guards", l)
        if m:
            last = int(m[1], 16)
        elif "call" in l and "trace_pc_guard>" in l and last is not None:
            at.append((l.split(":")[0].strip(), (last - start) // 4))
            last = None
    out = subprocess.run(["addr2line", "-e", exe], input="\n".join(a for a, _ in at), capture_output=True, text=True).stdout.splitlines()
    lines = {}
    for (a, g), loc in zip(at, out):
        m = re.match(r"(/repo/src/.*?):(\d+)", loc)
        if m:
            k = (m[1], int(m[2]))
            lines[k] = lines.get(k, False) or g in hit
    n = sum(lines.values())
    print(f"{n} of {len(lines)} lines of the library with an instrumented edge in the program were reached")
    for (f, l), h in sorted(lines.items()):
        if not h:
            text = open(f).read().splitlines()
            print(f"{f}:{l}: {text[l-1].strip() if 0 < l <= len(text) else ''}")
finally:
    shutil.rmtree(d)
