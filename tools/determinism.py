#!/usr/bin/env python3
"""Shows that one seed is one execution, on a large sample.

For every check: the hashes of N runs (all choices, switches, events, results)
for several seeds, computed in two processes that differ in address layout,
environment and working directory, must be the same; a sample is repeated with
one process per run; and the totals of a search must not depend on the number
of workers (except for the basic blocks, which include what each worker process
initialises once).  usage: determinism.py [runs per seed] [property ...]
"""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run  # noqa: E402

TOTALS = ("evaluations", "distinct_nontrivial", "distinct_schedules",
          "scheduler_steps", "context_switches",
          "preemptions_inside_operations", "faults_injected", "fault_kinds",
          "reach_probes", "scenarios", "longest_run_steps")


def hashes(exe, seed, n, fork="0", **kw):
    return subprocess.Popen([exe, "hashes", "--n", str(n), "--seed", str(seed),
                             "--fork", fork], stdout=subprocess.PIPE, **kw)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 20000
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    props = sys.argv[2:] or [c["property"] for c in man["checks"]]
    bad = 0
    total = 0
    for p in props:
        exe, without = run.build(p)
        differ = []
        for seed in (1, 2, 77):
            noisy = dict(os.environ, NOISE="x" * (1000 * seed))
            a = hashes(exe, seed, n)
            b = hashes(exe, seed, n, env=noisy, cwd="/")
            c = hashes(exe, seed, 500, fork="1")
            a, b, c = (x.communicate()[0].splitlines() for x in (a, b, c))
            if len(a) != n or a != b or c != a[-500:]:
                differ.append("seed %d" % seed)
            total += 2 * n + 500
        seen = set()
        with tempfile.TemporaryDirectory() as d:
            for workers in (1, 3, 8):
                ev = os.path.join(d, "ev.json")
                subprocess.run([exe, "run", "--tier", "quick", "--seed", "5",
                                "--evidence", ev, "--replay-dir", d, "--runs",
                                str(n), "--workers", str(workers)],
                               stdout=subprocess.DEVNULL)
                cov = json.load(open(ev))["coverage"]
                seen.add(json.dumps({k: cov[k] for k in TOTALS},
                                    sort_keys=True))
                total += n
        if len(seen) != 1:
            differ.append("totals depend on the number of workers")
        print(p, "SAME" if not differ else "DIFFERENT: " + ", ".join(differ),
              flush=True)
        bad += len(differ)
    print("%d runs repeated, %d differences" % (total, bad))
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
