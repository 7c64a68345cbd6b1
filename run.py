#!/usr/bin/env python3
"""Build one check from the headers in /repo as they are now, and run it.

  run.py check <property> [quick|thorough]   tier defaults to $VERIF_TIER
  run.py replay <file>                       repeat a recorded violation
  run.py trace <property> <run>              print the trace of one seeded run
  run.py build                               compile the runtime only
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
KNOWN = os.path.join(ROOT, "known_findings.txt")
CXX = "g++-13"
BASE = ["-std=c++23", "-g1", "-w", "-fcf-protection=none"]
RT_FLAGS = BASE + ["-O2", "-fno-pie"]
SUT_FLAGS = BASE + [
    "-O1", "-fno-pie", "-fsanitize=thread", "-fsanitize-coverage=trace-pc",
    "-fno-sanitize-recover=all", "-fno-strict-aliasing",
    "-fmessage-length=0",
    "-I", os.path.join(ROOT, "sim"), "-I", os.path.join(REPO, "include"),
]
WRAP = ["memcpy", "memmove", "memset", "memcmp", "__cxa_guard_acquire",
        "__cxa_guard_release", "__cxa_guard_abort"]


def log(*a):
    print(*a, flush=True)


def compile_all(jobs, fatal=True):
    """Runs the commands in parallel; on failure exits 2 or returns False."""
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT)) for c in jobs]
    bad = False
    for c, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            log("BUILD FAILED:", " ".join(c))
            log(out[-6000:])
            bad = True
    if bad and fatal:
        sys.exit(2)
    return not bad


def rt_object():
    """The runtime does not depend on /repo: cached by content."""
    h = hashlib.sha256()
    for f in ("rt.cpp", "rt.hpp"):
        h.update(open(os.path.join(ROOT, "sim", f), "rb").read())
    h.update(" ".join(RT_FLAGS).encode())
    out = os.path.join(BUILD, "rt-%s.o" % h.hexdigest()[:16])
    cmd = None
    if not os.path.exists(out):
        cmd = [CXX] + RT_FLAGS + ["-c", os.path.join(ROOT, "sim", "rt.cpp"),
                                  "-o", out + ".tmp"]
    return out, cmd


def build(prop):
    """Returns the executable and the parts it had to leave out.

    A check may mark uses that ask more of the code under test than most
    (immovable values, say) with #ifndef SIM_WITHOUT_<part>.  When the check
    does not compile, it is tried without them, so that a violation among the
    rest is still reported; such a run never counts as passed.
    """
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, "checks", prop + ".cpp")
    text = open(src).read()
    rt, cmd = rt_object()
    if cmd:
        compile_all([cmd])
        os.replace(rt + ".tmp", rt)
    parts = sorted(set(re.findall(r"SIM_WITHOUT_\w+", text)))
    choices = [[]] + [[p] for p in parts]
    if len(parts) > 1:
        choices.append(parts)
    for without in choices:
        flags = SUT_FLAGS + ["-D" + p for p in without]
        objs = [os.path.join(BUILD, prop + ".o")]
        jobs = [[CXX] + flags + ["-c", src, "-o", objs[0]]]
        if "SIM_WIDE_STORAGE" in text:
            objs.append(os.path.join(BUILD, prop + "-wide.o"))
            jobs.append([CXX] + flags +
                        ["-DSIM_WIDE_STORAGE", "-DSIM_NS=wide", "-Dv1=v1wide",
                         "-c", src, "-o", objs[1]])
        if compile_all(jobs, fatal=without == choices[-1]):
            break
    exe = os.path.join(BUILD, prop)
    link = [CXX, "-no-pie", "-o", exe] + objs + [rt] + \
        ["-Wl,--wrap=" + w for w in WRAP]
    compile_all([link])
    return exe, without


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    if len(sys.argv) < 2:
        log(__doc__)
        return 2
    mode = sys.argv[1]
    seed = os.environ.get("VERIF_SEED", "1")
    if mode == "build":
        os.makedirs(BUILD, exist_ok=True)
        rt, cmd = rt_object()
        if cmd:
            compile_all([cmd])
            os.replace(rt + ".tmp", rt)
        return 0
    if mode == "replay":
        path = os.path.abspath(sys.argv[2])
        prop = json.load(open(path))["property"]
        exe, _ = build(prop)
        return subprocess.call([exe, "replay", "--file", path])
    prop = sys.argv[2]
    if mode == "trace":
        exe, _ = build(prop)
        return subprocess.call([exe, "one", "--run", sys.argv[3],
                                "--seed", seed])
    if mode != "check":
        log(__doc__)
        return 2
    tier = sys.argv[3] if len(sys.argv) > 3 else \
        os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    exe, without = build(prop)
    if without:
        log("NOTE: %s does not compile as a whole; judging it without %s"
            % (prop, ", ".join(p[12:] for p in without)))
    log("%s: built from %s in %.1f s" % (prop, REPO, time.time() - t0))
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    evidence = os.path.join(evdir, prop + ".json")
    replays = os.path.join(evdir, "replay")
    os.makedirs(replays, exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    known = known_findings(prop)
    cmd = [exe, "run", "--tier", tier, "--seed", seed,
           "--evidence", evidence, "--replay-dir", replays,
           "--workers", os.environ.get("VERIF_WORKERS",
                                       str(min(8, os.cpu_count() or 1)))]
    if os.environ.get("VERIF_RUNS"):
        cmd += ["--runs", os.environ["VERIF_RUNS"]]
    if known:
        cmd += ["--known", ",".join(k[0] for k in known)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE)
    out = p.stdout.decode(errors="replace")
    sys.stdout.write(out)
    if known and "known-finding runs:" in out:
        for _, what in known:
            log("KNOWN-FINDING: property=%s %s" % (prop, what))
    code = p.returncode
    if code not in (0, 1):
        return 3
    if code == 1 and "VIOLATION property=" not in out:
        return 3
    if code == 0 and without:
        return 2
    return code


if __name__ == "__main__":
    sys.exit(main())
