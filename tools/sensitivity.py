#!/usr/bin/env python3
"""Sensitivity measurement: applies small source changes (tools/mutants.txt) to
a scratch copy of the headers and reports which checks notice.  Never touches
/repo.  usage: sensitivity.py [name-prefix ...]

mutants.txt: blocks separated by lines of '----':
  name file checks(comma separated)
  <<<<
  old text
  ====
  new text
  >>>>
(several <<<< >>>> replacements may follow each other)
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def parse():
    text = open(os.path.join(ROOT, "tools", "mutants.txt")).read()
    for block in re.split(r"^----\n", text, flags=re.M):
        if not block.strip():
            continue
        head, rest = block.split("\n", 1)
        name, path, checks = head.split()
        edits = re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", rest, flags=re.S)
        yield name, path, checks.split(","), edits


def main():
    want = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="sens-")
    bad = 0
    try:
        for name, path, checks, edits in parse():
            if want and not any(name.startswith(w) for w in want):
                continue
            inc = os.path.join(scratch, "include")
            if os.path.exists(inc):
                shutil.rmtree(inc)
            shutil.copytree(os.path.join(REPO, "include"), inc)
            f = os.path.join(inc, "stdx", path)
            s = open(f).read()
            for old, new in edits:
                if old not in s:
                    print("%-28s OLD TEXT NOT FOUND: %r" % (name, old[:60]))
                    bad += 1
                s = s.replace(old, new, 1)
            open(f, "w").write(s)
            env = dict(os.environ, VERIF_REPO=scratch,
                       VERIF_BUILD=os.path.join(scratch, "build"),
                       VERIF_EVIDENCE=os.path.join(scratch, "ev"))
            for c in checks:
                t = time.time()
                expect = 1
                if c.startswith("!"):
                    expect, c = 0, c[1:]
                p = subprocess.run(
                    [sys.executable, os.path.join(ROOT, "run.py"), "check", c],
                    env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out = p.stdout.decode(errors="replace")
                m = re.search(r"^run (\d+) .*", out, flags=re.M)
                ok = p.returncode == expect
                bad += not ok
                print("%-28s %s %s exit %d (%.0f s) %s" % (
                    name, c, "ok " if ok else "MISSED", p.returncode,
                    time.time() - t, m.group(0)[:110] if m else ""), flush=True)
                if p.returncode not in (0, 1):
                    print(out[-1500:])
    finally:
        shutil.rmtree(scratch)
    print("not as expected:", bad)
    return 1 if bad else 0


sys.exit(main())
