#!/usr/bin/env python3
"""Automatic sensitivity measurement: changes one operator, constant or
statement of one header at a time, in a scratch copy, and lists the changes
that compile and that no check notices.  Never touches /repo.

usage: mutate.py header check[,check...] [--runs N] [--jobs N] [--only a-b]
                 [--shared]

--shared instead makes one function at a time count its calls in a variable
shared by everything, which breaks nothing but the absence of hidden state.
"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

SWAPS = [
    (r" \+ ", " - "), (r" - ", " + "), (r" < ", " <= "), (r" <= ", " < "),
    (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r" << ", " >> "),
    (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \|= ", " &= "),
    (r" &= ", " |= "), (r"\+\+", "--"), (r"--", "++"),
    (r"\b1[uU]?\b", "0"), (r"\b1[uU]?\b", "2"), (r"\b0[uU]?\b", "1"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" % ", " / "),
    (r" / ", " * "), (r" \* ", " / "),
    (r"std::forward<[^>]*>\((\w+)\)", r"\1"), (r"std::move\((\w+)\)", r"\1"),
    (r"\bif \((?!constexpr).*\) \{", "if (true) {"),
    (r"\bif \((?!constexpr).*\) \{", "if (false) {"),
    (r"\bbegin\b", "end"), (r"\brbegin\b", "begin"), (r"\bprev\b", "next"),
    (r"\bnext\b", "prev"), (r"\bhead\b", "tail"), (r"\btail\b", "head"),
    (r"\bfirst\b", "last"), (r"~", ""), (r"seq_cst", "relaxed"),
    (r"\bmask\b", "lastmask"), (r"\bl\b", "m"), (r"\bm\b", "l"),
]
SKIP = re.compile(r"^\s*(template\b|static_assert|using |requires|#|//|\"|"
                  r"namespace|struct |class |friend class|concept|\}|public:|"
                  r"private:)")


def mutants(text):
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if SKIP.match(l) or not l.strip():
            continue
        code = l.split("//")[0]
        seen = set()
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                n = code[:m.start()] + m.expand(rep) + code[m.end():]
                if n != code and n not in seen:
                    seen.add(n)
                    yield i, n
        s = code.strip()
        if s.endswith(";") and not re.match(
                r"(return|auto |constexpr|const |using|\w+ const|break)", s) \
                and not s.startswith(("->", ":", ")", "&", "|", "?", "-")) \
                and code.count("(") == code.count(")"):
            yield i, re.match(r"\s*", code).group(0) + ";"
        if re.match(r"\s+constexpr (static )?auto \w+ = [^{]*;$", code):
            pass


SHARED = "inline unsigned hidden_calls_{};"
COUNT = " if (not __builtin_is_constant_evaluated()) { ++::hidden_calls_; }"
NOT_A_FUNCTION = re.compile(
    r"^\s*(if|else|for|while|switch|do|struct|class|namespace|enum|requires|"
    r"return|case|default|concept|union|extern|#)\b")


def shared(text):
    lines = text.split("\n")
    start = 0  # first line of the current declaration or statement
    for i, l in enumerate(lines):
        code = l.split("//")[0].rstrip()
        if not code.strip() or code.strip().startswith("#"):
            start = i + 1
            continue
        m = (re.match(r"(.*\)[^(){}]*\{)(.*\})$", code) or
             re.match(r"(.*\{)()$", code))
        head = " ".join(lines[start:i] + [code])
        if m and ")" in head:
            body = re.sub(r"^\s*(template\s*<.*?>\s*(?=constexpr|auto|operator|"
                          r"\[\[|requires|friend|explicit|\w))?", "", head)
            if not NOT_A_FUNCTION.match(body) and "consteval" not in head:
                yield i, m.group(1) + COUNT + (m.group(2) or "")
        if code[-1] in ";{}:":
            start = i + 1


def one(args):
    idx, header, text, i, new, checks, runs = args
    lines = text.split("\n")
    old = lines[i]
    lines[i] = new
    if COUNT in new:
        lines[0] += "\n" + SHARED
    scratch = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(os.path.join(REPO, "include"),
                        os.path.join(scratch, "include"))
        with open(os.path.join(scratch, "include", "stdx", header), "w") as f:
            f.write("\n".join(lines))
        env = dict(os.environ, VERIF_REPO=scratch,
                   VERIF_BUILD=os.path.join(scratch, "build"),
                   VERIF_EVIDENCE=os.path.join(scratch, "ev"),
                   VERIF_WORKERS="1", VERIF_RUNS=str(runs))
        os.makedirs(env["VERIF_BUILD"])
        for f in os.listdir(os.path.join(ROOT, "build")):
            if f.startswith("rt-"):
                os.symlink(os.path.join(ROOT, "build", f),
                           os.path.join(env["VERIF_BUILD"], f))
        verdicts = []
        for c in checks:
            try:
                p = subprocess.run(
                    [sys.executable, os.path.join(ROOT, "run.py"), "check", c,
                     "quick"], env=env, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, timeout=900)
                code, out = p.returncode, p.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                code, out = 99, ""
            if code == 1:
                m = re.search(r"VIOLATION ([\w-]+):", out)
                return idx, i, old, new, "caught %s %s" % (
                    c, m.group(1) if m else "?")
            if "BUILD FAILED" in out:
                verdicts.append("stillborn")
            elif code == 0:
                verdicts.append("SURVIVED")
            else:
                verdicts.append("ERROR%d" % code)
        if any(v.startswith("ERROR") for v in verdicts):
            v = "ERROR " + ",".join(verdicts)
        elif "stillborn" in verdicts:
            v = "stillborn"
        else:
            v = "SURVIVED"
        return idx, i, old, new, v
    finally:
        shutil.rmtree(scratch)


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def main():
    header, checks = sys.argv[1], sys.argv[2].split(",")
    runs, jobs = int(opt("--runs", "60000")), int(opt("--jobs", "8"))
    lo, hi = [int(x) for x in opt("--only", "0-100000").split("-")]
    text = open(os.path.join(REPO, "include", "stdx", header)).read()
    work = [(n, header, text, i, new, checks, runs)
            for n, (i, new) in enumerate(
                shared(text) if "--shared" in sys.argv else mutants(text))
            if lo <= i + 1 <= hi]
    counts = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for idx, i, old, new, v in ex.map(one, work):
            counts[v.split()[0]] = counts.get(v.split()[0], 0) + 1
            if v.startswith(("SURVIVED", "ERROR")):
                print("%s:%d %s\n  - %s\n  + %s" % (header, i + 1, v,
                                                    old.strip(), new.strip()),
                      flush=True)
    print(header, len(work), counts)


main()
