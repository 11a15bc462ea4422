#!/usr/bin/env python3
"""Random mutation of the sources, to find what the checks miss (a development tool; no check uses it).

  mutate.py FILE CHECKS N SEED [LINE-RANGE]     e.g.  mutate.py core_rational.hpp C09 20 1

Works on scratch copies of /repo and /verif under /tmp/mut.<pid>; prints one line per mutant.
"""
import os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [
    (r"(?<![-+*/<>=!&|])\+(?![+=])", "-"), (r"(?<![-+e(,=<>\[])\s-\s(?![-=>])", " + "), (r"\s\*\s", " / "), (r"\s/\s", " * "),
    (r"\s<\s", " <= "), (r"\s<=\s", " < "), (r"\s>\s", " >= "), (r"\s>=\s", " > "), (r"==", "!="), (r"!=", "=="),
    (r"&&", "||"), (r"\|\|", "&&"), (r"\+=", "-="), (r"-=", "+="), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "1"),
    (r"\b2\b(?!\.)", "3"), (r"\b3\b(?!\.)", "2"), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"body1", "body2"), (r"body2", "body1"), (r"_x\b", "_y"), (r"_y\b", "_x"), (r"x1\b", "x2"), (r"vx\b", "vy"), (r"vy\b", "vx"),
    (r"\bbegin\b", "end"), (r"\bfront\b", "back"), (r"\bpl\b", "pr"), (r"\bpr\b", "pl"), (r"!(?!=)", ""), (r"\bL\b", "R"), (r"\bl\b", "r"), (r"\br\b", "l"),
    (r"\bj\b", "i"), (r"\bi\b", "j"), (r"%", "/"), (r"std::abs", ""), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bfloor\b", "ceil"), (r"start", "final"), (r"final", "start"),
    (r"_i\b", "_j"), (r"_j\b", "_i"), (r"<0>", "<1>"), (r"<1>", "<0>"), (r"<2>", "<1>"), (r"\bn1\b", "n2"), (r"\bU0\b", "U"), (r"\bdt\b", "(dt * 0.5)"),
    (r"\bgamma\b", "gamma_m"), (r"north", "south"), (r"\bpush\b", "pop"), (r"std::pow\(([^,()]+), ", r"std::pow(\1, 1 + "), (r"\bsqrt\b", "cbrt"),
]
DEL = re.compile(r"^\s+[A-Za-z_][^;{}]*;\s*$")
SKIP = re.compile(r"^\s*(//|\*|/\*|#|template|using |typedef|namespace|struct |class |static_assert|return;|break;)")

def candidates(lines, lo, hi):
    out = []
    block = False
    for n, line in enumerate(lines):
        if "/*" in line: block = True
        if block:
            if "*/" in line: block = False
            continue
        if not (lo <= n + 1 <= hi) or SKIP.match(line) or line.strip() in ("", "{", "}", "};"):
            continue
        code = line.split("//")[0]
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((n, new.rstrip("\n") + "\n"))
        if DEL.match(line) and not re.match(r"\s*(auto|const|return|double|int|std::size_t|bool|using)\b", line):
            out.append((n, "\n"))
    return out

def main():
    file, checks, count, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
    lo, hi = map(int, sys.argv[5].split("-")) if len(sys.argv) > 5 else (1, 10**9)
    w = "/tmp/mut.%d" % os.getpid()
    os.makedirs(w)
    try:
        shutil.copytree("/repo/src", w + "/repo/src")
        shutil.copytree(HERE, w + "/verif", ignore=shutil.ignore_patterns("build", "evidence", ".git", "seeded", "__pycache__"))
        path = w + "/repo/src/" + file
        lines = open(path).read().splitlines(True)
        cand = candidates(lines, lo, hi)
        random.Random(seed).shuffle(cand)
        # spread over lines: at most one mutant per line until lines run out
        seen, order, rest = set(), [], []
        for c in cand:
            (rest if c[0] in seen else order).append(c); seen.add(c[0])
        done = killed = 0
        env = dict(os.environ, MARA_REPO=w + "/repo", VERIF_BUILD=w + "/build", PBT_SHRINK_S="0.01", VERIF_SEED="1", VERIF_TIER="quick")
        for n, new in order + rest:
            if done >= count: break
            mutated = list(lines); mutated[n] = new
            open(path, "w").write("".join(mutated))
            fate = "SURVIVED"; t = time.time(); bad = None
            for c in checks:
                r = subprocess.run(["timeout", "900", "python3", w + "/verif/run.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    m = re.search(r"^law (.*)$", r.stdout, re.M)
                    fate = "killed %s %s" % (c, (m.group(1) if m else "")[:70]); break
                if r.returncode == 2:
                    if "does not compile" in r.stdout or "does not link" in r.stdout: bad = True
                    else: fate = "ERROR2 " + r.stdout[-200:]
                    break
                if r.returncode != 0: fate = "TIMEOUT/rc %d" % r.returncode; break
            if bad: continue
            done += 1; killed += fate.startswith("killed")
            print("%s:%d %5.0fs %s\n      - %s\n      + %s" % (file, n + 1, time.time() - t, fate, lines[n].strip(), new.strip()), flush=True)
        print("== %s: %d of %d killed" % (file, killed, done), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
main()
