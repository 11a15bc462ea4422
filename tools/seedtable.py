#!/usr/bin/env python3
"""Runs each planted bug's check on a scratch copy with the bug applied (a development tool; no check uses it).

  seedtable.py [ID-REGEX]       results are kept in seeded/RESULTS.json and written as a table into DESIGN.md
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = V + "/seeded/RESULTS.json"
res = json.load(open(RES)) if os.path.exists(RES) else {}
pat = sys.argv[1] if len(sys.argv) > 1 else "."
ids = sorted(d for d in os.listdir(V + "/seeded") if os.path.isdir(V + "/seeded/" + d)); more = os.listdir(V + "/planted_more")
res = {k: v for k, v in res.items() if k in ids or k in more}
for i in ids:
    if not re.search(pat, i): continue
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        shutil.copytree("/repo/src", w + "/repo/src")
        shutil.copytree(V, w + "/verif", ignore=shutil.ignore_patterns("build", "evidence", ".git", "seeded", "__pycache__"))
        r = subprocess.run("cd %s/repo && git init -q . && git apply %s/seeded/%s/patch.diff" % (w, V, i), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print(i, "patch does not apply", r.stdout); continue
        r = subprocess.run(["timeout", "900", "python3", w + "/verif/run.py", meta["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, MARA_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
        laws = re.findall(r"^law ([^:]*):", r.stdout, re.M)
        t = re.search(r"total ([\d.]+) s", r.stdout)
        res[i] = {"property": meta["property"], "needs": meta["needs"], "caught": r.returncode == 1, "laws": laws}
        print(i, "rc", r.returncode, laws, t and t.group(1), "" if r.returncode in (0, 1) else r.stdout[-300:], flush=True)
    finally:
        shutil.rmtree(w)
    json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
rows = ["| planted bug | check | needs | caught by law |", "|---|---|---|---|"]
for i in sorted(res):
    rows.append("| %s | %s | %s | %s |" % (i, res[i]["property"], res[i]["needs"], ", ".join(res[i]["laws"]) if res[i]["caught"] else "**missed**"))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"(<!-- seeds -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
