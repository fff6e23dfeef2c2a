#!/usr/bin/env python3
"""Applies every planted bug in a scratch copy of /repo, runs the quick check of its property, and writes the table in DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = set(sys.argv[1:])
rows = []
D = open(os.path.join(H, "DESIGN.md")).read()
old = dict(re.findall(r"^\| ([a-z0-9-]+) \| (.*) \|$", D, re.M))
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    if only and i not in only and i in old:
        rows.append((i, old[i]))
        continue
    d = tempfile.mkdtemp(prefix="seed")
    w = os.path.join(d, "repo")
    shutil.copytree("/repo", w)
    a = subprocess.run(["git", "apply", os.path.join(H, "seeded", i, "patch.diff")], cwd=w)
    r = subprocess.run([os.path.join(H, "bin/check"), m["property"]], cwd=H, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    shutil.rmtree(d)
    c = "caught" if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else "MISSED"
    if a.returncode:
        c = "DOES NOT APPLY"
    print(i, m["property"], c, flush=True)
    rows.append((i, "%s | %s | %s" % (m["property"], m["needs"].replace("|", "/"), c)))
t = "| bug | property | needs | quick check |\n|---|---|---|---|\n" + "".join("| %s | %s |\n" % r for r in rows)
D = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k.group(1) + t + k.group(2), D, flags=re.S)
open(os.path.join(H, "DESIGN.md"), "w").write(D)
