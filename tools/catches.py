#!/usr/bin/env python3
"""Run every planted bug against the check of its property and write CATCHES.md (not part of any check).

usage: tools/catches.py [ID...]   works on scratch copies of /repo under /tmp
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeded = os.path.join(here, "seeded")
out = os.path.join(here, "CATCHES.md")
rows = {}
if os.path.exists(out):
    with open(out) as f:
        for ln in f:
            m = re.match(r"\| ([a-z0-9-]+) \| C", ln)
            if m:
                rows[m[1]] = ln
ids = sys.argv[1:] or sorted(os.listdir(seeded))


def run(name):
    with open(os.path.join(seeded, name, "meta.json")) as f:
        meta = json.load(f)
    root = tempfile.mkdtemp(prefix="catches-")
    repo = os.path.join(root, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    subprocess.run(["git", "apply", os.path.join(seeded, name, "patch.diff")], cwd=repo, check=True)
    p = subprocess.run([os.path.join(here, "run.sh"), meta["property"]], capture_output=True, text=True,
                       env={**os.environ, "VERIF_REPO": repo, "VERIF_SHRINK_S": "1", "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_WORKERS": "3"})
    said = " ".join(p.stdout.split())
    m = re.search(r"(\S.*?) VIOLATION property=\S+ replay=\S+ ?(.*)", said)
    said = re.sub(r"/tmp/\S*?verif-\S+?/", "", (m[2] or m[1] if m else said))[:110].replace("|", "/")
    verdict = {0: "missed", 1: "caught"}.get(p.returncode, "no answer")
    cut = lambda s: " ".join(str(s).split())[:90].replace("|", "/")
    rows[name] = f"| {name} | {meta['property']} | {cut(meta['needs'])} | {verdict} | {said} |\n"
    print(name, verdict, flush=True)
    shutil.rmtree(root)


with concurrent.futures.ThreadPoolExecutor(3) as pool:
    list(pool.map(run, ids))
with open(out, "w") as f:
    f.write("# Planted bugs, and what the check of their property says (quick tier, seed 1)\n\n"
            "| bug | property | needs | verdict | message |\n|---|---|---|---|---|\n")
    f.writelines(rows[k] for k in sorted(rows) if os.path.isdir(os.path.join(seeded, k)))
