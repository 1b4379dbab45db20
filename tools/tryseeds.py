#!/usr/bin/env python3
"""Applies each planted bug to a private overlay of /repo (in a mount namespace
of its own, so that /repo and /verif themselves stay as they are), and runs the
check of its property there.  Development only.

  tryseeds.py [IDs...] [--jobs N] [--check Cxx]
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--jobs", type=int, default=2)
ap.add_argument("--check")
a = ap.parse_args()
SCRIPT = """
set -e
for n in repo verif; do
  mkdir -p $D/$n.u $D/$n.w
  mount -t overlay overlay -o lowerdir=/$n,upperdir=$D/$n.u,workdir=$D/$n.w /$n
done
cd /repo && git apply $P
cd /verif && exec python3 check.py $C
"""


def one(i):
    d = os.path.join(S, i)
    prop = a.check or json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="tryseed-", dir="/tmp")
    try:
        p = subprocess.run(["unshare", "-m", "sh", "-c", SCRIPT], capture_output=True, text=True,
                           env=dict(os.environ, D=t, P=d + "/patch.diff", C=prop))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    lines = p.stdout.splitlines()
    return "%-6s %-28s %s rc=%d %s" % (
        "CAUGHT" if p.returncode == 1 and any(x.startswith("VIOLATION property=" + prop) for x in lines) else "missed",
        i, prop, p.returncode, next((x.strip()[:150] for x in lines if " case " in x), "") if p.returncode == 1
        else (lines[-1][:150] if lines else p.stderr[-300:]))


with cf.ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(one, a.ids or sorted(os.listdir(S))):
        print(r, flush=True)
