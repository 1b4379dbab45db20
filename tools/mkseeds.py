#!/usr/bin/env python3
"""Writes the planted bugs of /verif/seeded from compact descriptions: for each,
the edits, the file the demonstration is appended to and the demonstration.

  mkseeds.py write [ID...]     (re)writes the folders from seeds.py
  mkseeds.py verify [ID...]    confirms each in a scratch copy of /repo
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402

DEMO = """#!/bin/bash
# Runs demo.rs as a unit test inside a scratch copy of the crate in the current
# directory. Everything it writes is below the scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
cp -a Cargo.toml Cargo.lock src "$tmp"/ || exit 9
cat "$here/demo.rs" >> "$tmp/@FILE@" || exit 9
cd "$tmp" || exit 9
export TMPDIR="$tmp"
out=$(CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo test --offline vh_demo 2>&1)
rc=$?
echo "$out" | tail -30
# The demonstration must really have run.
echo "$out" | grep -q "vh_demo" || exit 8
exit $rc
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    sh(["git", "clone", "-q", "/repo", d + "/r"], "/tmp")
    return d


def write(ids):
    d = scratch()
    r = d + "/r"
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        sh(["git", "checkout", "-q", "--", "."], r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: %s has %d places for %r" % (s["id"], f, t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        o = os.path.join(SEEDED, s["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(s.get("demo_sh") or DEMO.replace("@FILE@", s["file"]))
        os.chmod(o + "/demo.sh", 0o755)
        if s.get("demo"):
            open(o + "/demo.rs", "w").write(s["demo"])
        for name, text in s.get("extra", {}).items():
            open(os.path.join(o, name), "w").write(text)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def verify(ids):
    d = scratch()
    r = d + "/r"
    env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable",
               CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/target")
    bad = 0
    for i in ids or sorted(os.listdir(SEEDED)):
        o = os.path.join(SEEDED, i)
        sh(["git", "checkout", "-q", "--", "."], r)
        a = sh(["bash", o + "/demo.sh"], r, env=env)
        p = sh(["git", "apply", o + "/patch.diff"], r)
        t = sh(["cargo", "test", "--offline", "--quiet"], r, env=env)
        b = sh(["bash", o + "/demo.sh"], r, env=env)
        ok = a.returncode == 0 and p.returncode == 0 and t.returncode == 0 and "110 passed" in t.stdout \
            and b.returncode not in (0, 8, 9)
        why = "" if ok else " apply=%s tests=%s" % (p.stdout, t.stdout[-600:] if t.returncode else "ok")
        print("%s %s: unchanged %d, patched %d%s" % ("ok " if ok else "BAD", i, a.returncode, b.returncode, why), flush=True)
        if not ok:
            bad += 1
            print(a.stdout[-1500:] if a.returncode else b.stdout[-1500:])
        elif "error[" in b.stdout or "error:" in b.stdout and "could not compile" in b.stdout:
            print("   but the demonstration did not compile:\n" + b.stdout[-1500:])
    shutil.rmtree(d)
    return bad


if __name__ == "__main__":
    sys.exit({"write": write, "verify": verify}[sys.argv[1]](sys.argv[2:]) or 0)
