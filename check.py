#!/usr/bin/env python3
"""Decides one property: model-checks its TLA+ specification with TLC, runs the
code in /repo on generated and model-produced cases, and lets TLC judge every
recorded execution against the specification.

  check.py C05            (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay FILE    re-runs the case of a violation
  check.py setup          builds everything
  check.py list
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def cargo_env(target):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.update(CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_HOME="/root/.cargo")
    e.pop("RUSTFLAGS", None)
    return e


def build_harness(bins):
    env = cargo_env(os.path.join(BUILD, "target"))
    env["RUSTFLAGS"] = "--cfg md_recover_verif"
    cmd = ["cargo", "build", "--offline", "--quiet"]
    cmd += ["--bins"] if bins is None else [x for b in bins for x in ("--bin", b)]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])


def build_cli():
    """The real executable, from /repo's sources, outside /repo."""
    env = cargo_env(os.path.join(BUILD, "cli"))
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--locked", "--manifest-path",
                        os.path.join(REPO, "Cargo.toml")], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode:
        raise ToolError("cli build failed:\n" + p.stdout[-4000:])
    so = os.path.join(BUILD, "shim.so")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so + ".tmp%d" % os.getpid(),
                        os.path.join(VERIF, "tools", "shim.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("shim build failed:\n" + p.stdout)
    os.replace(so + ".tmp%d" % os.getpid(), so)


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, work, env=None, workers=8, heap="6g", timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work, "-cp",
           TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    return dict(rc=p.returncode, out=p.stdout, transitions=int(m.group(1)) if m else 0,
                states=int(m.group(2)) if m else 0, wall=time.time() - t0,
                ok="No error has been found" in p.stdout)


def cfg_for(module):
    t = module + "_thorough.cfg"
    return t if THOROUGH and os.path.exists(os.path.join(SPEC, t)) else module + ".cfg"


def run_model(m, work):
    env = {"VH_SEED": str(SEED), "VH_TIER": TIER}
    if m.get("scen"):
        env["VH_SCEN"] = os.path.join(work, "scen-" + m["scen"])
    r = tlc(m["module"], cfg_for(m["module"]), work, env, workers=m.get("workers", 4),
            timeout=m.get("timeout", 3000 if THOROUGH else 600))
    if not r["ok"]:
        # The specification itself is at fault, not the code.
        raise ToolError("model %s: TLC did not succeed:\n%s" % (m["module"], r["out"][-3000:]))
    r["module"] = m["module"]
    return r


# ---------------------------------------------------------------- harness

def run_suite(s, work):
    """Runs the code; returns the path of the recorded executions."""
    out = os.path.join(work, s["suite"] + ".ndjson")
    if os.path.exists(out):
        os.unlink(out)
    exe = os.path.join(BUILD, "target", "debug", s["suite"])
    scratch = os.path.join(work, "scratch-" + s["suite"])
    os.makedirs(scratch, exist_ok=True)
    base = [exe, "--seed", str(SEED), "--tier", TIER, "--work", scratch,
            "--limit", str(s.get("limit", 20))]
    if s.get("scen"):
        names = [s["scen"]] if isinstance(s["scen"], str) else s["scen"]
        scen = os.path.join(work, "scenarios-" + s["suite"])
        with open(scen, "w") as f:
            for n in names:
                f.write(open(os.path.join(work, "scen-" + n)).read())
        base += ["--scen", scen]
    if s.get("cli"):
        base += ["--cli", os.path.join(BUILD, "cli", "debug", "md-recover"),
                 "--shim", os.path.join(BUILD, "shim.so")]
    deaths = 0
    skip = 0
    t0 = time.time()
    while True:
        p = subprocess.run(base + ["--out", out, "--skip", str(skip)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=3000 if THOROUGH else 700)
        if p.returncode == 0:
            break
        if p.returncode > 0 and p.returncode != 101:
            raise ToolError("%s: exit %d\n%s" % (s["suite"], p.returncode, p.stderr[-2000:]))
        if p.returncode == 101:
            raise ToolError("%s: the harness itself failed\n%s" % (s["suite"], p.stderr[-2000:]))
        deaths += 1
        with open(out, "a+") as f:
            f.seek(0)
            n = sum(1 for _ in f)
            d = subprocess.run(base + ["--describe", str(n)], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True)
            if d.returncode:
                raise ToolError("%s: cannot describe case %d\n%s" % (s["suite"], n, d.stderr))
            c = json.loads(d.stdout)
            sig = -p.returncode
            c["out"] = {"s": "timeout" if sig == signal.SIGALRM else "crash", "v": sig}
            c["case"] = n
            f.write(json.dumps(c) + "\n")
        skip = n + 1
        if deaths >= 8:
            log("  %s: stopped after %d abnormal ends" % (s["suite"], deaths))
            break
    shutil.rmtree(scratch, ignore_errors=True)
    return out, time.time() - t0


def summarize(path):
    kinds, outs, n, h = {}, {}, 0, set()
    samples = []
    with open(path) as f:
        for line in f:
            n += 1
            c = json.loads(line)
            k = c.get("k", "-")
            kinds[k] = kinds.get(k, 0) + 1
            o = c.get("out")
            o = o.get("s", "?") if isinstance(o, dict) else "history"
            outs[o] = outs.get(o, 0) + 1
            c2 = {a: b for a, b in c.items() if a not in ("out", "case")}
            h.add(hashlib.md5(json.dumps(c2, sort_keys=True).encode()).digest())
            if kinds[k] <= 1 and len(samples) < 6:
                t = line.strip()
                samples.append(t if len(t) < 600 else t[:600] + " ...")
    return dict(cases=n, distinct=len(h), kinds=kinds, outcomes=outs, samples=samples)


def judge(s, path, work):
    """TLC validates every recorded execution against the trace specification."""
    with open(path) as f:
        lines = f.readlines()
    size = s.get("batch", 0) or len(lines)
    mism, states, trans, wall = [], 0, 0, 0.0
    for at in range(0, len(lines), size):
        part = lines[at:at + size]
        pp = path + ".part"
        with open(pp, "w") as f:
            f.writelines(part)
        r = tlc(s["trace"], s.get("cfg", "Trace.cfg"), work, {"VH_CASES": pp, "VH_TIER": TIER, "VH_FOCUS": s.get("focus", "")},
                workers=8, heap=s.get("heap", "10g"), timeout=3000 if THOROUGH else 700)
        got = re.findall(r"MISMATCH (\d+) (.*)", r["out"])
        steps = s.get("steps", "2n")
        if steps == "2n":
            want = 2 * len(part)
        else:
            want = sum(len(json.loads(x)["out"]["v"]) + 1 if json.loads(x)["out"]["s"] == "ok" else 1
                       for x in part)
        if not r["ok"] or (r["states"] != want and not got):
            raise ToolError("%s: TLC judged %d of %d states:\n%s" %
                            (s["trace"], r["states"], want, r["out"][-3000:]))
        mism += [(int(k), t.rstrip('"')) for k, t in got]
        states += r["states"]
        trans += r["transitions"]
        wall += r["wall"]
    return mism, states, trans, wall


# ---------------------------------------------------------------- findings

def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) suite=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append(dict(suite=m.group(2), match=m.group(3), text=m.group(4)))
    return res


# ---------------------------------------------------------------- checking

def check(pid):
    t0 = time.time()
    spec = CHECKS[pid]
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-" + TIER + "-", dir=os.path.join(BUILD, "run"))
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking",
              coverage={}, assumptions=spec.get("assumptions", []))
    steps, samples, violations = [], [], []
    states = trans = judged = 0
    try:
        suites = [s for s in spec["suites"] if THOROUGH or not s.get("thorough_only")]
        models = [m for m in spec["models"] if THOROUGH or not m.get("thorough_only")]
        with cf.ThreadPoolExecutor(3) as ex:
            fut = [ex.submit(build_harness, sorted({s["suite"] for s in suites}))]
            if any(s.get("cli") for s in suites):
                fut.append(ex.submit(build_cli))
            mf = [ex.submit(run_model, m, work) for m in models]
            for f in fut:
                f.result()
            for f in mf:
                r = f.result()
                states += r["states"]
                trans += r["transitions"]
                steps.append(dict(model=r["module"], states=r["states"],
                                  transitions=r["transitions"], wall_s=round(r["wall"], 1)))
                log("  model %-22s %8d states  %5.1fs" % (r["module"], r["states"], r["wall"]))
        ran = {}
        for s in suites:
            # Several trace specifications may judge the same executions
            key = (s["suite"], str(s.get("scen")))
            if key not in ran:
                ran[key] = run_suite(s, work)
            path, wall = ran[key]
            summ = summarize(path)
            samples += summ.pop("samples")
            mism, st, tr, tw = judge(s, path, work)
            states += st
            trans += tr
            judged += summ["cases"]
            log("  suite %-14s %6d executions %5.1fs, judged by %s %5.1fs, outcomes %s" %
                (s["suite"], summ["cases"], wall, s["trace"], tw, summ["outcomes"]))
            steps.append(dict(suite=s["suite"], judged_by=s["trace"], run_s=round(wall, 1),
                              judge_s=round(tw, 1), states=st, **summ))
            known = [k for k in known_findings(pid) if k["suite"] == s["suite"]]
            seen = set()
            found = []
            for k, text in mism:
                # What the specification says is wrong names a known finding
                kf = [f for f in known if f["match"] in text]
                if not kf:
                    found.append((k, text))
                elif kf[0]["text"] not in seen:
                    seen.add(kf[0]["text"])
                    log("KNOWN-FINDING: property=%s %s" % (pid, kf[0]["text"]))
            want = {k for k, _ in found[:20]}
            execution = {}
            for line in open(path) if want else ():
                c = json.loads(line)
                if c["case"] in want:
                    execution[c["case"]] = c
            violations += [dict(suite=s["suite"], trace=s["trace"], case=k, why=text, execution=execution.get(k))
                           for k, text in found]
    finally:
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    ev["coverage"] = dict(states=states, transitions=trans, traces_validated_against_impl=judged,
                          samples=samples[:12], steps=steps)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(violations)
    tmp = os.path.join(VERIF, "evidence", pid + ".json")
    with open(tmp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp + ".tmp", tmp)
    if violations:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, seed=SEED, tier=TIER, violations=violations[:20]), f, indent=1)
        for v in violations[:5]:
            log("  %s case %d: %s" % (v["suite"], v["case"], v["why"][:600]))
        log("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    log("%s: held on everything explored (%d executions, %d states, %.1fs)" %
        (pid, judged, states, ev["wall_s"]))
    return 0


def replay(path):
    global SEED, TIER, THOROUGH
    d = json.load(open(path))
    SEED, TIER = d["seed"], d["tier"]
    THOROUGH = TIER == "thorough"
    log("replaying %s with seed %d" % (d["property"], SEED))
    return check(d["property"])


def main():
    a = sys.argv[1:]
    try:
        if a == ["list"]:
            print("\n".join(sorted(CHECKS)))
            return 0
        if a == ["setup"]:
            os.makedirs(BUILD, exist_ok=True)
            build_harness(None)
            if any(s.get("cli") for c in CHECKS.values() for s in c["suites"]):
                build_cli()
            return 0
        if a[0] == "replay":
            return replay(a[1])
        return check(a[0])
    except ToolError as e:
        log("ERROR: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("ERROR: timed out: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
