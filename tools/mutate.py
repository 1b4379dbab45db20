#!/usr/bin/env python3
"""Measures what the suites notice: makes many small mechanical changes to
scratch copies of the code, one at a time, drops those which do not compile or
which the repository's tests notice, runs every suite, and lets TLC judge the
executions which came out differently.  Development only.

  mutate.py list                      all the changes
  mutate.py run OUT [--jobs N] [--sample K] [--files RE] [--seed S]
  mutate.py run OUT --manual FILE [--jobs N]    changes from a Python file: M = [(id, file, old, new, ...)]
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS  # noqa: E402

SRC = "/repo/src"
ROOT = "/tmp/mutate"
TLA = "/opt/veriftools/tla"


def sources():
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), SRC)
            if f.endswith(".rs") and "test" not in f and p not in ("verif.rs",):
                yield p


def code_end(text):
    """Where the tests of a file begin."""
    m = re.search(r"^#\[cfg\(test\)\]|^#\[test\]|^#\[cfg\(md_recover_verif\)\]", text, re.M)
    return m.start() if m else len(text)


SWAPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * ", " % "]), (r" % ", [" / "]),
    (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\bSome\(1\)", ["Some(0)"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]), (r"is_empty\(\)", ["len() == 1"]),
    (r"from_be_bytes", ["from_le_bytes"]), (r"from_le_bytes", ["from_be_bytes"]),
    (r"SeekFrom::Start", ["SeekFrom::Current"]),
    (r"div_ceil", ["div_floor"]), (r"\.\.=", [".."]),
    (r"wrapping_add", ["wrapping_sub"]), (r"checked_add", ["checked_sub"]), (r"checked_sub", ["checked_add"]),
    (r"checked_mul", ["checked_add"]), (r"_lo\b", ["_hi"]), (r"_hi\b", ["_lo"]), (r"_low\b", ["_high"]), (r"_high\b", ["_low"]),
    (r"\bif (?!let)", ["if !(", "if true || (", "if false && ("]),
    (r"while (?!let)", []),
    (r"\.skip\((.*?)\)", [""]), (r"\.filter\(", [".skip_while("]), (r"\.take\(", [".skip("]), (r"take_while", ["skip_while"]),
    (r"\.rev\(\)", [""]), (r"\.or\(", [".and("]), (r"\.or_else\(", [".and_then("]),
    (r"Ordering::Less", ["Ordering::Greater"]), (r"\?;$", [".ok();"]),
]


def mutants():
    for p in sources():
        text = open(os.path.join(SRC, p)).read()
        end = code_end(text)
        lines = text[:end].split("\n")
        off = 0
        for n, line in enumerate(lines):
            bare = line.strip()
            skip = (bare.startswith(("//", "use ", "#", "mod ", "pub mod", "pub use", "impl", "where", "fn ", "pub fn", "struct", "pub struct"))
                    or "=>" in bare and "Err(" in bare)
            if not skip or bare.startswith(("fn ", "pub fn")) and False:
                for pat, reps in SWAPS:
                    for m in re.finditer(pat, line):
                        for r in reps:
                            new = line[:m.start()] + r + line[m.end():]
                            if r.endswith("("):
                                # an `if` condition up to its brace
                                if not line.rstrip().endswith("{") or not pat.startswith(r"\bif"):
                                    if pat.startswith(r"\bif"):
                                        continue
                                else:
                                    k = new.rstrip().rfind("{")
                                    new = new[:k].rstrip() + ") {"
                            yield p, n, line, new
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]|\.\d)", line):
                    t = m.group(1).replace("_", "")
                    v = int(t, 0)
                    for d in (v + 1, v - 1, v * 2):
                        if d < 0 or d == v or v > 1 and d == v * 2 and v < 8:
                            continue
                        yield p, n, line, line[:m.start()] + (hex(d) if t.startswith("0x") else str(d)) + line[m.end():]
                # A statement left out
                if bare.endswith(";") and not bare.startswith(("let ", "return", "}", "const", "pub ", "type", "break", "continue")) and bare.count("(") == bare.count(")"):
                    yield p, n, line, line[:len(line) - len(line.lstrip())] + "let _ = ();"
                # A condition of a chain left out
                if re.match(r"^(&&|\|\|) ", bare) and bare.count("(") == bare.count(")"):
                    yield p, n, line, ""
                # A method of a chain left out
                if re.match(r"^\.\w+\(.*\)\??;?$", bare) and bare.count("(") == bare.count(")"):
                    yield p, n, line, ";" if bare.endswith(";") else ""


def key(m):
    return hashlib.md5(repr(m).encode()).hexdigest()[:10]


def all_mutants():
    seen = {}
    for m in mutants():
        if m[2] != m[3]:
            seen.setdefault(key(m), m)
    return seen


def suites():
    """Each suite's scenarios, and each trace that judges it."""
    res = {}
    for c in CHECKS.values():
        models = {m["scen"]: m["module"] for m in c["models"] if m.get("scen")}
        for s in c["suites"]:
            if s.get("cli"):
                continue
            e = res.setdefault((s["suite"], json.dumps(s.get("scen"))), dict(suite=s["suite"], scen=s.get("scen"), traces=set(), models=models, limit=s.get("limit", 20)))
            e["traces"].add((s["trace"], s.get("focus", "")))
    return list(res.values())


def order(path):
    """Indices of the suites, those most likely to notice first."""
    if "string" in path:
        first = ["names", "dirs"]
    elif path.startswith("ext4/inode") or "time" in path:
        first = ["inode", "files", "dirs", "fuzz"]
    elif "super_block" in path and "ext" in path or "group" in path:
        first = ["open", "inode", "damage"]
    elif "dir" in path:
        first = ["dirs", "damage", "fuzz"]
    elif path.startswith("ext"):
        first = ["files", "dirs", "inode", "open", "damage", "fuzz", "handles", "faults"]
    elif "diagnosis" in path or "array" in path and "device" not in path and "read" not in path:
        first = ["assemble", "layout", "array", "reader", "decode"]
    elif path.startswith("md"):
        first = ["decode", "discover", "assemble", "layout", "array", "reader", "recover"]
    else:
        first = ["reader", "kinds", "array", "handles", "faults", "open"]
    ss = suites()
    return sorted(range(len(ss)), key=lambda k: (first.index(ss[k]["suite"]) if ss[k]["suite"] in first else 99, k))


class Worker:
    def __init__(self, k):
        self.d = os.path.join(ROOT, "w%d" % k)
        os.makedirs(self.d)
        shutil.copytree("/repo", self.d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
        subprocess.run(["cp", "-a", "/repo/target", self.d + "/target"], check=True)
        shutil.copytree(V + "/harness", self.d + "/harness")
        f = self.d + "/harness/lib/Cargo.toml"
        t = open(f).read().replace("/repo/", self.d + "/repo/")
        open(f, "w").write(t)
        subprocess.run(["cp", "-a", V + "/.build/target", self.d + "/htarget"], check=True)

    def env(self, target, hooks):
        e = dict(os.environ)
        e.update(CARGO_TARGET_DIR=self.d + "/" + target, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
                 CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        e.pop("RUSTFLAGS", None)
        if hooks:
            e.pop("CARGO_PROFILE_DEV_DEBUG")
            e["RUSTFLAGS"] = "--cfg md_recover_verif"
        return e

    def harness(self, bins=None):
        what = ["--bins"] if bins is None else [x for b in bins for x in ("--bin", b)]
        return subprocess.run(["cargo", "build", "--offline", "--quiet"] + what, cwd=self.d + "/harness",
                              env=self.env("htarget", True), capture_output=True, text=True)

    def run_suites(self, out, only=None):
        os.makedirs(out, exist_ok=True)
        for k, s in enumerate(suites()):
            if only is not None and k != only:
                continue
            o = "%s/%d.ndjson" % (out, k)
            if os.path.exists(o):
                os.unlink(o)
            w = self.d + "/work"
            os.makedirs(w, exist_ok=True)
            cmd = [self.d + "/htarget/debug/" + s["suite"], "--seed", "1", "--tier", "quick", "--work", w, "--out", o, "--limit", str(s["limit"])]
            if s["scen"]:
                cmd += ["--scen", "%s/scen-%d" % (ROOT, k)]
            try:
                p = subprocess.run(cmd, capture_output=True, timeout=300)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -99
            if rc:
                return s["suite"], rc
        return None


def judge(d, k, lines):
    p = "%s/diff-%d.ndjson" % (d, k)
    open(p, "w").writelines(lines)
    hits = []
    for trace, focus in sorted(suites()[k]["traces"]):
        e = dict(os.environ, VH_CASES=p, VH_TIER="quick", VH_FOCUS=focus)
        r = subprocess.run(["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx3g", "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
                            "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1", "-metadir", d + "/meta", "-config", "Trace.cfg", trace + ".tla"],
                           cwd=V + "/spec", env=e, capture_output=True, text=True, errors="replace", timeout=600)
        if "MISMATCH" in r.stdout:
            hits.append(trace + (":" + focus if focus else ""))
        elif "No error has been found" not in r.stdout:
            hits.append(trace + ":error")
    return hits


def main():
    if sys.argv[1] == "list":
        ms = all_mutants()
        for k, m in ms.items():
            print(k, m[0], m[1] + 1, "|", m[2].strip(), "|", m[3].strip())
        print(len(ms))
        return
    out = sys.argv[2]
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    jobs = int(opt.get("--jobs", 6))
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    ms = {k: m for k, m in all_mutants().items() if k not in done and re.search(opt.get("--files", ""), m[0])}
    if "--ids" in opt:
        ms = {k: m for k, m in all_mutants().items() if k in opt["--ids"].split(",")}
    if "--manual" in opt:
        space = {}
        exec(open(opt["--manual"]).read(), space)
        ms = {}
        for m in space["M"]:
            text = open(os.path.join(SRC, m[1])).read()
            for a, b in zip(m[2::2], m[3::2]):
                assert text.count(a) == 1, (m[0], a, text.count(a))
                text = text.replace(a, b)
            if m[0] not in done:
                ms[m[0]] = (m[1], 0, m[2], text)
    ids = sorted(ms)
    random.Random(int(opt.get("--seed", 1))).shuffle(ids)
    ids = ids[:int(opt.get("--sample", len(ids)))]
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    # Scenarios
    made = {}
    for k, s in enumerate(suites()):
        if not s["scen"]:
            continue
        with open("%s/scen-%d" % (ROOT, k), "w") as f:
            for n in [s["scen"]] if isinstance(s["scen"], str) else s["scen"]:
                if n not in made:
                    made[n] = "%s/%s" % (ROOT, n)
                    subprocess.run(["java", "-Xss64m", "-Xmx4g", "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC", "-noGenerateSpecTE",
                                    "-workers", "8", "-metadir", ROOT + "/meta", "-config", s["models"][n] + ".cfg", s["models"][n] + ".tla"],
                                   cwd=V + "/spec", env=dict(os.environ, VH_SCEN=made[n]), capture_output=True, check=True)
                f.write(open(made[n]).read())
    workers = []
    for k in range(jobs):
        workers.append(Worker(k))
    # What comes out of the unchanged code, twice
    w = workers[0]
    r = w.harness()
    if r.returncode:
        sys.exit(r.stderr)
    assert w.run_suites(ROOT + "/base") is None
    assert w.run_suites(ROOT + "/base2") is None
    base, shaky = [], []
    for k in range(len(suites())):
        a = open("%s/base/%d.ndjson" % (ROOT, k)).readlines()
        b = open("%s/base2/%d.ndjson" % (ROOT, k)).readlines()
        base.append([hash(x) for x in a])
        shaky.append({n for n, (x, y) in enumerate(zip(a, b)) if x != y})
        if shaky[-1]:
            print("suite", k, suites()[k]["suite"], "varies in", len(shaky[-1]), flush=True)
    for n in "base", "base2":
        shutil.rmtree(ROOT + "/" + n)
    pool = list(workers)
    lock = threading.Lock()
    f = open(out, "a")

    def one(i):
        p, n, old, new = ms[i]
        with lock:
            w = pool.pop()
        path = w.d + "/repo/src/" + p
        orig = open(path).read()
        res = dict(id=i, file=p, line=n + 1, old=old.strip(), new=new.strip())
        try:
            if "--manual" in opt:
                res["new"] = ""
                changed = new
            else:
                ls = orig.split("\n")
                assert ls[n] == old
                ls[n] = new
                changed = "\n".join(ls)
            open(path, "w").write(changed)
            t = None
            try:
                t = subprocess.run(["cargo", "test", "--offline", "--quiet"], cwd=w.d + "/repo", env=w.env("target", False),
                                   capture_output=True, text=True, timeout=180, errors="replace")
            except subprocess.TimeoutExpired:
                res["r"] = "tests"
            if t is None:
                pass
            elif t.returncode:
                res["r"] = "nocompile" if "could not compile" in t.stderr else "tests"
            else:
                res["r"] = "unseen"
                res["diffs"] = {}
                for k in order(p):
                    suite = suites()[k]["suite"]
                    b = w.harness([suite])
                    if b.returncode:
                        res["r"] = "nobuild"
                        res["why"] = b.stderr[-300:]
                        break
                    died = w.run_suites(w.d + "/out", k)
                    if died:
                        res["r"] = "caught"
                        res["by"] = ["%s died %d" % died]
                        break
                    ls2 = open("%s/out/%d.ndjson" % (w.d, k)).readlines()
                    d = [x for m, x in enumerate(ls2) if m not in shaky[k] and hash(x) != base[k][m]]
                    if not d:
                        continue
                    res["diffs"][suite] = len(d)
                    res["r"] = "judged ok"
                    if len(d) > 30:
                        d = random.Random(1).sample(d, 30)
                    hits = judge(w.d, k, d)
                    if hits:
                        res["by"] = sorted(set(hits))
                        res["r"] = "caught"
                        break
        except Exception as e:  # noqa: BLE001
            res["r"] = "broken"
            res["why"] = repr(e)[:300]
        finally:
            open(path, "w").write(orig)
        with lock:
            pool.append(w)
            f.write(json.dumps(res) + "\n")
            f.flush()

    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, ids))
    shutil.rmtree(ROOT, ignore_errors=True)


if __name__ == "__main__":
    main()
