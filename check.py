#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property on /repo's working tree
   check.py replay <file>                 runs a recorded counterexample again
   check.py build                         builds all engines

Exit 0: held on everything explored. Exit 1: a line VIOLATION property=... replay=...
Any other exit: the machinery itself failed (for example /repo does not compile).
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("MC_BUILD", os.path.join(HERE, "build"))
REPO = "/repo"
JOBS = max(1, min(8, os.cpu_count() or 1))

# which engines decide which property
PLAN = {
    "C01": ["conc", "seq"], "C02": ["conc", "seq"], "C03": ["conc", "seq"], "C04": ["seq"], "C05": ["conc", "seq"],
    "C06": ["conc", "seq"], "C07": ["seq"], "C08": ["conc"], "C09": ["seq"], "C10": ["macro"],
    "C11": ["seq", "it"], "C12": ["seq"], "C13": ["seq"], "C14": ["expo"], "C15": ["conc"],
    "C16": ["expo"], "C17": ["expo"], "C18": ["expo"], "C19": ["expo"], "C20": ["expo"],
}
LEVEL = {"C18": "fault_enumeration"}
ASSUME = {
    "conc": ["sequentially consistent interleavings of atomic accesses, lock operations and futexes; the memory orderings in the source are judged by vector-clock race detection, weak-memory reorderings of atomics are not explored",
             "parking_lot is replaced by a stand-in with its documented semantics (reader/writer, waiting writers block new readers except recursive ones)",
             "bounds: the listed programs, run to completion, one execution per equivalence class of interleavings (source-set dynamic partial-order reduction with sleep sets)"],
    "seq": ["single-threaded; every operation sequence and input of the stated enumeration, compared step by step with a reference model"],
    "it": ["iterators over zero to three static metrics, one program each"],
    "expo": ["single-threaded; clock, hash seeds, readers and writers are supplied by the harness; the arrow/parquet reader is trusted to read back what was written"],
    "macro": ["the installed stable compiler; programs of the generated family"],
}

class Fail(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e

def dictionary(path):
    """The constants that occur in the crates' sources, as further inputs for the
    enumerations: a special case for a certain text or number names it."""
    strs, ints = set(), set()
    for p in sorted(glob.glob(REPO + "/*/src/**/*.rs", recursive=True)):
        text = open(p, errors="replace").read()
        text = re.sub(r"^\s*//.*$", "", text, flags=re.M)
        for m in re.finditer(r'"((?:[^"\\\n]|\\[^\n])*)"', text):
            try:
                v = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda x: chr(int(x.group(1).replace("_", ""), 16)), m.group(1))
                v = re.sub(r"\\(x[0-9a-fA-F]{2}|.)", lambda x: {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(x.group(1), chr(int(x.group(1)[1:], 16)) if x.group(1)[0] == "x" and len(x.group(1)) == 3 else x.group(1)), v)
            except ValueError:
                continue
            if 0 < len(v) <= 60:
                strs.add(v)
        for m in re.finditer(r"'([^'\\\n])'", text):
            strs.add(m.group(1))
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?(?![\w])", text):
            v = int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0[0-9_]+", m.group(1)) else int(m.group(1).replace("_", ""))
            if v < 2 ** 64:
                ints.add(v)
        for m in re.finditer(r"\b([ui])(8|16|32|64)::(MAX|MIN)\b", text):
            b = int(m.group(2)) - (m.group(1) == "i")
            ints.add(2 ** b - 1 if m.group(3) == "MAX" else 2 ** b if m.group(1) == "i" else 0)
        num = r"(0x[0-9a-fA-F_]+|[1-9][0-9_]*)(?:_?[ui](?:8|16|32|64|size))?"
        for m in re.finditer(r"(?<![\w.])(?=%s\s*(<<|\*)\s*%s(?!\w))" % (num, num), text):
            a, b = (int(m.group(i).replace("_", ""), 0) for i in (1, 3))
            v = a * b if m.group(2) == "*" else a << min(b, 64)
            if v < 2 ** 64:
                ints.add(v)
    with open(path, "w") as f:
        for v in sorted(ints)[:300]:
            f.write("n%d\n" % v)
        for v in sorted(strs, key=lambda v: (len(v), v))[:400]:
            f.write("s%s\n" % v.encode("utf-8", "replace").hex())
    return path

def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()

def fresh(target):
    """Cargo goes by time stamps; make sure other contents are always rebuilt."""
    stamp = os.path.join(target, ".tree")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        for p in glob.glob(os.path.join(target, "**", ".fingerprint", "metriken*"), recursive=True):
            shutil.rmtree(p, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    return stamp, now

def run_build(name, cmd, cwd, extra=None):
    target = os.path.join(BUILD, name)
    stamp, now = fresh(target)
    e = env()
    e.update(extra or {})
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Fail("building %s failed:\n%s" % (name, r.stdout[-6000:]))
    with open(stamp, "w") as f:
        f.write(now)
    log("built %s in %.1f s" % (name, time.time() - t))

def build_conc():
    run_build("conc", ["cargo", "+nightly", "build", "--release", "--offline", "-Zbuild-std=std,panic_unwind", "--target", "x86_64-unknown-linux-gnu", "--target-dir", BUILD + "/conc"],
              HERE + "/mc/conc", {"RUSTFLAGS": "-Zsanitizer=thread -Zexternal-clangrt"})
    return BUILD + "/conc/x86_64-unknown-linux-gnu/release/conc"

def build_plain(name):
    run_build(name, ["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/" + name], HERE + "/mc/" + name)
    return BUILD + "/" + name + "/release/"

# ---- engines; each returns {"states", "transitions", "traces", "samples", "exhaustive", "parts", "violations"} ----

def conc(prop, tier, scratch):
    exe = build_conc()
    out = os.path.join(scratch, "conc.jsonl")
    e = env()
    quick = tier == "quick"
    e["MC_TOTAL_SECONDS"] = os.environ.get("MC_TOTAL_SECONDS", "300" if quick else "3000")
    e["MC_CASE_SECONDS"] = os.environ.get("MC_CASE_SECONDS", "120" if quick else "1200")
    e["MC_DICT"] = dictionary(os.path.join(scratch, "dict"))
    if any(k[0] == prop for k in known()):
        e["MC_STOP_AFTER"] = "1000000"
    r = subprocess.run([exe, "run", prop, tier, str(JOBS), out], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch)
    rows = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
    ran = [x for x in rows if not x.get("skipped")]
    broken = [x for x in ran if x["status"] in ("diverged", "internal")]
    log("conc: %d programs, %d executions, %d not exhausted, %d skipped" % (len(ran), sum(x["executions"] for x in ran), sum(not x["exhausted"] and x["status"] == "ok" for x in ran), len(rows) - len(ran)))
    bad = [x for x in ran if x["status"] != "ok" and x not in broken]
    if r.returncode != 0 and not bad:
        raise Fail("conc failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
    if not ran or (len(broken) * 2 > len(ran) and not bad):
        raise Fail("conc could not explore: %s" % json.dumps(broken[:2])[:2000])
    bad.sort(key=lambda x: len(x["schedule"]))
    vs = [{"engine": "conc", "case": x["case"], "schedule": x["schedule"], "message": x["status"] + ": " + x["msg"], "trace": x["trace"]} for x in bad]
    sm = [x for x in ran if x.get("sample")]
    return {
        "states": sum(x["nodes"] for x in ran), "transitions": sum(x["transitions"] for x in ran), "traces": sum(x["complete"] for x in ran),
        "samples": [{"program": x["case"], "one of its outcomes": x["sample"][:600], "executions": x["executions"], "distinct outcomes": x["outcomes"]} for x in sm[:: max(1, len(sm) // 4)][:5]],
        "exhaustive": len(ran) == len(rows) and all(x["exhausted"] for x in ran) and not broken,
        "detail": {"programs": len(ran), "executions": sum(x["executions"] for x in ran), "complete executions": sum(x["complete"] for x in ran), "executions cut short as redundant": sum(x["pruned"] for x in ran),
                   "distinct outcomes": sum(x["outcomes"] for x in ran), "longest execution in steps": max(x["depth"] for x in ran), "programs not exhausted in time": sum(not x["exhausted"] for x in ran) + len(rows) - len(ran),
                   "programs the engine could not run": [{"program": x["case"], "why": x["msg"][:200]} for x in broken[:5]]},
        "violations": vs,
    }

def seq_run(exe, engine, prop, tier, scratch):
    e = env()
    quick = tier == "quick"
    e["MC_TOTAL_SECONDS"] = os.environ.get("MC_TOTAL_SECONDS", "400" if quick else "3000")
    e["TMPDIR"] = scratch
    e["MC_DICT"] = dictionary(os.path.join(scratch, "dict"))
    def go(part):
        out = os.path.join(scratch, "%s.%d.json" % (os.path.basename(exe), part))
        lg = open(out + ".log", "w")
        return subprocess.Popen([exe, "run", prop, tier, str(part), str(JOBS), out], env=e, stdout=lg, stderr=subprocess.STDOUT, cwd=scratch), out, lg
    def result(part, p, out, lg):
        rc = p.wait()
        lg.close()
        rows = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        return rc, rows[-1] if rows else None, open(out + ".log").read()[-1500:]
    ps = [go(i) for i in range(JOBS)]
    res = [result(i, *p) for i, p in enumerate(ps)]
    agg = {"states": set(), "transitions": 0, "traces": 0, "samples": [], "exhaustive": True, "violations": [], "total": 0, "outcomes": 0}
    for i, (rc, row, text) in enumerate(res):
        if row is None or ("cases" not in row and "crash" not in row and "hang" not in row):
            # ended by something else, such as lack of memory: once more, alone
            rc, row, text = result(i, *go(i))
            if row is None:
                raise Fail("%s part %d ended with %s without a report: %s" % (engine, i, rc, text))
        if ("crash" in row or "hang" in row) and agg["violations"]:
            agg["exhaustive"] = False
            continue
        if "crash" in row or "hang" in row:
            # a dangling pointer need not crash twice in the same place
            for _ in range(4):
                rc2, row2, _ = result(i, *go(i))
                if row2 and ("crash" in row2 or "hang" in row2 or row2.get("violations")):
                    break
            else:
                raise Fail("%s part %d: %s is not reproducible" % (engine, i, row))
            if row2.get("violations"):
                for v in row2["violations"]:
                    agg["violations"].append({"engine": engine, "exe": exe, "number": v["case"], "case": v["name"], "message": v["msg"], "trace": "", "part": i})
                agg["exhaustive"] = False
                continue
            what = "ended by signal %d" % row2["crash"] if "crash" in row2 else "not finished after %d s" % row2["hang"]
            agg["violations"].append({"engine": engine, "exe": exe, "number": row2["case"], "case": "case %d" % row2["case"], "message": what, "trace": text, "part": i})
            agg["exhaustive"] = False
            continue
        agg["states"].update(row["states"])
        agg["transitions"] += row["steps"]
        agg["traces"] += row["cases"]
        agg["total"] = row["total"]
        agg["outcomes"] += row["outcomes"]
        agg["exhaustive"] &= not row["truncated"] and not row["skipped"]
        agg["samples"] += row["samples"][:1]
        for v in row["violations"]:
            agg["violations"].append({"engine": engine, "exe": exe, "number": v["case"], "case": v["name"], "message": v["msg"], "trace": "", "part": i})
    agg["violations"].sort(key=lambda v: (len(v["case"]), v["number"]))
    log("%s: %d of %d cases, %d steps, %d states" % (os.path.basename(exe), agg["traces"], agg["total"], agg["transitions"], len(agg["states"])))
    return agg

def merged(aggs):
    states = sum(len(a["states"]) for a in aggs)
    return {"states": states, "transitions": sum(a["transitions"] for a in aggs), "traces": sum(a["traces"] for a in aggs), "samples": [s for a in aggs for s in a["samples"]][:6],
            "exhaustive": all(a["exhaustive"] for a in aggs), "violations": [v for a in aggs for v in a["violations"]],
            "detail": {"cases": sum(a["traces"] for a in aggs), "cases in the enumeration": sum(a["total"] for a in aggs), "operations": sum(a["transitions"] for a in aggs), "distinct outcomes": sum(a["outcomes"] for a in aggs)}}

def seq(prop, tier, scratch):
    return merged([seq_run(build_plain("seq") + "seq", "seq", prop, tier, scratch)])

def it(prop, tier, scratch):
    d = build_plain("seq")
    return merged([seq_run(d + "it%d" % k, "it", prop, tier, scratch) for k in range(4)])

def expo(prop, tier, scratch):
    return merged([seq_run(build_plain("expo") + "expo", "expo", prop, tier, scratch)])

def macro(prop, tier, scratch):
    d = os.path.join(BUILD, "macro")
    target = d + "/target"
    os.makedirs(d, exist_ok=True)
    g = subprocess.run([sys.executable, HERE + "/mc/macro/gen.py", tier, d, dictionary(os.path.join(scratch, "dict"))], stdout=subprocess.PIPE, text=True, check=True)
    counts = json.loads(g.stdout)
    stamp, now = fresh(target)
    t = time.time()
    # the crates themselves first: if they do not compile, nothing is decided
    r = subprocess.run(["cargo", "build", "--offline", "--target-dir", target, "-p", "metriken"], cwd=d + "/ok", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Fail("building metriken failed:\n" + r.stdout[-6000:])
    vs = []
    agg = None
    def compile_errors(pkg):
        r = subprocess.run(["cargo", "build", "--offline", "--target-dir", target, "--message-format=json"], cwd=d + "/" + pkg, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.append((m["message"]["rendered"] or m["message"]["message"]))
        return r.returncode, errs, r.stderr
    rc, errs, text = compile_errors("ok")
    if rc != 0:
        if not errs:
            raise Fail("compiling the declarations failed:\n" + text[-3000:])
        vs.append({"engine": "macro", "case": "well-formed declarations", "message": "rejected by the compiler", "trace": "\n".join(errs)[:6000], "sub": "ok"})
    else:
        agg = seq_run(target + "/debug/ok", "macro", prop, tier, scratch)
    with open(stamp, "w") as f:
        f.write(now)
    rc, errs, text = compile_errors("renamed")
    if rc != 0:
        vs.append({"engine": "macro", "case": "dependency under another name", "message": "rejected by the compiler", "trace": ("\n".join(errs) or text)[:6000], "sub": "renamed"})
    else:
        r = subprocess.run([target + "/debug/renamed"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            vs.append({"engine": "macro", "case": "dependency under another name", "message": r.stdout[:3000], "trace": "", "sub": "renamed"})
    # what has to be rejected: one compilation, an error expected on every line
    lib = sorted(glob.glob(target + "/debug/deps/libmetriken-*.rlib"), key=os.path.getmtime)[-1]
    def rustc(src):
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "-o", scratch + "/bad.rmeta", src, "--extern", "metriken=" + lib, "-L", target + "/debug/deps"], env=env(), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        lines = {}
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") == "error":
                for s in m["spans"]:
                    while s.get("expansion") and not s["file_name"].endswith(os.path.basename(src)):
                        s = s["expansion"]["span"]
                    lines.setdefault(s["line_start"], m["message"])
        return r.returncode, lines
    bad = json.load(open(d + "/bad.json"))
    _, lines = rustc(d + "/bad.rs")
    head = open(d + "/bad.rs").read().split("\n")[: bad[0]["line"] - 1]
    accepted = []
    for i, b in enumerate(bad):
        if b["line"] in lines or len(accepted) > 3:
            continue
        # nothing was reported for this one: alone, is it accepted?
        src = os.path.join(scratch, "one.rs")
        with open(src, "w") as f:
            f.write("\n".join(head + ["#[metric(%s)] static B: Counter = Counter::new();" % b["args"], ""]))
        if rustc(src)[0] == 0:
            accepted.append(b)
            vs.append({"engine": "macro", "case": "#[metric(%s)]" % b["args"], "message": b["why"] + " is accepted", "trace": "", "sub": "bad"})
    # the rejections mean something only if the same program without them is accepted
    src = os.path.join(scratch, "none.rs")
    with open(src, "w") as f:
        f.write("\n".join(head + ["#[metric(name = \"a\", description = \"b\", metadata = { k = \"v\" }, formatter = fmt_a, crate = metriken)] static B: Counter = Counter::new();", ""]))
    if rustc(src)[0] != 0 and agg is not None:
        raise Fail("the frame of the rejected programs does not compile")
    log("macro: %d declarations accepted, %d of %d rejected, in %.1f s" % (counts["declarations"], len(bad) - len(accepted), len(bad), time.time() - t))
    m = merged([agg]) if agg else {"states": 0, "transitions": 0, "traces": 0, "samples": [], "exhaustive": False, "violations": [], "detail": {}}
    m["violations"] += vs
    m["transitions"] += len(bad)
    m["traces"] += len(bad) + 1
    m["states"] += len(set(b["args"] for b in bad))
    m["samples"] += [{"case": "#[metric(%s)]" % b["args"], "outcome": lines.get(b["line"], "?")} for b in bad[:: max(1, len(bad) // 2)][:2]]
    m["detail"].update({"declarations": counts["declarations"], "declarations that must be rejected": len(bad)})
    return m

ENGINES = {"conc": conc, "seq": seq, "it": it, "expo": expo, "macro": macro}

def known():
    """Open findings: lines 'finding: property=<id> case=<text of the case> :: <what fails>'."""
    out = []
    p = HERE + "/known_findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) case=(.*?) :: (.*)$", l.strip())
        if m:
            out.append(m.groups())
    return out

def check(prop, tier):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        res = {}
        for name in PLAN[prop]:
            res[name] = ENGINES[name](prop, tier, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    vs, seen = [], set()
    findings = [k for k in known() if k[0] == prop]
    for r in res.values():
        for v in r["violations"]:
            k = next((k for k in findings if k[1] == v["case"]), None)
            if k:
                if k not in seen:
                    seen.add(k)
                    log("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
            else:
                vs.append(v)
    tot = lambda k: sum(r[k] for r in res.values())
    samples = [s for r in res.values() for s in r["samples"]][:10]
    cov = {"exhaustive": all(r["exhaustive"] for r in res.values()), "engines": {k: r.get("detail", {}) for k, r in res.items()}, "samples": samples}
    level = LEVEL.get(prop, "model_checking")
    if level == "model_checking":
        cov.update({"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("traces")})
    else:
        cov.update({"evaluations": tot("traces"), "distinct_nontrivial": tot("states"), "operations": tot("transitions"),
                    "rule": "every truncation, byte change, start position, transfer size and fault at every input/output operation of a fixed set of conversions; distinct: different input bytes or a different fault at a different operation"})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": [a for k in res for a in ASSUME[k]], "wall_s": round(time.time() - t0, 2), "violations": len(vs)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    path = HERE + "/evidence/%s.json" % prop
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    if not vs:
        log("%s %s: held; %d states, %d transitions, %d executions of the code, exhaustive=%s, %.1f s" % (prop, tier, tot("states"), tot("transitions"), tot("traces"), cov["exhaustive"], ev["wall_s"]))
        return 0
    for v in vs[:3]:
        log("%s: %s\n  %s" % (v["engine"], v["case"], v["message"][:1500]))
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    rp = HERE + "/evidence/replay/%s-%s.json" % (prop, tier)
    with open(rp, "w") as f:
        json.dump({"property": prop, "tier": tier, "violation": vs[0], "others": vs[1:10], "how": "python3 /verif/check.py replay " + rp}, f, indent=1)
    log("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1

def replay(path):
    d = json.load(open(path))
    v = d["violation"]
    if v["engine"] == "conc":
        exe = build_conc()
        scratch = tempfile.mkdtemp(prefix="vp-replay-")
        try:
            r = subprocess.run([exe, "replay", d["property"], d["tier"], v["case"], v["schedule"]], env=dict(os.environ, MC_DICT=dictionary(os.path.join(scratch, "dict"))))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return r.returncode
    if "number" in v:
        if v["engine"] == "macro":
            return check(d["property"], d["tier"])
        build_plain("expo" if v["engine"] == "expo" else "seq")
        scratch = tempfile.mkdtemp(prefix="vp-replay-")
        try:
            r = subprocess.run([v["exe"], "replay", d["property"], d["tier"], str(v["number"])], env=dict(env(), TMPDIR=scratch, MC_DICT=dictionary(os.path.join(scratch, "dict"))))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return r.returncode
    return check(d["property"], d["tier"])

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["build"]:
            build_conc(); build_plain("seq"); build_plain("expo")
            return 0
        if a[:1] == ["replay"]:
            return replay(a[1])
        if not a or a[0] not in PLAN:
            print(__doc__)
            return 2
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except Fail as e:
        log("ERROR: %s" % e)
        return 2

sys.exit(main())
