#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of properties.jsonl on /repo's working tree.

1. builds the harness crate against /repo (black box, public API only),
2. runs the recorder(s): calls into the library are written down as events (one JSON per line),
3. model checks the property's specification on the small board (TLC, exhaustive),
4. validates the recorded events with TLC against the same specification modules (9x9 board).

exit 0: held; 1: VIOLATION line; anything else: the check itself failed.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

VARIANTS = {  # name -> (profile dir, cargo args)
    "release": ("release", ["--release"], "target"),
    "assert": ("relassert", ["--profile", "relassert"], "target"),
    "unchecked": ("release", ["--release", "--features", "unchecked"], "target-unchecked"),
    "uncheckedassert": ("relassert", ["--profile", "relassert", "--features", "unchecked"], "target-unchecked"),
}


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUSTFLAGS="-Awarnings")
    return e


def source_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(variant):
    pdir, args, tdir = VARIANTS[variant]
    target = os.path.join(VERIF, tdir)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(target, "src-%s.hash" % variant)
        h = source_hash()
        exe = os.path.join(target, pdir, "harness")
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(exe):
            return exe
        # cargo goes by mtime; forget the fingerprints of both crates so that they are rebuilt
        fp = os.path.join(target, pdir, ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("sudoku-", "harness-")):
                    shutil.rmtree(os.path.join(fp, x))
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", target] + args,
                           cwd=os.path.join(VERIF, "harness"), env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build (%s):\n%s" % (variant, r.stdout[-6000:]))
        with open(stamp, "w") as f:
            f.write(h)
        return exe


# ------------------------------------------------------------------ recording

def record(exe, prop, tag, work, seed, tier, shard, nshards, timeout, failures):
    """Runs one recorder shard. Returns (trace path, meta)."""
    out = os.path.join(work, "%s-%d.ndjson" % (tag, shard))
    meta = os.path.join(work, "%s-%d.meta.json" % (tag, shard))
    for p in (out, meta):
        if os.path.exists(p):
            os.remove(p)
    err = open(os.path.join(work, "%s-%d.err" % (tag, shard)), "w")
    crash = None
    try:
        r = subprocess.run([exe, prop, out, meta, str(seed), tier, str(shard), str(nshards)], stdout=err, stderr=err,
                           cwd=work, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    err.close()
    if rc != 0:
        cur = out + ".cur"
        txt = open(cur).read() if os.path.exists(cur) else ""
        if rc == "timeout" or not txt.strip():
            # the recorder itself failed; whatever it recorded before is still judged
            failures.append("recorder %s shard %d failed: %s\n%s" % (
                prop, shard, rc, open(os.path.join(work, "%s-%d.err" % (tag, shard))).read()[-3000:]))
        else:
            crash = json.loads(txt)
            crash["how"] = "did not return within 25 s of processor time" if rc == 77 else "process died with status %s" % rc
    lines = []
    if os.path.exists(out):
        raw = open(out).read()
        lines = raw.split("\n")
        if lines and lines[-1] != "":  # partial last line after a crash
            lines = lines[:-1]
        lines = [x for x in lines if x]
    if crash:
        lines.append(json.dumps(crash))
    m = json.load(open(meta)) if os.path.exists(meta) else {"events": len(lines), "calls": 0, "panics": 0,
                                                            "prefiltered": 0, "suspicious": 0, "stats": {}, "samples": []}
    return lines, m


# ------------------------------------------------------------------ TLC

def tlc(module, cfg, work, workers=8, heap="4g", env=None, timeout=800, extra=()):
    meta = os.path.join(work, "tlc-%s-%s" % (module, os.path.basename(cfg)))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss256m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-config", cfg + ".cfg", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + meta
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), "timeout"
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, "%s-%s.out" % (module, os.path.basename(cfg))), "w") as f:
        f.write(out)
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out, re.M)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    ok = "No error has been found" in out and rc == 0
    if "Simulation" in out or "-simulate" in extra:
        ok = rc == 0 and "Error:" not in out
    return dict(module=module, cfg=cfg, ok=ok, rc=rc, generated=gen, distinct=dist, out=out, wall=round(time.time() - t, 2))


REJ = re.compile(r'REJECT (\d+) (.*?)"?$', re.M)


def validate(module, cfg, lines, work, name, timeout):
    path = os.path.join(work, name + ".trace.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = tlc(module, cfg, work, env={"TRACE": path}, heap="12g", timeout=timeout)
    rej = {}
    for i, why in REJ.findall(r["out"]):
        rej.setdefault(int(i), [])
        why = why.replace('\\"', '"')
        if why not in rej[int(i)]:
            rej[int(i)].append(why)
    if not r["ok"]:
        raise ToolError("trace validation %s did not complete (%s):\n%s" % (module, r["rc"], tail(r["out"])))
    return r, rej, path


def tail(s, n=3500):
    s = "\n".join(x for x in s.split("\n") if not x.startswith(("Parsing file", "Semantic processing", "Linting", "Computed ")))
    i = s.find("Error:")
    return s[i:i + n] if i >= 0 else s[-n:]


# ------------------------------------------------------------------ known findings

def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for ln in open(p):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", ln.strip())
        if m:
            out.append(m.groups())
    return out


# ------------------------------------------------------------------ main

def shorten(v, n=400):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + "..."


def check(prop, tier, seed):
    t0 = time.time()
    cfg = PROPS[prop]
    work = os.path.join(VERIF, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    limit = 840 if tier == "quick" else 6 * 3600
    res = dict(mc=[], traces=[], stats={}, samples=[], calls=0, prefiltered=0, events=0, canaries=0)
    violations, known = [], []
    kf = [k for k in known_findings() if k[0] == prop]
    kf_hit = {}
    failures = []
    with cf.ThreadPoolExecutor(16) as ex:
        # exhaustive model checking runs beside building and recording
        models = [m for m in cfg["mc"] if tier == "thorough" or not m.get("thorough")]
        futs = [ex.submit(tlc, m["module"], m.get("cfg_thorough", m["cfg"]) if tier == "thorough" else m["cfg"], work,
                          m.get("workers", 4), m.get("heap", "4g"), m.get("env"), limit, tuple(m.get("args", ()))) for m in models]
        exes = {}
        for v in sorted({r.get("variant", "release") for r in cfg["rec"]}):
            exes[v] = build(v)
        build_wall = time.time() - t0
        # inputs generated by the specification itself (spec -> implementation direction)
        gens = []
        for g in cfg.get("gen", []):
            gens.append(generate(g, work, seed, tier))
        by_spec, merged = {}, {}
        for rec in cfg["rec"]:
            v = rec.get("variant", "release")
            n = rec.get("shards", 4)
            fs = [ex.submit(record, exes[v], rec.get("mode", prop), "%s-%s" % (rec.get("mode", prop), v), work, seed, tier, s, n,
                            limit - 30, failures) for s in range(n)]
            for si, f in enumerate(fs):
                lines, m = f.result()
                if rec.get("merge"):
                    merged.setdefault((rec["spec"], si), {})[v] = lines
                    lines = []
                by_spec.setdefault(rec["spec"], []).extend(lines)
                res["calls"] += m["calls"]
                res["prefiltered"] += m["prefiltered"]
                for k, x in m["stats"].items():
                    res["stats"][k] = res["stats"].get(k, 0) + x
                if len(res["samples"]) < 4:
                    res["samples"] += [shorten(s) for s in m["samples"][:1]]
        for (spec, si), runs in sorted(merged.items()):
            by_spec[spec].extend(merge(runs, res))
        rec_wall = time.time() - t0
        for f in futs:
            r = f.result()
            if not r["ok"]:
                raise ToolError("model %s/%s: %s\n%s" % (r["module"], r["cfg"], r["rc"], tail(r["out"])))
            res["mc"].append({k: r[k] for k in ("module", "cfg", "generated", "distinct", "wall")})
        for (module, c), lines in by_spec.items():
            if not lines and not failures:
                raise ToolError("no events for %s" % module)
            chunk = cfg.get("chunk", 10**9)
            for ci in range(0, len(lines), chunk):
                part = lines[ci:ci + chunk]
                r, rej, path = validate(module, c, part, work, "%s-%d" % (module, ci // chunk), limit)
                res["traces"].append({k: r[k] for k in ("module", "cfg", "generated", "distinct", "wall")} | {"events": len(part)})
                for i, ln in enumerate(part, 1):
                    if '"canary":' in ln:
                        res["canaries"] += 1
                        if i not in rej:
                            # with wrong results a "wrong" event can be right: no error if violations are found
                            failures.append("canary event accepted: " + ln[:3000])
                    else:
                        res["events"] += 1
                for i in sorted(rej):
                    if '"canary":' in part[i - 1]:
                        continue
                    ev = json.loads(part[i - 1])
                    fid = ev.get("fid")
                    hit = [k for k in kf if fid is not None and k[1] == fid]
                    if hit:
                        kf_hit[hit[0]] = kf_hit.get(hit[0], 0) + 1
                        known.append(ev)
                    else:
                        violations.append((module, c, rej[i], ev))
    if failures and not violations:
        raise ToolError("\n".join(failures))
    if res["events"] == 0:
        raise ToolError("nothing was checked")
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i in range(200):
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        if os.path.exists(p):
            os.remove(p)
    for k in kf:
        log("KNOWN-FINDING: property=%s %s" % (prop, k[2]) + (" [%d]" % kf_hit.get(k, 0)))
    for i, (module, c, why, ev) in enumerate(violations[:20]):
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump(dict(property=prop, module=module, cfg=c, reasons=why, seed=seed, tier=tier, event=ev), f)
        log("VIOLATION property=%s replay=%s" % (prop, p))
        log("   ", "; ".join(why)[:300], "|", shorten(ev, 600))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(m["distinct"] for m in res["mc"]) + sum(t["distinct"] for t in res["traces"]),
            transitions=sum(m["generated"] for m in res["mc"]) + sum(t["generated"] for t in res["traces"]),
            traces_validated_against_impl=res["events"],
            samples=res["samples"][:4],
            models=res["mc"], trace_specs=res["traces"], library_calls=res["calls"],
            compared_with_reference_only=res["prefiltered"], corrupted_events_rejected=res["canaries"],
            case_classes=res["stats"], known_findings_seen=sum(kf_hit.values()),
        ),
        assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d events judged, %d library calls, %d model states, %d violations, %.1f s (build %.1f, recorded %.1f)" % (
        prop, tier, res["events"], res["calls"], sum(m["distinct"] for m in res["mc"]), len(violations), time.time() - t0,
        build_wall, rec_wall))
    if not violations:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if violations else 0


def merge(runs, res):
    """Recordings of the same programs by several builds become one event per program."""
    order = sorted(runs)
    out = []
    for i in range(max(len(x) for x in runs.values())):
        evs = [json.loads(runs[v][i]) if i < len(runs[v]) else None for v in order]
        bad = [e for e in evs if e is not None and e["k"] in ("crash", "panic")]
        if bad or any(e is None for e in evs):
            # reported on its own; the rest of that recording is missing
            out += [json.dumps(b) for b in bad]
            if any(e is None for e in evs) or any(b["k"] == "crash" for b in bad):
                break
            continue
        if evs[0]["k"] != "prog":
            out += [json.dumps(e) for e in evs]
            continue
        e = dict(k="cfg", builds=order, runs=[x["ops"] for x in evs], msgs=[x["msg"] for x in evs])
        out.append(json.dumps(e))
        if i % 150 == 3:
            c = json.loads(out[-1])
            c["runs"][1 + i % (len(order) - 1)][-1][8] = "deadbeef"
            c["canary"] = True
            out.append(json.dumps(c))
    return out


def generate(g, work, seed, tier):
    """Lets TLC generate behaviours of the specification (simulation) for replay in the implementation."""
    out = os.path.join(work, g["out"])
    num = g["num_thorough"] if tier == "thorough" else g["num"]
    r = tlc(g["module"], g["cfg"], work, 1, "4g", {"GENOUT": out}, 600,
            ("-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(seed)))
    lines = []
    for ln in r["out"].split("\n"):
        m = re.match(r'^"?GEN (.*?)"?$', ln)
        if m:
            lines.append(m.group(1).replace('\\"', '"'))
    if not lines:
        raise ToolError("no behaviours generated by %s:\n%s" % (g["module"], tail(r["out"])))
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")
    return len(lines)


def replay(path):
    """Judges the event of a replay file again with its trace specification."""
    d = json.load(open(path))
    work = os.path.join(VERIF, "work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    r, rej, _ = validate(d["module"], d["cfg"], [json.dumps(d["event"])], work, "replay", 600)
    print(json.dumps(d["event"])[:4000])
    print("rejected:" if rej else "accepted", rej.get(1, ""))
    return 1 if rej else 0


def main():
    if sys.argv[1] == "setup":
        for v in VARIANTS:
            build(v)
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(sys.argv[1], tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        log("TOOL ERROR:", e)
        rc = 2
    sys.exit(rc)
