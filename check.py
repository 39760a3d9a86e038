#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property (see DESIGN.md)
check.py --build                          build the framework
check.py --replay FILE                    re-run a recorded violation

For each area of the property:
  1. TLC checks the specification itself (MC configs) and generates cases (Gen modules);
  2. vdrive, built against /repo's working tree, runs TLC's cases and seeded cases on the
     real code and records what it did;
  3. TLC judges every record against the specification (Trace modules).
Exit 0: held.  Exit 1 with a VIOLATION line: a record of the real code was rejected.
Exit 2: the check itself failed (build, TLC error, missing verdict); never a verdict.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(ROOT, "lib"))


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             GOSUMDB="off")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    return subprocess.run(cmd, **kw)


def build_java():
    out = os.path.join(BUILD, "java")
    src = [os.path.join(ROOT, "java", f) for f in sorted(os.listdir(os.path.join(ROOT, "java"))) if f.endswith(".java")]
    stamp = os.path.join(out, "stamp")
    sig = "".join(open(f).read() for f in src)
    if os.path.exists(stamp) and open(stamp).read() == sig:
        return
    os.makedirs(out, exist_ok=True)
    r = run(["javac", "-nowarn", "-cp", JARS, "-d", out] + src)
    if r.returncode:
        raise CheckError("javac failed:\n" + r.stdout)
    open(stamp, "w").write(sig)


def build_go(race=False, tags=""):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "vdrive-race" if race else "vdrive" + ("-" + tags if tags else ""))
    # a private copy of go.mod and go.sum, so that the go tool never rewrites committed files
    mod = os.path.join(BUILD, "gomod" + ("-race" if race else "") + tags)
    os.makedirs(mod, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        shutil.copyfile(os.path.join(ROOT, "harness", f), os.path.join(mod, f))
    r = run(["go", "build", "-modfile", os.path.join(mod, "go.mod")] + (["-race"] if race else []) + (["-tags", tags] if tags else []) + ["-o", out, "."],
            cwd=os.path.join(ROOT, "harness"), env=goenv())
    if r.returncode:
        raise CheckError("go build failed:\n" + r.stdout)
    return out


def build():
    with ThreadPoolExecutor(3) as ex:
        a, b, r = ex.submit(build_java), ex.submit(build_go), ex.submit(build_go, True)
        a.result()
        r.result()
        return b.result()


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue")


def tlc(module, cfg, work, env=None, timeout=800, workers="auto", heap="6g", extra=()):
    """Runs TLC; returns (stdout, generated, distinct). Raises CheckError unless it ended without error."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides",
           "-DTLA-Library=" + SPEC, "-cp", os.path.join(BUILD, "java") + ":" + JARS, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-config", os.path.join(SPEC, cfg), *extra,
           os.path.join(SPEC, module + ".tla")]
    try:
        r = run(cmd, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired as x:
        t = CheckError("TLC timed out on " + module)
        t.partial = x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else x.stdout or ""
        raise t
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = STATS.findall(r.stdout)
    if r.returncode != 0 or "No error has been found" not in r.stdout or not m:
        raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, r.stdout[-6000:]))
    return r.stdout, int(m[-1][0]), int(m[-1][1])


VERDICT = re.compile(r'<<\s*"V",\s*(\d+),\s*(TRUE|FALSE)\b')


def judge(area, trace_file, n, work, timeout=800, real=None):
    """Verdicts of TLC for the n records of a trace file (real: those recorded, and no probes of listed findings)."""
    try:
        out, gen, dist = tlc(area["trace"], area.get("tracecfg", "Judge.cfg"), work,
                             {"VERIF_TRACE": trace_file}, timeout=timeout)
    except CheckError as x:
        # a record rejected before the time ran out is rejected; those not reached count as accepted
        v = {int(a): b == "TRUE" for a, b in VERDICT.findall(getattr(x, "partial", ""))}
        if not any(not b for a, b in v.items() if a in (real or ())):
            raise
        print("  %s; %d of %d records judged" % (x, len(v), n))
        return {k: v.get(k, True) for k in range(1, n + 1)}, len(v), len(v)
    v = {int(a): b == "TRUE" for a, b in VERDICT.findall(out)}
    if len(v) != n:
        raise CheckError("TLC gave %d verdicts for %d records of %s:\n%s" % (len(v), n, area["trace"], out[-3000:]))
    return v, gen, dist


def corrupt(rng, rec):
    """A copy of the record with one leaf of its output changed, or None."""
    rec = json.loads(json.dumps(rec))
    leaves = []

    def walk(o, key, parent):
        if isinstance(o, dict):
            for k in o:
                walk(o[k], k, o)
        elif isinstance(o, list):
            for k in range(len(o)):
                walk(o[k], k, o)
        else:
            leaves.append((parent, key))
    walk(rec["out"], None, None)
    leaves = [(p, k) for p, k in leaves if p is not None]
    if not leaves:
        return None
    p, k = rng.choice(leaves)
    v = p[k]
    if isinstance(v, bool):
        p[k] = not v
    elif isinstance(v, (int, float)):
        p[k] = v + 1
    elif isinstance(v, str):
        if re.fullmatch(r"-?\d+", v):
            p[k] = str(int(v) + 1)
        elif re.fullmatch(r"-?\d+/\d+", v):
            a, b = v.split("/")
            p[k] = "%d/%s" % (int(a) + int(b), b)
        else:
            p[k] = v + "~"
    rec.pop("tag", None)
    return rec


def ends_badly(rec):
    return "hang" in rec["out"] or "crash" in rec["out"]


def driver(area, vdrive):
    """Areas that need another binary (packages that look at the file system when they start) get their own."""
    return build_go(tags=area["tags"]) if area.get("tags") else vdrive


def run_area(prop, area, tier, seed, work, vdrive, deadline):
    vdrive = driver(area, vdrive)
    res = dict(area=area["name"], states=0, transitions=0, records=0, rejected=[], known=[], ops={}, samples=[], mc=[],
               corrupt_tried=0, corrupt_rejected=0, generated=0)
    aw = os.path.join(work, area["name"])
    os.makedirs(aw, exist_ok=True)
    left = lambda: max(30, deadline - time.time())
    # 1. the specification itself
    for mod, cfg in area.get("mc", []) + (area.get("mc_thorough", []) if tier == "thorough" else []):
        _, gen, dist = tlc(mod, cfg, aw, timeout=left())
        res["states"] += dist
        res["transitions"] += gen
        res["mc"].append({"module": mod, "cfg": cfg, "distinct": dist, "generated": gen})
    # cases generated by TLC
    cases = os.path.join(aw, "cases.ndjson")
    open(cases, "w").close()
    for gmod in area.get("gen", []):
        cfg = "Gen.cfg"
        if isinstance(gmod, (tuple, list)):
            gmod, cfg = gmod
        f = os.path.join(aw, gmod + ".ndjson")
        _, gen, dist = tlc(gmod, cfg, aw, {"VERIF_CASES": f, "VERIF_TIER": tier, "VERIF_SEED": str(seed % 997)}, timeout=left())
        res["states"] += dist
        res["transitions"] += gen
        body = open(f).read()
        if body and not body.endswith("\n"):
            body += "\n"
        open(cases, "a").write(body)
    res["generated"] = sum(1 for _ in open(cases))
    # 2. the real code
    trace = os.path.join(aw, "trace.ndjson")
    try:
        r = run([vdrive, "run", "-area", area["name"], "-cases", cases, "-out", trace, "-seed", str(seed), "-tier", tier,
                 "-shards", str(area.get("shards", 4))], timeout=left(), stderr=subprocess.PIPE, cwd=area.get("cwd"))
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out on " + area["name"])
    if r.returncode:
        raise CheckError("driver failed on %s: %s" % (area["name"], r.stderr))
    # some more under the race detector: a data race ends the driver's child, which the specification rejects
    if not area.get("tags"):
        few, t2 = os.path.join(aw, "few.ndjson"), os.path.join(aw, "race.ndjson")
        lines = open(cases).read().splitlines()
        with open(few, "w") as fh:
            fh.write("".join(l + "\n" for l in lines[:: max(1, len(lines) // 60)]))
        try:
            r = run([os.path.join(BUILD, "vdrive-race"), "run", "-area", area["name"], "-cases", few, "-out", t2, "-seed", str(seed), "-tier", "race",
                     "-shards", "8"], timeout=left(), stderr=subprocess.PIPE, cwd=area.get("cwd"), env=dict(os.environ, GORACE="halt_on_error=1 exitcode=66"))
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out on " + area["name"])
        if r.returncode:
            raise CheckError("driver (race) failed on %s: %s" % (area["name"], r.stderr))
        more = open(t2).read()
        res["raced"] = more.count("\n")
        open(trace, "a").write(more)
    recs = [json.loads(l) for l in open(trace)]
    if not recs:
        raise CheckError("no records for " + area["name"])
    # corrupted copies: the specification must be able to say no
    rng = random.Random(seed * 31 + 7)
    pool = [x for x in recs if "tag" not in x and not ends_badly(x) and "panic" not in x["out"]]
    bad = [c for c in (corrupt(rng, x) for x in rng.sample(pool, min(len(pool), 40))) if c]
    with open(trace, "a") as fh:
        for c in bad:
            fh.write(json.dumps(c) + "\n")
    # 3. TLC judges
    v, gen, dist = judge(area, trace, len(recs) + len(bad), aw, timeout=left(),
                         real={k + 1 for k, x in enumerate(recs) if not x.get("tag")})
    res["states"] += dist
    res["transitions"] += gen
    res["records"] = len(recs)
    res["corrupt_tried"] = len(bad)
    res["corrupt_rejected"] = sum(1 for k in range(len(bad)) if not v[len(recs) + k + 1])
    for k, rec in enumerate(recs):
        res["ops"][rec["op"]] = res["ops"].get(rec["op"], 0) + 1
        if v[k + 1]:
            continue
        if rec.get("tag"):
            res["known"].append(rec)
        else:
            res["rejected"].append(rec)
    # a call that did not end must not end again, alone, to count
    slow = [x for x in res["rejected"] if "hang" in x["out"]]
    if slow and len(slow) == len(res["rejected"]):
        f, t2 = os.path.join(aw, "again.ndjson"), os.path.join(aw, "again-trace.ndjson")
        open(f, "w").write("".join(json.dumps({"op": x["op"], "in": x["in"]}) + "\n" for x in [x for x in slow if "not run" not in x["out"]["hang"]][:2]))
        r = run([vdrive, "run", "-only", "-area", area["name"], "-cases", f, "-out", t2], timeout=300, stderr=subprocess.PIPE, cwd=area.get("cwd"))
        if r.returncode:
            raise CheckError("driver failed on " + area["name"])
        if not any("hang" in json.loads(l)["out"] for l in open(t2)):
            raise CheckError("a call timed out once but not again: " + json.dumps(slow[0]["in"])[:300])
    ok = [x for k, x in enumerate(recs) if v[k + 1]]
    for x in ok[:: max(1, len(ok) // 2)][:2]:
        s = json.dumps(x)
        res["samples"].append(s if len(s) < 1500 else s[:1500] + "...")
    if res["corrupt_tried"] >= 10 and res["corrupt_rejected"] == 0 and not res["rejected"]:
        raise CheckError("the specification of %s accepted every corrupted record" % area["name"])
    return res


def check(prop, tier):
    from props import PROPS
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = PROPS[prop]
    deadline = t0 + (840 if tier == "quick" else 3 * 3600)
    vdrive = build()
    work = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        with ThreadPoolExecutor(max_workers=p.get("jobs", 3)) as ex:
            rs = list(ex.map(lambda a: run_area(prop, a, tier, seed, work, vdrive, deadline), p["areas"]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    listed = {}
    kf = os.path.join(ROOT, "known-findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e.get("status") == "known" and e["property"] == prop:
                listed[e["tag"]] = e
    viol, known = [], {}
    for r in rs:
        for rec in r["known"]:
            if rec["tag"] in listed:
                known[rec["tag"]] = listed[rec["tag"]]
            else:
                viol.append((r["area"], rec))
        viol += [(r["area"], rec) for rec in r["rejected"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in rs),
            "transitions": sum(r["transitions"] for r in rs),
            "traces_validated_against_impl": sum(r["records"] for r in rs),
            "samples": [s for r in rs for s in r["samples"]][:6],
            "areas": [{k: r[k] for k in ("area", "records", "generated", "ops", "mc", "states", "transitions",
                                         "corrupt_tried", "corrupt_rejected")} for r in rs],
        },
        "assumptions": p.get("assumptions", []) + [
            "java/Reals.java computes the arithmetic operators of Reals.tla", "TLC and CommunityModules are correct",
            "the driver records inputs and outputs faithfully"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for t in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[t]["what"]))
    for r in rs:
        print("%s: %d records judged (%d from TLC), %d states, corrupted rejected %d/%d" % (
            r["area"], r["records"], r["generated"], r["states"], r["corrupt_rejected"], r["corrupt_tried"]))
    if viol:
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        byop = {}
        for a, rec in viol:
            byop.setdefault((a, rec["op"]), []).append(rec)
        for n, ((a, op), l) in enumerate(sorted(byop.items())):
            f = os.path.join(d, "%s-%d.json" % (prop, n))
            l.sort(key=lambda x: len(json.dumps(x)))
            json.dump({"property": prop, "area": a, "seed": seed, "cases": l[:5]}, open(f, "w"), indent=1)
            print("  rejected: area=%s op=%s (%d records), e.g. %s" % (a, op, len(l), json.dumps(l[0])[:1000]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    print("OK property=%s tier=%s %.1fs" % (prop, tier, time.time() - t0))
    return 0


def replay(f):
    from props import PROPS
    r = json.load(open(f))
    area = next(a for a in PROPS[r["property"]]["areas"] if a["name"] == r["area"])
    vdrive = driver(area, build())
    work = tempfile.mkdtemp(prefix="verif-replay-")
    cf, tf = os.path.join(work, "c.ndjson"), os.path.join(work, "t.ndjson")
    open(cf, "w").write("".join(json.dumps({"op": x["op"], "in": x["in"]}) + "\n" for x in r["cases"]))
    if any("DATA RACE" in x["out"].get("crash", "") for x in r["cases"]):
        vdrive = os.path.join(BUILD, "vdrive-race")
    q = run([vdrive, "run", "-only", "-area", r["area"], "-cases", cf, "-out", tf], cwd=area.get("cwd"),
            env=dict(os.environ, GORACE="halt_on_error=1 exitcode=66"))
    if q.returncode:
        raise CheckError(q.stdout)
    v, _, _ = judge(area, tf, len(r["cases"]), work)
    for k, l in enumerate(open(tf)):
        print("accepted" if v[k + 1] else "REJECTED", l.strip())
    shutil.rmtree(work, ignore_errors=True)
    return 0 if all(v.values()) else 1


def main():
    try:
        if sys.argv[1] == "--build":
            build()
            build_go(tags="datasets")
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except CheckError as e:
        print("CHECK-ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
