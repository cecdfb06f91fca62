#!/usr/bin/env python3
"""Decides one property: ./check.py C05 [--tier quick|thorough] [--seed N]

1. TLC checks the specification (spec/) for the property.
2. TLC prints the specification's transition and observation tables.
3. The harness is built against /repo's working tree, with and without debug
   assertions and overflow checks, and replays the tables on the real code.
4. Runs of the real code are recorded and TLC judges them (trace validation).

Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=.. replay=..
Exit 2: the machinery itself failed.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, ROOT)
from plan import PLAN, TABLES, SUBJECTS  # noqa: E402


class ToolError(Exception):
    pass


# --------------------------------------------------------------------------- TLC
def cfg_text(consts, spec=None, invs=(), props=(), post=None, view=None, constraint=None):
    out = []
    if consts:
        out.append("CONSTANTS")
        for k, v in consts.items():
            out.append("  %s = %s" % (k, {True: "TRUE", False: "FALSE"}.get(v, v) if isinstance(v, bool) else v))
    if spec:
        out.append("SPECIFICATION " + spec)
        out.append("CHECK_DEADLOCK FALSE")
    if invs:
        out.append("INVARIANTS " + " ".join(invs))
    if props:
        out.append("PROPERTIES " + " ".join(props))
    if view:
        out.append("VIEW " + view)
    if constraint:
        out.append("CONSTRAINT " + constraint)
    if post:
        out.append("POSTCONDITION " + post)
    return "\n".join(out) + "\n"


def tlc(work, name, module, cfg, workers=1, rows=None, env=None, heap="3g", timeout=1500):
    """Runs TLC; returns dict(ok, states, distinct, depth, text).  With `rows`,
    printed JSON rows go to that file as they come."""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    cfgp = os.path.join(d, "run.cfg")
    open(cfgp, "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", os.path.join(d, "m"), "-config", cfgp, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    e["TMPDIR"] = d
    t0 = time.time()
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as o:
        try:
            rc = subprocess.run(cmd, stdout=o, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of time on %s (%s)" % (module, name))
    text, n, last = [], 0, None
    ro = open(rows, "w") if rows else None
    with open(outp) as f:
        for line in f:
            if ro is not None and line.startswith('"['):
                ro.write(line.rstrip("\n")[1:-1] + "\n")
                n += 1
            else:
                text.append(line)
    if ro is not None:
        ro.close()
    text = "".join(text)
    m = re.search(r"^([\d,]+) states generated, ([\d,]+) distinct", text, re.M)
    dep = re.search(r"depth of the complete state graph search is (\d+)", text)
    r = {"module": module, "name": name, "rc": rc, "rows": n, "wall_s": round(time.time() - t0, 2),
         "generated": int(m.group(1).replace(",", "")) if m else 0,
         "distinct": int(m.group(2).replace(",", "")) if m else 0,
         "depth": int(dep.group(1)) if dep else 0, "text": text,
         "ok": rc == 0 and "No error has been found" in text}
    shutil.rmtree(os.path.join(d, "m"), ignore_errors=True)
    os.unlink(outp)
    return r


def apalache(work, name, module, init, nxt, inv, length, cinit="ConstInit", timeout=1500):
    """Runs Apalache (symbolic, unbounded values); the same result as tlc()."""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    cmd = ["apalache-mc", "check", "--cinit=" + cinit, "--init=" + init, "--next=" + nxt, "--inv=" + inv, "--length=%d" % length,
           "--no-deadlock", "--out-dir=" + os.path.join(d, "o"), "--run-dir=" + os.path.join(d, "r"), os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, timeout=timeout,
                           env=dict(os.environ, TMPDIR=d, JVM_ARGS="-Xmx4g -Djava.io.tmpdir=" + d))
    except subprocess.TimeoutExpired:
        raise ToolError("Apalache ran out of time on %s (%s)" % (module, name))
    ok = p.returncode == 0 and "The outcome is: NoError" in p.stdout
    shutil.rmtree(d, ignore_errors=True)
    return {"module": module, "name": name, "rc": p.returncode, "rows": 0, "wall_s": round(time.time() - t0, 2), "generated": 0, "distinct": 0,
            "depth": length + 1, "text": p.stdout, "ok": ok}


def trace_verdict(r):
    """What TLC's run on a recorded trace means."""
    if r["ok"]:
        return "accepted"
    if r["depth"] > 0 and ("ostcondition" in r["text"] or "Accepted" in r["text"]):
        return "rejected"
    m = re.findall(r"^State (\d+):", r["text"], re.M)
    if m and "The error occurred when TLC was evaluating" in r["text"] and "OutOfMemory" not in r["text"]:
        r["depth"] = int(m[-1])     # the state whose next line could not be judged
        return "rejected (undefined)"
    return "broken"


# --------------------------------------------------------------------------- harness
def cargo(profile, bins, features):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    if profile == "plain":
        cmd.append("--release")
    if features:
        cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo build failed:\n" + p.stdout[-4000:])


def binary(profile, name):
    return os.path.join(BUILD, "target", "release" if profile == "plain" else "debug", name)


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def run_harness(profile, name, args, out, timeout):
    """(result dict, crash description or None)"""
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary(profile, name)] + args + ["--out", out]
    errp = out + ".err"
    with open(errp, "w") as eo:
        try:
            p = subprocess.run(cmd, stdout=eo, stderr=subprocess.STDOUT, preexec_fn=limits, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("%s (%s) ran out of time" % (name, profile))
    tail = open(errp).read()[-2000:]
    if p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
        return None, "killed by signal %d: %s" % (-p.returncode, tail)
    if not os.path.exists(out) or p.returncode not in (0, 1):
        raise ToolError("%s (%s) exited %s\n%s" % (name, profile, p.returncode, tail))
    return json.load(open(out)), None


# --------------------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, a.seed
    thorough = tier == "thorough"
    t0 = time.time()
    plan = PLAN(pid, thorough)
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    for d in ("tables", "traces", "out"):
        os.makedirs(os.path.join(work, d))
    replay_dir = os.path.join(BUILD, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    violations = []     # (description dict)
    tables = os.path.join(work, "tables")
    traces = os.path.join(work, "traces")

    pool = ThreadPoolExecutor(6)
    builder = ThreadPoolExecutor(2)
    bins = [plan["bin"]] + sorted({r["bin"] for r in plan["record"]})
    builds = [builder.submit(cargo, p, bins, plan["features"]) for p in ("checked", "plain")]

    # 1. the specification itself
    models = [pool.submit(apalache, work, "model_%d_%s_%s" % (i, m["module"], m["inv"]), m["module"], m["init"], m["next"], m["inv"], m["length"])
              if "init" in m else
              pool.submit(tlc, work, "model_%d_%s" % (i, m["module"]), m["module"],
                          cfg_text(m["consts"], m.get("spec", "Spec"), m.get("invs", ()), m.get("props", ()), view=m.get("view")),
                          m.get("workers", 1), None, None, m.get("heap", "3g"))
              for i, m in enumerate(plan["models"])]
    # 2. its tables
    def emit(name):
        t = TABLES(name)
        return tlc(work, "table_" + name, t["module"],
                   cfg_text(t["consts"], t.get("spec"), t.get("invs", ()), t.get("props", ()), view=t.get("view")),
                   1, os.path.join(tables, name + ".rows"))
    emits = [pool.submit(emit, n) for n in plan["tables"]]
    model_res, emit_res = [f.result() for f in models], [f.result() for f in emits]
    for r in model_res + emit_res:
        if not r["ok"]:
            raise ToolError("the specification does not hold: %s\n%s" % (r["name"], r["text"][-3000:]))
    for b in builds:
        b.result()

    # 3. replay
    harness = []
    for profile in ("checked", "plain"):
        tdir = os.path.join(traces, profile)
        os.makedirs(tdir)
        args = ["--tables", tables, "--seed", str(seed), "--tier", tier, "--traces", tdir]
        res, crash = run_harness(profile, plan["bin"], args, os.path.join(work, "out", profile + ".json"), 3000 if thorough else 700)
        cmd = " ".join([binary(profile, plan["bin"])] + args + ["--out", "/dev/stdout"])
        if crash:
            violations.append({"found_by": "replay", "build": profile, "case": "the process died", "specification": "every call returns",
                               "implementation": crash, "command": cmd})
        else:
            harness.append((profile, res))
            for v in res["violations"]:
                violations.append(dict(v, found_by="replay of the specification's tables", build=profile, command=cmd + " --only '%s'" % v["job"]))
    # 4. recorded runs
    validated, jobs, events = [], [], 0
    hung = any("no answer in" in str(v.get("implementation")) or v["found_by"] == "replay" for v in violations)
    for entry, rec in enumerate([] if hung else plan["record"]):     # recording would hang or die as well
        for profile in ("checked", "plain"):
            # different runs in the two builds
            s = seed * 1000 + (0 if profile == "checked" else 500)
            for rep in range(rec.get("reps", 1)):
                tdir = os.path.join(traces, profile, "%s_%s_%d_%d" % (rec["bin"], rec["mix"], entry, rep))
                os.makedirs(tdir)
                args = ["--traces", tdir, "--seed", str(s + rep), "--tier", tier, "--mix", rec["mix"], "--lines", str(rec["lines"]),
                        "--subjects", ",".join(rec["subjects"])]
                res, crash = run_harness(profile, rec["bin"], args, os.path.join(work, "out", "rec.json"), 600)
                cmd = " ".join([binary(profile, rec["bin"])] + args)
                if crash:
                    violations.append({"found_by": "recording", "build": profile, "case": "the process died", "specification": "every call returns",
                                       "implementation": crash, "command": cmd})
                    continue
                for v in res["violations"]:
                    violations.append(dict(v, found_by="recording", build=profile, command=cmd))
                for sub in rec["subjects"]:
                    n, dense, module = SUBJECTS[sub]
                    jobs.append((module, {"N": n, "Dense": dense}, "Spec", os.path.join(tdir, sub + ".ndjson"), profile, sub, cmd))
    for tr in [] if hung else plan["traces"]:       # written by the property's own binary
        for profile in ("checked", "plain"):
            tdir = os.path.join(traces, profile)
            names = sorted(x for x in os.listdir(tdir) if re.fullmatch(tr["files"], x)) if os.path.isdir(tdir) else []
            for x in names:
                jobs.append((tr["module"], tr["consts"], tr.get("spec", "Spec"), os.path.join(tdir, x), profile, x, "the --traces output of the replay command"))

    def judge(j):
        module, consts, spec, path, profile, sub, cmd = j
        lines = sum(1 for _ in open(path))
        r = tlc(work, "trace_%s_%s" % (profile, re.sub(r"\W", "_", os.path.relpath(path, traces))), module,
                cfg_text(consts, spec, post="Accepted"), 1, None, {"TRACE": path}, "3g")
        return j, lines, r
    jobs.sort(key=lambda j: -j[1].get("N", 0))      # the long ones first
    judged = list(pool.map(judge, jobs)) if jobs else []
    for (module, consts, spec, path, profile, sub, cmd), lines, r in judged:
        if r["ok"]:
            validated.append({"trace": os.path.relpath(path, traces), "lines": lines, "module": module})
            events += lines
            continue
        # accepted a prefix only, or an answer no operator of the
        # specification is defined for: a violation; anything else is a
        # broken tool
        if trace_verdict(r) == "broken":
            raise ToolError("TLC failed on trace %s\n%s" % (path, r["text"][-3000:]))
        bad = r["depth"]        # lines 1..depth-1 were explained
        log = open(path).read().splitlines()
        kept = os.path.join(replay_dir, "%s-%s-%s" % (pid, profile, os.path.basename(path)))
        shutil.copyfile(path, kept)
        violations.append({"found_by": "trace validation (%s)" % module, "build": profile, "job": "recorded run on " + sub,
                           "case": "line %d of %d of %s" % (bad, lines, kept),
                           "specification": "no transition of the specification explains this call and its answer",
                           "implementation": log[bad - 1][:2000] if bad <= len(log) else "?", "before": [x[:600] for x in log[max(0, bad - 6):bad - 1]],
                           "command": cmd, "judge": "TRACE=%s tlc -config <N=%s> %s.tla" % (kept, consts, module)})

    # 5. evidence
    states = sum(r["distinct"] for r in model_res + emit_res)
    trans = sum(r["generated"] for r in model_res + emit_res)
    hs = [h for _, h in harness]
    samples = []
    for h in hs[:1]:
        samples += h["samples"]
    for t in validated[:3]:
        log = open(os.path.join(traces, t["trace"])).readlines()
        samples.append({"validated_trace": t["trace"], "lines": t["lines"], "some": [json.loads(x) for x in log[len(log) // 2:len(log) // 2 + 3]]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": sum(h["traces"] for h in hs) + len(validated),
            "histories_replayed_into_impl": sum(h["traces"] for h in hs),
            "recorded_traces_accepted_by_tlc": len(validated), "recorded_events_accepted_by_tlc": events,
            "table_rows_printed_by_tlc": sum(r["rows"] for r in emit_res),
            "table_rows_replayed": sum(h["rows"] for h in hs),
            "answers_compared": sum(h["cases"] for h in hs), "calls_of_the_real_code": sum(h["calls"] for h in hs),
            "replay_jobs": sum(h["jobs"] for h in hs),
            "job_names": [n for h in hs[:1] for n in h["job_names"]][:60],
            "builds": [p for p, _ in harness],
            "models": [{k: r[k] for k in ("name", "distinct", "generated", "depth", "wall_s")} for r in model_res],
            "tables": [{k: r[k] for k in ("name", "rows", "distinct", "generated", "wall_s")} for r in emit_res],
            "bounds": plan["bounds"],
            "samples": samples or [{"violation": v} for v in violations[:1]] or [{"models": [r["name"] for r in model_res]}],
        },
        "assumptions": plan["assumptions"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    if violations:
        path = os.path.join(replay_dir, pid + ".json")
        json.dump({"property": pid, "tier": tier, "seed": seed, "violations": violations}, open(path, "w"), indent=1, ensure_ascii=False)
        v = violations[0]
        print("%d violation(s); the first, found by %s (%s build):" % (len(violations), v["found_by"], v["build"]))
        for k in ("job", "case", "specification", "implementation"):
            print("  %s: %s" % (k, str(v.get(k, ""))[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    print("%s held: %d states, %d transitions, %d answers compared, %d+%d traces, %.0f s" % (
        pid, states, trans, ev["coverage"]["answers_compared"], ev["coverage"]["histories_replayed_into_impl"], len(validated), ev["wall_s"]))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("TOOL ERROR: %s" % e)
        sys.exit(2)
