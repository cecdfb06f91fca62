#!/usr/bin/env python3
"""Do the trace specifications reject wrong answers?  Takes recorded traces
that TLC accepts, changes one answer in one line at a time, and asks TLC
again: the trace cut after that line must be rejected exactly there.

./tools/corrupt.py C16 [seed]      (runs ./check.py C16 --keep first)
"""
import json, os, random, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402
from plan import PLAN, SUBJECTS  # noqa: E402

ANSWERS = {  # per kind of event, its answers (the rest are arguments)
    "edit": ["runs"], "ext": ["runs"], "coll": ["runs"], "bin": ["runs", "w"], "comp": ["runs"], "copy": ["runs"], "save": ["runs", "eq"],
    "cmp": ["eq", "heq", "meets"], "has": ["ins"], "hull": ["w", "clo", "empty", "full", "lo", "up", "inf", "sup", "bnd"], "walk": ["out", "cnt"], "pts": ["out", "cnt"],
    "new": ["w"], "conv": ["w"], "pcs": ["ws"], "look": ["lo", "up", "inf", "sup", "empty", "full", "size", "is"], "rel": ["meets", "adj", "eq", "heq"],
    "bulk": ["enc", "int", "uni"], "norm": ["n", "dn", "dd", "nd"], "bd": ["lu", "gu", "li", "gi"], "tine": ["u", "i", "m", "v", "cmp"],
    "x": ["s", "p", "min", "max"], "s": ["from", "to", "by", "imf", "imt"], "p": ["from", "to", "by", "imf", "imt"],
    "text": ["r"],
}


def leaves(v, path=()):
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    elif isinstance(v, int) and not isinstance(v, bool):
        yield path


def put(ev, path, f):
    ev = json.loads(json.dumps(ev))
    o = ev
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = f(o[path[-1]])
    return ev


def main():
    pid, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
    rng = random.Random(seed)
    subprocess.run([os.path.join(ROOT, "check.py"), pid, "--keep"], check=True)
    work = os.path.join(ROOT, "build", "work", pid)
    plan, jobs = PLAN(pid, False), []
    sources = []
    for r in plan["record"]:
        for sub in r["subjects"]:
            n, dense, module = SUBJECTS[sub]
            sources.append((module, {"N": n, "Dense": dense}, "Spec", "%s_%s_0/%s.ndjson" % (r["bin"], r["mix"], sub)))
    for tr in plan["traces"]:
        import re
        for x in sorted(os.listdir(os.path.join(work, "traces", "checked"))):
            if re.fullmatch(tr["files"], x):
                sources.append((tr["module"], tr["consts"], tr.get("spec", "Spec"), x))
    for module, consts, spec, rel in sources:
        log = [json.loads(x) for x in open(os.path.join(work, "traces", "checked", rel))]
        kinds = {}
        for i, e in enumerate(log[:700]):
            kinds.setdefault(e.get("e") or e.get("op") or "text", []).append(i)
        for kind, at in sorted(kinds.items()):
            for field in ANSWERS.get(kind, []):
                fits = [i for i in at if field in log[i] and any(True for _ in leaves(log[i][field], (field,)))]
                for i in rng.sample(fits, min(2, len(fits))):
                    path = rng.choice(list(leaves(log[i][field], (field,))))
                    # -1, -2: the question was not asked of this kind of value
                    old = log[i]
                    for p in path:
                        old = old[p]
                    if old in (-1, -2) and field in ("full", "meets", "inf", "sup", "size", "cnt"):
                        continue
                    if field == "heq" and log[i]["eq"] == 0:
                        continue
                    if kind in ("s", "p") and field == "by" and old == 0:
                        continue
                    new = rng.choice([old + 1, old - 1, old + 2]) if old not in (0, 1) else 1 - old
                    if new in (-1, -2):
                        new = old + 1
                    jobs.append((module, consts, spec, rel, i, path, old, new, put(log[i], path, lambda _: new), log))

    def judge(j):
        k, (module, consts, spec, rel, i, path, old, new, ev, log) = j
        d = os.path.join(work, "corrupt_%d" % k)
        os.makedirs(d)
        p = os.path.join(d, "t.ndjson")
        with open(p, "w") as f:
            for e in log[:i] + [ev]:
                f.write(json.dumps(e) + "\n")
        r = check.tlc(d, "j", module, check.cfg_text(consts, spec, post="Accepted"), 1, None, {"TRACE": p}, "2g")
        how = "accepted" if r["ok"] else "rejected" if r["depth"] == i + 1 else check.trace_verdict(r)
        return (module, rel, i, log[i].get("e") or log[i].get("op") or "text", path, old, new, how, "" if r["ok"] or r["depth"] == i + 1 else r["text"][-1500:])
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(judge, enumerate(jobs)):
            if r[7] != "rejected":
                bad += 1
                print(r[:8], r[8])
    print("%s: %d changed answers, %d not rejected at their line" % (pid, len(jobs), bad))


main()
