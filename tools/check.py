#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the harnesses of a property from /repo, explores, writes the evidence."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("REPO", "/repo")

# property -> list of (engine, harness source)
from table import TABLE, NOTES

def known_for(prop):
    """known-findings.txt: 'finding: property=<id> match=<text of the message> :: description' and 'fixed: ...' lines"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l[len("finding: property=%s " % prop):]
                m, _, d = rest.partition(" :: ")
                out.append((m[len("match="):].strip(), d.strip()))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev_dir = os.path.join(ROOT, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    rp_dir = os.path.join(ROOT, "replays"); os.makedirs(rp_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    known = known_for(prop)
    kf = os.path.join(work, "known"); open(kf, "w").write("".join(m + "\n" for m, _ in known))
    rc, violation, scen, khit = 0, None, [], [False] * len(known)
    jobs = str(min(8, os.cpu_count() or 8))
    try:
        for i, (engine, src, *extra) in enumerate(TABLE[prop]):
            out = os.path.join(work, "b%d" % i)
            b = subprocess.run(["bash", os.path.join(ROOT, engine, "build.sh"), out, os.path.join(ROOT, engine, src)],
                               env=dict(os.environ, REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode:
                print(b.stdout[-4000:]); print("%s: the harness %s does not build" % (prop, src)); rc = 2; break
            js = os.path.join(work, "r%d.json" % i)
            replay = os.path.join(rp_dir, "%s-%s.txt" % (prop, os.path.splitext(src)[0]))
            if os.path.exists(replay): os.remove(replay)
            cmd = [os.path.join(out, "harness"), "--prop", prop, "--tier", tier, "--out", js, "--replay-out", replay, "--known", kf, "--jobs", jobs] + list(extra)
            r = subprocess.run(cmd, cwd=work)
            d = json.load(open(js)) if os.path.exists(js) else {"scenarios": [], "known": []}
            for s in d["scenarios"]: s["harness"] = engine + "/" + src
            scen += d["scenarios"]
            for k, v in enumerate(d.get("known", [])):
                if v: khit[k] = True
            if r.returncode == 1:
                with open(replay, "a") as f: f.write("harness %s %s\n" % (engine, src))
                violation = replay; rc = 1; break
            if r.returncode != 0:
                print("%s: %s ended with %d" % (prop, src, r.returncode)); rc = 2; break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ran = [s for s in scen if s.get("executions")]
    cov = {
        "states": sum(s["states"] for s in ran), "transitions": sum(s["steps"] for s in ran),
        "traces_validated_against_impl": sum(s["completed"] for s in ran),
        "executions": sum(s["executions"] for s in ran),
        "distinct_outcomes": sum(s["outcomes"] for s in ran),
        "exhaustive": bool(ran) and all(s["complete"] for s in ran),
        "rule": NOTES.get(prop, {}).get("rule", "every execution within the bounds listed per scenario"),
        "scenarios": [{k: s[k] for k in ("harness", "name", "executions", "completed", "states", "steps", "outcomes", "complete", "bound", "policies", "hits", "wall_s") if k in s} for s in ran],
        "samples": [x for s in ran for x in s.get("samples", [])[:2]][:24],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": NOTES.get(prop, {}).get("assumptions", []) + NOTES["*"]["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    tmp = os.path.join(ev_dir, ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(ev_dir, "%s.json" % prop))
    if rc == 0 and not ran:
        print("%s: nothing was explored" % prop); rc = 2
    for (m, d), hit in zip(known, khit):
        if hit: print("KNOWN-FINDING: property=%s %s" % (prop, d or m))
    if rc == 1: print("VIOLATION property=%s replay=%s" % (prop, violation))
    print("%s %s: %d executions, %d states, %d transitions, %.1fs, exit %d" % (prop, tier, cov["executions"], cov["states"], cov["transitions"], time.time() - t0, rc))
    sys.exit(rc)
main()
