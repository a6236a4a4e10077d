#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  - build harness(es) from /repo and explore.

exit 0: property held on everything explored; 1: VIOLATION line(s); 2: infrastructure error."""
import sys, os, json, subprocess, time, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BATS_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import CHECKS

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def known_keys(pid):
    keys = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2])
                if f.get("property") == pid: keys[f["key"]] = l[7:].split(" ", 2)[2]
    return keys

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[pid]
    bdir = os.path.join(HERE, "build", pid); shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    rdir = os.path.join(HERE, "build", "replay"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    keys = known_keys(pid)
    kf = os.path.join(bdir, "known.txt"); open(kf, "w").write("".join(k + "\n" for k in keys))
    # build all harness programs in parallel
    procs = []
    for h in spec["harness"]:
        src, flags = (h, []) if isinstance(h, str) else (h["src"], h.get("flags", []))
        name = src if isinstance(h, str) else h.get("name", src)
        exe = os.path.join(bdir, name)
        if isinstance(h, dict) and "cmd" in h:
            cmd = ["bash", "-c", h["cmd"].format(repo=REPO, here=HERE, exe=exe, src=os.path.join(HERE, "src", src + ".cpp"))]
        else:
            cmd = ["g++", "-std=c++17", "-O1", "-w", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/include", "-I" + HERE + "/lib"] + flags + [os.path.join(HERE, "src", src + ".cpp"), "-o", exe]
        procs.append((name, exe, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = False
    for name, exe, cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            bad = True; print("BUILD FAILED", name); print(" ".join(cmd)); print(out[:5000])
    if bad: return 2
    tb = time.time() - t0
    parts, viol, hits, infra = [], [], {}, False
    budget = 700 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "3600"))
    for name, exe, cmd, p in procs:
        out = os.path.join(bdir, name + ".json")
        r = subprocess.run([exe, "run", "--tier", tier, "--jobs", str(os.cpu_count() or 8), "--out", out, "--replaydir", rdir, "--property", pid + "_" + name, "--known", kf,
                            "--deadline", str(budget)] + (["--only", only] if only else []), env=dict(os.environ, OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "1")))
        if r.returncode not in (0, 1) or not os.path.exists(out): infra = True; print("harness", name, "ended with", r.returncode); continue
        d = json.load(open(out)); infra |= d["infra_error"]
        for q in d["parts"]: q["harness"] = name; parts.append(q)
        for v in d["violations"]: v["harness"] = name; viol.append(v)
        for k, n in d["known"].items(): hits[k] = hits.get(k, 0) + n
    tot = lambda k: sum(q[k] for q in parts)
    for q in parts:
        print(f"  {q['harness']}/{q['name']}: executions={q['executions']} transitions={q['transitions']} comparisons={q['comparisons']} states={q['states']} outcomes={q['outcomes']} nontrivial={q['nontrivial']}{' CAPPED' if q['capped'] else ''}")
        if q["executions"] == 0 and not any(v["part"] == q["name"] for v in viol): infra = True; print("vacuous part", q["name"])
    samples = [s for q in parts for s in q["samples"]][:12]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("executions"), "samples": samples or ["(none)"],
                       "evaluations": tot("executions"), "comparisons": tot("comparisons"), "distinct_nontrivial": tot("nontrivial"), "distinct_outcomes": tot("outcomes"),
                       "rule": spec.get("rule", "Cases are complete choice sequences enumerated depth first by the explorer and executed on the real code; states are distinct canonical inputs/object states, non-trivial as marked per part in DESIGN.md."),
                       "exhaustive": not any(q["capped"] for q in parts) and not viol, "parts": [{k: q[k] for k in q if k != "samples"} for q in parts],
                       "known_findings_hit": hits, "build_s": round(tb, 1)},
          "assumptions": spec.get("assumptions", ["Exhaustive within the stated bounds only; inputs beyond them are not covered."]),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k, n in sorted(hits.items()):
        if n: print(f"KNOWN-FINDING: property={pid} {keys.get(k, k)} ({n} case(s))")
    for v in viol:
        print(f"  {v['harness']}/{v['part']} case {v['case']}: {v['message']} (reproduced={v['reproduced']}, {v['kind']})")
        print(f"VIOLATION property={pid} replay={v['replay']}")
    print(f"{pid} {tier}: {tot('executions')} executions, {tot('transitions')} transitions, {tot('states')} states, {len(viol)} violation(s), {time.time()-t0:.1f}s (build {tb:.1f}s)")
    if viol: return 1
    return 2 if infra else 0
sys.exit(main())
