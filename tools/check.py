#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--time S]
Seeded search over simulated runs of one property's scenarios. Exit 0: held on everything explored.
Exit 1 and a VIOLATION line: broken, with a minimised replay file. Anything else: error of the check."""
import argparse, json, os, re, shutil, struct, subprocess, sys, tempfile, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild
from props import PROPS

def sh(cmd, timeout=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"): out.append(json.loads(l))
    return out

def parse(line):
    a = line.strip().split(" ", 3)
    a += [""] * (4 - len(a))
    return int(a[0]), a[1], a[2], a[3]

def symbolise(binary, trace):
    try: t = open(trace, errors="replace").read()
    except OSError: return ""
    addrs = sorted(set(re.findall(r"(?:pc=|at |backtrace:| )(0x[0-9a-f]{6,8})\b", t)))[:400]
    if addrs:
        r = sh(["addr2line", "-e", binary, "-f", "-C", "-s"] + addrs)
        ls = r.stdout.splitlines()
        m = {}
        for i, a in enumerate(addrs):
            if 2 * i + 1 < len(ls):
                f = ls[2 * i]
                m[a] = "%s (%s)" % (f if len(f) < 90 else f[:87] + "...", ls[2 * i + 1])
        t = re.sub(r"0x[0-9a-f]{6,8}\b", lambda k: m.get(k.group(0), k.group(0)), t)
    return t

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--time", type=float); ap.add_argument("--seed", type=int); ap.add_argument("--jobs", type=int)
    ap.add_argument("--scenario"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    P = PROPS[a.prop]; t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    try: binary = vbuild.build(a.prop, P["groups"], P.get("extra", ()))
    except vbuild.BuildError as e:
        print("BUILD ERROR\n" + str(e)); return 2
    tb = time.time() - t0
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    if a.replay:
        tr = a.replay + ".trace.tmp"
        r1 = parse(sh([binary, "replay", a.replay, "--trace", tr]).stdout); r2 = parse(sh([binary, "replay", a.replay]).stdout)
        print(symbolise(binary, tr))
        if os.path.exists(tr): os.unlink(tr)
        if r1[:3] != r2[:3]: print("NOT REPRODUCIBLE: %s vs %s" % (r1, r2)); return 2
        if r1[0] == 2: print("VIOLATION property=%s replay=%s" % (a.prop, a.replay)); print(r1[2], r1[3]); return 1
        print("replay: no violation"); return 0
    jobs = a.jobs or os.cpu_count() or 8
    budget = a.time or (P.get("quick_s", 20) if tier == "quick" else P.get("thorough_s", 480))
    work = tempfile.mkdtemp(prefix="sim-%s-" % a.prop)
    code = 2
    try: code = search(a, P, binary, tier, seed, jobs, budget, work, rdir, t0, tb)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    return code

def search(a, P, binary, tier, seed, jobs, budget, work, rdir, t0, tb):
    kf = [k for k in known() if k["property"] == a.prop and k.get("status") == "known"]
    cpus = sorted(os.sched_getaffinity(0))
    procs = []
    for w in range(jobs):
        cmd = [binary, "batch", "--seed", str(seed), "--first", str(w), "--stride", str(jobs), "--time", str(budget), "--out", work, "--cpu", str(cpus[w % len(cpus)]), "--wall", str(P.get("wall", 30))]
        if not kf: cmd += ["--stop", "3"]
        if a.scenario: cmd += ["--scenario", a.scenario]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    outs = []
    for p in procs:
        o, e = p.communicate()
        if p.returncode != 0: print("worker failed (%d): %s" % (p.returncode, e[-500:])); return 2
        outs.append(json.loads(o))
    tot = {k: sum(o[k] for o in outs) for k in ("runs", "nontrivial", "steps", "switches", "syncs", "simtime_us", "allocs", "overflow")}
    def merge(k):
        m = {}
        for o in outs:
            for n, v in o[k].items(): m[n] = m.get(n, 0) + v
        return m
    probes, faults, scen = merge("probes"), merge("faults"), merge("scenarios")
    hs = set()
    for o in outs:
        b = open(o["hashes"], "rb").read(); hs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    samples = []
    for o in outs: samples += o["samples"]
    wall = max(o["wall"] for o in outs)
    # ---- violations
    groups = {}
    for o in outs:
        for v in o["violations"]:
            g = groups.setdefault(v["key"], {"count": 0, "tapes": []}); g["count"] += v["count"]; g["tapes"].append((v["tape"], v["msg"]))
    knownhit, viol, unrepro = [], [], []
    for key in sorted(groups, key=lambda k: ("wall-hang" in k, k)):
        g = groups[key]; cls = key.split("|", 1)[1]
        fresh = []
        for tape, msg in g["tapes"]:
            hit = None
            for k in kf:
                if re.fullmatch(k["key"], key) and re.search(k["match"], msg): hit = k
            if hit is None: fresh.append((tape, msg))
            elif hit not in knownhit: knownhit.append(hit)
        if not fresh or len(viol) >= 3: continue
        ok = False
        for tape, msg in fresh[:3]:
            rec = [l for l in open(tape) if l.startswith("# hash")][0].split()[2]
            s1, s2 = parse(sh([binary, "seedrun", tape]).stdout), parse(sh([binary, "seedrun", tape]).stdout)
            if not (s1[0] == s2[0] == 2 and s1[1] == s2[1] == rec and s1[2] == cls):
                unrepro.append((key, msg, s1, s2, rec)); continue
            name = "%s-%s-%s.replay" % (a.prop, re.sub(r"[^A-Za-z0-9]+", "_", key)[:60], rec[:8])
            dst = os.path.join(rdir, name)
            sm = sh([binary, "shrink", tape, dst, "--time", str(P.get("shrink_s", 15))])
            if not sm.stdout.startswith("ok"): shutil.copy(tape, dst)
            r1, r2 = parse(sh([binary, "replay", dst, "--trace", dst + ".trace"]).stdout), parse(sh([binary, "replay", dst]).stdout)
            if not (r1[0] == r2[0] == 2 and r1[1] == r2[1] and r1[2] == cls):
                unrepro.append((key, msg, r1, r2, "replay")); continue
            txt = symbolise(binary, dst + ".trace"); open(dst + ".trace", "w").write(txt)
            viol.append({"key": key, "count": g["count"], "msg": r1[3] or msg, "replay": dst, "shrink": sm.stdout.strip()}); ok = True
            break
    # ---- determinism sample: the same seeds again in other processes, another worker layout
    nd = 24 if tier == "quick" else 200
    d1 = sh([binary, "det", "--seed", str(seed), "--first", "0", "--count", str(nd), "--cpu", str(cpus[0])])
    d2 = sh([binary, "det", "--seed", str(seed), "--first", "0", "--count", str(nd), "--cpu", str(cpus[-1])])
    detsame = d1.stdout == d2.stdout and d1.stdout.count("\n") == nd
    rate = tot["runs"] / max(wall, 1e-6) * 3600
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"), "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(hs),
            "rule": P["rule"] + " A run counts as non-trivial when at least one injected fault fired, more than two thread switches happened, or the scenario marked it so; distinct = distinct 64-bit hash over the run's whole event, schedule and fault history.",
            "samples": samples[:6] or ["seed %d run 0 of %s" % (seed, ", ".join(sorted(scen)))],
            "runs_per_hour": int(rate), "simulated_seconds": round(tot["simtime_us"] / 1e6, 3), "memory_accesses_scheduled": tot["steps"],
            "thread_switches": tot["switches"], "sync_points": tot["syncs"], "faults_fired": faults, "probes": probes, "runs_per_scenario": scen,
            "tape_overflows": tot["overflow"], "determinism_sample": {"seeds": nd, "identical_histories": detsame},
            "components_real": P["real"], "components_stub": P["stub"], "build_s": round(tb, 1), "known_findings_hit": len(knownhit),
        },
        "assumptions": P.get("assumptions", []) + ["sampling, not enumeration: a clean batch is evidence, not proof"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s: %d runs (%d/h), %d distinct non-trivial, %d switches, faults %s, build %.1fs, total %.1fs" % (a.prop, tot["runs"], rate, len(hs), tot["switches"], sum(faults.values()), tb, time.time() - t0))
    if not detsame: print("WARNING: determinism sample differed")
    missing = [p for p in P.get("must_reach", []) if not probes.get(p) and not faults.get(p)]
    if missing: print("WARNING: never reached: " + ", ".join(missing))
    for k in knownhit: print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if viol:
        for v in viol:
            print("violation %s (%d runs): %s [%s]" % (v["key"], v["count"], v["msg"], v["shrink"]))
            print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
        return 1
    if unrepro:
        for u in unrepro: print("NOT REPRODUCED: %s" % (u,))
        return 2
    return 0

if __name__ == "__main__": sys.exit(main())
