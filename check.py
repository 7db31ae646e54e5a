#!/usr/bin/env python3
"""check.py --prop C01 [--tier quick|thorough] : build the simulator from /repo, run the seeded search, gate, minimise, report."""
import argparse, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import propinfo

def known_entries(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        # finding: property=C01 cls=<class> sig=<signature> what=<text>
        m = re.match(r"finding: property=(\S+) cls=(\S+) sig=(.*?) what=(.*)$", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out

def run_json(cmd, timeout=900):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    lines = [l for l in r.stdout.decode(errors="replace").splitlines() if l.startswith("{")]
    return json.loads(lines[-1]) if lines else None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--timecap", type=float, default=0)
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    print("check property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    exe = B.build()
    tb = time.time() - t0
    quick = thorough = 0
    for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE).stdout.decode().splitlines():
        f = l.split()
        if f[0] == prop:
            quick, thorough = int(f[1]), int(f[2])
    if not quick:
        print("ERROR: the simulator has no property %s" % prop)
        return 2
    runs = a.runs or (thorough if tier == "thorough" else quick)
    cap = a.timecap or (float(os.environ.get("SIM_THOROUGH_SECONDS", "3600")) if tier == "thorough" else 240.0)
    work = os.path.join(HERE, "build", "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    rep = os.path.join(HERE, "replays")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_entries(prop)
    kf = os.path.join(work, "known.txt")
    open(kf, "w").write("".join("%s\t%s\n" % (c, s) for c, s, _ in known))
    out = os.path.join(work, "out.json")
    r = subprocess.run([exe, "run", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--workers", str(a.workers),
                        "--timecap", str(cap), "--out", out, "--known", kf], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode not in (0,) or not os.path.exists(out):
        msg = ""
        if os.path.exists(out):
            msg = json.load(open(out)).get("harness_error", "")
        print("ERROR: the simulator failed: %s %s" % (msg, r.stderr.decode(errors="replace")[-1000:]))
        return 2
    d = json.load(open(out))
    viols, counters = d["violations"], d["counters"]
    rc = 0
    reported = None
    if viols:
        rc = 2
        for before in (False, True):
            for v in viols[:6]:
                # failures that need what earlier runs left behind in the process
                b = earlier_runs(exe, prop, seed, v, a.workers) if before else []
                res = None if b is None else gate(exe, prop, seed, v, work, rep, b)
                if res is not None:
                    rc, reported = 1, res
                    break
            if rc == 1:
                break
        if rc == 2:
            print("ERROR: a violation was seen but could not be replayed exactly: %s" % json.dumps(viols[0])[:600])
    for c, s, what in known:
        if not reported or True:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    # determinism: some runs again, in a fresh process and with a different number of workers
    det = None
    if rc == 0:
        n = min(runs, 400)
        hs = []
        for w in (8, 3):
            o2 = os.path.join(work, "det%d.json" % w)
            subprocess.run([exe, "run", "--prop", prop, "--seed", str(seed), "--runs", str(n), "--workers", str(w), "--timecap", "120",
                            "--out", o2, "--known", kf], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            j = json.load(open(o2))
            hs.append(None if j["timecap_hit"] else j["batch_hash"])
        det = {"runs": n, "workers": [8, 3], "equal": hs[0] == hs[1] or None in hs}
        if not det["equal"]:
            print("ERROR: the same seed gave different runs at 8 and 3 workers")
            rc = 2
    # samples: traces of three runs
    samples = []
    for i in (0, max(1, runs // 3), max(2, runs // 2)):
        if len(samples) >= 3:
            break
        try:
            q = subprocess.run([exe, "index", "--prop", prop, "--seed", str(seed), "--index", str(i), "--trace", "-"],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            ls = [l[:200] for l in q.stdout.decode(errors="replace").splitlines()]
            samples.append({"index": i, "events": len(ls) - 1, "trace_head": ls[:25]})
        except subprocess.TimeoutExpired:
            pass
    info = propinfo.INFO.get(prop, {})
    wall = time.time() - t0
    faults = {k: {"times": v[0], "runs": v[1]} for k, v in counters.items() if k.startswith("fault.")}
    scheds = {k: {"times": v[0], "runs": v[1]} for k, v in counters.items() if k.startswith("sched.")}
    probes = {k: {"times": v[0], "runs": v[1]} for k, v in counters.items() if k.startswith("probe.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": d["runs"],
            "distinct_nontrivial": d["distinct"],
            "rule": "one evaluation is one simulated run, a pure function of (VERIF_SEED, property, run index); " + info.get("rule", "") +
                    " Distinct: different hash over the complete event log of the run; trivial runs (empty content or no layer under test) are not counted.",
            "samples": samples,
            "requested_runs": d["requested"], "time_cap_reached": d["timecap_hit"],
            "runs_per_hour": int(d["runs"] / max(d["wall"], 0.001) * 3600),
            "seeds_per_hour": int(d["runs"] / max(d["wall"], 0.001) * 3600),
            "search_wall_s": d["wall"], "build_wall_s": round(tb, 1),
            "simulated_time": {"value": d["sim_time"], "unit": info.get("time_unit", "simulator events that move time; this property has no clock")},
            "events": d["events"], "choices_drawn": d["choices"],
            "faults_injected": faults, "schedule_choices": scheds, "probes": probes,
            "distinct_control_flow_edge_sets": d["distinct_edge_sets"],
            "control_flow_edges_covered": d["edges_covered"], "control_flow_edges_instrumented": d["edges_total"],
            "states_measure": "distinct sets of control-flow edges of the library reached by a run",
            "batch_hash": d["batch_hash"], "determinism_check": det,
            "components": {"real": info.get("real", "all library code involved, zlib, bzip2, LZMA, iconv"), "stub": info.get("stub", "")},
            "known_findings_seen": d["known"],
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if reported:
        print("violation: class=%s sig=%s: %s" % (reported["cls"], reported["sig"], reported["msg"].splitlines()[0][:400] if reported["msg"] else ""))
        print("VIOLATION property=%s replay=%s" % (prop, reported["file"]))
    elif rc == 0:
        print("ok property=%s runs=%d distinct=%d wall=%.1fs" % (prop, d["runs"], d["distinct"], wall))
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    os.rmdir(work)
    return rc

def earlier_runs(exe, prop, seed, v, stride):
    """The fewest runs that must come before run v in the same process for it to fail; None if there are none."""
    def fails(b):
        r = run_json([exe, "index", "--prop", prop, "--seed", str(seed), "--index", str(v["index"])] + (["--before", ",".join(map(str, b))] if b else []))
        return r and r["outcome"] == 2 and r["cls"] == v["cls"]
    chain = list(range(v["first"], v["index"], stride))
    n, b = 1, None
    t0 = time.time()
    try:
        while n < 2 * len(chain) and time.time() - t0 < 120:
            if fails(chain[-n:]):
                b = chain[-n:]
                break
            n *= 2
        step = len(b) // 2 if b else 0
        while b and step >= 1 and time.time() - t0 < 180:
            i = 0
            while i < len(b) and time.time() - t0 < 180:
                c = b[:i] + b[i + step:]
                if c and fails(c):
                    b = c
                else:
                    i += step
            step //= 2
    except subprocess.TimeoutExpired:
        return None
    return b

def gate(exe, prop, seed, v, work, rep, before):
    """The same run twice, then minimise, then the replay file in a fresh process: class and hash must agree."""
    ch = os.path.join(work, "choices.txt")
    bef = ["--seed", str(seed), "--before", ",".join(map(str, before))] if before else []
    base = [exe, "index", "--prop", prop, "--seed", str(seed), "--index", str(v["index"])] + bef[2:]
    r1 = run_json(base + ["--choices-out", ch])
    r2 = run_json(base)
    if not r1 or not r2 or r1["outcome"] != 2 or r1["cls"] != r2["cls"] or r1["hash"] != r2["hash"] or r1["cls"] != v["cls"]:
        return None
    full = open(ch).read()
    e0 = run_json([exe, "exec", "--prop", prop, "--choices", ch] + bef)
    if not e0 or e0["cls"] != r1["cls"]:
        return None
    mn = os.path.join(work, "min.txt")
    try:
        run_json([exe, "minimise", "--prop", prop, "--choices", ch, "--cls", r1["cls"], "--seconds", "30", "--choices-out", mn] + bef)
        e1 = run_json([exe, "exec", "--prop", prop, "--choices", mn] + bef)
    except subprocess.TimeoutExpired:
        e1 = None
    if not e1 or e1["cls"] != r1["cls"]:
        mn, e1 = ch, e0
    e2 = run_json([exe, "exec", "--prop", prop, "--choices", mn] + bef)
    if e2["cls"] != e1["cls"] or e2["hash"] != e1["hash"]:
        return None
    tr = subprocess.run([exe, "exec", "--prop", prop, "--choices", mn, "--trace", "-"] + bef, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    trace = [l[:300] for l in tr.stdout.decode(errors="replace").splitlines()]
    if len(trace) > 600:
        trace = trace[:100] + ["... %d lines left out ..." % (len(trace) - 500)] + trace[-400:]
    path = os.path.join(rep, "%s-seed%d-run%d.json" % (prop, seed, v["index"]))
    json.dump({"property": prop, "seed": seed, "run": v["index"], "class": e1["cls"], "signature": e1["sig"], "message": e1["msg"],
               "hash": e1["hash"], "choices": [int(x) for x in open(mn).read().split()],
               "runs_before": before, "original_choices": len(full.split()), "trace": trace,
               "replay_cmd": "python3 replay.py " + os.path.relpath(path, HERE)}, open(path, "w"), indent=1)
    return {"cls": e1["cls"], "sig": e1["sig"], "msg": e1["msg"], "file": os.path.relpath(path, HERE)}

if __name__ == "__main__":
    sys.exit(main())
