#!/usr/bin/env python3
"""Runs the deterministic simulation that decides one property.

  check.py --property C07 [--tier quick|thorough] [--seed N] [--time S]

exit 0: held on everything explored; exit 1: VIOLATION line(s) printed;
exit 2: the machinery could not give an answer (build failure and the like).
"""
import argparse, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B

WORKERS = int(os.environ.get("PMLSIM_WORKERS", "8"))
# property -> [(variant, share of the time budget)]
PROPS = {
    "C01": [("tsan", 0.7), ("pc", 0.3)], "C02": [("tsan", 0.7), ("pc", 0.3)], "C03": [("pc", 1.0)], "C04": [("pc", 1.0)],
    "C05": [("pc", 1.0)], "C06": [("pc", 1.0)], "C07": [("pc", 1.0)], "C08": [("pc", 0.6), ("o0", 0.4)],
    "C09": [("pc", 1.0)], "C10": [("pc", 1.0)], "C11": [("tsan", 0.6), ("pc", 0.4)], "C12": [("pc", 1.0)], "C13": [("pc", 1.0)],
}
BUDGET = {"quick": 45.0, "thorough": 600.0}
RULES = {}
try:
    RULES = json.load(open(os.path.join(VERIF, "tools", "rules.json")))
except Exception:
    pass
KF = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    out = []
    if os.path.exists(KF):
        for line in open(KF):
            m = re.match(r"known: property=(\S+) class=(\S+) op=(\S+) inst=\"([^\"]*)\" (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def run_workers(exe, variant, prop, seed, secs, work, extra=()):
    procs = []
    for w in range(WORKERS):
        out = os.path.join(work, "%s-%d" % (variant, w))
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(WORKERS), "--time", "%.1f" % secs, "--out", out, "--minimise", "20"]
        if variant == "tsan":
            cmd.append("--tsan")
        procs.append((subprocess.Popen(cmd + list(extra), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), out))
    res = []
    deadline = time.time() + secs + 150
    for p, out in procs:
        try:
            so, _ = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); so, _ = p.communicate()
        st = {}
        try:
            st = json.load(open(out))
        except Exception:
            pass
        res.append((p.returncode, so, st))
    return res


def replay(exe, path):
    try:
        p = subprocess.run([exe, "replay", "--file", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=150)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 2, "timeout"


def determinism(exe, variant, prop, seed, n):
    """the same runs in two processes, cut up differently: every execution hash must agree"""
    def hs(start, stride, cnt):
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--start", str(start), "--stride", str(stride), "--count", str(cnt), "--time", "60", "--hashes"]
        if variant == "tsan":
            cmd.append("--tsan")
        try:
            so = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout
        except subprocess.TimeoutExpired:
            return {}
        return {int(l.split()[1]): l.split()[2] for l in so.splitlines() if l.startswith("H ")}
    a = hs(0, 1, n)
    b = {}
    for s in range(3):
        b.update(hs(s, 3, (n - s + 2) // 3))
    common = set(a) & set(b)
    return len(common), sorted(k for k in common if a[k] != b[k])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--time", type=float, default=0)
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    t0 = time.time()
    budget = a.time or BUDGET[tier]
    work = os.path.join(VERIF, "build", "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    agg = {"runs": 0, "execs": 0, "ops": 0, "skips": 0, "switches": 0, "steps": 0, "conflicts": 0, "aborts_ok": 0}
    faults, opn, ends, scheds, distinct, samples, builds = {}, {}, {}, set(), set(), [], {}
    viols, knowns, unrep, ndet, baddet, answers = [], [], 0, 0, [], 0
    known = known_findings(prop)
    sim_s = 0.0
    for variant, share in PROPS[prop]:
        tb = time.time()
        exe, kind = B.build(variant, quiet=True)
        builds[variant] = {"tuning": kind, "build_s": round(time.time() - tb, 1)}
        ts = time.time()
        res = run_workers(exe, variant, prop, a.seed, budget * share, work)
        sim_s += time.time() - ts
        for rc, so, st in res:
            if rc == 0 and "DONE" in so:
                answers += 1
            for k in agg:
                agg[k] += st.get(k, 0)
            for src, dst in ((st.get("faults", {}), faults), (st.get("opn", {}), opn), (st.get("ends", {}), ends)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            scheds.update(st.get("scheds", [])); distinct.update(st.get("distinct", []))
            if len(samples) < 4:
                samples += st.get("samples", [])[:1]
            for line in so.splitlines():
                m = re.match(r"V idx=(\d+) det=(\d) min=(\d) class=(\S+) op=(\S*) msg=(.*) replay=(\S+)$", line)
                if not m:
                    continue
                idx, det, _mn, cls, op, msg, path = m.groups()
                r1 = replay(exe, path)
                ok = r1[0] == 1
                if ok:
                    r2 = replay(exe, path)
                    ok = r2 == r1
                if not ok:
                    unrep += 1
                    print("note: candidate %s %s (index %s) did not reproduce in a fresh process; not reported" % (cls, op, idx))
                    continue
                text = open(path).read()
                hit = [k for k in known if k[0] == cls and k[1] == op and k[2] in text]
                if hit:
                    knowns.append((cls, op, hit[0][3])); continue
                dst = os.path.join(VERIF, "replays", "%s-%s-%s-%s.replay" % (prop, variant, a.seed, idx))
                open(dst, "w").write("# variant %s\n" % variant + text)
                viols.append((cls, op, msg, dst, idx))
        if viols and tier == "quick":
            break
        if not viols:
            n, bd = determinism(exe, variant, prop, a.seed, 24 if tier == "quick" else 400)
            ndet += n; baddet += bd
    shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(viols),
          "coverage": {
              "evaluations": agg["execs"], "distinct_nontrivial": len(distinct), "rule": RULES.get(prop, RULES.get("default", "")), "samples": samples or ["(none)"],
              "simulated_runs": agg["runs"], "runs_per_hour": int(agg["runs"] / max(sim_s, 1e-9) * 3600), "executions_per_hour": int(agg["execs"] / max(sim_s, 1e-9) * 3600),
              "seeds": {"base": a.seed, "runs": agg["runs"], "numbering": "run i uses seed (base, i)"},
              "simulated_time": {"scheduling_steps": agg["steps"], "context_switches": agg["switches"], "calls_judged": agg["ops"]},
              "distinct_interleavings": {"count": len(scheds), "measure": "distinct hashes of the sequence of (thread, step, next thread) switch decisions"},
              "faults_fired": faults, "conflicting_accesses_seen": agg["conflicts"], "run_ends": ends, "loud_failures_allowed": agg["aborts_ok"], "skipped_runs": agg["skips"],
              "operations": len(opn), "calls_per_operation": opn, "builds": builds,
              "determinism": {"runs_compared_across_processes": ndet, "mismatches": baddet}, "unreproducible_candidates": unrep,
              "real_components": ["all of ntl-extras (compiled from /repo's working tree)", "NTL 11.5.1 (installed library)", "GMP"],
              "simulated_components": ["thread scheduling, mutexes, condition variables, thread creation", "heap allocator", "clock", "random draws (seeded NTL generator, tampered on faults)", "output sinks"],
          }}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for cls, op, what in knowns:
        if (cls, op, what) not in seen:
            seen.add((cls, op, what)); print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viols:
        done = set()
        for cls, op, msg, dst, idx in viols:
            if (cls, op) in done:
                continue
            done.add((cls, op))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            print("  %s in %s: %s (seed %d, run %s)" % (cls, op, msg, a.seed, idx))
        return 1
    if answers == 0 or agg["ops"] == 0:
        print("no answer: %d workers finished, %d calls judged" % (answers, agg["ops"]))
        return 2
    print("property=%s held: %d runs, %d executions, %d calls judged, %d distinct executions, %.0f s" % (prop, agg["runs"], agg["execs"], agg["ops"], len(distinct), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
