#!/usr/bin/env python3
"""Driver: builds the simulated world of one property from /repo's working tree, searches it with
seeded runs, gates and reports violations, writes the evidence file.

  run.py check C01 [--tier quick|thorough]      exit 0 held, 1 VIOLATION, other: no answer
  run.py replay FILE                            exit 1 if the recorded violation reproduces exactly
"""
import json
import os
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build as B  # noqa: E402
import worlds as W  # noqa: E402

VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VIR_SIMD_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8


def log(*a):
    print(*a, flush=True)


def build_world(prop, tier):
    out = os.path.join(BUILD, "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    world = W.world(prop, tier)
    exes, secs, dropped = B.build(out, world, REPO, JOBS, W.tus(tier))
    for m, o, e in dropped:
        world[m] = [x for x in world[m] if x is not o]
    world = {m: o for m, o in world.items() if o}
    return out, world, {m: exes[m] for m in world}, secs, dropped


def known_findings(prop):
    """entries of the committed file: '<status>: property=<id> class=<class> op=<op> ...'"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:") and ("property=" + prop + " ") in l:
                kv = dict(x.split("=", 1) for x in l[8:].split(" -- ")[0].split() if "=" in x)
                kv["text"] = l.split(" -- ", 1)[-1]
                res.append(kv)
    return res


def header(path):
    h = {}
    for l in open(path):
        if not l.startswith("# ") or ": " not in l:
            if l.startswith("#"):
                continue
            break
        k, v = l[2:].rstrip("\n").split(": ", 1)
        h[k] = v
    return h


def run_exe(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def main_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    try:
        out, world, exes, bsecs, dropped = build_world(prop, tier)
    except B.BuildError as e:
        log("BUILD-ERROR", prop, str(e)[-3000:])
        return 3
    try:
        rc = search(prop, tier, seed, t0, out, world, exes, bsecs)
        if dropped:
            for m, o, e in dropped[:5]:
                log("NOT-COMPILED %s: entry point %s (%s) left out: %s" % (prop, o.name, m, e[-1200:]))
            # the property held on everything explored, unless too little of the world is left to say so
            if rc == 0 and len(dropped) > 0.25 * (len(dropped) + sum(len(o) for o in world.values())):
                return 3
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)


def search(prop, tier, seed, t0, out, world, exes, bsecs):
    num = int(prop[1:])
    budget = W.budget(prop, tier)
    log("%s %s: %d entry points in %d builds (%s) compiled in %.1f s" % (prop, tier, sum(len(o) for o in world.values()), len(world), " ".join("%s:%d" % (m, len(o)) for m, o in world.items()), bsecs))
    # determinism self-test: two processes, same seeds, identical event hashes
    det = 0
    a = {m: [subprocess.Popen([exes[m], "--prop", str(num), "--seed", str(seed), "--runs", "60", "--hashes", "--wall", "10"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace") for _ in range(2)] for m in exes if m != "hg"}
    for m in a:
        la, lb = [[l for l in p.communicate()[0].split("\n") if l[:1].isdigit()] for p in a[m]]
        k = min(len(la), len(lb)) if max(len(la), len(lb)) < 60 else 60   # fewer if runs hang: then only the common part
        if la[:k] != lb[:k]:
            log("NONDETERMINISM between two processes in mode", m)
            return 4
        det += k
    # search
    procs = []
    total = sum(len(o) for o in world.values())
    modes = [m for m in exes if m != "hg"]
    shards = {m: max(1, round(JOBS * len(world[m]) / total)) for m in modes}
    ts = time.time()
    for m in modes:
        runs = max(1, int(budget["runs"] * len(world[m]) / total))
        k = shards[m]
        for i in range(k):
            tag = "%s_%d" % (m, i)
            rp, ho, pg = [os.path.join(out, x + tag) for x in ("replay_", "hash_", "prog_")]
            cmd = [exes[m], "--prop", str(num), "--seed", str(seed), "--runs", str(runs), "--shard", str(i), "--nshards", str(k), "--wall", str(budget["wall"]), "--out", rp, "--hash-out", ho, "--progress", pg]
            f = open(os.path.join(out, "log_" + tag), "w+")
            procs.append(dict(m=m, i=i, k=k, rp=rp, ho=ho, pg=pg, f=f, p=subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT)))
    if "hg" in exes:
        for i in range(2):
            rp = os.path.join(out, "replay_hg_%d" % i)
            f = open(os.path.join(out, "log_hg_%d" % i), "w+")
            cmd = [exes["hg"], "--prop", str(num), "--seed", str(seed), "--huge", "--shard", str(i), "--nshards", "2", "--out", rp]
            procs.append(dict(m="hg", i=i, k=2, rp=rp, ho="", pg="", f=f, p=subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT)))
    deadline = time.time() + budget["wall"] * 2 + 240
    for q in procs:
        try:
            q["rc"] = q["p"].wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            q["p"].kill()
            q["p"].wait()
            q["rc"] = -999
    ssecs = time.time() - ts
    st, faults, probes, samples, found, errors = {}, {}, {}, [], [], []
    never, huge = {}, {}
    distinct = set()
    per_mode = {}
    for q in procs:
        q["f"].seek(0)
        q["log"] = q["f"].read()
        q["f"].close()
        for l in q["log"].split("\n"):
            w = l.split(" ")
            if l.startswith("STAT eligible"):
                never.setdefault(q["m"], {}).setdefault(w[1], []).append(int(w[2]))
            elif l.startswith("STAT "):
                st[w[1]] = st.get(w[1], 0) + float(w[2])
                if w[1] == "runs":
                    per_mode[q["m"]] = per_mode.get(q["m"], 0) + int(float(w[2]))
            elif l.startswith("FAULT "):
                faults[w[1]] = faults.get(w[1], 0) + int(w[2])
            elif l.startswith("PROBE "):
                probes[" ".join(w[1:-1])] = probes.get(" ".join(w[1:-1]), 0) + int(w[-1])
            elif l.startswith("HUGE ") and len(w) == 3:
                huge[w[1]] = huge.get(w[1], 0) + int(w[2])
            elif l.startswith("SAMPLES ") and len(samples) < 3:
                samples.append({"mode": q["m"], "run": l[8:].split("\x1e")[0].replace("\\n", "\n")[:3000].split("\n")})
        if os.path.exists(q["ho"]):
            d = open(q["ho"], "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
        if q["rc"] == 10:
            found.append(q)
        elif q["rc"] != 0:
            errors.append(q)
    kf = known_findings(prop)
    viol, rc = [], 0
    shown = set()
    for q in found:
        fl = [l for l in q["log"].split("\n") if l.startswith("FOUND")]
        if len(viol) >= 3:
            break
        # gate: a fresh process must reproduce the same violation with the same event hash
        r, o, e = run_exe(exes[q["m"]], ["--replay", q["rp"]] + (["--huge"] if q["m"] == "hg" else []), 300)
        if r != 1:
            log("ERROR: violation did not replay identically (exit %s): %s\n%s%s" % (r, fl, o[-1500:], e[-500:]))
            errors.append(q)
            continue
        h = header(q["rp"])
        op = h.get("violation", "").rsplit("[op ", 1)[-1].split(" ")[0] if "[op " in h.get("violation", "") else ""
        match = [k for k in kf if k.get("class") == h.get("class") and k.get("op") == op]
        if match:
            if op not in shown:
                shown.add(op)
                log("KNOWN-FINDING: property=%s %s" % (prop, match[0]["text"]))
            continue
        viol.append((q, h))
    for q in [x for x in errors if x["rc"] in (97,) or (x["rc"] < 0 and x["rc"] != -999)]:
        # the process itself died: memory of the simulator was overwritten by the code under test?
        try:
            r = struct.unpack("<Q", open(q["pg"], "rb").read(8))[0] - 1
        except (OSError, struct.error):
            continue
        args = ["--prop", str(num), "--seed", str(seed), "--start", str(r), "--runs", "1"]
        c = [run_exe(exes[q["m"]], args, 120)[0] for _ in range(2)]
        if c[0] == c[1] == q["rc"]:
            with open(q["rp"], "w") as f:
                f.write("# vir-simd deterministic simulation replay\n# property: %s\n# mode: sim-%s\n# seed: %d\n# run: %d\n# class: process-died\n# violation: the simulated process itself died (exit %d)\n# hash: none\n" % (prop, q["m"], seed, r, q["rc"]))
            viol.append((q, header(q["rp"])))
            errors = [x for x in errors if x is not q]
    if viol:
        viol.sort(key=lambda v: (v[0]["m"] == "hg", int(v[1].get("run", 0)) if v[0]["m"] != "hg" else 0, v[0]["m"]))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        q, h = viol[0]
        dst = os.path.join(VERIF, "replays", "%s-%s-seed%d-run%s.txt" % (prop, q["m"], seed, h.get("run")))
        txt = open(q["rp"]).read()
        lines = txt.split("\n")
        lines.insert(1, "# tier: %s" % tier)
        open(dst, "w").write("\n".join(lines))
        for _, hh in viol[:5]:
            log("  %s: %s (mode %s, seed %d, run %s)" % (hh.get("class"), hh.get("violation"), hh.get("mode"), seed, hh.get("run")))
        log("VIOLATION property=%s replay=%s" % (prop, dst))
        rc = 1
    elif errors:
        for q in errors[:3]:
            log("ERROR: simulator process %s/%d ended with %s\n%s" % (q["m"], q["i"], q["rc"], q["log"][-1500:]))
        rc = 5
    runs = int(st.get("runs", 0))
    ops_never = sum(min(v.get("eligible_never_run", [0])) for v in never.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(distinct),
            "rule": "One evaluation is one simulated run: a generated program of library calls on 1-4 simulated caller threads (plus calls nested in callables and calls from simulated signal handlers) over randomly placed ranges, executed under one seeded schedule and fault sequence. Counted as distinct and non-trivial: different hash over (schedule decisions, every event and result), with at least one switch in the middle of a library call or at least one injected fault.",
            "samples": samples or [{"note": "no sampled run"}],
            "simulated_runs_per_hour": int(runs / max(ssecs, 1e-9) * 3600),
            "seeds_per_hour": int(runs / max(ssecs, 1e-9) * 3600),
            "simulated_steps": int(st.get("points", 0)),
            "simulated_time": "logical: one step per memory access, callable entry/exit, allocation or lock operation of a simulated thread (the library has no clock)",
            "library_calls": int(st.get("ops", 0)),
            "thread_switches": int(st.get("switches", 0)),
            "switches_inside_a_library_call": int(st.get("midop_switches", 0)),
            "callable_invocations": int(st.get("callbacks", 0)),
            "faults_injected": {k: v for k, v in faults.items() if k != "switch"},
            "probes": probes,
            "builds": {m: {"flags": B.MODES[m], "entry_points": len(world[m]), "runs": per_mode.get(m, 0)} for m in world},
            "entry_points_never_exercised": ops_never,
            "determinism_selftest_runs": det,
            "ranges_of_more_than_2^31_elements": huge or "none",
            "real_code": "everything under /repo/vir that the entry points instantiate, compiled from the working tree",
            "stubs": "caller threads are fibers; allocator, mutex/once-guards, stdio and abort go to the simulator; threads doing plain byte stores next to the ranges are simulator code",
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": [
            "x86-64 with GCC 13; sequentially consistent interleaving at the granularity of the compiler-instrumented memory accesses (a vector access is one step)",
            "accesses to a call's own stack frame are not scheduling points",
            "data are integer valued so that every expected result is exact",
        ],
        "violations": [{"class": h.get("class"), "what": h.get("violation"), "mode": h.get("mode"), "run": h.get("run")} for _, h in viol],
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d runs, %d distinct, %d library calls, faults %s; build %.1f s, search %.1f s, total %.1f s" % (prop, tier, runs, len(distinct), int(st.get("ops", 0)), sum(v for k, v in faults.items() if k != "switch"), bsecs, ssecs, time.time() - t0))
    if rc == 0 and runs == 0:
        log("ERROR: nothing was run")
        return 5
    return rc


def main_replay(path):
    h = header(path)
    prop, tier, mode = h["property"], h.get("tier", "quick"), h["mode"].replace("sim-", "")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "replay-%d" % os.getpid())
    try:
        exes, _, _ = B.build(out, W.world(prop, tier), REPO, JOBS, W.tus(tier))
        if h.get("class") == "process-died":
            r, o, e = run_exe(exes[mode], ["--prop", str(int(prop[1:])), "--seed", h["seed"], "--start", h["run"], "--runs", "1"], 300)
            log("process ended with %d" % r)
            return 1 if r == 97 or r < 0 else 3
        r, o, e = run_exe(exes[mode], ["--replay", path, "--trace"] + (["--huge"] if mode == "hg" else []), 300)
        log(o, e)
        return r
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        sys.exit(main_check(sys.argv[2], tier))
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(main_replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
