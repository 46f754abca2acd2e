#!/usr/bin/env python3
"""Decide one property of mitadel/mito by deterministic simulation.

  check.py --property ID            run the check (VERIF_SEED, VERIF_TIER are honoured)
  check.py --replay FILE            re-execute a replay file and print its event log
  check.py --setup                  build everything once
  check.py --selftest [ID]          determinism proof over many seeds, processes, worker counts

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (an error).
"""
import argparse, concurrent.futures, fcntl, glob, hashlib, json, os, re, shlex, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MITO_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from checks import PROPERTIES, BINARIES, REAL, STUB  # noqa: E402

ENV = dict(os.environ)
ENV.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", LC_ALL="C",
           OMPI_MCA_btl="self", OMPI_MCA_pml="ob1", OMPI_MCA_plm_rsh_agent="", OMP_NUM_THREADS="1",
           OMPI_MCA_ess_singleton_isolated="1")


def die(msg):
    print("check: " + msg, file=sys.stderr)
    sys.exit(2)


def out(*cmd):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV).stdout.split()


def tree_hash(paths, salt):
    h = hashlib.sha256(salt.encode())
    for p in paths:
        files = []
        if os.path.isfile(p):
            files = [p]
        for d, dirs, names in os.walk(p):
            dirs.sort()
            files += [os.path.join(d, n) for n in sorted(names)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def compile_flags():
    pc = out("pkg-config", "--cflags", "PETSc") + out("mpicxx", "--showme:compile")
    pl = out("pkg-config", "--libs", "PETSc") + out("mpicxx", "--showme:link")
    return pc, pl


def build(binary):
    """Compile the harness together with the sources of mito in REPO's working tree."""
    spec = BINARIES[binary]
    pc, pl = compile_flags()
    cxx = "g++-14"
    base = ["-std=gnu++23", "-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-DWITH_MPI", "-DWITH_PETSC",
            "-DWITH_METIS", "-DMITO_CORE", "-DMITO_SIM", "-DJOURNAL_DEBUG=1", "-w", "-include", VERIF + "/sim/shim.h",
            "-I" + REPO + "/lib", "-I/opt/pyre/include"] + [f.replace("VERIF", VERIF) for f in spec.get("flags", [])] + pc
    link = ["-fsanitize=address"] + spec.get("link", [])
    if spec.get("python"):    # the interpreter is part of the system
        base += out("python3-config", "--includes")
        link += out("python3-config", "--embed", "--ldflags")
    if "wraps" in spec:    # the calls that pass through a seam: the names wrapped in that source
        text = open(VERIF + "/scenarios/" + spec["wraps"]).read()
        names = set(re.findall(r"^(?:PLAIN|CREATE|DESTROY|BORN)\((\w+),", text, re.M)) | set(re.findall(r"__wrap_(\w+)\(", text))
        link += ["-Wl,--wrap=" + n for n in sorted(names)]
    libs = ["-L/opt/pyre/lib", "-Wl,-rpath,/opt/pyre/lib", "-lpyre", "-ljournal"] + pl + ["-lmetis"]
    srcs = [VERIF + "/scenarios/" + s for s in spec["sources"]] + [s for g in spec.get("repo_sources", []) for s in sorted(glob.glob(REPO + "/" + g, recursive=True))]
    key = tree_hash([REPO + "/lib", REPO + "/extensions", VERIF + "/sim", VERIF + "/scenarios", VERIF + "/stubs"], " ".join(base + link + libs + srcs))
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, binary + "-" + key)
    exe = os.path.join(d, binary)
    with open(os.path.join(BUILD, binary + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in os.listdir(BUILD):    # keep only the current build of this binary
            if re.fullmatch(re.escape(binary) + "-[0-9a-f]{20}", old):
                subprocess.run(["rm", "-rf", os.path.join(BUILD, old)])
        os.makedirs(d)
        jobs = []
        objs = []
        cmds = [(VERIF + "/sim/sim.cc", [cxx, "-std=gnu++23", "-O1", "-g1", "-w"])] + [(s, [cxx] + base) for s in srcs]
        for i, (s, cmd) in enumerate(cmds):
            o = os.path.join(d, "%d.o" % i)
            objs.append(o)
            jobs.append((s, subprocess.Popen(cmd + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)))
        ok = True
        for s, j in jobs:
            log, _ = j.communicate()
            if j.returncode:
                ok = False
                print("check: cannot compile %s\n%s" % (s, log[-6000:]), file=sys.stderr)
        if not ok:
            subprocess.run(["rm", "-rf", d])
            sys.exit(2)
        r = subprocess.run([cxx] + objs + libs + link + ["-o", exe + ".tmp"], capture_output=True, text=True, env=ENV)
        if r.returncode:
            print("check: cannot link\n" + r.stderr[-6000:], file=sys.stderr)
            subprocess.run(["rm", "-rf", d])
            sys.exit(2)
        os.rename(exe + ".tmp", exe)
    return exe


def run(exe, *args, timeout=None, env=None, cwd=None):
    try:
        return subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, env=env or ENV, timeout=timeout, cwd=cwd or VERIF)
    except subprocess.TimeoutExpired:
        die("%s %s does not finish" % (exe, args))


def hashes(exe, scenario, seed, n, workers, tier, noaslr):
    env = dict(ENV)
    if noaslr:
        env["SIM_NOASLR"] = "1"    # skips the request for fixed addresses: they are random in this run
        env["SIM_PADDING"] = "x" * 3000
    r = run(exe, "--scenario", scenario, "--hashes", "--runs", n, "--seed", seed, "--workers", workers, "--tier", tier, timeout=600, env=env, cwd="/" if noaslr else VERIF)
    if r.returncode:
        die("cannot compute event-log hashes of %s: %s" % (scenario, r.stderr[-500:]))
    return r.stdout.split()


def determinism(exe, scenario, seed, n, tier):
    a = hashes(exe, scenario, seed, n, 8, tier, False)
    b = hashes(exe, scenario, seed, n, 3, tier, True)
    return len(a) == n and a == b


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def replay(path):
    text = open(path).read()
    scenario = re.search(r"^scenario (\S+)", text, re.M).group(1)
    for b, spec in BINARIES.items():
        if scenario in spec["scenarios"]:
            return run(build(b), "--replay", os.path.abspath(path), timeout=600)
    die("no binary runs scenario " + scenario)


def check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    spec = PROPERTIES[pid]
    budget = spec.get("thorough_s", 600) if tier == "thorough" else spec.get("quick_s", 40)
    known = [k for k in load_known() if k["property"] == pid]
    scs = [(s["scenario"], s.get("share", 1.0)) for s in spec["scenarios"]]
    tot = sum(x for _, x in scs)
    runs_cap = {"quick": spec.get("quick_runs", 60000), "thorough": 1 << 40}[tier]
    results, violation, broken = [], None, []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    exes = {}
    for sc, share in scs:
        binary = next(b for b, s in BINARIES.items() if sc in s["scenarios"])
        if binary not in exes:
            exes[binary] = build(binary)
    t_built = time.time()
    for k in known:
        r = replay(os.path.join(VERIF, k["replay"]))
        if r.returncode == 1 and ("class=" + k["class"]) in r.stdout:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    det_runs = 0
    for sc, share in scs:
        binary = next(b for b, s in BINARIES.items() if sc in s["scenarios"])
        exe = exes[binary]
        js = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, sc))
        rp = os.path.join(VERIF, "replays", "%s-%s.replay" % (pid, sc))
        for f in (js, rp):
            if os.path.exists(f):
                os.unlink(f)
        args = ["--scenario", sc, "--runs", runs_cap, "--seed", seed, "--tier", tier, "--focus", pid,
                "--max-seconds", budget * share / tot, "--min-seconds", 25 if tier == "quick" else 90, "--workers", 8, "--out", js, "--save", rp]
        r = run(exe, *args, timeout=budget + 400)
        if r.returncode not in (0, 1) or not os.path.exists(js):
            broken.append("%s: exit %d %s" % (sc, r.returncode, r.stderr[-800:]))
            continue
        d = json.load(open(js))
        os.unlink(js)
        results.append(d)
        if r.returncode == 1:
            # the replay file must reproduce the violation exactly in a process of its own, twice
            ok = True
            for _ in range(2):
                q = run(exe, "--replay", rp, timeout=600)
                ok = ok and q.returncode == 1 and "REPRODUCED" in q.stdout
            if ok:
                violation = (rp, d["violation"], sc)
                break
            broken.append("%s: the violation %s does not replay" % (sc, d["violation"].get("class")))
            continue
        n = spec.get("determinism_runs", 40)
        if not determinism(exe, sc, seed, n, tier):
            broken.append("%s: equal seeds gave different executions" % sc)
        det_runs += n
        if d["runs"] and d["runs_cut_short"] >= 0.98 * d["runs"]:
            broken.append("%s: every run was cut short by a failure of another property (%s)" % (sc, d["cut_short_by"]))
    wall = time.time() - t0
    sim_s = sum(d["wall_s"] for d in results) or 1e-9
    runs = sum(int(d["runs"]) for d in results)

    def merge(key):
        m = {}
        for d in results:
            for k, v in d[key].items():
                e = m.setdefault(k, {"times": 0, "runs": 0})
                e["times"] += v["n"]
                e["runs"] += v["runs"]
        return m
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(int(d["distinct_nontrivial"]) for d in results),
            "rule": "a run is one seeded plan (configuration, scheduled operations, faults) executed on the real code; "
                    "it is non-trivial if it completed at least 3 operations on the real code, distinct if its event log differs from that of every other run",
            "samples": [dict(s, scenario=d["scenario"]) for d in results for s in d["samples"]][:6],
            "scenarios": {d["scenario"]: {k: d[k] for k in ("runs", "ops_planned", "ops_executed", "distinct_event_logs", "distinct_interleavings", "distinct_states", "runs_cut_short", "wall_s")} for d in results},
            "simulated_runs_per_hour": int(runs / sim_s * 3600),
            "seeds_per_hour": int(runs / sim_s * 3600),
            "simulated_time": "no component of mito reads a clock; simulated time is counted in scheduler steps",
            "scheduler_steps": sum(int(d["ops_planned"]) for d in results),
            "operations_on_real_code": sum(int(d["ops_executed"]) for d in results),
            "faults_injected_and_fired": merge("faults"),
            "conditions_reached": merge("probes"),
            "distinct_states_measure": "64-bit abstraction of the model state after each step (see the scenario source); interleavings: distinct sequences of (client, operation, fault kind)",
            "real_components": REAL[spec["area"]], "stubbed_components": STUB[spec["area"]],
            "determinism_selfcheck_runs": det_runs,
        },
        "assumptions": spec.get("assumptions", []) + [
            "a clean batch is evidence from sampled executions, not proof",
            "built with g++ -O1, assertions on, AddressSanitizer, the installed pyre/PETSc/METIS/OpenMPI"],
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    if violation:
        ev["coverage"]["violation"] = violation[1]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs in %.1f s (build %.1f s), %d distinct non-trivial, faults fired: %s" % (
        pid, runs, sim_s, t_built - t0, ev["coverage"]["distinct_nontrivial"],
        ", ".join("%s x%d" % (k, v["times"]) for k, v in sorted(ev["coverage"]["faults_injected_and_fired"].items())) or "none"))
    if violation:
        rp, v, sc = violation
        print("%s: %s (scenario %s, run %d, %d of %d steps after minimisation, %d faults)" % (v["class"], v["message"], sc, v["run"], v["steps"], v["steps_before"], v["faults"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        for b in broken:
            print("check: " + b, file=sys.stderr)
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--selftest", nargs="?", const="all")
    a = ap.parse_args()
    if a.setup:
        with concurrent.futures.ThreadPoolExecutor(4) as pool:    # (the biggest take 2 GB each)
            list(pool.map(build, BINARIES))
        return 0
    if a.replay:
        r = replay(a.replay)
        sys.stdout.write(r.stdout)
        return r.returncode
    if a.selftest:
        bad = 0
        for b, spec in BINARIES.items():
            exe = build(b)
            for sc in spec["scenarios"]:
                if a.selftest not in ("all", sc):
                    continue
                ok = True
                for seed in range(1, 6):
                    hs = [hashes(exe, sc, seed, 200, w, "quick", x) for w, x in ((8, False), (1, True), (5, False))]
                    ok = ok and hs[0] == hs[1] == hs[2]
                print(sc, "deterministic" if ok else "NOT deterministic", flush=True)
                bad += not ok
        return 2 if bad else 0
    if a.property not in PROPERTIES:
        die("unknown property %s" % a.property)
    return check(a.property)


if __name__ == "__main__":
    sys.exit(main())
