#!/usr/bin/env python3
"""Build the simulator against /repo's working tree and decide one property.

usage: check.py PROPERTY [--tier quick|thorough] [--runs N] [--seed N]
       check.py --setup                     build everything once
       check.py --replay FILE [--trace]     re-execute a replay file
       check.py --determinism PROPERTY [--runs N]
"""
import argparse, fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")

FLAGS = "-O1 -g -fsanitize=thread -fno-omit-frame-pointer -include " + os.path.join(SIM, "instrument_std.h")

MODULES = {
    "conc": dict(src=["scen_barrier.cxx", "scen_mailbox.cxx"], libs=["sodautils"]),
    "util": dict(src=["scen_util.cxx", "scen_props.cxx"], libs=["sodaprops", "sodautils"]),
}
MODULE_OF = {**{"C%02d" % i: "conc" for i in range(1, 15)}, **{"C%02d" % i: "util" for i in range(15, 24)}}
from budget import RUNS, CHUNK, COLD  # noqa: E402


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("include", "src", "cmake")] + [SIM]
    files = [os.path.join(REPO, f) for f in os.listdir(REPO) if os.path.isfile(os.path.join(REPO, f))]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(REPO.encode() + FLAGS.encode())
    return h.hexdigest()[:20]


def sh(cmd, log, cwd=None):
    with open(log, "a") as lf:
        lf.write("$ %s\n" % " ".join(cmd)); lf.flush()
        r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=cwd)
    return r.returncode


def build(mods):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        bd = os.path.join(BUILD, tree_hash())
        need = [m for m in mods if not os.path.exists(os.path.join(bd, m + ".ok"))]
        if not need:
            return bd
        olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))), key=os.path.getmtime)
        for o in olds[:-3]:
            if o != bd:
                shutil.rmtree(o, ignore_errors=True)
        os.makedirs(bd, exist_ok=True)
        os.utime(bd)
        log = os.path.join(bd, "build.log")
        sut = os.path.join(bd, "sut")
        flags = FLAGS
        if not os.path.exists(os.path.join(bd, "sut.ok")):
            if sh(["cmake", "-S", REPO, "-B", sut, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + flags,
                   "-DDISABLE_DOXYGEN=ON"], log):
                die("cmake failed, see " + log)
            if sh(["cmake", "--build", sut, "--target", "sodautils", "sodaprops"], log):
                die("the library does not build, see " + log)
            open(os.path.join(bd, "sut.ok"), "w").close()
        objs = {"simcore.o": ["g++", "-std=gnu++17", "-O2", "-g", "-c", os.path.join(SIM, "simcore.cxx")],
                "main.o": ["g++", "-std=gnu++17", "-O1", "-g", "-c", os.path.join(SIM, "main.cxx")]}
        for m in need:
            for s in MODULES[m]["src"]:
                objs[s.replace(".cxx", ".o")] = (["g++", "-std=gnu++17"] + flags.split() + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + sut,
                                                                                             "-c", os.path.join(SIM, s)])
        procs = []
        for o, cmd in objs.items():
            path = os.path.join(bd, o)
            if os.path.exists(path):
                continue
            cmd = cmd + ["-o", path + ".tmp"]
            lf = open(os.path.join(bd, o + ".log"), "w")
            procs.append((o, path, subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)))
        bad = []
        for o, path, p in procs:
            if p.wait():
                bad.append(o)
            else:
                os.rename(path + ".tmp", path)
        if bad:
            sys.stdout.write(open(os.path.join(bd, bad[0] + ".log")).read()[:3000])
            die("cannot compile " + ", ".join(bad))
        for m in need:
            libs = []
            for l in MODULES[m]["libs"]:
                for d, _, fs in os.walk(sut):
                    libs += [os.path.join(d, f) for f in fs if f == "lib%s.a" % l]
            cmd = (["g++", "-rdynamic", "-o", os.path.join(bd, m)] + [os.path.join(bd, s.replace(".cxx", ".o")) for s in MODULES[m]["src"]]
                   + [os.path.join(bd, "main.o"), os.path.join(bd, "simcore.o")] + libs + (["-lyaml-cpp"] if m == "util" else []) + ["-lpthread", "-ldl"])
            if sh(cmd, log):
                die("cannot link, see " + log)
            open(os.path.join(bd, m + ".ok"), "w").close()
        return bd


def known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s class=" % prop):
                rest = line.split("class=", 1)[1]
                cls, _, text = rest.partition(" ")
                res.append((cls, text))
    return res


def replay_once(exe, path):
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    d = dict(l.split(" ", 1) for l in r.stdout.splitlines() if " " in l)
    return r.returncode, d.get("hash"), d.get("class")


def run_batch(exe, prop, seed, tier, runs, replay, out, wall, suppress=(), cold=0):
    cmd = [exe, "batch", "-p", prop, "-s", str(seed), "-t", "1" if tier == "thorough" else "0", "-n", str(runs), "-o", out, "-r", replay,
           "-c", str(CHUNK.get(prop, 100)), "-w", str(wall), "-C", str(cold)]
    if suppress:
        cmd += ["-k", ",".join(suppress)]
    for o in (out, out + ".cold"):
        if os.path.exists(o):
            os.remove(o)
    r = subprocess.run(cmd)
    if not os.path.exists(out):
        if r.returncode and os.path.exists(out + ".cold"):        # a cold run failed: the others were not made
            return r.returncode, json.load(open(out + ".cold"))
        die("the simulator did not report (exit %d)" % r.returncode)
    res = json.load(open(out))
    if os.path.exists(out + ".cold"):
        res["cold"] = json.load(open(out + ".cold"))
    return r.returncode, res


RULE = ("One case is one simulated run: a random program of library calls, fault budget and scheduling strategy derived from (VERIF_SEED, property, run index), "
        "executed by the real compiled library under the simulator. A run is non-trivial if the scheduler switched threads or injected at least one fault; "
        "distinct means a different hash over (every scheduling decision with its step, every injected fault, every observed call, result and time).")
REAL = {"conc": ["include/Barrier.hxx", "src/Barrier.cxx", "include/MailBox.hxx", "include/Exception.hxx", "include/NoCopy.hxx", "include/Format.hxx + src/Format.cxx (exception texts)", "libstdc++ std::mutex, condition_variable, shared_ptr, containers"],
        "util": ["include/ and src/ of Format, Options, Utils/Split, PropertyTree, PropertyTreeYAML", "include/Barrier.hxx, MailBox.hxx (C15)", "libstdc++ streams and containers", "yaml-cpp (uninstrumented)"]}
STUB = ["thread scheduler (one thread at a time, seeded)", "pthread mutex/condvar/rwlock/once/static-guard (simulated, with happens-before clocks)", "steady and wall clocks, sleeps (virtual)", "operator new/delete (real heap with quarantine and injected failures)", "files under /simfs/ (in-memory, with injected faults)", "stream sinks (harness streambuf)"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--cold", type=int, default=-1)
    ap.add_argument("--wall", type=float, default=0)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--determinism", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        build(list(MODULES))
        print("setup done in %.1f s" % (time.time() - t0))
        return 0
    if a.replay:
        prop = [l.split()[1] for l in open(a.replay) if l.startswith("property ")][0]
        bd = build([MODULE_OF[prop]])
        return subprocess.run([os.path.join(bd, MODULE_OF[prop]), "trace" if a.trace else "replay", a.replay]).returncode
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    if prop not in MODULE_OF:
        die("unknown property %r" % prop)
    mod = MODULE_OF[prop]
    bd = build([mod])
    t_build = time.time() - t0
    exe = os.path.join(bd, mod)
    runs = a.runs or RUNS[prop][1 if tier == "thorough" else 0]
    if a.determinism:
        outs = []
        for j, nopin, c in ((8, "", 100), (8, "", 100), (3, "1", 37), (1, "", 11)):
            env = dict(os.environ)
            if nopin:
                env["SIM_NOPIN"] = "1"
            outs.append(subprocess.run([exe, "hashes", "-p", prop, "-s", str(a.seed), "-n", str(runs), "-j", str(j), "-c", str(c), "-k", ",".join(k for k, _ in known(prop))], env=env, stdout=subprocess.PIPE, text=True).stdout)
        ok = all(o == outs[0] for o in outs)
        print("%s: %d runs, 4 executions (8, 8, 3 unpinned and 1 workers; chunk sizes 100, 100, 37, 11): %s" % (prop, len(outs[0].splitlines()), "identical" if ok else "DIFFER"))
        if not ok:
            for x, y in zip(outs[0].splitlines(), outs[-1].splitlines()):
                if x != y:
                    print("first difference:", x, "/", y)
                    break
        return 0 if ok else 2
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = os.path.join(bd, "out-%s.json" % prop)
    rp = os.path.join(REPLAYS, "%s-seed%d-%s.replay" % (prop, a.seed, tier))
    for f in (rp,):
        if os.path.exists(f):
            os.remove(f)
    print("check %s tier=%s VERIF_SEED=%d runs=%d build=%.1fs" % (prop, tier, a.seed, runs, t_build), flush=True)
    wall = a.wall or (300 if tier == "quick" else 3600)
    suppress, found_known = [], []
    for cls, text in known(prop):
        # the listed finding must still be there to be reported
        rc, res = run_batch(exe, prop, a.seed, tier, min(runs, 400), rp + ".known", out + ".known", wall, suppress)
        if rc == 1 and res["violation"]["class"] == cls:
            found_known.append(cls)
            print("KNOWN-FINDING: property=%s %s" % (prop, text), flush=True)
        suppress.append(cls)
        if os.path.exists(rp + ".known"):
            os.remove(rp + ".known")
    cold = a.cold if a.cold >= 0 else COLD[prop][1 if tier == "thorough" else 0] if not a.runs else 0
    rc, res = run_batch(exe, prop, a.seed, tier, runs, rp, out, wall, suppress, cold)
    if rc not in (0, 1):
        die("simulator error: %s" % res.get("error"))
    v = res.get("violation") if rc == 1 else None
    gate = None
    if v:
        g = [replay_once(exe, rp) for _ in range(2)]
        gate = all(x[0] == 1 for x in g) and g[0] == g[1]
        if not gate:
            die("the minimised replay %s of run %d does not reproduce: %s" % (rp, v["run"], g))
    wall_s = time.time() - t0
    rate = res["runs"] / max(res["batch_wall_s"], 1e-6) * 3600
    cov = {
        "evaluations": res["runs"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": RULE, "samples": res["samples"],
        "nontrivial_runs": res["nontrivial"], "runs_requested": runs,
        "runs_per_hour": int(rate), "seeds_per_hour": int(rate), "batch_wall_s": round(res["batch_wall_s"], 2), "workers": res["jobs"],
        "simulated_seconds": res["sim_seconds"], "scheduler_steps": res["steps"], "context_switches": res["switches"], "library_calls": res["harness_ops"],
        "faults_injected": {k: n for k, n in res["fired"].items() if n}, "fault_opportunities": {k: n for k, n in res["opportunities"].items() if n},
        "strategies": res["strategies"], "reached": {k: n for k, n in res["probes"].items() if k},
        "interleaving_measure": "64-bit hash of the whole decision and event sequence of a run; distinct_nontrivial counts different hashes",
        "real_components": REAL[mod], "simulated_components": STUB,
    }
    if "cold" in res:
        c = res["cold"]
        cov["cold_runs"] = {"runs": c["runs"], "distinct_nontrivial": c["distinct_nontrivial"], "faults_injected": {k: n for k, n in c["fired"].items() if n}, "wall_s": round(c["batch_wall_s"], 2),
                            "what": "further runs, each the first thing its process does with the library, so that first-time initialisation is inside the simulation"}
    if found_known:
        cov["known_findings"] = found_known
    if v:
        cov["violation"] = v
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sequentially consistent execution between yield points; weak-memory effects are covered only through the happens-before detector",
                          "yield points are at every lock, condition, atomic, clock, I/O call, function entry and (in part of the runs) every memory access of the library compiled with -O1"],
          "wall_s": round(wall_s, 2), "violations": 1 if v else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if v:
        print("run %d violates %s: [%s] %s" % (v["run"], prop, v["class"], v["detail"]))
        print("minimised to %d threads, %d operations, %d decisions (from %d); replayed twice in fresh processes" % (v["threads"], v["ops"], v["decisions"], v["decisions_before"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF) if False else rp))
        return 1
    print("ok: %d runs, %d distinct non-trivial, %.1f s" % (res["runs"], res["distinct_nontrivial"], wall_s))
    return 0


if __name__ == "__main__":
    sys.exit(main())
