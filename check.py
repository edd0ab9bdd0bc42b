#!/usr/bin/env python3
"""Decide one property by seeded simulation.

  check.py C01 [--tier quick|thorough] [--seed N]     run the check (VERIF_TIER / VERIF_SEED are the defaults)
  check.py --replay FILE                              re-execute a replay file; exit 1 iff it reproduces exactly
  check.py --setup                                    build every binary
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, VERIF)
from checks import CHECKS, BINARIES

WORKERS = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 8))))


def sources():
    out = []
    for base in (os.path.join(VERIF, "sim"), os.path.join(VERIF, "harness"), SRC):
        for d, _, fs in sorted(os.walk(base)):
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(extra):
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def run_compile(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def build(name):
    spec = BINARIES[name]
    key = digest((name, spec))
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, f"{name}-{key}")
    if os.path.exists(out):
        return out
    tmp = f"{out}.{os.getpid()}"
    cxx = spec.get("cxx", "g++")
    flags = spec["flags"]
    for h in ("validate", "visualizer_png", "visualizer_svg", "graph_gen", "graph_val", "rng", "secure_rng"):
        flags = flags + [f'-DREPO_{h.upper()}="{SRC}/{h}.h"']
    srcs = [os.path.join(VERIF, s) for s in spec["src"]]
    jobs, objs = [], []
    for i, s in enumerate(srcs):
        o = f"{tmp}.{i}.o"
        objs.append(o)
        jobs.append([cxx] + flags + ["-I" + VERIF, "-c", s, "-o", o])
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for rc, log in ex.map(run_compile, jobs):
            if rc:
                raise BuildError(name, log)
    rc, log = run_compile([cxx] + flags + objs + ["-o", tmp] + spec.get("link", ["-ldl", "-rdynamic"]))
    for o in objs:
        os.unlink(o)
    if rc:
        raise BuildError(name, log)
    os.rename(tmp, out)
    return out


class BuildError(Exception):
    def __init__(self, name, log):
        super().__init__(name)
        self.log = log


def prune():
    """keep the build cache small"""
    bdir = os.path.join(VERIF, "build")
    if not os.path.isdir(bdir):
        return
    fs = sorted((os.path.join(bdir, f) for f in os.listdir(bdir)), key=os.path.getmtime, reverse=True)
    for f in fs[60:]:
        try:
            os.unlink(f)
        except OSError:
            pass


def known_findings(pid):
    """lines 'known: property=<id> class=<class> <what fails>' of KNOWN_FINDINGS.txt"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def check(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    stages = spec["stages"]
    outroot = os.path.join(VERIF, "build", f"out-{pid}-{os.getpid()}")
    shutil.rmtree(outroot, ignore_errors=True)
    os.makedirs(outroot)
    repdir = os.path.join(VERIF, "replays")
    os.makedirs(repdir, exist_ok=True)
    known = known_findings(pid)
    tot = dict(runs=0, nontrivial=0, rechecked=0, nondet=0, events=0, choices=0, sim_s=0.0)
    faults, probes, scen, knownseen = {}, {}, {}, {}
    samples, hashes, sigs = [], set(), set()
    violation, errors, stages_out = None, [], []
    names = list(dict.fromkeys(s["binary"] for s in stages))
    extra = list(dict.fromkeys(x for s in stages for x in s.get("also", [])))
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            bins = dict(zip(names + extra, ex.map(build, names + extra)))
    except BuildError as e:
        print(f"BUILD-ERROR {e}\n{e.log[-5000:]}")
        shutil.rmtree(outroot, ignore_errors=True)
        return 2
    tb = time.time() - t0
    for n, st in enumerate(stages):
        out = os.path.join(outroot, str(n))
        os.makedirs(out)
        runs = st[tier]
        cap = st.get("cap_" + tier, 150 if tier == "quick" else 3600)
        env = dict(os.environ)
        for x in st.get("also", []):
            env["SIM_BIN_" + x.upper().replace("-", "_")] = bins[x]
        t1 = time.time()
        cmd = [bins[st["binary"]], "--scenarios", ",".join(st["scenarios"]), "--runs", str(runs), "--workers", str(WORKERS),
               "--seed", str(seed), "--time", str(cap), "--outdir", out, "--id", pid, "--binary", st["binary"], "--tier", tier,
               "--ignore", ",".join(k for k, _ in known)]
        env.pop("SIM_NOASLR", None)
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            errors.append(f"{st['binary']}: simulator ended {p.returncode}: {p.stdout[-1500:]}")
        cand = []
        sruns = 0
        for w in range(WORKERS):
            f = os.path.join(out, f"w{w}.json")
            if not os.path.exists(f):
                errors.append(f"{st['binary']}: worker {w} left no result")
                continue
            j = json.load(open(f))
            for k in tot:
                tot[k] += j[k]
            sruns += j["runs"]
            merge(faults, j["faults"]); merge(probes, j["probes"]); merge(scen, j["scenarios"]); merge(knownseen, j["known"])
            samples += j["samples"]
            if j["error"]:
                errors.append(f"{st['binary']}: {j['error']}")
            if j["violation"]:
                cand.append(j["violation"])
            for ext, s in (("hashes", hashes), ("sigs", sigs)):
                b = open(os.path.join(out, f"w{w}.{ext}"), "rb").read()
                s.update(x[0] ^ (n << 60) for x in struct.iter_unpack("<Q", b))
        stages_out.append(dict(binary=st["binary"], compiler=" ".join([BINARIES[st["binary"]].get("cxx", "g++")] + BINARIES[st["binary"]]["flags"]), scenarios=st["scenarios"], runs=sruns, wall_s=round(time.time() - t1, 2)))
        # replay gate: a fresh process must reproduce the minimised run exactly
        for v in sorted(cand, key=lambda v: v["run"]):
            dst = os.path.join(repdir, os.path.basename(v["replay"]).replace(".replay", f"-{st['binary']}.replay"))
            shutil.copyfile(v["replay"], dst)
            r = subprocess.run([bins[st["binary"]], "--replay", dst], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 4:
                # violated, but not by the very same history: the code under test depends on something outside of the seed
                text = open(dst, errors="replace").read()
                open(dst, "w").write(text.replace("\nminimised", "\nunstable executions of this run differ in details\nminimised", 1))
                r = subprocess.run([bins[st["binary"]], "--replay", dst], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 1:
                violation = dict(v, replay=dst)
                break
            errors.append(f"replay of {dst} did not reproduce (rc {r.returncode}): {r.stdout[-800:]}")
        if violation:
            break
    wall = time.time() - t0
    search = sum(s["wall_s"] for s in stages_out) or 1e-9
    cov = dict(
        evaluations=tot["runs"], distinct_nontrivial=len(hashes),
        rule=spec["rule"] + " A run counts as distinct by the 64-bit hash of its complete event history (every simulated call, its arguments, injected fault and every byte delivered or written); it is non-trivial if " + spec["nontrivial"] + ".",
        samples=samples[:4],
        seeds_per_run="run i uses seed mix(VERIF_SEED, property, i); one seed decides every choice of the run",
        runs_per_hour=int(tot["runs"] / search * 3600), search_wall_s=round(search, 2), build_wall_s=round(tb, 2),
        simulated_seconds=round(tot["sim_s"], 3), events=tot["events"], choices=tot["choices"],
        distinct_states=len(sigs), distinct_states_measure=spec.get("states", "coarse state signature: role x settings x operation/outcome classes x delivery mode x fault class"),
        runs_executed_twice_and_compared=tot["rechecked"], nondeterministic_runs=tot["nondet"],
        faults_injected={k: v for k, v in sorted(faults.items()) if v}, fault_kinds_not_fired=[k for k, v in sorted(faults.items()) if not v],
        reached=dict(sorted(probes.items())), scenarios=scen, stages=stages_out,
        real_components=spec["real"], simulated_components=spec["stub"],
        known_findings_seen=knownseen,
    )
    # a check that explored nothing decided nothing
    floor = spec.get("floor", 50)
    if not violation and tot["runs"] < floor:
        errors.append(f"only {tot['runs']} runs executed")
    for need in spec.get("must_reach", []):
        if not violation and not errors and not probes.get(need):
            errors.append(f"coverage probe never reached: {need}")
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=spec["assumptions"], wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    shutil.rmtree(outroot, ignore_errors=True)
    prune()
    for cls, what in known:
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid}: {tot['runs']} runs, {len(hashes)} distinct non-trivial histories, {len(sigs)} states, {sum(faults.values())} faults, {wall:.1f} s")
    if violation:
        print(f"{violation['class']}: {violation['message'][:3000]}")
        print(f"VIOLATION property={pid} replay={violation['replay']}")
        return 1
    if errors:
        for e in errors:
            print("CHECK-ERROR", e)
        return 3
    return 0


def replay(path):
    name = next(l.split()[1] for l in open(path, errors="replace") if l.startswith("binary "))
    pid = next(l.split()[1] for l in open(path, errors="replace") if l.startswith("property "))
    env = dict(os.environ)
    env.pop("SIM_NOASLR", None)
    for st in CHECKS[pid]["stages"]:
        if st["binary"] == name:
            for x in st.get("also", []):
                env["SIM_BIN_" + x.upper().replace("-", "_")] = build(x)
    return subprocess.run([build(name), "--replay", path], env=env).returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        prune()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for n, p in zip(BINARIES, ex.map(build, BINARIES)):
                print(n, p)
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = a[a.index("--seed") + 1]
    seed = int(seed) if re.fullmatch(r"-?\d+", seed) else int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16)
    return check(a[0], "thorough" if tier == "thorough" else "quick", seed)


if __name__ == "__main__":
    sys.exit(main())
