#!/usr/bin/env python3
"""Decide one property by seeded simulation.

usage: check.py PROPERTY quick|thorough
Exit 0: held in every simulated run.  Exit 1: VIOLATION line printed.
Anything else: the machinery itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
NSHARDS = 8
# seconds of search per shard; the two weight-storage builds share the budget
SECS = {"quick": 50, "thorough": 1500}
# properties that are also decided on a build without the multiweight feature
SINGLE = {"C01", "C02", "C06", "C07", "C08", "C10"}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, top in ((REPO, ["src", "build.rs", "Cargo.toml", "Cargo.lock", "cbindgen.toml", ".cargo"]), (VERIF, ["sim"])):
        for t in top:
            p = os.path.join(root, t)
            if os.path.isfile(p):
                files.append(p)
            for d, ds, fs in os.walk(p):
                ds[:] = [x for x in ds if x not in ("target", ".git")]
                files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def build(single):
    """Build the simulator around /repo's current tree; returns the binary."""
    target = TARGET
    name = "simrun-sw" if single else "simrun-mw"
    stamp = os.path.join(target, name + ".sha256")
    binary = os.path.join(target, name)
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and os.path.exists(binary):
        return binary, 0.0
    if have != want:
        # file times are not to be trusted across copies: rebuild everything that reads /repo
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(cres|cli[-_]\w+|simrun|simrt)-", d):
                    shutil.rmtree(os.path.join(fp, d))
        if os.path.exists(stamp):
            os.unlink(stamp)
    cmd = ["cargo", "build", "--offline"]
    if single:
        cmd += ["--no-default-features"]
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTC_WRAPPER=os.path.join(VERIF, "sim", "rustc-wrap.sh"), CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    t = time.time()
    r = sh(cmd, cwd=os.path.join(VERIF, "sim"), env=env)
    built = os.path.join(target, "debug", "simrun")
    if r.returncode != 0 or not os.path.exists(built):
        print(r.stdout[-6000:])
        print("check: the simulator does not build against /repo", file=sys.stderr)
        sys.exit(3)
    shutil.copy2(built, binary)
    with open(stamp, "w") as f:
        f.write(want)
    return binary, time.time() - t


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def search(binary, prop, seed, secs, known, tag):
    procs = []
    for i in range(NSHARDS):
        out = os.path.join(OUT, f"{prop}-{tag}-{i}.json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--shard", str(i), "--nshards", str(NSHARDS), "--secs", str(secs), "--out", out, "--first", "1"]
        if known:
            cmd += ["--known", ",".join(known)]
        log = open(out + ".log", "w")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL), out))
    res = []
    for p, out in procs:
        try:
            p.wait(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if not os.path.exists(out):
            print(open(out + ".log").read()[-3000:])
            print(f"check: a shard ended without a result (exit {p.returncode})", file=sys.stderr)
            sys.exit(4)
        res.append(json.load(open(out)))
    return res


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    for d in (OUT, REPLAYS, EVID):
        os.makedirs(d, exist_ok=True)
    known = known_findings(prop)
    secs = int(os.environ.get("VERIF_SECS", SECS[tier]))
    variants = [("multiweight", False)] + ([("single-weight", True)] if prop in SINGLE else [])
    shares = [secs] if len(variants) == 1 else [max(1, secs * 3 // 4), max(1, secs // 4)]
    cov = {"evaluations": 0, "distinct_nontrivial": 0}
    faults, probes, scen, others, known_seen, builds = {}, {}, {}, {}, {}, []
    samples, fails, harness = [], [], []
    hashes = {}
    tot = dict.fromkeys(["nontrivial", "phases", "points", "switches", "sim_ns", "fsops"], 0)
    maxthr = 0
    search_s = 0.0
    guards = {}
    for (name, single), share in zip(variants, shares):
        binary, bt = build(single)
        builds.append({"variant": name, "build_s": round(bt, 1)})
        ts = time.time()
        res = search(binary, prop, seed, share, known, name)
        search_s += time.time() - ts
        hs, gs = set(), set()
        for r in res:
            a = r["agg"]
            cov["evaluations"] += a["runs"]
            for k in tot:
                tot[k] += a[k]
            maxthr = max(maxthr, a["max_threads"])
            hs.update(r["sched_hashes"])
            gs.update(r["guard_ids"])
            add(faults, a["fired"]); add(probes, a["probes"]); add(scen, a["scenarios"]); add(others, r["others"])
            for k, v in r["known"].items():
                known_seen[k] = known_seen.get(k, 0) + v[0]
            if len(samples) < 3:
                samples += a["samples"][:1]
            harness += r["harness"]
            for f in r["fails"]:
                fails.append(dict(f, seed=seed, variant=name, binary=binary))
        hashes[name] = len(hs)
        guards[name] = {"edges_instrumented": res[0]["guards"], "edges_reached": len(gs)}
        if fails:
            break
    cov["distinct_nontrivial"] = sum(hashes.values())
    cov["rule"] = ("one evaluation is one simulated run (generated workload, configuration, schedule and fault plan; one or several processes); "
                   "it counts as non-trivial unless its workload is degenerate for this property (for instance fewer than two cells, or no output), and "
                   "as distinct if the hash over all its context switches (thread pair and the code edge they happened at) and file-system fault points differs from every other run's")
    cov["samples"] = samples
    cov["runs_per_hour"] = int(cov["evaluations"] / search_s * 3600) if search_s > 0.5 else 0
    cov["seeds"] = {"base": seed, "runs": cov["evaluations"], "rule": "run i uses the seed mix(mix(base, property), i); shards take i mod 8"}
    cov["simulated_processes"] = tot["phases"]
    cov["simulated_time_s"] = round(tot["sim_ns"] / 1e9, 6)
    cov["scheduling_points"] = tot["points"]
    cov["context_switches"] = tot["switches"]
    cov["max_threads"] = maxthr
    cov["simulated_fs_operations"] = tot["fsops"]
    cov["faults_injected"] = faults
    cov["probes"] = probes
    cov["scenarios"] = scen
    cov["code_edges"] = guards
    cov["distinct_schedules_per_build"] = hashes
    cov["violations_of_other_properties_seen"] = others
    cov["builds"] = builds
    cov["real_code"] = ["cres library and the three command line programs", "rayon", "parking_lot", "crossbeam", "std", "env_logger, indicatif, logbar", "flate2, bzip2, lz4, zstd, audec", "event file parsers"]
    cov["simulated"] = ["thread scheduling (all threads, one at a time)", "futexes, sleep, clocks", "file system", "getrandom", "CPU count, terminal", "process start, exit, crash"]
    status = 0
    if harness and not fails:
        for h in harness[:5]:
            print("harness:", h)
        status = 5
    violations = 0
    lines = []
    if fails:
        status = 1
        seen = set()
        budget = 90 if tier == "quick" else 300
        for f in sorted(fails, key=lambda f: f["index"]):
            if f["class"] in seen:
                continue
            seen.add(f["class"])
            violations += 1
            path = os.path.join(REPLAYS, f"{prop}-{f['class']}.json")
            src = os.path.join(OUT, f"{prop}-{f['class']}-in.json")
            json.dump(f, open(src, "w"))
            if os.path.exists(path):
                os.unlink(path)
            left = budget / (1 if len(seen) == 1 else 4)
            r = sh([f["binary"], "shrink", "--in", src, "--out", path, "--secs", str(int(left))], timeout=left + 300)
            if os.path.exists(path):
                d = json.load(open(path))
                d["variant"] = f["variant"]
                d["replay_with"] = f"python3 /verif/tools/replay.py {path}"
                json.dump(d, open(path, "w"), indent=1)
                rr = sh([f["binary"], "replay", path])
                print(f"{prop} {f['class']}: {d['msg']}")
                print(f"  seed {seed} run {f['index']}; replay in a fresh process: {rr.stdout.strip().splitlines()[-1] if rr.stdout.strip() else 'no output'}")
            else:
                json.dump({"property": prop, "class": f["class"], "msg": f["msg"], "spec": f["spec"], "phases": [], "seed": seed, "index": f["index"], "variant": f["variant"], "minimised": False}, open(path, "w"))
                print(f"{prop} {f['class']}: {f['msg']} (not minimised: {r.stdout[-300:]})")
            lines.append(f"VIOLATION property={prop} replay={path}")
            if len(seen) >= 3:
                break
    for k, what in known.items():
        print(f"KNOWN-FINDING: property={prop} {what} (class {k}, seen in {known_seen.get(k, 0)} runs)")
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 1), "violations": violations,
          "assumptions": ["the simulator serialises threads: effects of weak memory ordering are not explored",
                          "schedules switch at basic-block edges of the instrumented crates and at every lock, futex, sleep, yield and file operation",
                          "sampling, not enumeration: absence of violations is evidence, not proof"]}
    with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop} {tier}: {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct non-trivial schedules, {cov['runs_per_hour']} runs/h, "
          f"{tot['phases']} simulated processes, {sum(faults.values())} faults fired, {wall:.0f} s")
    for line in lines:
        print(line, flush=True)
    sys.exit(status)


if __name__ == "__main__":
    main()
