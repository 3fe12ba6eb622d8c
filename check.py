#!/usr/bin/env python3
"""Builds the harness against /repo's working tree, runs one property's generated search in both
modes (seeded scheduler, native threads), writes evidence/<ID>.json and reports.

  check.py <ID>                   VERIF_SEED and VERIF_TIER from the environment
  check.py --setup                build only
  check.py <ID> --replay FILE     run one recorded case again
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict."""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
OUT = os.path.join(ROOT, "out")

# name: (extra rustc cfgs, cargo features)
CONFIGS = {
    "sched": (["dam_verif_sched"], []),
    "native": ([], []),
    "sched-unbounded": (["dam_verif_sched"], ["unbounded"]),
    "sched-cycle": (["dam_verif_sched"], ["cycle"]),
    "native-unbounded": ([], ["unbounded"]),
    "native-cycle": ([], ["cycle"]),
    "native-mongo": ([], ["mongo"]),
}
# Which configurations a property runs in, first the ones whose verdicts replay exactly.
RUNS = {"C23": ["sched-unbounded", "sched-cycle", "native-unbounded", "native-cycle"],
        "C20": ["sched", "native", "native-mongo"]}
# The configuration whose results those have to reproduce, case by case.
BASE = {"C23": "sched"}
DEFAULT = ["sched", "native"]


def build(name):
    """If it does not compile with the DRAM's constructors (they name private fields), then without them."""
    res = build_with(name, ["dam_verif"])
    if res[1]:
        without = build_with(name, [])
        if not without[1]:
            return without[0], 0, "without the DRAM"
    return res


def build_with(name, more):
    cfgs, features = CONFIGS[name]
    env = dict(os.environ)
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env["RUSTFLAGS"] = " ".join(f"--cfg {c}" for c in more + cfgs)
    env["CARGO_TARGET_DIR"] = os.path.join(ROOT, f"target-{name}")
    env["CARGO_NET_OFFLINE"] = "true"
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    if features:
        cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, env=env, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return name, p.returncode, p.stdout


def build_all(names):
    with ThreadPoolExecutor(len(names)) as ex:
        return {n: (rc, out) for n, rc, out in ex.map(build, names)}


def binary(name):
    return os.path.join(ROOT, f"target-{name}", "debug", "damcheck")


def run(name, pid, args, timeout):
    os.makedirs(os.path.join(OUT, pid), exist_ok=True)
    out = os.path.join(OUT, pid, f"{name}.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary(name), pid, "--out", out] + args
    try:
        p = subprocess.run(cmd, cwd=OUT, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, f"{name}: no answer within {timeout} s"
    if p.returncode in (0, 1) and os.path.exists(out):
        return json.load(open(out)), p.stdout
    if p.returncode == 3:
        return None, "unusable"
    if p.returncode < 0 and p.returncode != -9:
        # The code under test took the whole process down.
        v = {"property": pid, "part": "", "what": f"the process died of signal {-p.returncode}", "choices": [], "rerun": args}
        return {"parts": [], "violation": v, "findings": []}, p.stdout
    return None, f"{name}: exit {p.returncode}: {p.stdout[-2000:]}"


def findings():
    path = os.path.join(ROOT, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        res = build_all(list(CONFIGS))
        for n, (rc, out) in res.items():
            if rc:
                print(out[-4000:])
        # What does not build is left out by the checks, as long as there is something left.
        sys.exit(0 if any(rc == 0 for rc, _ in res.values()) else 2)
    pid = args[0]
    configs = RUNS.get(pid, DEFAULT)
    base = [BASE[pid]] if pid in BASE else []
    against = ["--base", binary(base[0])] if base else []
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    start = time.time()

    if "--replay" in args:
        path = os.path.abspath(args[args.index("--replay") + 1])
        rec = json.load(open(path))
        name = rec["config"]
        built = build_all([name] + base)
        for rc, out in built.values():
            if rc:
                print(out[-4000:])
                sys.exit(2)
        how = rec["rerun"] if "rerun" in rec else ["--replay", path]
        p = subprocess.run([binary(name), pid] + how + against, stderr=subprocess.DEVNULL, text=True, stdout=subprocess.PIPE)
        print(p.stdout)
        if p.returncode == 1 or p.returncode < 0:
            print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1 if p.returncode < 0 else p.returncode)

    built = build_all(configs + base)
    bad = [n for n in configs + base if built[n][0]]
    for n in bad:
        print(f"build of configuration {n} failed:\n" + built[n][1][-3000:])
    usable = [n for n in configs if n not in bad]
    if base and base[0] in bad:
        # Ordinary threads give the same results.
        base = ["native"]
        against = ["--base", binary(base[0])]
        usable = [n for n in usable if n.startswith("native")]
        rc, text = build_all(base)[base[0]]
        if rc:
            print(text[-3000:])
            usable = []
    if not usable:
        sys.exit(2)
    # Changes which the scheduler's stand-ins for threads and channels do not know leave ordinary threads to look at.
    left_out = [f"configuration {n} does not build, {', '.join(usable)} made up for it" for n in bad]
    left_out += [f"configuration {n} only builds without the DRAM" for n in usable if built[n][1] == "without the DRAM"]
    if pid == "C16" and left_out and all(built[n][1] == "without the DRAM" for n in usable):
        print("\n".join(left_out))
        sys.exit(2)
    more = not any(n.startswith("sched") for n in usable)

    limit = 700 if tier == "quick" else 6 * 3600
    results, errors = {}, []
    violation = None
    lost = False
    for name in usable:
        if lost and base == ["sched"]:
            base = ["native"]
            against = ["--base", binary("native")]
            if build_all(base)["native"][0]:
                continue
        if lost and name.startswith("sched"):
            continue
        if more:
            os.environ["DAMCHECK_SCALE"] = str(4 * float(os.environ.get("DAMCHECK_SCALE", "1")))
            more = False
        res, text = run(name, pid, ["--seed", str(seed), "--tier", tier] + against, max(30, limit - (time.time() - start)))
        if res is None and text == "unusable":
            left_out.append(f"configuration {name} waits by means unknown to the scheduler, ordinary threads made up for it")
            more = lost = True
            continue
        if res is None:
            errors.append(text)
            continue
        results[name] = res
        if res["violation"]:
            violation = (name, res["violation"])
            break

    wall = time.time() - start
    known = findings()
    listed = {f["key"]: f for f in known["findings"] if f["property"] == pid}
    lines = []
    for name, res in results.items():
        for f in res["findings"]:
            if f["key"] in listed:
                line = f"KNOWN-FINDING: property={pid} {f['key']}: {listed[f['key']]['what']}"
                if line not in lines:
                    lines.append(line)
            elif violation is None:
                violation = (name, {"property": pid, "what": f"{f['key']}: {f['what']}", "part": "known-findings", "choices": []})

    parts = [dict(p, config=n) for n, r in results.items() for p in r["parts"]]
    samples = [{"part": p["part"], "mode": p["mode"], "case": s} for p in parts for s in p["samples"][:2]][:6]
    for p in parts:
        p.pop("samples", None)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "executions": sum(p["executions"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
            "inconclusive": sum(p["inconclusive"] for p in parts),
            "rule": " | ".join(dict.fromkeys(f"{p['part']}: {p['rule']}" for p in parts)),
            "samples": samples,
            "parts": parts,
            "known_findings_seen": lines,
            "errors": errors,
            "left_out": left_out,
        },
        "assumptions": ["the harness's generator only makes programs the library documents or its own contexts use",
                        "scheduled runs interleave at every synchronisation operation with sequentially consistent memory; native runs sample real parallelism"],
        "wall_s": wall, "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)

    for l in lines + left_out:
        print(l)
    for p in parts:
        print(f"{p['part']} [{p['config']}]: {p['evaluations']} cases, {p['distinct_nontrivial']} distinct non-trivial, {p['wall_s']:.1f} s")
    if violation:
        name, v = violation
        v["config"] = name
        replay = os.path.join(OUT, pid, "replay-" + hashlib.sha1(json.dumps(v["choices"]).encode()).hexdigest()[:10] + ".json")
        json.dump(v, open(replay, "w"), indent=1)
        print(f"{pid} [{name}] {v['what']}")
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    if errors or not results:
        print("\n".join(errors))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
