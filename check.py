#!/usr/bin/env python3
"""check.py <PROPERTY> [--seed N] [--tier quick|thorough]

Builds the monitor against /repo's working tree, runs the workloads of one property and turns what
the monitors saw into a verdict: exit 0 held, 1 violated (VIOLATION line), 2 no answer.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env(variant):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e["SPDM_CONFIG"] = config(variant)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def config(variant):
    return os.path.join(HERE, "configs", variant + ".toml")


BUILT = {}
PEEKED = []


def build(variant, mode="checked"):
    """Returns the path of a monitor built for a configuration variant.

    modes: checked (debug assertions and overflow checks on), plain (optimized, none of these),
    asan (AddressSanitizer), tsan (ThreadSanitizer)."""
    if (variant, mode) in BUILT:
        return BUILT[variant, mode]
    target = os.path.join(BUILD, mode)
    os.makedirs(target, exist_ok=True)
    e = cargo_env(variant)
    e["CARGO_TARGET_DIR"] = target
    cmd = ["cargo"]
    sub = "debug"
    if mode == "asan":
        cmd.append("+nightly")
        e["RUSTFLAGS"] = "-Zsanitizer=address"
        sub = "x86_64-unknown-linux-gnu/debug"
    if mode == "tsan":
        cmd.append("+nightly")
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
        sub = "x86_64-unknown-linux-gnu/debug"
    cmd += ["build", "--offline", "--locked"]
    if mode in ("asan", "tsan"):
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
    if mode == "tsan":
        # the standard library has to be instrumented as well
        cmd += ["-Zbuild-std"]
    if mode == "plain":
        cmd += ["--release"]
        sub = "release"
    t = time.time()
    feats = ["crypto"] if variant != "N" else []
    p = None
    for peek in (["peek"], []):
        if not peek and PEEKED:
            break
        p = subprocess.run(cmd + ["--features", ",".join(feats + peek)], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            if peek:
                PEEKED.append(variant)
            else:
                log("the fields of the states are not what the monitor knows: they are not looked at")
            break
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise NoAnswer(f"build failed ({variant}, {mode})")
    out = os.path.join(BUILD, f"mon-{variant}-{mode}")
    tmp = f"{out}.{os.getpid()}"
    shutil.copy2(os.path.join(target, sub, "mon"), tmp)
    os.replace(tmp, out)
    BUILT[variant, mode] = out
    log(f"built {variant} {mode} in {time.time() - t:.1f} s")
    return out


def run(binary, variant, prop, seed, tier, scale=100, limit=None, extra=(), timeout=None):
    """One monitor process. Returns the parsed report."""
    tag = f"{prop}-{os.path.basename(binary)}"
    out = os.path.join(BUILD, f"out-{tag}-{os.getpid()}.json")
    e = dict(os.environ)
    e["MON_CONFIG"] = config(variant)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=166"
    cmd = [binary, prop, "--tier", tier, "--seed", str(seed), "--out", out, "--scale", str(scale)]
    if limit:
        cmd += ["--limit", str(limit)]
    cmd += list(extra)
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=HERE)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"the monitor did not finish ({variant})")
    text = p.stdout.decode("utf-8", "replace")
    if p.returncode == 3:
        return None
    if p.returncode < 0 or p.returncode > 100:
        # the process died: a signal from the library under observation
        return {
            "evaluations": 0, "lib_calls": 0, "distinct": 0, "counters": {}, "other": {}, "samples": [],
            "errors": [],
            "findings": [{"workload": "process", "case": 0, "msg": f"the process died ({p.returncode})", "log": text[-4000:].splitlines()}],
        }
    try:
        with open(out) as f:
            d = json.load(f)
        os.remove(out)
    except OSError:
        raise NoAnswer(f"no report ({variant}): rc {p.returncode}\n{text[-2000:]}")
    if d["errors"] and not d["findings"]:
        raise NoAnswer("harness error: " + "; ".join(d["errors"])[:2000])
    return d


def known(prop):
    """Lines `known: property=<id> match=<regex> :: <what fails>` of known_findings.txt."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    opt = lambda k, d: args[args.index(k) + 1] if k in args else d
    tier = opt("--tier", os.environ.get("VERIF_TIER") or "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opt("--seed", os.environ.get("VERIF_SEED") or "1"))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    sp = plan.PLAN[prop]
    total = {"evaluations": 0, "lib_calls": 0, "distinct": 0, "counters": {}, "samples": [], "other": {}, "runs": []}
    findings = []
    notes = []

    class Job:
        pass

    job = Job()
    job.prop, job.tier, job.seed, job.total, job.findings, job.notes = prop, tier, seed, total, findings, notes
    job.build, job.run, job.log, job.here, job.repo, job.config, job.NoAnswer = build, run, log, HERE, REPO, config, NoAnswer
    job.cargo_env = cargo_env
    job.builddir = BUILD

    def merge(d, name):
        total["evaluations"] += d["evaluations"]
        total["lib_calls"] += d["lib_calls"]
        total["distinct"] += d["distinct"]
        for k, v in d["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + v
        for k, v in d["other"].items():
            total["other"][k] = total["other"].get(k, 0) + v
        for s in d["samples"]:
            if len(total["samples"]) < 6:
                total["samples"].append(s)
        total["runs"].append({"run": name, "evaluations": d["evaluations"], "lib_calls": d["lib_calls"], "distinct": d["distinct"]})
        for f in d["findings"]:
            f["run"] = name
            findings.append(f)

    job.merge = merge
    try:
        for (variant, mode, scale) in sp["runs"](tier):
            b = build(variant, mode)
            d = run(b, variant, prop, seed, tier, scale, limit=1500 if tier == "thorough" else 240,
                    timeout=None if tier == "thorough" else 600)
            if d is None:
                raise NoAnswer(f"no workload for {prop} in {variant}")
            merge(d, f"{variant}/{mode}")
        for step in sp.get("steps", []):
            step(job)
        if not findings:
            for pat in sp["need"]:
                rx = re.compile(pat)
                if not any(v > 0 and rx.fullmatch(k) for k, v in total["counters"].items()):
                    raise NoAnswer(f"nothing observed for {pat}: the check would be vacuous")
    except NoAnswer as x:
        if not findings:
            print(f"NO-ANSWER property={prop} {x}")
            sys.exit(2)
        notes.append(str(x))

    new = []
    kn = known(prop)
    seen = set()
    for f in findings:
        hit = next((w for rx, w in kn if rx.search(f["msg"])), None)
        if hit:
            if hit not in seen:
                seen.add(hit)
                print(f"KNOWN-FINDING: property={prop} {hit}")
        else:
            new.append(f)
    rep = None
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rep = os.path.join("replays", f"{prop}.json")
        f = new[0]
        how = f"build/mon-{f['run'].replace('/', '-')} {prop} --seed {seed} --tier {tier} --only {f['workload']}:{f['case']} -v"
        with open(os.path.join(HERE, rep), "w") as o:
            json.dump({"property": prop, "seed": seed, "tier": tier, "first": how, "findings": new[:20]}, o, indent=1)
    cov = {
        "evaluations": total["evaluations"],
        "distinct_nontrivial": total["distinct"],
        "rule": sp["rule"],
        "samples": total["samples"] or [f"{k} = {v}" for k, v in sorted(total["counters"].items())[:5]],
        "library_calls": total["lib_calls"],
        "observed": dict(sorted(total["counters"].items())),
        "runs": total["runs"],
    }
    if total["other"]:
        cov["divergences_of_other_properties"] = total["other"]
    if notes:
        cov["notes"] = notes
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": sp.get("level", "exploration"),
        "coverage": cov, "wall_s": round(time.time() - t0, 1),
        "assumptions": sp.get("assumptions", []),
    }
    ev["violations"] = len(new)
    if new:
        cov["violations"] = [{"what": f["msg"], "where": f"{f['run']} {f['workload']}:{f['case']}"} for f in new[:20]]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")
    if new:
        for f in new[:5]:
            print(f"  {f['run']} {f['workload']}:{f['case']} {f['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={rep}")
        sys.exit(1)
    print(f"{prop}: held. {total['evaluations']} evaluations, {total['lib_calls']} library calls, {time.time() - t0:.0f} s")


if __name__ == "__main__":
    main()
