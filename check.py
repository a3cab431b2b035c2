#!/usr/bin/env python3
"""Decides one property: check.py ID [quick|thorough]

Builds the explorer against /repo's working tree (one build per runtime, one with instrumented
atomics), runs what decides the property, writes evidence/ID.json, and prints

    VIOLATION property=ID replay=FILE     and exits 1 if the property is broken
    KNOWN-FINDING: property=ID WHAT       for every listed finding that was seen

Any other outcome than 0 or 1 is an error of the check itself.
"""
import hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
EVIDENCE = os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVIDENCE, "replay")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


def fail(msg):
    print(f"check error: {msg}", file=sys.stderr)
    sys.exit(2)


def tree_hash():
    """Identifies the sources the build depends on, by content."""
    h = hashlib.sha256()
    for top in (REPO, os.path.join(HERE, "harness"), os.path.join(HERE, "threads")):
        for d, dirs, files in sorted(os.walk(top)):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "tests", "examples", "benches"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".c")) or f == "RUSTFLAGS":
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build(kinds):
    """Builds the given kinds of explorer: cargo decides by modification times what to rebuild, so
    what was built from other sources is discarded first."""
    tree = tree_hash()
    procs = []
    for kind in kinds:
        target = os.path.join(TARGET, kind)
        os.makedirs(target, exist_ok=True)
        stamp = os.path.join(target, "stamp")
        crate, args, env = os.path.join(HERE, "harness"), ["--features", kind], dict(ENV)
        if kind == "threads":
            crate, args = os.path.join(HERE, "threads"), []
            # With a target, the flags are not applied to build scripts and macros.
            args = ["--target", TRIPLE]
            env["RUSTFLAGS"] = open(os.path.join(crate, "RUSTFLAGS")).read().strip()
        if not os.path.exists(stamp) or open(stamp).read() != tree:
            if os.path.exists(stamp):
                os.remove(stamp)
            for pkg in ("tower-lsp", os.path.basename(crate) == "threads" and "threads" or "mc"):
                subprocess.run(
                    ["cargo", "clean", "--offline", "--release", "-p", pkg, "--target-dir", target] + args[:2 * (kind == "threads")],
                    cwd=crate, env=env, capture_output=True)
        cmd = ["cargo", "build", "--release", "--offline", "--target-dir", target] + args
        p = subprocess.Popen(cmd, cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        procs.append((kind, stamp, p))
    ok = True
    for kind, stamp, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            print(out[-6000:], file=sys.stderr)
            print(f"check error: the {kind} build fails", file=sys.stderr)
            ok = False
        else:
            open(stamp, "w").write(tree)
    if not ok:
        sys.exit(2)


def binary(kind):
    if kind == "threads":
        return os.path.join(TARGET, kind, TRIPLE, "release", "threads")
    return os.path.join(TARGET, kind, "release", "mc")


def run(args, env, limit):
    """Runs an explorer, which writes its result to the last argument."""
    out = args[-1]
    if os.path.exists(out):
        os.remove(out)
    try:
        p = subprocess.run(args, env=env, timeout=limit, capture_output=True, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        fail(f"{args} does not end")
    if not os.path.exists(out):
        fail(f"{args} ends with {p.returncode}:\n{p.stdout[-3000:]}\n{p.stderr[-6000:]}")
    return json.load(open(out))


def parity(results):
    """Compares what the two runtimes did in every execution."""
    a, b = results
    x, y = a.pop("observations"), b.pop("observations")
    differ = [k for k in x if x[k] != y.get(k)] + [k for k in y if k not in x]
    if not differ:
        return None
    key = min(differ, key=lambda k: (len(k), k))
    group, scenario, choices = key.rsplit("|", 2)
    return {
        "property": "C25", "runtime": "both",
        "failure": {
            "group": group, "scenario": int(scenario), "choices": json.loads(choices), "key": "parity",
            "message": f"the runtimes differ in {len(differ)} of {len(x)} executions, the first is {key}",
            "description": None, "trace": "",
        },
    }


def main():
    if len(sys.argv) < 2:
        fail("usage: check.py ID [quick|thorough]")
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    start = time.time()
    plan = json.load(open(os.path.join(HERE, "plan.json")))[pid]
    os.makedirs(REPLAY, exist_ok=True)
    build(plan["kinds"])
    built = time.time() - start

    findings = json.load(open(os.path.join(HERE, "known-findings.json")))["findings"]
    mine = [f for f in findings if f["property"] == pid]
    env = dict(ENV, MC_KNOWN="\n".join(f["key"] for f in mine))
    results, failure = [], None
    for kind in plan["kinds"]:
        out = os.path.join(EVIDENCE, f".{pid}.{kind}.json")
        args = [binary(kind), "check", pid, tier, out]
        if plan.get("observe"):
            args = [binary(kind), "observe", tier, out]
        r = run(args, env, 780 if tier == "quick" else 3600)
        r["kind"] = kind
        os.remove(out)
        results.append(r)
        if r.get("failure"):
            failure = r
            break
    if not failure and plan.get("observe"):
        failure = parity(results)
    errors = [r["engine_error"] for r in results if r.get("engine_error")]

    wall = time.time() - start
    seen = {}
    for r in results:
        for k in r.get("known") or []:
            seen[k["key"]] = seen.get(k["key"], 0) + k["executions"]
    write_evidence(pid, tier, plan, results, failure, wall, built, seen)
    for f in mine:
        if f["key"] in seen:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    if failure:
        f = failure["failure"]
        path = os.path.join(REPLAY, f"{pid}.json")
        json.dump(failure, open(path, "w"), indent=1)
        print(f"{f['key']}: {f['message']}")
        print(f"in {f['group']!r}, scenario {f['scenario']}: {f['description']}")
        print(f.get("trace", "")[-3000:])
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if errors:
        fail("; ".join(errors)[:4000])
    total = sum(r.get("executions", 0) for r in results)
    print(f"property {pid} holds on {total} executions ({wall:.0f} s, of which {built:.0f} s building)")


def write_evidence(pid, tier, plan, results, failure, wall, built, seen):
    groups, samples = [], []
    for r in results:
        for g in r.get("groups") or []:
            groups.append(dict(g, build=r["kind"]))
        for s in (r.get("samples") or [])[:3]:
            s = dict(s, build=r["kind"])
            s["scenario"] = (s.get("scenario") or "")[:400]
            s["events"] = [e[:200] for e in (s.get("events") or [])[:40]]
            samples.append(s)
    add = lambda k: sum(r.get(k) or 0 for r in results)
    capped = any(r.get("capped") for r in results)
    coverage = {
        "states": add("states"),
        "transitions": add("transitions"),
        "traces_validated_against_impl": add("executions"),
        "evaluations": add("executions"),
        "distinct_nontrivial": add("outcomes"),
        "rule": "an execution is one scenario under one sequence of choices; executions are distinct and "
                "non-trivial by the hash of all events observed in them",
        "samples": samples[:6],
        "exhaustive": not capped and not failure,
        "explanation": plan["explanation"] + " The real code is what is explored, so every trace is one of "
                "the implementation; states are distinct prefixes of observed events, transitions are steps "
                "of the executions (polls, inputs, outputs, handler events).",
        "groups": groups,
        "choice_points": add("choice_points"),
        "longest_choice_sequence": max([r.get("max_choices") or 0 for r in results] or [0]),
        "violations_of_other_properties_seen": add("foreign"),
        "known_findings_seen": seen,
        "capped": capped,
        "deeper_but_incomplete": [r.get("partial") for r in results if r.get("partial")],
        "build_s": round(built, 1),
    }
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking", "coverage": coverage,
        "assumptions": plan["assumptions"],
        "wall_s": round(wall, 2), "violations": 1 if failure else 0,
    }
    path = os.path.join(EVIDENCE, f"{pid}.json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        build(["tokio", "agnostic"] + (["threads"] if os.path.isdir(os.path.join(HERE, "threads")) else []))
    else:
        main()
