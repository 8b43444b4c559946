#!/usr/bin/env python3
"""Decides one property: builds its harness against /repo's working tree, runs
the generated-input search, writes evidence/<id>.json.

usage: check.py <id> [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored, 1: VIOLATION line printed, 2: no answer
"""
import argparse, importlib.util, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
import props as P


def environment(env=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=3:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    e.update(env or {})
    return e


def run_binary(exe, args, scratch, env=None):
    return subprocess.run([exe] + args, env=environment(env), cwd=scratch)


def known_findings(pid):
    r = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                r.append(l.split(" ", 2)[2])
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    spec = P.PROPS[pid]
    scratch = tempfile.mkdtemp(prefix="ssp-%s-" % pid)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    results = []
    try:
        if "python" in spec:
            mod = __import__(spec["python"])
            if a.replay:
                return mod.replay(a.replay, scratch)
            results.append(mod.run(tier, seed, scratch, replays))
        for part in spec.get("parts", []):
            if tier == "quick" and part.get("thorough_only"):
                continue
            exe = B.build(pid, part, tier)
            if exe is None and spec.get("compile") and B.library_at_fault():
                # uses which have to work do not even compile
                path = os.path.join(replays, "%s-%s-compile.replay" % (pid, part["name"]))
                with open(path, "w") as f:
                    f.write("property %s\na use which is part of the property does not compile:\n%s\npart %s\n" % (pid, B.failure, part["name"]))
                first = [l for l in B.failure.splitlines() if "error:" in l][0]
                results.append(dict(failed=True, replay=path, message="does not compile: " + first, evaluations=1, distinct_nontrivial=0, rule="compilation of the uses under test", samples=[B.failure[:1500]], labels={}, unconfirmed=""))
                break
            if exe is None:
                print("build failed", file=sys.stderr)
                return 2
            sc = os.path.join(scratch, part["name"])
            os.makedirs(sc)
            os.chmod(sc, 0o777)
            if a.replay:
                if "part " + part["name"] not in open(a.replay, errors="replace").read():
                    continue
                return run_binary(exe, ["--replay", a.replay, "--scratch", sc], sc, part.get("env")).returncode
            out = os.path.join(sc, "result.json")
            cases, limit = part[tier]
            if a.cases:
                cases = a.cases
            r = run_binary(exe, ["--cases", str(cases), "--seed", str(seed), "--workers", str(part.get("workers", 8)),
                                 "--time", str(limit), "--shrink", "40" if tier == "quick" else "120", "--out", out,
                                 "--replay-dir", replays, "--scratch", sc, "--tier", tier, "--tag", "-" + part["name"],
                                 "--cpu", str(part.get("cpu", 20))], sc, part.get("env"))
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print("harness ended with %d" % r.returncode, file=sys.stderr)
                return 2
            res = json.load(open(out))
            if res["failed"]:
                with open(res["replay"], "a") as f:
                    f.write("\npart %s\n" % part["name"])
            results.append(res)
            if res["failed"]:
                break
            seconds = part.get("fuzz", {}).get(tier, 0)
            if seconds:
                fpart = dict(part, fuzzer=True, name=part["name"] + "-fuzz")
                fexe = B.build(pid, fpart, tier)
                if fexe is None:
                    print("build failed", file=sys.stderr)
                    return 2
                import fuzzer
                results.append(fuzzer.run(fexe, exe, part, "-" + part["name"], seconds, seed, sc, replays, environment(part.get("env")), confirm_args=["--cpu", str(part.get("cpu", 20))]))
                if results[-1]["failed"]:
                    break
        if a.replay:
            print("replay belongs to no part of this check", file=sys.stderr)
            return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    labels, samples, unconf = {}, [], ""
    for r in results:
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"][:6]
        unconf += r.get("unconfirmed", "")
    failed = [r for r in results if r["failed"]]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "fault_enumeration" if pid in P.FAULT else "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": " || ".join(dict.fromkeys(r["rule"] for r in results)),
            "samples": samples or ["(none)"],
            "labels": labels,
            "unconfirmed": unconf,
        },
        "assumptions": P.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failed),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if failed:
        print(failed[0]["message"])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(failed[0]["replay"], HERE)))
        return 1
    c = ev["coverage"]
    print("%s held: %d cases, %d distinct non-trivial, %.1f s%s" % (pid, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"], " UNCONFIRMED " + unconf if unconf else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
