"""Coverage-guided search (libFuzzer) over the same cases: the bytes are the draws
of the generators. A failure is confirmed, shrunk and written by the plain binary."""
import json, os, shutil, struct, subprocess, time


def draws(path, tape_cap=1 << 20, msg_cap=1 << 16):
    """(evaluations, nontrivial, family, tape) as left behind by a process"""
    with open(path, "rb") as f:
        b = f.read()
    evals, nontriv, _cur, family, size, _done, msg_len = struct.unpack_from("<QQQIIII", b, 0)
    off = 16 + 8 + 16 + msg_cap
    tape = struct.unpack_from("<%dI" % min(size, tape_cap), b, off)
    return evals, nontriv, family, list(tape)


def run(exe, plain, part, tag, seconds, seed, sc, replays, env, workers=8, max_len=3000, confirm_args=()):
    fz = os.path.join(sc, "fuzz")
    corpus = os.path.join(fz, "corpus")
    os.makedirs(corpus)
    os.makedirs(os.path.join(fz, "art"))
    os.chmod(fz, 0o777)
    # seeds: random tapes of several lengths, so that every family is entered
    rnd = seed * 0x9E3779B97F4A7C15 & (2**64 - 1)
    for i in range(256):
        n = (16, 64, 256, 1024)[i % 4]
        out = bytearray([i // 4])
        while len(out) < n:
            rnd = (rnd * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
            out.append((rnd >> 33) & 255)
        with open(os.path.join(corpus, "seed%03d" % i), "wb") as f:
            f.write(out)
    procs = []
    for w in range(workers):
        e = dict(env)
        e["FUZZ_SCRATCH"] = fz
        e["FUZZ_OUT"] = os.path.join(fz, "out%d" % w)
        cmd = [exe, "-seed=%d" % (seed * 1000 + w + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % max_len, "-len_control=20", "-timeout=25",
               "-rss_limit_mb=3000", "-reload=1", "-print_final_stats=1", "-verbosity=1", "-detect_leaks=0", "-artifact_prefix=%s/art/w%d-" % (fz, w), corpus]
        procs.append(subprocess.Popen(cmd, env=e, cwd=fz, stdout=subprocess.DEVNULL, stderr=open(os.path.join(fz, "log%d" % w), "wb")))
    end = time.time() + seconds + 120
    codes = {}
    res = dict(failed=False, replay="", message="", evaluations=0, distinct_nontrivial=0, rule="", samples=[], labels={}, unconfirmed="")
    while len(codes) < workers and time.time() < end:
        for w, p in enumerate(procs):
            if w in codes or p.poll() is None:
                continue
            codes[w] = p.returncode
            if p.returncode == 0 or res["failed"]:
                continue
            _, _, fam, tape = draws(os.path.join(fz, "out%d" % w))
            src = os.path.join(fz, "from%d" % w)
            with open(src, "w") as f:
                f.write("%d\n%s\n" % (fam, " ".join(map(str, tape))))
            out = os.path.join(fz, "confirm%d.json" % w)
            subprocess.run([plain, "--from", src, "--out", out, "--replay-dir", replays, "--scratch", fz, "--tag", tag, "--shrink", "120"] + list(confirm_args), env=env, cwd=fz)
            try:
                r = json.load(open(out))
            except (OSError, ValueError):
                r = dict(failed=False)
            if r["failed"]:
                with open(r["replay"], "a") as f:
                    f.write("\npart %s\n" % part["name"])
                res.update(failed=True, replay=r["replay"], message=r["message"])
                res["samples"] = r["samples"]
            else:
                log = open(os.path.join(fz, "log%d" % w), "rb").read().decode("latin1")
                res["unconfirmed"] += "coverage-guided process %d ended with %d: %s; " % (w, p.returncode, " ".join(l for l in log.splitlines() if "ERROR" in l or "SUMMARY" in l)[:400])
        if res["failed"]:
            break
        time.sleep(0.5)
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    best = 0
    for w in range(workers):
        try:
            ev, nt, _, _ = draws(os.path.join(fz, "out%d" % w))
        except (OSError, struct.error):
            continue
        res["evaluations"] += ev
        res["distinct_nontrivial"] += nt
        log = open(os.path.join(fz, "log%d" % w), "rb").read().decode("latin1")
        for l in log.splitlines():
            if " cov: " in l:
                try:
                    best = max(best, int(l.split(" cov: ")[1].split()[0]))
                except ValueError:
                    pass
    res["labels"] = {"coverage-guided executions": res["evaluations"], "coverage-guided edges reached": best, "coverage-guided corpus": len(os.listdir(corpus))}
    res["rule"] = "coverage-guided: the same cases, drawn from bytes which libFuzzer mutates"
    shutil.rmtree(fz, ignore_errors=True)
    return res
