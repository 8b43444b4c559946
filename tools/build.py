"""Builds a check from /verif/h, /verif/props and the library in /repo. Objects
are cached under /verif/build by the hash of everything that goes into them."""
import glob, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SSP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = "clang++"
BASE = ["-std=c++17", "-w", "-g1", "-fno-omit-frame-pointer", "-I" + os.path.join(HERE, "h")]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
    "fuzz": ["-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all"],
}


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


_dig = {}
failure = None  # the command and the diagnostics of the last compilation that failed


def library_at_fault():
    """whether the last failure is an error in the library's own code, under a compiler which works"""
    if not failure or "error:" not in failure:
        return False
    src = os.path.join(BUILD, "sane-%d.cpp" % os.getpid())
    with open(src, "w") as f:
        f.write("#include <string>\n#include <vector>\nint main() { std::vector<std::string> s; return static_cast<int>(s.size()); }\n")
    ok = subprocess.run([CXX, "-std=c++17", "-fsyntax-only", src], capture_output=True).returncode == 0
    os.remove(src)
    places = [l.split(":")[0] for l in failure.splitlines() if ": error:" in l or ": fatal error:" in l]
    return ok and any(os.path.realpath(p).startswith(os.path.realpath(REPO) + "/") for p in places)



def harness_digest():
    if "h" not in _dig:
        _dig["h"] = _digest([p for p in glob.glob(os.path.join(HERE, "h", "*")) if p.endswith(".hpp")])
    return _dig["h"]


def repo_digest(variant):
    if variant not in _dig:
        if variant == 1:
            ps = [os.path.join(REPO, "ssp.hpp")]
        else:
            ps = [p for p in glob.glob(os.path.join(REPO, "include", "**", "*"), recursive=True) if os.path.isfile(p)]
        _dig[variant] = _digest(ps)
    return _dig[variant]


def compile_job(src, flags, extra, name):
    """returns (object, command or None if cached)"""
    with open(src, "rb") as f:
        body = f.read()
    key = hashlib.sha256(repr((CXX, flags, extra)).encode() + body).hexdigest()[:24]
    obj = os.path.join(BUILD, name + "-" + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    return obj, [CXX] + flags + ["-c", src, "-o", obj]


def adapter_flags(variant):
    return ["-DVARIANT=%d" % variant, "-I" + os.path.join(REPO, "include"),
            '-DSSP_SINGLE_HEADER="%s"' % os.path.join(REPO, "ssp.hpp")]


def jobs_for(part):
    san = SAN["fuzz" if part.get("fuzzer") else part.get("san", "asan")]
    opt = part.get("opt", "-O1")
    sut_opt = part.get("sut_opt", "-O1" if part.get("fuzzer") else "-O0")
    jobs = []
    hd = harness_digest()
    for s in part.get("src", []):
        p = os.path.join(HERE, "props", s)
        jobs.append(compile_job(p, BASE + san + [opt] + part.get("flags", []), hd, os.path.basename(s)[:-4]))
    for s in part.get("common", ["engine.cpp", "track.cpp", "hist.cpp", "setups.cpp"]):
        fl = ["-DLIBFUZZER"] if part.get("fuzzer") and s == "engine.cpp" else []
        jobs.append(compile_job(os.path.join(HERE, "h", s), BASE + san + [opt] + fl, hd, s[:-4]))
    # sources that include the library themselves, once per variant
    for s, variant, extra in part.get("sut_src", []):
        p = os.path.join(HERE, s)
        jobs.append(compile_job(p, BASE + san + [sut_opt] + adapter_flags(variant) + extra, hd + repo_digest(variant), os.path.basename(s)[:-4] + "-v%d" % variant))
    for ad in part.get("adapters", []):
        # (variant, setups, modes, features)
        variant, setups, modes, feats = ad
        for n in setups:
            fl = ["-DSETUP=%d" % n, "-DMODES=%d" % modes] + feats.split()
            jobs.append(compile_job(os.path.join(HERE, "h", "adapter.cpp"), BASE + san + [sut_opt] + adapter_flags(variant) + fl,
                                    hd + repo_digest(variant), "ad%d-v%d" % (n, variant)))
    return jobs


def build(pid, part, tier="quick", quiet=False):
    os.makedirs(BUILD, exist_ok=True)
    part = dict(part)
    part.update(part.get(tier + "_build", {}))
    jobs = jobs_for(part)
    todo = {o: c for o, c in jobs if c}
    t0 = time.time()

    def one(item):
        obj, cmd = item
        tmp = obj + ".%d.tmp" % os.getpid()
        cmd = cmd[:-1] + [tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return " ".join(cmd) + "\n" + r.stderr[:6000]
        os.replace(tmp, obj)
        return None

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(one, list(todo.items())) if e]
    if errs:
        global failure
        failure = errs[0]
        sys.stderr.write(errs[0])
        return None
    objs = [o for o, _ in jobs]
    key = hashlib.sha256(repr(objs).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s-%s" % (pid, part["name"], key))
    if not os.path.exists(exe):
        san = SAN["fuzz" if part.get("fuzzer") else part.get("san", "asan")]
        ld = ["-fsanitize=fuzzer,address,undefined"] if part.get("fuzzer") else san
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + ld + objs + ["-o", tmp, "-lpthread"] + part.get("ld", []), capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[:6000])
            return None
        os.replace(tmp, exe)
    if not quiet:
        print("built %s/%s in %.1f s (%d of %d objects)" % (pid, part["name"], time.time() - t0, len(todo), len(jobs)), flush=True)
    prune()
    return exe


def prune(limit=6 << 30):
    fs = []
    for n in os.listdir(BUILD):
        p = os.path.join(BUILD, n)
        try:
            st = os.stat(p)
        except OSError:
            continue
        fs.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if total <= limit or m > time.time() - 1800:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        total -= s
