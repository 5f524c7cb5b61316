#!/usr/bin/env python3
"""Driver:  check.py <PROPERTY> [quick|thorough]     run the check of one property
            check.py --replay <file>                 re-run a saved minimal failure
            check.py --setup                         make sure the toolchain works
Everything is rebuilt from /repo's working tree (a build cache keyed by the content of the sources used
is kept under /verif/build, which git ignores)."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
CXX = shutil.which("clang++") or "clang++"

from props import PROPS  # table of harness runs per property


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def gen_config(dst):
    """The library's config header, configured as the repository's own build configures it here."""
    text = read(os.path.join(REPO, "include/stlab/config.hpp.in")).decode()
    on = {"STLAB_STD_COROUTINES", "STLAB_THREADS_PTHREAD", "STLAB_TASK_SYSTEM_PORTABLE", "STLAB_MAIN_EXECUTOR_NONE"}
    out = []
    for line in text.splitlines():
        m = re.match(r"#cmakedefine01\s+(\w+)(\(\))?", line)
        if m:
            line = "#define %s() %d" % (m.group(1), 1 if m.group(1) in on else 0)
        for k in ("MAJOR", "MINOR", "PATCH"):
            line = line.replace("@PROJECT_VERSION_%s@" % k, "0")
        line = line.replace("@STLAB_TASK_POOL_MAXIMUM@", "0")
        out.append(line)
    os.makedirs(os.path.join(dst, "stlab"), exist_ok=True)
    p = os.path.join(dst, "stlab/config.hpp")
    data = "\n".join(out) + "\n"
    if not os.path.exists(p) or read(p).decode() != data:
        tmp = p + ".%d-%d" % (os.getpid(), threading.get_ident())
        with open(tmp, "w") as f:
            f.write(data)
        os.replace(tmp, p)


def tree_hash():
    h = hashlib.sha256()
    for base in ("include", "src"):
        for d, dn, fn in sorted(os.walk(os.path.join(REPO, base))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0" + read(p))
    for d, dn, fn in sorted(os.walk(HARN)):
        for f in sorted(fn):
            if f.endswith(".hpp") or f == "rt.cpp":
                h.update(read(os.path.join(d, f)))
    return h.hexdigest()


KINDS = {
    # single threaded, address + undefined behaviour sanitizers
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,object-size,alignment,null,function", "-fno-sanitize-recover=all"],
    # controlled scheduler: thread-sanitizer instrumentation, linked with our own runtime (harness/det/rt.cpp)
    "det": ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-ftrivial-auto-var-init=pattern", "-DDET_SCHED"],
}


class BuildFailed(Exception):
    """A harness that uses nothing but the documented interface does not compile against this tree."""

    def __init__(self, file, src, kind, log):
        super().__init__(file)
        self.file, self.src, self.kind, self.log = file, src, kind, log


def compiler_works():
    """Distinguishes a broken toolchain from library headers that no longer accept conforming uses."""
    d = os.path.join(BUILD, "cc-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        t = os.path.join(d, "t.cpp")
        with open(t, "w") as f:
            f.write("#include <bits/stdc++.h>\nint main() { std::vector<int> v(3); return int(v.size()) - 3; }\n")
        r = sh([CXX, "-std=c++20", "-fsanitize=address", t, "-o", os.path.join(d, "t")])
        return r.returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build(src, kind, th):
    cfg = os.path.join(BUILD, "cfg-" + hashlib.sha256(read(os.path.join(REPO, "include/stlab/config.hpp.in"))).hexdigest()[:12])
    gen_config(cfg)
    base = ["-std=c++20", "-O1", "-g1", "-DNDEBUG", "-Wno-deprecated-declarations",
             "-fno-omit-frame-pointer", "-I" + HARN, "-I" + os.path.join(REPO, "include"), "-I" + cfg]
    flags = base + KINDS[kind]
    import glob
    if os.path.isdir(os.path.join(HARN, src)):
        srcs = sorted(glob.glob(os.path.join(HARN, src, "*.cpp")))
    else:
        srcs = [os.path.join(HARN, src)]
    key = hashlib.sha256((th + src + kind + repr(flags)).encode() + b"".join(read(f) for f in srcs)).hexdigest()[:20]
    out = os.path.join(BUILD, "%s-%s-%s" % (src.replace(".cpp", "").replace("/", "_"), kind, key))
    if os.path.exists(out):
        return out, 0.0
    t0 = time.time()
    srcs += sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True))
    work = out + ".d%d" % os.getpid()
    os.makedirs(work, exist_ok=True)
    procs = []
    objs = []
    rt = os.path.join(HARN, "det/rt.cpp")
    if kind == "det":
        srcs.append(rt)
    for i, s in enumerate(srcs):
        o = os.path.join(work, "%d.o" % i)
        objs.append(o)
        procs.append((s, subprocess.Popen([CXX] + (base if s == rt else flags) + (["-DPBT_MAIN"] if os.path.basename(s) in ("machine.cpp", src) else []) + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            for _, q in procs:
                if q.poll() is None:
                    q.kill()
            shutil.rmtree(work, ignore_errors=True)
            raise BuildFailed(s, src, kind, o)
    lk = ["-rdynamic"] if kind == "det" else [f for f in KINDS[kind] if f.startswith("-fsanitize")]
    r = sh([CXX] + lk + objs + ["-o", os.path.join(work, "a.out"), "-pthread", "-ldl"])
    if r.returncode:
        print("LINK FAILED\n" + r.stdout[-6000:])
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(2)
    os.replace(os.path.join(work, "a.out"), out)
    shutil.rmtree(work, ignore_errors=True)
    return out, time.time() - t0


def prune():
    """Keep the build cache small."""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if not f.startswith("cfg-") and f != "out"]
        fs = sorted((f for f in fs if os.path.isfile(f)), key=os.path.getmtime)
        for f in fs[:-40]:
            os.unlink(f)
    except OSError:
        pass


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    th = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    spec = PROPS[pid]
    outroot = os.path.join(BUILD, "out", pid + "-" + tier)
    os.makedirs(outroot, exist_ok=True)
    repdir = os.path.join(VERIF, "replays")
    os.makedirs(repdir, exist_ok=True)
    parts = []
    violation = None
    error = None
    runs = [r for r in spec["runs"] if not (tier == "quick" and r.get("thorough_only"))]
    pool = ThreadPoolExecutor(4)
    built = {}
    for r in runs:
        if (r["src"], r["kind"]) not in built:
            built[r["src"], r["kind"]] = pool.submit(build, r["src"], r["kind"], th)
    for run in runs:
        try:
            binary, bt = built[run["src"], run["kind"]].result()
        except BuildFailed as b:
            first = next((l for l in b.log.splitlines() if "error" in l), "")
            if not compiler_works() or not re.search(r"\berror:", b.log):
                error = "BUILD FAILED: %s\n%s" % (b.file, b.log[-6000:])
                break
            rep = os.path.join(repdir, "%s-compile.txt" % pid)
            with open(rep, "w") as f:
                f.write("property %s\nsrc %s\nkind %s\n\nThe generated programs of this check, which use the documented interface only, do not compile.\n\n%s\n" % (pid, b.src, b.kind, b.log[-20000:]))
            violation = (rep, "the harness no longer compiles: " + first)
            parts.append({"harness": run["harness"], "kind": run["kind"], "evaluations": 0, "requested": run[tier], "nontrivial": 0, "distinct_nontrivial": 0,
                          "unreproduced": 0, "unrepro_msg": "", "wall_s": 0, "build_s": 0, "classes": {}, "samples": [], "rule": "harness did not compile"})
            break
        out = os.path.join(outroot, run["harness"] + "-" + run["kind"])
        os.makedirs(out, exist_ok=True)
        ev = os.path.join(out, "ev.json")
        rep = os.path.join(repdir, "%s-%s-%s.txt" % (pid, run["harness"], run["kind"]))
        for f in (ev, rep):
            if os.path.exists(f):
                os.unlink(f)
        cases = run[tier]
        max_s = run.get("max_s", 240) if tier == "quick" else run.get("max_s_thorough", 2400)
        cmd = [binary, "--harness", run["harness"], "--seed", str(seed), "--cases", str(cases), "--workers", str(os.cpu_count() or 8),
               "--max-s", str(max_s), "--out", out, "--evidence", ev, "--replay-out", rep] + run.get("args", [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(ev):
            error = "harness %s produced no evidence (exit %d): %s" % (run["harness"], p.returncode, p.stdout[-2000:])
            break
        e = json.load(open(ev))
        e["kind"] = run["kind"]
        e["build_s"] = round(bt, 1)
        parts.append(e)
        if p.returncode == 1 and e["violation"]:
            with open(rep, "a") as f:
                f.write("\nproperty %s\nsrc %s\nkind %s\n" % (pid, run["src"], run["kind"]))
                if run.get("args"):
                    f.write("args %s\n" % " ".join(run["args"]))
            violation = (rep, e["message"])
            break
        if p.returncode != 0:
            error = "harness %s exit %d: %s" % (run["harness"], p.returncode, p.stdout[-2000:])
            break
    if error:
        print("ERROR: " + error)
        return 2
    classes = {}
    for e in parts:
        for k, v in e["classes"].items():
            classes["%s/%s: %s" % (e["harness"], e["kind"], k)] = v
    known = [k for k in load_known().get("findings", []) if k["property"] == pid]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(e["evaluations"] for e in parts),
            "distinct_nontrivial": sum(e["distinct_nontrivial"] for e in parts),
            "rule": "; ".join(sorted(set("%s: %s" % (e["harness"], e["rule"]) for e in parts))),
            "samples": [s for e in parts for s in e["samples"]][:8],
            "classes": classes,
            "runs": [{k: e[k] for k in ("harness", "kind", "evaluations", "requested", "nontrivial", "distinct_nontrivial", "unreproduced", "unrepro_msg", "wall_s", "build_s")} for e in parts],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    prune()
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    total = ev["coverage"]["evaluations"]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, total, ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    if violation:
        print("message: " + violation[1][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    return 0


def replay(path):
    meta = {}
    for line in open(path, errors="replace"):
        w = line.split()
        if len(w) == 2 and w[0] in ("harness", "src", "kind", "property", "args"):
            meta[w[0]] = w[1]
    try:
        binary, _ = build(meta["src"], meta["kind"], tree_hash())
    except BuildFailed as b:
        print("BUILD FAILED: %s\n%s" % (b.file, b.log[-6000:]))
        return 1
    if "harness" not in meta:
        print("compiles")
        return 0
    out = os.path.join(BUILD, "out", "replay")
    os.makedirs(out, exist_ok=True)
    return subprocess.run([binary, "--replay", path, "--out", out] + meta.get("args", "").split()).returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        r = sh([CXX, "--version"])
        print(r.stdout)
        sys.exit(0 if r.returncode == 0 else 2)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run_check(a[0], tier))


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    main()
