#!/usr/bin/env python3
"""Driver of the checks: check.py <ID> [--thorough] [--replay FILE] [--seed N]

Rebuilds the library from /repo's working tree (out of tree, under
/verif/build), builds the property's harness, runs it, confirms failures,
replays the listed known findings, writes /verif/evidence/<ID>.json and prints
VIOLATION / KNOWN-FINDING lines.  Exit 0: held on everything explored,
exit 1: violation, exit 2: the check itself could not run.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("UMF_REPO", "/repo")
B = os.path.join(V, "build") if R == "/repo" else "/tmp/umfb" + R.replace("/", "-")
sys.path.insert(0, V)
from checks_table import CHECKS  # noqa: E402

VARIANTS = {
    "dbg": ("gcc", "g++", "Debug", "-O1 -g1", "-O1 -g1"),
    "rel": ("gcc", "g++", "Release", "-O2 -g1 -DNDEBUG", "-O1 -g1"),
    "asan": ("gcc", "g++", "Debug",
             "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
             "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"),
    "tsan": ("gcc", "g++", "Debug", "-O1 -g1 -fsanitize=thread", "-O1 -g1 -fsanitize=thread"),
}
CMAKE_COMMON = [
    "-DUMF_BUILD_TESTS=OFF", "-DUMF_BUILD_EXAMPLES=OFF", "-DUMF_BUILD_BENCHMARKS=OFF",
    "-DUMF_BUILD_CUDA_PROVIDER=OFF", "-DUMF_BUILD_LEVEL_ZERO_PROVIDER=ON",
    "-DUMF_LEVEL_ZERO_INCLUDE_DIR=/usr/include/level_zero",
    "-DUMF_FORMAT_CODE_STYLE=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
]


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", **kw)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        die("failed: " + " ".join(cmd))
    return p.stdout


def env_clean():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("UMF_") or k in ("LD_PRELOAD", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CI"):
            del e[k]
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LANG"] = "C.UTF-8"
    return e


ENV = env_clean()


def build_lib(variant, shared=False):
    cc, cxx, typ, cflags, _ = VARIANTS[variant]
    d = os.path.join(B, "umf-" + variant + ("-so" if shared else ""))
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(os.path.join(d, "build.ninja")):
        run(["cmake", "-S", R, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + cc,
             "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_BUILD_TYPE=" + typ,
             "-DCMAKE_C_FLAGS=" + cflags, "-DCMAKE_CXX_FLAGS=" + cflags,
             "-DUMF_BUILD_SHARED_LIBRARY=" + ("ON" if shared else "OFF")] + CMAKE_COMMON, env=ENV)
    run(["ninja", "-C", d], env=ENV)
    return d


def build_harness(pid, cfg, variant):
    d = build_lib(variant)
    out = os.path.join(B, "bin", pid + "-" + variant)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cc, cxx, _, _, hflags = VARIANTS[variant]
    inc = ["-I" + os.path.join(R, p) for p in
           ("include", "src", "src/utils", "src/base_alloc", "src/coarse", "src/ravl", "src/critnib",
            "src/provider", "src/memspaces", "src/memtargets", "src/uthash", "src/ctl", "src/pool")]
    inc += ["-I/usr/include/level_zero", "-I" + os.path.join(V, "engine"), "-I" + os.path.join(V, "harness")]
    srcs = [os.path.join(V, "engine", "pbt.cpp")] + [os.path.join(V, "harness", s) for s in cfg["src"]]
    objs, procs = [], []
    for s in srcs:
        o = os.path.join(B, "bin", pid + "-" + variant + "-" + os.path.basename(s) + ".o")
        objs.append(o)
        procs.append(subprocess.Popen(
            [cxx if s.endswith(".cpp") else cc, "-c", s, "-o", o] + hflags.split() +
            (["-std=c++17"] if s.endswith(".cpp") else []) +
            ["-Wall", "-Wno-unused-function", "-DUMF_VERSION=1"] + cfg.get("cflags", []) + inc,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV))
    for p in procs:
        txt = p.communicate()[0]
        if p.returncode:
            sys.stderr.write(txt[:3000])
            die("harness does not compile")
    wraps = ["-Wl,--wrap=" + w for w in cfg.get("wrap", [])]
    exp = ["-rdynamic"] if cfg.get("rdynamic") else []
    run([cxx] + hflags.split() + objs + ["-o", out] + wraps + exp +
        ["-Wl,--start-group"] + sorted(glob.glob(os.path.join(d, "lib", "*.a"))) + ["-Wl,--end-group", "-lhwloc", "-ldl", "-lpthread"] + cfg.get("libs", []), env=ENV)
    return out


def build_prog(name, src, flags, shared=False):
    d = os.path.join(B, "bin")
    os.makedirs(d, exist_ok=True)
    run(["gcc", "-g", "-O1", "-Wall", os.path.join(V, "harness", src), "-o", os.path.join(d, name)] +
        (["-shared", "-fPIC"] if shared else []) + [x.replace("@BIN@", d) for x in flags], env=ENV)


def load_known(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = "thorough" if "--thorough" in args or (
        os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in args) else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    scale = "1"
    for i, a in enumerate(args):
        if a == "--seed":
            seed = int(args[i + 1])
        if a == "--replay":
            replay = args[i + 1]
        if a == "--scale":
            scale = args[i + 1]
    cfg = CHECKS[pid]
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    variants = cfg.get("variants_" + tier) or cfg.get("variants", ["dbg"])
    bins = []
    for b in cfg.get("prebuild", []):
        build_lib(b[0], b[1])
    for pr in cfg.get("progs", []):
        build_prog(*pr)
    for v in variants:
        bins.append((v, build_harness(pid, cfg, v)))
    fcntl.flock(lock, fcntl.LOCK_UN)
    env = dict(ENV)
    env["VERIF_DIR"] = V
    env["VERIF_BUILD"] = B
    env["UMF_REPO"] = R
    env.update(cfg.get("env", {}))
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:exitcode=66:suppressions=" + os.path.join(V, "harness", "tsan.supp")
    known = load_known(pid)
    listed = [k for k in known if k.get("status") == "known"]
    scratch = tempfile.mkdtemp(prefix="umfpbt-")
    os.chmod(scratch, 0o755)
    knownf = os.path.join(scratch, "known")
    with open(knownf, "w") as f:
        for k in listed:
            f.write(k["id"] + "\n")
    replays = os.path.join(V, "replays")
    os.makedirs(replays, exist_ok=True)

    if replay:
        rc = 0
        for v, b in bins:
            s = os.path.join(scratch, "rp")
            os.makedirs(s, exist_ok=True)
            p = subprocess.run([b, "--replay", replay, "--known", knownf, "--scratch", s, "--verbose"] +
                               (["--ignore-known"] if "--ignore-known" in args else []) +
                               (["--no-as-limit"] if v in ("asan", "tsan") else []), env=env)
            rc |= p.returncode
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc)

    total = {"evaluations": 0, "distinct_nontrivial": 0, "inconclusive": 0, "operations": 0}
    per_suite, labels, samples, failures, flaky, rule = {}, {}, [], [], [], ""
    err = None
    wcap = cfg.get("time_" + tier, 60 if tier == "quick" else 420)
    for v, b in bins:
        s = os.path.join(scratch, v)
        os.makedirs(s, exist_ok=True)
        out = os.path.join(scratch, v + ".json")
        cmd = [b, "--seed", str(seed), "--time", str(wcap), "--workers", str(cfg.get("workers", 8)),
               "--out", out, "--replaydir", replays, "--known", knownf, "--scratch", s,
               "--scale", str(float(scale) * cfg.get("vscale", {}).get(v, 1.0))]
        if tier == "thorough":
            cmd.append("--thorough")
        if v in ("asan", "tsan"):
            cmd.append("--no-as-limit")
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        try:
            r = json.load(open(out))
        except Exception as e:
            sys.stderr.write(p.stdout[-3000:])
            err = "harness %s gave no result: %s" % (v, e)
            break
        if r["dead_workers"] and not r["failures"]:
            sys.stderr.write(p.stdout[-3000:])
            err = "%d workers of %s died" % (r["dead_workers"], v)
        rule = r["rule"]
        for k in total:
            total[k] += r[k]
        for k, n in r["per_suite"].items():
            per_suite[v + ":" + k] = n
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
        samples += ["[" + v + "] " + x for x in r["samples"]]
        for f in r["failures"]:
            f["variant"] = v
            failures.append(f)
        flaky += r["flaky"]
        if failures and "--all" not in args:
            break  # decided; the other variants would only find it again
    # known findings: replay each listed one against the real code
    kf_lines = []
    for k in listed:
        rf = os.path.join(V, k["replay"])
        s = os.path.join(scratch, "kf")
        os.makedirs(s, exist_ok=True)
        v, b = next(((v, b) for v, b in bins if v == k.get("variant", v)), bins[0])
        p = subprocess.run([b, "--replay", rf, "--ignore-known", "--scratch", s] +
                           (["--no-as-limit"] if v in ("asan", "tsan") else []), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 1:
            kf_lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
    shutil.rmtree(scratch, ignore_errors=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": total["distinct_nontrivial"],
            "rule": rule,
            "samples": samples[:12],
            "operations": total["operations"],
            "inconclusive_cases": total["inconclusive"],
            "cases_per_suite": per_suite,
            "distribution": labels,
            "unconfirmed_failures": flaky[:5],
            "known_findings_reproduced": kf_lines,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in kf_lines:
        print(line)
    for x in flaky[:5]:
        print("note: unconfirmed (not reproduced) " + x)
    if failures:
        for f in failures:
            print("%s [%s/%s] %s: %s" % (pid, f["variant"], f["suite"], f["sig"], f["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
        sys.exit(1)
    if err:
        die(err)
    print("%s %s seed=%d: held on %d cases (%d distinct non-trivial), %.1fs" %
          (pid, tier, seed, total["evaluations"], total["distinct_nontrivial"], time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
