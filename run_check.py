#!/usr/bin/env python3
"""Builds one property's harness from /repo's current working tree and runs it.

usage: run_check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--only CHECK] [--scale X]
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: could not build / internal error.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ENGINE = os.path.join(VERIF, "engine")

BASE = ["-std=c++14", "-g1", "-fno-omit-frame-pointer", "-DFMT_DEPRECATED_OSTREAM", "-w",
        "-I" + REPO, "-I" + ENGINE, "-I" + os.path.join(VERIF, "harness")]
VARIANTS = {
    # address sanitizer everywhere, undefined-behaviour sanitizer for the library's .cpp files (the
    # Eigen-heavy headers take twice as long to compile with it): the default
    "asan": ["-O1", "-fsanitize=address"],
    # both sanitizers everywhere
    "san": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    # thread sanitizer
    "tsan": ["-O1", "-fsanitize=thread"],
    # plain optimised build, as the repository builds it
    "opt": ["-O2"],
}
CXX = os.environ.get("VERIF_CXX", "g++")

def load_config():
    with open(os.path.join(VERIF, "harness", "config.json")) as f:
        return json.load(f)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash():
    h = hashlib.sha256()
    files = []
    for d in (os.path.join(REPO, "altro"), os.path.join(REPO, "examples"), ENGINE, os.path.join(VERIF, "harness")):
        for root, dirs, fs in os.walk(d):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h")):
                    files.append(os.path.join(root, f))
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def compile_one(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return src, 0, ""
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([CXX] + flags + ["-c", src, "-o", tmp])
    if r.returncode == 0:
        os.replace(tmp, obj)
    return src, r.returncode, r.stdout

def build(pid, conf, variant):
    os.makedirs(BUILD, exist_ok=True)
    flags = BASE + VARIANTS[variant]
    lib_variant = "san" if variant == "asan" else variant
    th = tree_hash()
    lib = [f for f in sorted(glob.glob(os.path.join(REPO, "altro", "**", "*.cpp"), recursive=True)) if os.path.basename(f) != "main.cpp"]
    ex = sorted(glob.glob(os.path.join(REPO, "examples", "**", "*.cpp"), recursive=True)) if conf.get("examples") else []
    har = [os.path.join(VERIF, "harness", s) for s in conf["sources"]]
    if conf.get("gen") or conf.get("sol"):
        har.append(os.path.join(VERIF, "harness", "gen.cpp"))
    if conf.get("sol"):   # size-erased solvers: one translation unit per compile-time size, slowest first
        har = [os.path.join(VERIF, "harness", "sol_%s.cpp" % s) for s in conf["sol"]] + har
        har.append(os.path.join(VERIF, "harness", "sol.cpp"))
    if conf.get("rec"):
        har.append(os.path.join(VERIF, "harness", "rec.cpp"))
    eng = [os.path.join(ENGINE, "pbt_main.cpp")]
    jobs = []
    for src in har + eng + lib + ex:
        content = open(src, "rb").read()
        flags = BASE + VARIANTS[lib_variant if src in lib or src in ex else variant]
        if src in ex and lib_variant == "san":   # copying the supplied quadratic cost: see known_findings.txt (C27)
            flags = flags + ["-fno-sanitize=enum"]
        key = hashlib.sha256((" ".join(flags) + CXX + th + src).encode() + content).hexdigest()[:24]
        jobs.append((src, os.path.join(BUILD, key + ".o"), flags))
    errs = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
        for src, rc, out in pool.map(compile_one, jobs):
            if rc != 0:
                errs.append((src, out))
    if errs:
        for src, out in errs:
            sys.stderr.write("failed to compile %s\n%s\n" % (src, out[-6000:]))
        return None
    objs = [j[1] for j in jobs]
    exe = os.path.join(BUILD, "%s-%s-%s" % (pid, variant, hashlib.sha256("".join(objs).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([CXX] + VARIANTS[lib_variant] + objs + ["-o", tmp, "-lfmt", "-lpthread"])
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:]); return None
        os.replace(tmp, exe)
    for o in objs: os.utime(o)
    os.utime(exe)
    prune()
    return exe

def prune(limit=3 << 30):
    try:
        fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(BUILD, "*"))]
        tot = sum(f[1] for f in fs)
        for m, s, p in sorted(fs):
            if tot <= limit: break
            os.remove(p); tot -= s
    except OSError:
        pass

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", default=None)
    ap.add_argument("--variant")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    conf = load_config()[a.id]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:malloc_fill_byte=255:max_malloc_fill_size=1048576"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_thread_leaks=0"
    variants = [a.variant] if a.variant else conf.get("variants", ["asan"])
    if a.tier == "thorough" and not a.variant: variants = conf.get("thorough_variants", ["san"] if variants == ["asan"] else variants)
    rc, merged = 0, None
    try:
        with cf.ThreadPoolExecutor(max_workers=2) as pool:
            exes = list(pool.map(lambda v: build(a.id, conf, v), variants))
        if any(e is None for e in exes):
            return 2
        if a.build_only:
            return 0
        for v, exe in zip(variants, exes):
            ev = os.path.join(scratch, v + ".json")
            budget = conf.get("budget", {}).get(a.tier, 240 if a.tier == "quick" else 3600) / len(variants)
            cmd = [exe, "--seed", str(a.seed), "--tier", a.tier, "--scratch", scratch,
                   "--replay-dir", os.path.join(VERIF, "replays"), "--known", os.path.join(VERIF, "known_findings.txt"),
                   "--evidence", ev, "--budget", str(budget)]
            if v != variants[0]:
                cmd += ["--scale", str(conf.get("variant_scale", {}).get(v, 0.2))]
            elif a.scale: cmd += ["--scale", a.scale]
            if a.only: cmd += ["--only", a.only]
            if a.replay: cmd += ["--replay", os.path.abspath(a.replay)]
            r = subprocess.run(cmd, env=env, cwd=scratch)
            if r.returncode not in (0, 1):
                sys.stderr.write("harness ended with %d\n" % r.returncode); return 2
            if os.path.exists(ev):
                e = json.load(open(ev))
                e["coverage"]["build_variant"] = v
                if merged is None: merged = e
                else:
                    merged["coverage"]["evaluations_in_variant_" + v] = e["coverage"]["evaluations"]
                    merged["coverage"]["evaluations"] += e["coverage"]["evaluations"]
                    merged["violations"] += e["violations"]
            if r.returncode == 1:
                rc = 1; break
        if merged and not a.replay and not a.only:
            merged["wall_s"] = round(time.time() - t0, 2)
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            p = os.path.join(VERIF, "evidence", a.id + ".json")
            with open(p + ".tmp", "w") as f: json.dump(merged, f, indent=1)
            os.replace(p + ".tmp", p)
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
