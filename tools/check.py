#!/usr/bin/env python3
"""Builds and runs one check.

  tools/check.py <ID> [--thorough] [--build-only] [extra arguments of the check]

The library is compiled from the sources found in /repo's working tree, in
/verif/build/<variant>/ (ninja, with header dependencies, so that an edit of
/repo is always taken into account). Nothing is written in /repo.
"""
import glob, json, os, subprocess, sys, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

BASE = ["-std=c++17", "-w", "-pthread", "-DCODE_GENERATION", "'-DGEGELATI_VERSION=\"0.0\"'", "-D_GLIBCXX_ASSERTIONS"]
# UBSan parts which are cheap to compile and whose reports are never benign.
UB = ["-fsanitize=address", "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,return,bounds,null",
      "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": (["-O1", "-g1", "-DNDEBUG"] + UB, UB),
    # argument checks enabled, as in a Debug build of the library
    "debug": (["-O1", "-g1"] + UB, UB),
    "plain": (["-O1", "-g1", "-DNDEBUG"], []),
    "tsan": (["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
# For each check, the (harness source, variant) pairs to build and to run.
CHECKS = {}
def load():
    with open(os.path.join(VERIF, "tools", "checks.json")) as f:
        CHECKS.update(json.load(f))

# The sources are mirrored, by content, so that what is rebuilt depends on what
# the files contain and never on the dates they happen to have in /repo.
MIRROR = os.path.join(BUILD, "src")

def mirror():
    want = set()
    for d in ("gegelatilib", "lib/JsonCpp"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith((".cpp", ".h", ".hpp", ".in", ".inl", ".c")):
                    want.add(os.path.relpath(os.path.join(root, f), REPO))
    for rel in sorted(want):
        with open(os.path.join(REPO, rel), "rb") as f:
            data = f.read()
        dst = os.path.join(MIRROR, rel)
        try:
            with open(dst, "rb") as f:
                if f.read() == data:
                    continue
        except FileNotFoundError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst + ".tmp", "wb") as f:
            f.write(data)
        os.replace(dst + ".tmp", dst)
    for root, _, files in os.walk(MIRROR):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, MIRROR) not in want:
                os.remove(p)

def lib_sources():
    src = sorted(glob.glob(MIRROR + "/gegelatilib/src/**/*.cpp", recursive=True))
    return src + [MIRROR + "/lib/JsonCpp/jsoncpp.cpp"]

def includes():
    return ["-I" + MIRROR + "/gegelatilib/include", "-I" + MIRROR + "/lib/JsonCpp"]

def write_ninja(path, programs, variants):
    out = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    out.append("rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n"
               "  deps = gcc\n  depfile = $out.d\n  description = CXX $out")
    out.append("rule link\n  command = g++ $flags $in -o $out $libs\n  description = LINK $out")
    H = os.path.join(VERIF, "harness")
    for v in sorted(variants):
        cflags = " ".join(BASE + VARIANTS[v][0] + includes() + ["-I" + H])
        lflags = " ".join(["-pthread"] + VARIANTS[v][1])
        objs = []
        # biggest first: the harness, whose compilation is the longest
        own = []
        for s in ["gg.cpp", "pbt.cpp", "la.cpp"]:
            o = "%s/%s/h_%s.o" % (BUILD, v, s)
            out.append("build %s: cxx %s\n  flags = %s" % (o, os.path.join(H, s), cflags))
            own.append(o)
        for s in lib_sources():
            o = "%s/%s/lib_%s.o" % (BUILD, v, os.path.relpath(s, MIRROR).replace("/", "_"))
            out.append("build %s: cxx %s\n  flags = %s" % (o, s, cflags))
            objs.append(o)
        for (src, pv) in programs:
            if pv != v:
                continue
            o = "%s/%s/c_%s.o" % (BUILD, v, src)
            out.append("build %s: cxx %s\n  flags = %s" % (o, os.path.join(H, src), cflags))
            out.append("build %s: link %s %s\n  flags = %s\n  libs = -ldl -rdynamic" % (
                exe_of(src, v), o, " ".join(own + objs), lflags))
    os.makedirs(BUILD, exist_ok=True)
    text = "\n".join(out) + "\n"
    with open(path, "w") as f:
        f.write(text)

def exe_of(src, v):
    return "%s/%s/%s" % (BUILD, v, src.replace(".cpp", ""))

def build(programs):
    mirror()
    variants = set(v for _, v in programs)
    nin = "%s/build-%s.ninja" % (BUILD, "-".join(sorted(set(s.replace(".cpp", "") + "." + v for s, v in programs)))[:120])
    write_ninja(nin, programs, variants)
    targets = [exe_of(s, v) for s, v in programs]
    p = subprocess.run(["ninja", "-f", nin, "--quiet"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write("\ncheck.py: build failed\n")
        sys.exit(3)

def main():
    load()
    args = sys.argv[1:]
    thorough = "--thorough" in args
    bonly = "--build-only" in args or args[:1] == ["setup"]
    args = [a for a in args if a not in ("--thorough", "--build-only")]
    cid = args[0]
    extra = args[1:]
    ids = sorted(CHECKS) if cid in ("all", "setup") else [cid]
    progs = [tuple(p) for i in ids for p in CHECKS[i]]
    # the replayed file may name the variant
    env = dict(os.environ)
    env["VERIF_TIER"] = "thorough" if thorough else "quick"
    env.setdefault("VERIF_SEED", "1")
    env["VERIF_REPLAY_DIR"] = os.path.join(VERIF, "replays")
    env["VERIF_KNOWN"] = os.path.join(VERIF, "known_findings.txt")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:malloc_context_size=8:allocator_may_return_null=1:quarantine_size_mb=16"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=99"
    env["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:report_signal_unsafe=0"
    env["VERIF_INCLUDES"] = " ".join(includes())
    build(progs)
    if bonly:
        return 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(env["VERIF_REPLAY_DIR"], exist_ok=True)
    rc = 0
    parts = []
    for n, (src, v) in enumerate(progs):
        ev = os.path.join(VERIF, "evidence", cid + (".json" if len(progs) == 1 else ".part%d.json" % n))
        r = subprocess.run([exe_of(src, v), "--evidence", ev] + extra, env=env, cwd=VERIF).returncode
        parts.append(ev)
        if r == 1:
            rc = 1
        elif r != 0 and rc == 0:
            rc = 2 if r > 0 else 4
    if len(progs) > 1 and "--replay" not in extra:
        merge(cid, progs, parts)
    return rc

def merge(cid, progs, parts):
    docs = []
    for p in parts:
        if os.path.exists(p):
            with open(p) as f:
                docs.append(json.load(f))
            os.remove(p)
    if not docs:
        return
    d = docs[0]
    cov = d["coverage"]
    cov["variants"] = {}
    for (s, v), x in zip(progs, docs):
        cov["variants"][v] = {"evaluations": x["coverage"].get("evaluations"), "distinct_nontrivial": x["coverage"].get("distinct_nontrivial")}
    for x in docs[1:]:
        for k in ("evaluations", "distinct_nontrivial"):
            cov[k] += x["coverage"][k]
        cov["samples"] += x["coverage"]["samples"]
        for k, val in x["coverage"].items():
            if k not in cov:
                cov[k] = val
        d["wall_s"] += x["wall_s"]
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(d, f, indent=1)

if __name__ == "__main__":
    sys.exit(main())
