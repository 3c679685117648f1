#!/usr/bin/env python3
"""
Build and run the checks.

  run.py setup                 build the explorer and the library from /repo's working tree
  run.py check Cxx             run the check of a property (VERIF_TIER=quick|thorough, or --tier)
  run.py replay Cxx FILE       run again the execution recorded in a replay file
"""
import argparse
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known_findings.txt")

CXX = "clang++"
SAN = ["-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero,shift-exponent,signed-integer-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CXXFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-pthread"]
EXCLUDE = {"tests.cc", "benchmark.cc", "utils/tests.cc", "utils/testrunner.cc"}

sys.path.insert(0, VERIF)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()


def read(path):
    with open(path, "rb") as fd:
        return fd.read()


def library_sources():
    text = read(os.path.join(REPO, "wreport/meson.build")).decode()
    res = []
    for m in re.finditer(r"libwreport_sources\s*\+?=\s*\[(.*?)\]", text, re.S):
        body = re.sub(r"#[^\n]*", "", m.group(1))
        res.extend(re.findall(r"'([^']+\.cc)'", body))
    return [s for s in res if s not in EXCLUDE]


def headers_hash(*dirs, ext=(".h", ".tcc", ".hpp")):
    parts = []
    for d in dirs:
        for root, dnames, fnames in os.walk(d):
            dnames.sort()
            for f in sorted(fnames):
                if f.endswith(ext):
                    p = os.path.join(root, f)
                    parts.append(p)
                    parts.append(read(p))
    return sha(*parts)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and read(path).decode() == text:
        return
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wt") as fd:
        fd.write(text)
    os.rename(tmp, path)


def generate():
    gen = os.path.join(BUILD, "gen")
    write_if_changed(os.path.join(gen, "config.h"), "#pragma once\n#define HAS_GETOPT_LONG\n#define HAVE_LUA\n"
                     "#define PACKAGE_VERSION \"3.38\"\n#define TABLE_DIR \"/usr/local/share/wreport\"\n")
    write_if_changed(os.path.join(gen, "wreport/version.h"), "#pragma once\n#define WREPORT_VERSION_MAJOR 3\n#define WREPORT_VERSION_MINOR 38\n")
    return gen


def include_flags(gen):
    return ["-I" + gen, "-I" + REPO, "-iquote", os.path.join(REPO, "wreport"), "-I" + HARNESS, "-I/usr/include/lua5.3"]


def compile_all(jobs):
    """jobs: list of (source, flags, hash of everything else); returns the object files"""
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)

    def one(job):
        src, flags, extra = job
        key = sha(src, read(src), " ".join(flags), extra)
        obj = os.path.join(objdir, key[:40] + ".o")
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + ".tmp%d" % os.getpid()
        res = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if res.returncode != 0:
            raise RuntimeError("cannot compile %s:\n%s" % (src, res.stdout.decode(errors="replace")[:6000]))
        os.rename(tmp, obj)
        return obj

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(one, jobs))


def prune_cache(maxfiles=1500):
    objdir = os.path.join(BUILD, "obj")
    files = [os.path.join(objdir, f) for f in os.listdir(objdir)]
    if len(files) <= maxfiles:
        return
    files.sort(key=os.path.getmtime)
    for f in files[:-maxfiles // 2]:
        try:
            os.unlink(f)
        except OSError:
            pass


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.fd = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.fd, fcntl.LOCK_EX)

    def __exit__(self, *args):
        self.fd.close()


def build_harness(name, san=SAN, extra_flags=()):
    """Build the harness `name` against the library in the working tree of REPO; returns the path of the executable"""
    with Lock():
        gen = generate()
        hh = headers_hash(os.path.join(REPO, "wreport"), gen)
        hv = headers_hash(HARNESS)
        flags = CXXFLAGS + list(san) + list(extra_flags) + include_flags(gen)
        src = os.path.join(HARNESS, name + ".cc")

        def directive(key):
            m = re.search(rb"^// " + key.encode() + rb": (.*)$", read(src), re.M)
            return m.group(1).decode().split() if m else []

        # Extra flags for everything that is compiled
        flags += [x.replace("{REPO}", REPO) for x in directive("cflags")]
        # Extra flags for the sources of the library
        libflags = flags + directive("libflags")
        jobs = [(os.path.join(REPO, "wreport", s), libflags, hh) for s in library_sources()]
        # Other sources of the repository
        for pattern in directive("sources"):
            other = sorted(glob.glob(os.path.join(REPO, pattern)))
            hp = headers_hash(os.path.join(REPO, os.path.dirname(pattern)))
            jobs += [(s, libflags, hh + hp + "*" + pattern) for s in other]
        own = [os.path.join(HARNESS, "mc.cc"), src]
        # Directories of the repository with sources that are included by the harness
        hv += headers_hash(*[os.path.join(REPO, x) for x in directive("depends")], ext=(".h", ".cc"))
        # Other sources of the harness
        own += [os.path.join(HARNESS, x) for x in directive("link")]
        jobs = [(s, flags, hh + hv) for s in own[1:2]] + jobs + [(s, flags, hh + hv) for s in own[:1] + own[2:]]
        objs = compile_all(jobs)
        exe = os.path.join(BUILD, "bin", name + "-" + sha(" ".join(objs))[:16])
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            for f in os.listdir(os.path.dirname(exe)):
                if f.startswith(name + "-"):
                    os.unlink(os.path.join(os.path.dirname(exe), f))
            tmp = exe + ".tmp%d" % os.getpid()
            res = subprocess.run([CXX] + list(san) + ["-pthread", "-o", tmp] + objs + ["-llua5.3", "-ldl"] + directive("ldflags"),
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if res.returncode != 0:
                raise RuntimeError("cannot link %s:\n%s" % (name, res.stdout.decode(errors="replace")[:6000]))
            os.rename(tmp, exe)
        prune_cache()
        return exe


def known_findings(prop):
    """Return {key: description} for the known findings of a property"""
    res = {}
    if not os.path.exists(KNOWN):
        return res
    with open(KNOWN) as fd:
        for line in fd:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def write_evidence(prop, tier, data):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fname = os.path.join(VERIF, "evidence", prop + ".json")
    with open(fname + ".tmp", "wt") as fd:
        json.dump(data, fd, indent=1)
        fd.write("\n")
    os.rename(fname + ".tmp", fname)


def environment():
    env = dict(os.environ)
    env["WREPORT_TABLES"] = os.path.join(REPO, "tables")
    env["WREPORT_TESTDATA"] = os.path.join(REPO, "testdata")
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C"
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS"):
        env.pop(k, None)
    env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    return env


def scratch_dir():
    return tempfile.mkdtemp(prefix="verif-mc-")


def check(prop, tier, only=None):
    start = time.time()
    if tier == "thorough":
        os.environ["VERIF_TIER"] = "thorough"
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    replay = os.path.join(replays, "%s.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    known = known_findings(prop)
    scratch = scratch_dir()
    try:
        name = prop.lower()
        if os.path.exists(os.path.join(HARNESS, name + ".py")):
            cmd = [sys.executable, os.path.join(HARNESS, name + ".py")]
        else:
            cmd = [build_harness(name)]
        kf = os.path.join(scratch, "known")
        with open(kf, "wt") as fd:
            for k in known:
                print(k, file=fd)
        out = os.path.join(scratch, "out.json")
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        built = time.time()
        cmd += ["--repo", REPO, "--scratch", work, "--out", out, "--replay-out", replay, "--known", kf]
        if tier == "thorough":
            cmd.append("--thorough")
        if only:
            cmd += ["--only", only]
        sys.stdout.flush()
        rc = subprocess.run(cmd, env=environment(), cwd=work).returncode
        if rc not in (0, 1) or not os.path.exists(out):
            print("harness failed with status %d" % rc, file=sys.stderr)
            return 2
        with open(out) as fd:
            res = json.load(fd)
    except RuntimeError as e:
        print(e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    for k in sorted(res["known"]):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    sc = res["scenarios"]
    samples = []
    for s in sc:
        samples.extend(s["samples"])
    cov = {
        "states": sum(s["states"] for s in sc),
        "transitions": sum(s["transitions"] for s in sc),
        "traces_validated_against_impl": sum(s["executions"] for s in sc),
        "samples": samples[:40],
        "exhaustive": rc == 0,
        "distinct_outcomes": sum(s["outcomes"] for s in sc),
        "scenarios": {s["name"]: {k: s[k] for k in ("executions", "transitions", "states", "outcomes", "pruned", "wall")} for s in sc},
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "The bounds are those of the scenarios, see DESIGN.md; every choice within them is enumerated, nothing is sampled",
            "states: distinct states of the reference model; transitions: steps of the model; each execution replays one "
            "model trace on the implementation and compares all observations",
        ],
        "wall_s": round(time.time() - start, 2),
        "build_s": round(built - start, 2),
        "violations": 1 if rc else 0,
    }
    write_evidence(prop, tier, ev)
    return rc


def setup():
    try:
        names = sorted(f[:-3] for f in os.listdir(HARNESS) if re.match(r"c\d+\.cc$", f))
        for n in names:
            build_harness(n)
    except RuntimeError as e:
        # The checks will report it
        print(e, file=sys.stderr)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("command", choices=["setup", "check", "replay", "build"])
    ap.add_argument("property", nargs="?")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--only", help="run only the scenarios whose name contains this, for development")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    args = ap.parse_args()
    if args.command == "setup":
        return setup()
    if args.command == "build":
        print(build_harness(args.property.lower()))
        return 0
    if args.command == "replay":
        scratch = scratch_dir()
        try:
            name = args.property.lower()
            if os.path.exists(os.path.join(HARNESS, name + ".py")):
                cmd = [sys.executable, os.path.join(HARNESS, name + ".py")]
            else:
                cmd = [build_harness(name)]
            return subprocess.run(cmd + ["--repo", REPO, "--scratch", scratch, "--replay", os.path.abspath(args.file)] +
                                  (["--thorough"] if args.tier == "thorough" else []),
                                  env=environment(), cwd=scratch).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return check(args.property, "thorough" if args.tier == "thorough" else "quick", args.only)


if __name__ == "__main__":
    sys.exit(main())
