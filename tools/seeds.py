#!/usr/bin/env python3
"""Generates /verif/seeded/* (planted bugs) against /repo's HEAD: seeds.py [ID...]
Each seed: edits on the sources, and a demonstration program that exits 1 where the behaviour is wrong."""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
def seed(id, prop, needs, breaks, edits, demo=None, files=None):
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, files=files or {})

DEMO_SH = '''#!/bin/bash
# Exits 0 where the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w -pthread -I. -I_build "$d/demo.cc" -o "$t/demo" -L_build/wreport -lwreport -Wl,-rpath,"$PWD/_build/wreport" || exit 2
cd "$t" && WREPORT_TABLES=/repo/tables timeout 60 ./demo
'''
PRE = '''#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/opcodes.h>
#include <wreport/options.h>
#include <wreport/notes.h>
#include <wreport/conv.h>
#include <wreport/error.h>
#include <wreport/tableinfo.h>
#include <wreport/bulletin/dds-validator.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <memory>
using namespace wreport;
#define EXPECT(x) do { if (!(x)) { printf("wrong: %s\\n", #x); exit(1); } } while (0)
template<typename F> static bool throws(F f) { try { f(); } catch (wreport::error&) { return true; } return false; }
'''
exec(open(os.path.join(ROOT, "tools/seeds_list.py")).read())

def make(id):
    s = S[id]
    d = os.path.join(ROOT, "seeded", id)
    w = "/tmp/mkseed-" + id
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w], stderr=subprocess.DEVNULL)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit("%s: %s: found %d times: %s" % (id, f, t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
        # The changed lines must be original ones
        for f, old, new in s["edits"]:
            orig = subprocess.check_output(["git", "-C", "/repo", "show", "1890eba:" + f]).decode()
            ol, nl = old.split("\n"), new.split("\n")
            for l in ol:
                if l not in nl and l.strip() and l not in orig.split("\n"):
                    print("WARNING %s: changed line is not original: %s" % (id, l))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if s["demo"] is not None:
        open(os.path.join(d, "demo.cc"), "w").write(PRE + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    for k, v in s["files"].items():
        open(os.path.join(d, k), "w").write(v)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)

if __name__ == "__main__":
    for id in sys.argv[1:] or sorted(S):
        make(id)
