#!/usr/bin/env python3
"""seedtool.py make SPEC.py [ids]   - build seeded/<id>/ from a spec module (list SEEDS of dicts id,prop,edits,demo,needs,breaks)
   seedtool.py verify [ids]     - patch applies, touches original lines, builds, passes the stable tests, demo 0/!=0
   seedtool.py catch [ids] [--props C01,C02] - run the property's check on a patched scratch copy (VERIF_REPO)
Scratch copies live under /tmp and are removed."""
import sys, os, json, subprocess, shutil, re, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded")
BASE = "749d3b7"
def sh(cmd, cwd=None, env=None, timeout=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")
CPPSH = '''#!/bin/bash
# builds a small program against the library built in ./_build and runs it in a scratch directory
r=$PWD; d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -I"$r/src" -I"$r/_build" "$d/demo.cpp" "$r/_build/src/libonexLib.a" -o "$t/demo" || exit 0
mkdir "$t/w"; cd "$t/w" && timeout 120 "$t/demo" > "$t/out" 2>&1; rc=$?; tail -5 "$t/out"; exit $rc
'''
SANSH = '''#!/bin/bash
# builds a small program with the library's sources and sanitizers and runs it in a scratch directory
r=$PWD; d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cd "$t"; for f in $(find "$r/src" -name '*.cpp'); do g++ -std=c++14 -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I"$r/src" -I"$r/_build" -c "$f" -o "$(basename $f).o" & done; wait
g++ -std=c++14 -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -I"$r/src" -I"$r/_build" "$d/demo.cpp" *.o -o demo || exit 0
mkdir w; cd w && timeout 200 ../demo > ../out 2>&1; rc=$?; tail -25 ../out | cut -c1-200; exit $rc
'''
HEAD = '''#include "OnexAPI.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "GlobalGroupSpace.hpp"
#include "LocalLengthGroupSpace.hpp"
#include "Group.hpp"
#include "Exception.hpp"
#include "distance/Distance.hpp"
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <malloc.h>
using namespace onex; using namespace std;
static void put(const string& p, const string& t) { ofstream f(p); f << t; }
static string get(const string& p) { ifstream f(p); stringstream s; s << f.rdbuf(); return s.str(); }
static bool throws(function<void()> f) { try { f(); } catch (OnexException&) { return true; } return false; }
#define CHECK(c) do { if (!(c)) { cerr << "FAILED line " << __LINE__ << ": " #c << endl; exit(1); } } while (0)
'''
def make(spec, only):
    m = importlib.util.spec_from_file_location("spec", spec); mod = importlib.util.module_from_spec(m); m.loader.exec_module(mod)
    for s in mod.SEEDS:
        if only and s["id"] not in only: continue
        w = tempfile.mkdtemp(prefix="seedmk.")
        try:
            sh("git clone -q /repo r", w); r = os.path.join(w, "r")
            for f, a, b in s["edits"]:
                p = os.path.join(r, f); t = open(p).read()
                if t.count(a) != 1: print("!!", s["id"], f, "old text found", t.count(a), "times:", a[:60]); break
                open(p, "w").write(t.replace(a, b))
            else:
                d = os.path.join(S, s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                rc, diff = sh("git diff", r); open(os.path.join(d, "patch.diff"), "w").write(diff)
                if s.get("sh"): open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
                else:
                    open(os.path.join(d, "demo.sh"), "w").write(SANSH if s.get("san") else CPPSH)
                    open(os.path.join(d, "demo.cpp"), "w").write(HEAD + s.get("pre", "") + "int main() {\n" + s["demo"] + "\n  return 0;\n}\n")
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        finally: shutil.rmtree(w, ignore_errors=True)
def base_lines(d):
    """removed lines and insertion neighbours must be original"""
    bad = []
    for f in re.findall(r"^\+\+\+ b/(\S+)", open(os.path.join(d, "patch.diff")).read(), re.M):
        rc, o = sh("git blame -s %s" % f, "/repo"); bl = o.split("\n"); cur = None; n = 0
        for line in open(os.path.join(d, "patch.diff")):
            m = re.match(r"\+\+\+ b/(\S+)", line)
            if m: cur = m.group(1); continue
            m = re.match(r"@@ -(\d+)", line)
            if m: n = int(m.group(1)); continue
            if cur != f: continue
            if line.startswith("-") and not line.startswith("---"):
                if n - 1 < len(bl) and not bl[n - 1].startswith("^" + BASE[:6]): bad.append("%s:%d" % (f, n))
                n += 1
            elif line.startswith(" "): n += 1
    return bad
def scratch():
    w = tempfile.mkdtemp(prefix="seedw."); sh("cp -a /repo %s/repo" % w)
    r = w + "/repo"
    shutil.rmtree(r + "/_build", ignore_errors=True)
    return w, r
BLD = "cmake -S . -B _build -G Ninja -DFETCHCONTENT_FULLY_DISCONNECTED=ON --no-warn-unused-cli >/dev/null && ninja -C _build"
def tests(r):
    o = r + "/../t.json"
    rc, out = sh("python3 /opt/vp/run_boost.py %s/_build %s" % (r, o), r)
    d = json.load(open(o)); want = json.load(open("/opt/vp/BASELINE.json"))
    w = want.get("stable") or want.get("passed") or want.get("tests") or want
    return [x for x in w if x not in d["passed"]]
def verify(ids):
    w, r = scratch()
    try:
        rc, o = sh(BLD, r); assert rc == 0, o[-2000:]
        for i in ids:
            d = os.path.join(S, i); msg = []
            rc, o = sh(d + "/demo.sh", r, timeout=300)
            if rc: msg.append("demo fails on the clean tree: " + o[-400:])
            b = base_lines(d)
            if b: msg.append("touches lines that are not original: %s" % b)
            rc, o = sh("git apply %s/patch.diff" % d, r)
            if rc: msg.append("does not apply: " + o[-300:])
            else:
                rc, o = sh(BLD, r)
                if rc: msg.append("does not build: " + o[-800:])
                else:
                    f = tests(r)
                    if f: msg.append("tests fail: %s" % f[:4])
                    rc, o = sh(d + "/demo.sh", r, timeout=300)
                    if rc == 0: msg.append("demo does not fail with the patch: " + o[-300:])
                sh("git checkout -q -- .", r); sh(BLD, r)
            print(i, "OK" if not msg else "; ".join(msg), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
def catch(ids, props, seed="1"):
    w, r = scratch()
    try:
        for i in ids:
            d = os.path.join(S, i); P = props or [json.load(open(d + "/meta.json"))["property"]]
            rc, o = sh("git apply %s/patch.diff" % d, r)
            if rc: print(i, "does not apply"); continue
            for p in P:
                rc, o = sh("python3 check.py %s quick" % p, V, dict(os.environ, VERIF_REPO=r, VERIF_SEED=seed, VERIF_TIER="quick"))
                first = [l for l in o.split("\n") if l.strip()][:1]
                print(i, p, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(rc, rc), (first[0] if first else "")[:170], flush=True)
            sh("git checkout -q -- .", r)
    finally: shutil.rmtree(w, ignore_errors=True)
a = sys.argv[1:]; props = None; seed = "1"
if "--props" in a: k = a.index("--props"); props = a[k + 1].split(","); del a[k:k + 2]
if "--seed" in a: k = a.index("--seed"); seed = a[k + 1]; del a[k:k + 2]
if a[0] == "make": make(a[1], a[2:])
else:
    ids = a[1:] or sorted(os.listdir(S))
    verify(ids) if a[0] == "verify" else catch(ids, props, seed)
