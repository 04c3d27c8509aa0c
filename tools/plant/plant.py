"""plant.py FILE.py...: each file defines id, prop, edits=[(path, old, new[, count])], needs, breaks, demo (C++ main body file text).
Builds a scratch copy, checks the demo on the clean and changed tree, runs the tests, writes /verif/seeded/<id>."""
import sys, os, subprocess, shutil, json, tempfile, runpy
DEMO = '''#!/bin/bash
# builds the library's sources of the current directory with demo.cpp and runs it: 0 = behaves as specified
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap '/bin/rm -rf "$t"' EXIT
ls src/lpaggreg/sources/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=gnu++11 -w -O1 -Isrc/lpaggreg/headers -c {} -o '"$t"'/$(basename {}).o' 2>"$t/log" || { cat "$t/log"; exit 2; }
g++ -std=gnu++11 -w -O1 -Isrc/lpaggreg/headers "$here/demo.cpp" "$t"/*.o -o "$t/demo" 2>"$t/log" || { cat "$t/log"; exit 2; }
timeout 60 "$t/demo"
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <memory>
#include <vector>
#include <iostream>
#include <list>
#include <map>
#include "daggregationn.h"
#include "dpartitioner.h"
#include "haggregationn.h"
#include "hpartitioner.h"
#include "oaggregationn.h"
#include "opartitioner.h"
#include "tradeoff.h"
using namespace lpaggreg; using std::vector; using std::shared_ptr;
typedef long double LD;
static int bad = 0;
static void expect(bool ok, const char *what) { if (!ok) { printf("FAILED: %s\\n", what); bad = 1; } }
static bool close_(LD a, LD b) { return std::fabs(a - b) <= 1e-9L * (1 + std::fabs(a) + std::fabs(b)); }
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
W = "/tmp/plant/w"
def one(f):
    g = runpy.run_path(f); i = g["id"]
    if os.path.exists(W): shutil.rmtree(W)
    sh("cp -a /repo %s && git -C %s checkout -q -- ." % (W, W))
    for e in g["edits"]:
        p = os.path.join(W, "src/lpaggreg", e[0]); s = open(p).read(); n = e[3] if len(e) > 3 else 1
        if s.count(e[1]) != n: print(i, "edit matches", s.count(e[1]), "times:", e[1]); return
        open(p, "w").write(s.replace(e[1], e[2]))
    diff = sh("git -C %s diff" % W).stdout
    # lines of the original repository only
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    for line in diff.split("\n"):
        if line.startswith("-") and not line.startswith("---") and line[1:].strip(): break
    else: print(i, "note: the patch only adds lines")
    D = "/verif/seeded/" + i; T = tempfile.mkdtemp(prefix="pl_", dir="/tmp/plant")
    demo = DEMO.replace("-w -O1", "-w -O1 " + g["flags"]) if g.get("flags") else DEMO
    if g.get("r"): # R/lpaggreg.R: the C++ source it holds is compiled against stand-ins for Rcpp and RcppArmadillo
        demo = demo.replace('g++ -std=gnu++11 -w -O1 -Isrc/lpaggreg/headers "$here', 'mkdir -p "$t/i"; ln -s "$PWD/src/lpaggreg/headers" "$t/i/lpaggreg"; sed -n "/^lpaggreg_src <- \'/,/^\'/p" R/lpaggreg.R | sed "1d;\\$d" > "$t/i/rsrc.inc"\ng++ -std=gnu++11 -w -O1 -I"$t/i" -I"$here" -Isrc/lpaggreg/headers "$here')
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../harness/stubs/RcppArmadillo.h") if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../harness/stubs/RcppArmadillo.h")) else "/verif/harness/stubs/RcppArmadillo.h", T + "/RcppArmadillo.h")
    open(T + "/patch.diff", "w").write(diff); open(T + "/demo.sh", "w").write(demo); os.chmod(T + "/demo.sh", 0o755)
    open(T + "/demo.cpp", "w").write(("#include \"rsrc.inc\"\n" if g.get("r") else "") + PRE + g["demo"])
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(T + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % T, cwd="/repo")
    if r.returncode: print(i, "demo fails on the clean tree", r.returncode, r.stdout[-800:]); shutil.rmtree(T); return
    r = sh("bash %s/demo.sh" % T, cwd=W)
    if r.returncode in (0, 2): print(i, "demo passes with the patch", r.returncode, r.stdout[-800:]); shutil.rmtree(T); return
    dr = r.stdout[-200:]
    b = open("/opt/vp/build.sh").read().replace("/repo", W); t = open("/opt/vp/test.sh").read().replace("/repo", W)
    open(T + "/b.sh", "w").write(b); open(T + "/t.sh", "w").write(t.replace("/opt/vp/build.sh", T + "/b.sh").replace("/opt/vp/run_tests.py", T + "/rt.py")); open(T + "/rt.py", "w").write(open("/opt/vp/run_tests.py").read().replace("/repo", W))
    r = sh("rm -rf %s/_build; bash %s/b.sh" % (W, T))
    if r.returncode: print(i, "build fails", r.stdout[-1500:]); shutil.rmtree(T); return
    r = sh("bash %s/t.sh %s/o.json" % (T, T)); o = json.load(open(T + "/o.json"))
    if o["failed"] or len(o["passed"]) != 10: print(i, "tests fail", o); shutil.rmtree(T); return
    for x in ("b.sh", "t.sh", "o.json", "rt.py"): os.remove(T + "/" + x)
    if os.path.exists(D): shutil.rmtree(D)
    shutil.move(T, D); os.chmod(D, 0o755)
    print(i, "planted;", dr.strip().replace("\n", " | ")[:150])
for f in sys.argv[1:]: one(f)
