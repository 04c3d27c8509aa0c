"""tools/try.py HARNESS k=v ... [--opt v ...] [-s split] [-b budget]: one ad-hoc configuration"""
import sys, os, json, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, time, tempfile
a = sys.argv[1:]; h = a[0]; P = {}; O = {}; split = 1; budget = 60
i = 1
while i < len(a):
    if a[i] == "-s": split = int(a[i+1]); i += 2
    elif a[i] == "-b": budget = float(a[i+1]); i += 2
    elif a[i].startswith("--"): O[a[i][2:]] = a[i+1]; i += 2
    else: k, v = a[i].split("=", 1); P[k] = v; i += 1
eng = check.engine(); w = tempfile.mkdtemp(prefix="try_"); t = time.time()
c = {"harness": h, "params": P, "opts": O, "budget": budget}
cs = [c] if split < 2 else [dict(c, split=split, part=k) for k in range(split)]
with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda z: check.run_config("try", 0, z, eng, w, 1, t + budget + 5), cs))
r = check.join(rs)[0]
print(P, "paths", r.get("paths"), "pend", r.get("pending"), "q", r.get("queries"), "asserts", r.get("asserts"), "ok", r.get("traces_ok"), "div", r.get("traces_diverged"), "sol %.1f" % r.get("solver_s", 0), "wall %.1f" % r.get("wall_s", 0))
for k in ("failed", "incomplete_reasons", "assert_undecided"):
    if r.get(k): print("  ", k, r[k])
for v in r.get("violations", []): print("  VIOL", v["id"], v["what"], "CONFIRMED" if v["confirmed"] else "unconfirmed", v["native"][:300].replace("\n", " | "), v["file"])
