"""Per property: the harness runs (parameters and engine options) of each tier, and what they are bounded by."""
META = {}
TABLE = {}


def C(harness, opts=None, budget=None, split=1, **params):
    c = {"harness": harness, "params": params, "opts": opts or {}}
    if budget: c["budget"] = budget
    if split > 1: c["split"] = split
    return c


def configs(prop, tier, seed):
    t = TABLE[prop]
    return t["quick"] + (t.get("thorough", []) if tier == "thorough" else [])



def O(split=1, budget=None, **p): return C("opt", split=split, budget=budget, kind=0, **p)
def H(split=1, budget=None, **p): return C("opt", split=split, budget=budget, kind=1, **p)
def S(split=1, budget=None, **p): return C("opt", split=split, budget=budget, kind=2, **p)


# C01-C03: the answer against every alternative (fully symbolic, small) and against an independent
# dynamic program (mode=1; some cells symbolic, larger)
TABLE["C01"] = {
    "quick": [O(n=1), O(n=2), O(n=3), O(n=4), O(n=5, split=4), O(n=4, asks=2, stride=2, pk=1, pv=8), O(n=4, asks=2, stride=2, pk=1, pv=16, via=1), O(n=3, asks=3, stride=2, each=1),
              O(n=12, stride=25, mode=1), O(n=16, stride=60, mode=1, seed=2), O(n=20, stride=80, mode=1), O(n=24, stride=0, mode=1, via=1), O(n=33, stride=0, mode=1, seed=3), O(n=8, stride=16, mode=1, split=2), O(n=4, lo=0, hi=100000, via=1)],
    "thorough": [O(n=6, split=16), O(n=8, stride=12, mode=1, split=4), O(n=10, stride=14, mode=1, split=8), O(n=20, stride=60, mode=1, split=4), O(n=64, stride=0, mode=1)]}
META["C01"] = {"bounds": "sequences of 1 to 5 slices (thorough: 6) with every gain and loss symbolic in [-8,8] (n=4 also in [0,1e5]) and p symbolic in [0,1], up to 3 requests on one partitioner; 8 to 33 slices (thorough: 64) with p and a few cells symbolic, the others fixed multiples of 1/4"}
TABLE["C02"] = {
    "quick": [H(tree=k) for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15)] + [H(tree=13, mode=1), H(tree=16, mode=1), H(tree=12), H(tree=6, asks=2, pk=1, pv=8), H(tree=5, asks=2, each=1), H(tree=9, asks=2, pk=1, pv=0, via=1),
              H(gen=2, leaves=16, stride=12, mode=1), H(gen=0, leaves=12, stride=6, mode=1), H(gen=1, leaves=32, stride=20, mode=1), H(gen=2, leaves=40, stride=0, mode=1), H(gen=2, leaves=12, stride=6, mode=1, rot=2, tseed=3), H(gen=0, leaves=9, stride=3, mode=1, rot=4), H(gen=0, leaves=30, stride=0, mode=1, rot=7)],
    "thorough": [H(gen=2, leaves=16, stride=4, mode=1, split=4), H(gen=0, leaves=12, stride=3, mode=1, split=4), H(gen=1, leaves=64, stride=16, mode=1, split=4), H(gen=2, leaves=100, stride=0, mode=1), H(gen=2, leaves=20, stride=5, mode=1, rot=5, tseed=2, split=4)]}
META["C02"] = {"bounds": "17 trees of up to 13 nodes (root first, in the middle, last; single children; unbalanced) with every gain and loss symbolic in [-8,8] and p symbolic; generated trees of up to 40 leaves (thorough: 100) with p and some nodes symbolic"}
TABLE["C03"] = {
    "quick": [S(tree=0, n=1), S(tree=0, n=2), S(tree=1, n=1), S(tree=1, n=2), S(tree=2, n=2), S(tree=3, n=1), S(tree=4, n=2, stride=4, mode=1), S(tree=0, n=3, stride=2, split=2), S(tree=1, n=2, asks=2, stride=2, pk=1, pv=8), S(tree=0, n=2, asks=2, each=1, via=1),
              S(tree=11, n=4, mode=1, stride=25), S(tree=5, n=3, stride=24, mode=1), S(tree=1, n=5, mode=1, stride=32), S(tree=9, n=4, stride=48, mode=1), S(tree=16, n=6, mode=1, stride=300), S(tree=6, n=8, stride=0, mode=1, via=1), S(gen=2, leaves=6, n=6, stride=0, mode=1, tseed=2), S(tree=15, n=3, stride=24, mode=1), S(tree=0, n=12, stride=0, mode=1)],
    "thorough": [S(tree=0, n=3, split=8), S(tree=3, n=2, stride=2, mode=1, split=8), S(tree=1, n=3, stride=2, mode=1, split=8), S(tree=1, n=5, mode=1, stride=8, split=8), S(tree=5, n=3, stride=10, mode=1, split=8), S(tree=16, n=6, mode=1, stride=100, split=8), S(gen=2, leaves=8, n=8, stride=0, mode=1)]}
META["C03"] = {"bounds": "every cell symbolic in [-8,8] and p symbolic: one leaf up to 2 slices (thorough: 3), two and three leaves up to 2 slices, four-node trees at one slice; larger trees (up to 13 nodes, 12 slices) with p and some cells symbolic"}
# C04: special values 1-3 put NaN/+Inf/-Inf in a gain at a symbolic cell, 4-6 in a gain and a loss, 7-9 in both
SPEC = range(1, 10)
TABLE["C04"] = {
    "quick": [O(n=n, mode=2) for n in (1, 2, 3, 4)] + [O(n=3, mode=2, special=k, stride=2) for k in SPEC] + [O(n=5, mode=2, special=k, specials=2, stride=0) for k in (1, 6)] + [O(n=24, mode=2, stride=0), O(n=6, mode=2, stride=0, zero=1, special=1, everywhere=1), O(n=12, stride=30, mode=2)] +
             [H(tree=k, mode=2) for k in (0, 2, 3, 4, 6, 8, 9, 10, 13, 14, 15)] + [H(tree=k, mode=2, special=s, stride=2) for k in (4, 9) for s in (1, 2, 3, 7, 8)] + [H(tree=13, mode=2, special=s, specials=2, stride=0) for s in (1, 8)] + [H(gen=2, leaves=40, stride=0, mode=2), H(gen=2, leaves=12, stride=6, mode=2, rot=2)] +
             [S(tree=k, n=2, mode=2) for k in (0, 1)] + [S(tree=1, n=2, mode=2, special=s, stride=4) for s in SPEC] + [S(tree=4, n=2, mode=2, stride=0, special=s) for s in (1, 2, 7)] + [S(tree=15, n=3, mode=2, stride=40), S(tree=16, n=4, mode=2, stride=0), S(tree=11, n=4, mode=2, stride=80), S(tree=2, n=2, mode=2), S(tree=9, n=3, mode=2, stride=24)],
    "thorough": [O(n=5, mode=2, split=4), O(n=4, mode=2, special=1, specials=2, stride=3, split=4), H(tree=16, mode=2, special=1, specials=2, stride=3, split=4), S(tree=0, n=3, mode=2, split=8), S(tree=16, n=6, mode=2, stride=0), S(tree=5, n=3, mode=2, special=2, stride=0, split=4), S(tree=11, n=4, mode=2, stride=40, split=8)]}
META["C04"] = {"bounds": "as C01-C03 for finite qualities; not-a-number, +Inf, -Inf at one or two cells of symbolic position (3 to 6 slices, trees up to 11 nodes)"}
TABLE["C05"] = {
    "quick": [O(n=n, mode=3) for n in (1, 2, 3, 4)] + [O(n=4, mode=3, asks=2, each=1, stride=2), O(n=12, mode=3, stride=25), O(n=24, mode=3, stride=0), O(n=4, mode=3, lo=0, hi=1, scale=9)] +
             [H(tree=k, mode=3) for k in (0, 1, 2, 4, 6, 8, 9, 10, 11, 13, 14, 16)] + [H(tree=5, mode=3, asks=2, each=1), H(gen=2, leaves=24, mode=3, stride=24), H(gen=0, leaves=10, mode=3, stride=4, rot=3)] +
             [S(tree=0, n=2, mode=3), S(tree=1, n=2, mode=3), S(tree=2, n=2, mode=3), S(tree=4, n=2, mode=3, stride=4), S(tree=1, n=2, mode=3, asks=2, each=1, stride=2), S(tree=11, n=4, mode=3, stride=80), S(tree=6, n=3, mode=3, stride=24), S(tree=16, n=5, mode=3, stride=0)],
    "thorough": [O(n=5, mode=3, split=4), S(tree=0, n=3, mode=3, split=4), S(tree=15, n=3, mode=3, stride=10, split=4), H(gen=2, leaves=16, mode=3, stride=4, split=4)]}
META["C05"] = {"bounds": "as C01-C03; part qualities compared exactly, partition sums up to 1e-6"}


def Q(kind, **p): return C("qual", kind=kind, **p)
# C06-C08: every cell symbolic (zeros fork), plus larger data kept away from zero, plus larger data with zeros
TABLE["C06"] = {
    "quick": [Q(0, mode=0, nd=1, n=n) for n in (1, 2, 3, 5)] + [Q(0, mode=0, nd=2, a=2, n=2), Q(0, mode=0, nd=2, a=2, n=3), Q(0, mode=0, nd=3, a=2, b=2, n=2, set=1), Q(0, mode=0, nd=4, a=1, b=2, c=2, n=2), Q(0, mode=0, nd=2, a=3, n=2, hi=1),
              Q(0, mode=0, nd=1, n=16, lo=1), Q(0, mode=0, nd=2, a=3, n=8, lo=1), Q(0, mode=0, nd=3, a=2, b=3, n=6, lo=1), Q(0, mode=0, nd=3, a=3, b=2, n=4, lo=1, set=1), Q(0, mode=0, nd=4, a=2, b=3, c=2, n=5, lo=1), Q(0, mode=0, nd=4, a=3, b=2, c=4, n=3, lo=1, set=1), Q(0, mode=0, nd=3, n=24, stride=30, zero=1), Q(0, mode=0, nd=2, a=4, n=40, stride=0, zero=1)],
    "thorough": [Q(0, mode=0, nd=2, a=2, n=4), Q(0, mode=0, nd=4, a=2, b=2, c=2, n=12, lo=1), Q(0, mode=0, nd=1, n=40, lo=1), Q(0, mode=0, nd=1, n=8)]}
META["C06"] = {"bounds": "1 to 4 dimensions; values symbolic in [0,100] (zeros included) for up to 5 slices / 8 values, in [1/1024,100] for up to 16 slices (thorough: 40), some of them symbolic and some zero for 40 slices"}
TABLE["C07"] = {
    "quick": [Q(1, mode=0, nd=1, tree=k) for k in (0, 1, 2, 3, 4, 9)] + [Q(1, mode=0, nd=2, tree=k) for k in (1, 2)] + [Q(1, mode=0, nd=2, a=2, tree=k, lo=1) for k in range(3, 17)] + [Q(1, mode=0, nd=1, tree=k, set=1, zero=1, stride=3) for k in (5, 8, 10, 14, 15)] +
             [Q(1, mode=0, nd=3, a=2, b=2, tree=1), Q(1, mode=0, nd=3, a=2, b=3, tree=13, lo=1), Q(1, mode=0, nd=3, a=3, b=2, tree=4, lo=1, set=1), Q(1, mode=0, nd=4, a=2, b=3, c=2, tree=9, lo=1), Q(1, mode=0, nd=4, a=3, b=2, c=4, tree=15, lo=1, set=1), Q(1, mode=0, nd=4, a=1, b=2, c=2, tree=1), Q(1, mode=0, nd=4, gen=2, leaves=12, lo=1), Q(1, mode=0, nd=2, gen=0, leaves=20, lo=1, rot=5), Q(1, mode=0, nd=1, gen=1, leaves=64, stride=20, zero=1), Q(1, mode=0, nd=2, gen=2, leaves=100, stride=0, zero=1)],
    "thorough": [Q(1, mode=0, nd=2, tree=k) for k in (3, 4, 9)] + [Q(1, mode=0, nd=1, tree=k) for k in (5, 7, 11, 15)] + [Q(1, mode=0, nd=2, gen=2, leaves=60, lo=1, tseed=4)]}
META["C07"] = {"bounds": "17 trees of up to 13 nodes and generated ones of up to 100 leaves, 1 to 4 dimensions; values symbolic in [0,100] (zeros included) for up to 4 leaves, in [1/1024,100] beyond, partly symbolic for 64 leaves and more"}
TABLE["C08"] = {
    "quick": [Q(2, mode=0, nd=2, tree=k, n=n) for k, n in ((0, 1), (0, 2), (1, 2), (2, 2), (0, 4), (3, 1))] + [Q(2, mode=0, nd=2, tree=k, n=3, lo=1) for k in range(0, 17)] + [Q(2, mode=0, nd=3, a=2, tree=1, n=1), Q(2, mode=0, nd=3, a=2, tree=0, n=2, set=1), Q(2, mode=0, nd=3, a=3, tree=4, n=4, lo=1, set=1), Q(2, mode=0, nd=4, a=2, b=3, tree=16, n=4, lo=1), Q(2, mode=0, nd=4, a=3, b=2, tree=9, n=3, lo=1, set=1), Q(2, mode=0, nd=4, a=2, b=1, tree=0, n=2),
              Q(2, mode=0, nd=2, tree=15, n=3, stride=4, zero=1), Q(2, mode=0, nd=3, a=2, gen=2, leaves=12, n=8, stride=40, zero=1), Q(2, mode=0, nd=2, gen=0, leaves=8, n=8, lo=1, rot=3), Q(2, mode=0, nd=2, tree=13, n=16, stride=0, zero=1)],
    "thorough": [Q(2, mode=0, nd=2, tree=1, n=3), Q(2, mode=0, nd=2, tree=3, n=2), Q(2, mode=0, nd=4, gen=2, leaves=12, n=6, lo=1)]}
META["C08"] = {"bounds": "17 trees of up to 13 nodes and generated ones of 12 leaves, 1 to 16 slices, 2 to 4 dimensions; values symbolic in [0,100] (zeros included) for up to 4 leaf-slices per attribute, in [1/1024,100] beyond, partly symbolic for the largest"}
R2, R3, R4, R6 = "1,2", "1,2,3,3/2", "1,2,3,3/2,4,4/3", "1,2,3,3/2,4,4/3,5,5/2,5/3,5/4,6,6/5"
def L9(kind, ratios, **p): return C("qual", {"logratios": ratios}, kind=kind, mode=1, **p)
TABLE["C09"] = {
    "quick": [L9(0, R2, nd=1, n=2), L9(0, R3, nd=1, n=3), L9(0, R2, nd=2, n=2), L9(0, R4, nd=1, n=4, lo=1), L9(0, R3, nd=2, n=3, lo=1), L9(0, R3, nd=3, n=2, lo=1), L9(1, R3, nd=1, tree=2), L9(1, R3, nd=1, tree=4), L9(1, R3, nd=1, tree=9), L9(1, R4, nd=1, tree=5, lo=1), L9(1, R4, nd=1, tree=15, lo=1), L9(1, R2, nd=2, tree=1), L9(2, R2 + ",4", nd=2, tree=1, n=2, lo=1), L9(2, R3, nd=2, tree=0, n=3)] +
             [Q(0, mode=4, nd=1, n=6), Q(0, mode=4, nd=2, n=4), Q(1, mode=4, nd=2, tree=13), Q(1, mode=4, nd=1, tree=15), Q(2, mode=4, nd=3, tree=4, n=3), Q(2, mode=4, nd=2, tree=16, n=4), Q(0, mode=1, nd=2, n=24, stride=0, zero=1), Q(1, mode=1, nd=2, gen=2, leaves=40, stride=0, zero=1), Q(2, mode=1, nd=3, gen=2, leaves=8, n=6, stride=0, zero=1)],
    "thorough": [L9(0, R6, nd=1, n=5, lo=1), L9(1, R6, nd=1, tree=11, lo=1), L9(1, R4, nd=1, tree=5), L9(0, R4, nd=1, n=4)]}
META["C09"] = {"bounds": "values symbolic in [0,100] (zeros included) up to 3 slices or leaves, in [1/1024,100] for 4 (thorough: 5); equal values: up to 8 leaves by 4 slices", "assumptions": ["convexity facts about x*log2(x) are given to the solver as lemmas for the size ratios that occur"]}
TABLE["C10"] = {
    "quick": [Q(k, mode=3, root=0, again=a, **z) for k, z in ((0, dict(n=4)), (0, dict(n=1)), (1, dict(tree=4)), (1, dict(tree=13)), (1, dict(tree=6)), (2, dict(tree=1, n=3)), (2, dict(tree=4, n=2)), (2, dict(tree=9, n=2))) for a in (0, 1)] +
             [Q(k, mode=3, root=r, again=a, **z) for k, z in ((0, dict(n=1)), (0, dict(n=2)), (0, dict(n=4, stride=3)), (1, dict(tree=2)), (1, dict(tree=4, stride=2)), (1, dict(tree=13, stride=3)), (1, dict(tree=6, stride=2)), (2, dict(tree=1, n=3, stride=5)), (2, dict(tree=4, n=2, stride=5)), (2, dict(tree=0, n=2, stride=2)), (2, dict(tree=9, n=2, stride=5))) for r in (1, 2, 3) for a in (0, 1) if not (a and r < 3)] +
             [Q(0, mode=2, nd=2, n=4, lo=1, whole=1), Q(1, mode=2, nd=2, tree=14, lo=1, whole=1), Q(1, mode=2, nd=1, tree=6, lo=1, whole=1, again=1), Q(2, mode=2, nd=3, tree=4, n=2, lo=1, whole=1), Q(2, mode=2, nd=2, tree=1, n=2, lo=1, whole=1, again=1), Q(0, mode=2, nd=1, n=2), Q(1, mode=2, nd=1, tree=1), Q(2, mode=2, nd=2, tree=0, n=2), Q(0, mode=2, nd=1, n=20, stride=0, zero=1), Q(1, mode=2, nd=2, gen=2, leaves=40, stride=0, zero=1, rot=3), Q(2, mode=2, nd=3, tree=16, n=8, stride=0, zero=1)],
    "thorough": [Q(0, mode=2, nd=2, n=8, lo=1, whole=1), Q(2, mode=2, nd=3, tree=16, n=3, lo=1, whole=1)]}
META["C10"] = {"bounds": "caller-supplied qualities symbolic in [-8,8] with the whole's zero or at least 1/8 in magnitude, up to 11 nodes and 4 slices; computed ones from data in [1/1024,100] with the whole's at least 0.01, or from fully symbolic data of two elements"}


def A(kind, **p): return C("agg", kind=kind, lo=-102400, **p)
TABLE["C17"] = {"quick": [A(0, nd=nd, n=n, set=s) for nd in (1, 2, 3, 4) for n, s in ((1, 0), (3, 1), (6, 0))] + [A(0, nd=3, a=3, b=2, n=4), A(0, nd=3, a=2, b=3, n=5, set=1), A(0, nd=4, a=2, b=3, c=4, n=3), A(0, nd=4, a=4, b=3, c=2, n=3), A(0, nd=2, a=5, n=8)] + [A(0, nd=nd, n=30, random=r) for nd in (1, 2, 3, 4) for r in (1, 2)], "thorough": [A(0, nd=nd, n=10) for nd in (1, 2, 3, 4)]}
META["C17"] = {"bounds": "every partition of up to 8 slices (thorough: 10), sample partitions of 30 slices; 1 to 4 dimensions; every value symbolic in [-100,100]"}
TABLE["C18"] = {"quick": [A(1, nd=nd, tree=k, set=k % 2) for nd in (1, 2, 3, 4) for k in (0, 2, 4, 5, 8, 9, 10, 13, 14, 15, 16)] + [A(1, nd=3, a=3, b=2, tree=4), A(1, nd=3, a=2, b=3, tree=9), A(1, nd=4, a=2, b=3, c=4, tree=4), A(1, nd=4, a=4, b=3, c=2, tree=15)] + [A(1, nd=nd, gen=2, leaves=30, random=r, tseed=r) for nd in (1, 2, 3, 4) for r in (1, 2, 3)] + [A(1, nd=2, gen=0, leaves=8, rot=3)], "thorough": [A(1, nd=nd, gen=1, leaves=8) for nd in (1, 2, 3, 4)] + [A(1, nd=2, gen=0, leaves=12)]}
META["C18"] = {"bounds": "every partition of trees of up to 16 nodes, sample partitions of trees of 30 leaves; 1 to 4 dimensions; every value symbolic in [-100,100]"}
TABLE["C19"] = {"quick": [A(2, nd=nd, tree=k, n=n, set=k % 2) for nd in (2, 3, 4) for k, n in ((0, 3), (1, 3), (2, 2), (4, 2), (9, 2), (14, 2))] + [A(2, nd=4, a=3, b=2, tree=4, n=2), A(2, nd=4, a=2, b=4, tree=1, n=3), A(2, nd=3, a=3, tree=15, n=2), A(2, nd=3, a=2, tree=1, n=4), A(2, nd=2, tree=0, n=6)] + [A(2, nd=nd, tree=16, n=6, random=r) for nd in (2, 3, 4) for r in (1, 2, 3)] + [A(2, nd=nd, gen=2, leaves=12, n=8, random=r, rot=2) for nd in (2, 3, 4) for r in (4, 5)], "thorough": [A(2, nd=nd, tree=15, n=3) for nd in (2, 3, 4)] + [A(2, nd=2, tree=1, n=5)]}
META["C19"] = {"bounds": "every partition of up to 7 nodes by 2 slices or 3 nodes by 4 slices, sample partitions of up to 12 leaves by 8 slices; 2 to 4 dimensions; every value symbolic in [-100,100]"}
def ST(**p): return C("store", **p)
TABLE["C20"] = {"quick": [ST(kind=0, nd=nd, n=n, set=s, writes=2) for nd in (1, 2, 3, 4) for n in (1, 3) for s in (0, 1, 2)] + [ST(kind=1, nd=nd, tree=k, set=s, writes=2) for nd in (1, 2, 3, 4) for k in (4, 9) for s in (0, 1, 2)] + [ST(kind=2, nd=nd, tree=4, n=n, set=s, writes=1) for nd in (2, 3, 4) for n in (1, 2) for s in (0, 1, 2)] +
                [ST(kind=k, nd=4, a=a, b=b, c=c, n=2, tree=1, set=s, writes=1) for k in (0, 1, 2) for a, b, c in ((2, 3, 4), (4, 3, 2), (1, 3, 2)) for s in (0, 1)] + [ST(kind=k, nd=3, a=a, b=b, n=4, tree=2, set=s, writes=1) for k in (0, 1, 2) for a, b in ((3, 5), (5, 3)) for s in (0, 1)]}
META["C20"] = {"bounds": "every container type; up to 24 attribute combinations, 4 slices, 5 leaves; every value symbolic in [-100,100]; one or two further writes at symbolic coordinates"}
TABLE["C21"] = {"quick": [ST(mode=1, type=t, n=n) for t in (0, 1, 2, 3) for n in (1, 2, 3, 4, 7, 12)] + [ST(mode=1, type=t, n=n, filled=1) for t in (0, 1, 2) for n in (1, 3, 8)] + [ST(mode=1, type=0, n=33), ST(mode=1, type=3, n=20)], "thorough": [ST(mode=1, type=t, n=n) for t in (0, 3) for n in range(13, 40, 3)]}
META["C21"] = {"bounds": "sizes 1 to 33 (thorough: 37), element types double, int, long double and the two object types; the written cell and value symbolic"}
def TR(**p): return C("tree", **p)
TABLE["C16"] = {"quick": [TR(nodes=n, leaves=l) for n, l in ((2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 2), (5, 3), (5, 4), (6, 3), (6, 4), (7, 4), (7, 5), (7, 3))] + [TR(tree=k) for k in range(17)] + [TR(gen=g, leaves=l, rot=r, tseed=r) for g in (0, 1, 2) for l in (9, 20, 60) for r in (0, 1, 3, 5)], "thorough": [TR(nodes=8, leaves=5), TR(nodes=8, leaves=4), TR(nodes=7, leaves=2)]}
META["C16"] = {"bounds": "every tree of up to 7 nodes with 3 to 5 leaves (and smaller; thorough: 8 nodes) with symbolic parents; generated trees of up to 60 leaves"}


def W(mode, kind, split=1, **p): return C("sweep", split=split, mode=mode, kind=kind, **p)
def small(mode, **x):
    return [W(mode, 0, n=1, th=64, **x), W(mode, 0, n=2, th=64, **x), W(mode, 0, n=3, th=256, **x), W(mode, 1, tree=0, th=64, **x), W(mode, 1, tree=1, th=64, **x), W(mode, 1, tree=4, th=256, **x), W(mode, 1, tree=9, th=256, **x), W(mode, 2, tree=0, n=1, th=64, **x), W(mode, 2, tree=1, n=1, th=64, **x), W(mode, 2, tree=0, n=2, th=256, stride=3, **x), W(mode, 2, tree=1, n=2, th=256, stride=8, **x)]
def large(mode, **x):
    return [W(mode, 0, n=8, stride=0, th=16, **x), W(mode, 0, n=10, stride=40, th=64, **x), W(mode, 1, gen=2, leaves=16, stride=0, th=16, **x), W(mode, 1, tree=13, stride=15, th=64, **x), W(mode, 2, tree=5, n=4, stride=0, th=16, **x), W(mode, 2, tree=9, n=3, stride=50, th=64, **x)]
TABLE["C11"] = {"quick": small(11) + [dict(c, params=dict(c["params"], dp=1)) for c in large(11)] + [W(11, 0, n=2, th=100, third=1), W(11, 0, n=3, th=128, min=256, max=640), W(11, 1, tree=4, th=200, min=100, max=900), W(11, 1, tree=2, th=0, min=512, max=512), W(11, 0, n=12, stride=0, th=1, lo=0, dp=1), W(11, 1, gen=2, leaves=24, stride=0, th=1, lo=0, dp=1), W(11, 2, tree=15, n=4, stride=0, th=8, lo=0, dp=1)], "thorough": [W(11, 0, n=3, th=64, split=8), W(11, 1, tree=4, th=32, split=8), W(11, 2, tree=0, n=2, th=256, split=8)]}
META["C11"] = {"bounds": "thresholds 1/16 to 1/4 with every quality symbolic in [-8,8] up to 3 slices, 5 nodes; thresholds down to 1/1024 on larger problems with few or no symbolic cells; ranges [0,1], inner ranges, single points"}
TABLE["C12"] = {"quick": small(12) + large(12) + [W(12, 0, n=2, th=64, runs=2), W(12, 1, tree=2, th=128, runs=2, before=1), W(12, 0, n=2, th=256, runs=2, th0=64, min0=0, max0=1024), W(12, 0, n=3, th=256, runs=2, stride=6, th0=64, min0=0, max0=1024), W(12, 2, tree=1, n=3, stride=20, th=64, runs=2), W(12, 0, n=2, symth=1), W(12, 0, n=2, th=100, third=1, before=1), W(12, 0, n=3, th=128, min=256, max=640), W(12, 1, tree=4, th=200, min=100, max=900), W(12, 0, n=2, min=512, max=512)], "thorough": [W(12, 0, n=3, th=64, split=8), W(12, 1, tree=4, th=32, split=8), W(12, 0, n=3, th=256, runs=2)]}
META["C12"] = {"bounds": "as C11; up to two earlier sweeps with other ranges"}
TABLE["C13"] = {"quick": small(13) + [W(13, 0, n=2, narrow=3, exp=40), W(13, 0, n=2, narrow=3, exp=140, off=100), W(13, 1, tree=1, narrow=4, exp=149), W(13, 1, tree=5, narrow=4, exp=140, stride=2), W(13, 2, tree=0, n=1, narrow=3, exp=40), W(13, 2, tree=0, n=2, narrow=2, exp=60, stride=2)] + [W(13, k, stride=0, th=0, **z) for k, z in ((0, dict(n=6)), (1, dict(tree=13)), (2, dict(tree=4, n=3)))] + [W(13, k, stride=0, exp=e, down=d, **z) for k, z in ((0, dict(n=6)), (0, dict(n=12, seed=4)), (1, dict(tree=13)), (1, dict(gen=2, leaves=12)), (2, dict(tree=4, n=3)), (2, dict(tree=1, n=5))) for e, d in ((26, 7), (40, 3), (149, 7))] + [W(13, k, min=m, max=m, **z) for k, z in ((0, dict(n=3)), (1, dict(tree=4)), (2, dict(tree=1, n=1))) for m in (0, 512, 1024)] + [W(13, 0, n=1, exp=60), W(13, 0, n=2, symth=1)], "thorough": [W(13, 0, n=3, narrow=5, exp=40), W(13, 2, tree=0, n=2, exp=40, narrow=2)]}
META["C13"] = {"bounds": "thresholds from 1/4 down to 2^-149 and 0; fully symbolic qualities with range [0,1] and thresholds from 1/16, or with ranges of a few adjacent floats and the smallest thresholds; fixed qualities with range [0,1] and the smallest thresholds", "assumptions": ["a run of more than 60 million instructions or a native run of over 10 s counts as not terminating"]}
TABLE["C14"] = {"quick": [W(14, 0, n=1, th=64), W(14, 0, n=2, th=128, before=1), W(14, 0, n=3, th=256, stride=3), W(14, 1, tree=1, th=128, before=1), W(14, 1, tree=3, th=256, stride=3), W(14, 2, tree=0, n=1, th=128, before=1), W(14, 2, tree=0, n=2, th=256, stride=5), W(14, 0, n=2, th=128, hi=1000, lo=100), W(14, 0, n=2, th=128, lo=0, hi=1), W(14, 0, n=2, th=128, runs=2, use=1), W(14, 0, n=2, th=128, min=256, max=640)] + [W(14, k, stride=0, th=4, before=1, **z) for k, z in ((0, dict(n=12, lo=0)), (0, dict(n=12, lo=0, hi=1)), (0, dict(n=16, lo=100, hi=1000)), (1, dict(tree=13, lo=0, hi=1)), (1, dict(gen=2, leaves=24, lo=0)), (2, dict(tree=4, n=4, lo=0, hi=1)), (2, dict(tree=15, n=3, lo=0)), (0, dict(n=6, lo=0, hi=1, scale=9)))], "thorough": [W(14, 0, n=3, th=256, split=8), W(14, 1, tree=3, th=256, split=8)]}
META["C14"] = {"bounds": "qualities symbolic in [-8,8], [0,1], [100,1000] up to 2 slices or leaves, partly symbolic for 3; fixed ones for larger problems"}
TABLE["C15"] = {"quick": small(15) + large(15) + [W(15, 0, n=2, th=128, before=1, runs=2, use=1), W(15, 1, tree=1, th=128, before=1), W(15, 2, tree=0, n=1, th=128, before=1), W(15, 0, n=2, th=128, min=256, max=640)] + [W(15, k, stride=0, th=1, before=1, lo=0, hi=1, **z) for k, z in ((0, dict(n=12)), (1, dict(gen=2, leaves=24)), (2, dict(tree=15, n=3)))], "thorough": [W(15, 0, n=3, th=64, split=8), W(15, 1, tree=4, th=64, split=8)]}
META["C15"] = {"bounds": "as C11"}


def AR(**p): return C("arith", **p)
TABLE["C22"] = {"quick": [AR(mode=0), AR(mode=0, neg=1), AR(mode=1), AR(mode=1, lo=0), AR(mode=1, lo=0, hi=1), AR(mode=1, lo=-1000, hi=1000)] + [AR(mode=2, neg=k, minus=k % 2, up=u) for k in (0, 1, 2, 3) for u in (0, 6)] + [AR(mode=2, downs=d, gbig=g, lbig=1 - g, minus=m, neg=n) for d in (0, 6) for g in (0, 1) for m in (0, 1) for n in (0, 3)]}
META["C22"] = {"bounds": "gains and losses symbolic reals: arithmetic in [-50,50] with non-zero divisors, equality laws in [-8,8], [0,1], [-1000,1000], the precision of equality at magnitudes 1e-6 to 1e9 with gain and loss up to a factor 1000 apart (agreeing to 1e-14, differing by more than 1e-12)"}
TABLE["C23"] = {"quick": [AR(mode=3)] + [AR(mode=3, pn=k) for k in (0, 4, 8, 11, 16)] + [AR(mode=4, count=2), AR(mode=4, count=2, lo=0), AR(mode=4, count=3), AR(mode=4, count=3, grid=1)], "thorough": [AR(mode=4, count=4, grid=1, lo=0)]}
META["C23"] = {"bounds": "values, gains and losses symbolic reals (in [-50,50] for arithmetic with non-zero divisors, [-9,9] for ordering), p symbolic in [0,1]; ordering over any three trade-offs"}


def OV(mode, **p): return C("over", mode=mode, **p)
TABLE["C24"] = {
    # 0: one slice, 1: one leaf, 2: two leaves, 3: an extra dimension of extent 1, 4: reordered attributes (qualities, all p at once)
    "quick": [OV(0, nd=1, tree=k) for k in (0, 1, 2)] + [OV(0, nd=nd, tree=k, lo=1) for nd in (1, 2, 3) for k in (3, 4, 9, 13, 15)] + [OV(1, nd=1, n=n) for n in (1, 2, 3)] + [OV(1, nd=nd, n=n, lo=1) for nd in (1, 2, 3) for n in (4, 6)] + [OV(2, nd=nd, lo=l) for nd in (1, 2, 3, 4) for l in (0, 1) if nd < 4 or l] +
             [OV(3, kind=k, nd=nd, where=w, lo=1, n=3, tree=4) for k in (0, 1, 2) for nd in (2, 3) for w in (0, 1) if not (k == 2 and nd == 2 and w)] + [OV(4, kind=k, nd=nd, lo=1, n=3, tree=4, a=3, **z) for k in (0, 1, 2) for nd in (3, 4) for z in (dict(swap=1), dict(turn=1)) if not (k == 2 and nd == 3 and "swap" in z)] +
             # the best criterion for every p: symbolic qualities, then from data
             [OV(5, tree=k) for k in (0, 1, 4, 9, 13)] + [OV(6, n=n) for n in (1, 2, 3)] + [OV(6, n=4, stride=4), OV(7)] + [OV(m, nd=nd, n=4, tree=t, stride=0, norm=z) for m, t in ((10, 4), (10, 13), (11, 0), (12, 1)) for nd in (1, 3) for z in (0, 1)],
    "thorough": [OV(5, tree=16), OV(6, n=4), OV(0, nd=2, tree=4), OV(1, nd=2, n=5), OV(0, nd=3, gen=2, leaves=20, lo=1), OV(1, nd=3, n=16, lo=1)]}
META["C24"] = {"bounds": "qualities: data symbolic in [0,100] for up to three leaves or slices and in [1/1024,100] for trees of up to 11 nodes, 6 slices, 1 to 4 dimensions; criteria: p symbolic, with symbolic qualities for trees of up to 11 nodes and 3 slices (4 partly) and with fixed data"}
def HI(mode, **p): return C("hist", mode=mode, **p)
TABLE["C25"] = {
    "quick": [HI(0, kind=0, n=1), HI(0, kind=0, n=2), HI(0, kind=0, n=3, stride=3, pa=4, pb=12), HI(0, kind=1, tree=1), HI(0, kind=1, tree=4, stride=2, th=512), HI(0, kind=2, tree=0, n=1), HI(0, kind=2, tree=0, n=2, stride=3, sweep=0), HI(0, kind=0, n=8, stride=0), HI(0, kind=1, tree=13, stride=0), HI(0, kind=2, tree=5, n=3, stride=0)] +
             [HI(1, kind=0, nd=nd, n=4, tree=4, stride=0, norm=z) for nd in (1, 2, 3, 4) for z in (0, 1)] + [HI(1, kind=1, nd=nd, tree=13, stride=0, norm=z) for nd in (1, 2, 3, 4) for z in (0, 1)] + [HI(1, kind=2, nd=nd, n=3, tree=4, stride=0, norm=z) for nd in (2, 3, 4) for z in (0, 1)] +
             [HI(2, kind=k, nd=2, tree=t, n=n, norm=z, set=s, lo=1) for k, t, n in ((0, 0, 3), (1, 4, 1), (2, 1, 2)) for z in (0, 1, 2) for s in (0, 1)] + [HI(2, kind=0, nd=1, n=2), HI(2, kind=1, nd=1, tree=1), HI(2, kind=2, nd=3, tree=4, n=3, stride=0, norm=1), HI(2, kind=1, nd=3, gen=2, leaves=9, stride=0, norm=2), HI(2, kind=0, nd=3, n=6, stride=0, norm=1)],
    "thorough": [HI(0, kind=0, n=3, pa=4, pb=12), HI(0, kind=1, tree=4, th=512), HI(0, kind=2, tree=1, n=2, stride=3)]}
META["C25"] = {"bounds": "histories of fixed length (requests for two parameters, a sweep, aggregates, repeated; compute, change one value or normalize, recompute) on up to 3 slices or 5 nodes with symbolic qualities, up to 4 slices or leaves with symbolic data in [1/1024,100] (the changed value and its place symbolic), larger ones with fixed data"}
def EQ(mode, **p): return C("eq", mode=mode, **p)
TABLE["C26"] = {
    "quick": [EQ(0, kind=k, sizes=s, sameq=q) for k in (0, 1, 2) for s in (0, 1) for q in (0, 1)] + [EQ(1, kind=0, n=n, q=q) for n in (1, 2, 3, 4, 5) for q in (0, 1, 2)] + [EQ(1, kind=0, n=3, n2=4), EQ(1, kind=0, n=4, n2=3), EQ(1, kind=0, n=4, p1=3, p2=9)] + [EQ(1, kind=1, tree=k, q=q) for k in (0, 1, 2, 4, 5, 9, 13, 14) for q in (0, 1, 2)] + [EQ(1, kind=1, tree=4, p1=3, p2=9)] +
             [EQ(1, kind=2, tree=k, n=n, q=q) for k, n in ((0, 2), (1, 2), (0, 3), (4, 1)) for q in (0, 1, 2)] + [EQ(1, kind=2, tree=4, n=2), EQ(1, kind=2, tree=1, n=2, p1=3, p2=9), EQ(1, kind=2, tree=16, n=5, random=3), EQ(1, kind=2, tree=9, n=4, random=4)],
    "thorough": [EQ(1, kind=0, n=7), EQ(1, kind=1, tree=16), EQ(1, kind=2, tree=1, n=3)]}
META["C26"] = {"bounds": "two parts with any extents (symbolic), and any two partitions of up to 5 slices (thorough: 7), of trees of up to 11 nodes, of up to 5 nodes by 2 slices; sample pairs of larger ones; qualities equal, different or symbolic"}
def MO(mode, split=1, **p): return C("mono", mode=mode, split=split, **p)
TABLE["C27"] = {
    "quick": [MO(0, kind=0, n=1), MO(0, kind=0, n=2), MO(0, kind=0, n=3, split=2), MO(0, kind=0, n=2, reverse=1), MO(0, kind=0, n=2, third=1), MO(0, kind=0, n=4, stride=6, split=2), MO(0, kind=1, tree=1), MO(0, kind=1, tree=4, split=2), MO(0, kind=1, tree=4, third=1, stride=2), MO(0, kind=1, tree=13, stride=6), MO(0, kind=1, tree=9, stride=2), MO(0, kind=2, tree=1, n=1), MO(0, kind=2, tree=0, n=2, stride=2, split=2), MO(0, kind=2, tree=1, n=2, stride=6), MO(0, kind=0, n=10, stride=0), MO(0, kind=1, gen=2, leaves=24, stride=0), MO(0, kind=2, tree=5, n=4, stride=0), MO(0, kind=0, n=12, stride=0, lo=0), MO(0, kind=2, tree=15, n=3, stride=0, lo=0)] +
             [W(27, 0, n=2, th=64), W(27, 0, n=3, th=256), W(27, 1, tree=1, th=64), W(27, 1, tree=4, th=256), W(27, 2, tree=0, n=1, th=64), W(27, 2, tree=1, n=2, th=256, stride=8), W(27, 0, n=12, stride=0, th=1, lo=0), W(27, 1, gen=2, leaves=24, stride=0, th=1, lo=0), W(27, 2, tree=15, n=4, stride=0, th=8, lo=0)],
    "thorough": [MO(0, kind=0, n=4, stride=2, split=8, den=8), MO(0, kind=1, tree=5, split=8, den=8), MO(0, kind=2, tree=0, n=2, split=8), MO(0, kind=2, tree=1, n=2, stride=3, split=8, den=8)]}
META["C27"] = {"bounds": "p and q any two different multiples of 1/16 (also a third of them), every quality symbolic in [-8,8] for up to 3 slices or 5 nodes, partly symbolic for larger ones; along sweeps with thresholds from 1/4 to 1/1024"}
TABLE["C28"] = {
    "quick": [MO(1, kind=0, n=n) for n in (1, 2, 3)] + [MO(1, kind=0, n=4, split=2), MO(1, kind=0, n=3, den=16)] + [MO(1, kind=1, tree=k) for k in (0, 1, 2, 3, 4, 9)] + [MO(1, kind=1, tree=6, stride=2), MO(1, kind=1, tree=15, stride=2), MO(1, kind=2, tree=0, n=1), MO(1, kind=2, tree=1, n=1), MO(1, kind=2, tree=0, n=2), MO(1, kind=2, tree=1, n=2, stride=3), MO(1, kind=2, tree=3, n=1)] +
             [MO(1, kind=0, n=4, same=1, den=2), MO(1, kind=1, tree=13, same=1, den=2, stride=3), MO(1, kind=2, tree=1, n=2, same=1, den=2, stride=2)] + [MO(1, kind=k, stride=0, dp=1, lo=-2, hi=2, seed=s, **z) for k, z in ((0, dict(n=10)), (1, dict(gen=2, leaves=24)), (2, dict(tree=5, n=4)), (1, dict(gen=0, leaves=9, rot=3))) for s in (1, 2)] + [MO(1, kind=k, stride=0, dp=1, plain=4, ratio=r, **z) for k, z in ((0, dict(n=10)), (1, dict(gen=2, leaves=24)), (2, dict(tree=5, n=4))) for r in (1, 2)],
    "thorough": [MO(1, kind=0, n=5, split=8, den=2), MO(1, kind=1, tree=13, split=4, den=2), MO(1, kind=2, tree=1, n=2, split=8, den=2, stride=2)]}
META["C28"] = {"bounds": "every quality symbolic in [-4,4] for up to 4 slices, 5 nodes, one leaf by 2 slices, partly symbolic for larger ones, p any multiple of 1/4 (also of 1/16); larger problems with small integer qualities full of ties", "assumptions": ["the order of equal criteria is judged in exact arithmetic"]}


# ------------------------------------------------------------------ large instances
# shape=1: two planted partitions (see common.h) so that long parts, wide nodes and deep trees are part of the answer
def PL(kind, **p): return C("opt", kind=kind, shape=1, **p)
def big(mode):
    o = [PL(0, mode=mode, n=40), PL(0, mode=mode, n=70, maxpart=60, mincut=50), PL(0, mode=mode, n=70, maxpart=60, mincut=50, early=1, seed=2), PL(0, mode=mode, n=140, mincut=70, pn=8, seed=3), PL(0, mode=mode, n=300, mincut=150, pn=4, seed=2), PL(0, mode=mode, n=300, maxpart=280, early=1, one=1, mincut=270), PL(0, mode=mode, n=48, maxpart=4)]
    h = [PL(1, mode=mode, gen=3, leaves=40), PL(1, mode=mode, gen=3, leaves=40, force=0), PL(1, mode=mode, gen=4, leaves=60), PL(1, mode=mode, gen=4, leaves=60, force=2, tseed=2, rot=1), PL(1, mode=mode, gen=5, leaves=6, depth=40, force=12), PL(1, mode=mode, gen=5, leaves=6, depth=40, force=39, seed=2), PL(1, mode=mode, gen=3, leaves=300), PL(1, mode=mode, gen=1, leaves=130, force=3), PL(1, mode=mode, gen=0, leaves=24, force=9), PL(1, mode=mode, gen=5, leaves=5, depth=270, force=200)]
    d = [PL(2, mode=mode, gen=3, leaves=24, n=4), PL(2, mode=mode, gen=3, leaves=24, n=3, force=0, seed=2), PL(2, mode=mode, gen=4, leaves=20, n=5, force=2), PL(2, mode=mode, gen=5, leaves=3, depth=20, n=3, force=14), PL(2, mode=mode, tree=1, n=40, mincut=30, pn=8, one=1, force=0), PL(2, mode=mode, tree=0, n=40, maxpart=36, early=1, force=0, pn=6), PL(2, mode=mode, gen=3, leaves=140, n=2), PL(2, mode=mode, tree=13, n=6, force=2), PL(2, mode=mode, tree=16, n=7, force=0, seed=4)]
    return o, h, d
for prop, mode in (("C01", 1), ("C02", 1), ("C03", 1), ("C04", 2), ("C05", 3)):
    o, h, d = big(mode); TABLE[prop]["quick"] += o if prop == "C01" else h if prop == "C02" else d if prop == "C03" else o + h + d
    META[prop]["bounds"] += "; large instances (up to 300 slices, 300 leaves, fan-out 300, depth 270, 24 leaves by 4 slices) with p, one cell of each of two planted optimal partitions symbolic"
def QL(kind, **p): return Q(kind, mode=0, lo=1, **p)
TABLE["C06"]["quick"] += [QL(0, nd=1, n=100, stride=50), QL(0, nd=4, a=2, b=3, c=2, n=40, stride=100), QL(0, nd=2, a=40, n=8, stride=20), QL(0, nd=3, a=20, b=13, n=4, stride=90), Q(0, mode=0, nd=1, n=260, stride=300, lo=1)]
TABLE["C07"]["quick"] += [QL(1, nd=2, gen=3, leaves=1100, stride=50), QL(1, nd=2, a=40, gen=4, leaves=30, stride=10), QL(1, nd=2, gen=5, leaves=6, depth=270, stride=4), QL(1, nd=3, a=20, b=13, tree=9, stride=90), Q(1, mode=0, nd=1, gen=3, leaves=300, stride=90, zero=1)]
TABLE["C08"]["quick"] += [QL(2, nd=3, gen=3, leaves=140, n=9, stride=200), QL(2, nd=2, tree=1, n=40, stride=20), QL(2, nd=2, gen=5, leaves=4, depth=40, n=3, stride=4), QL(2, nd=4, a=20, b=13, tree=9, n=2, stride=90), QL(2, nd=3, a=40, gen=4, leaves=12, n=3, stride=60)]
TABLE["C09"]["quick"] += [Q(0, mode=1, nd=1, n=70, stride=0, zero=1), Q(1, mode=1, nd=1, gen=3, leaves=1100, stride=0, zero=1), Q(2, mode=1, nd=2, gen=3, leaves=140, n=9, stride=0, zero=1), Q(0, mode=4, nd=1, n=40), Q(1, mode=4, nd=1, gen=3, leaves=1100), Q(2, mode=4, nd=2, gen=3, leaves=140, n=8)]
for p_, n_ in (("C06", "260 slices, 260 attribute values"), ("C07", "1100 leaves, depth 270"), ("C08", "140 leaves by 9 slices"), ("C09", "1260 elements")): META[p_]["bounds"] += "; large instances up to %s with some (C09: mostly no) cells symbolic" % n_
TABLE["C10"]["quick"] += [Q(0, mode=3, root=0, n=60, stride=100), Q(1, mode=3, root=0, gen=3, leaves=300, stride=60), Q(2, mode=3, root=0, gen=4, leaves=12, n=6, stride=100), Q(1, mode=3, root=1, gen=5, leaves=4, depth=60, stride=30)]
META["C10"]["bounds"] += "; up to 300 nodes or 60 slices with some symbolic"
TABLE["C16"]["quick"] += [TR(gen=3, leaves=300), TR(gen=5, leaves=8, depth=300), TR(gen=4, leaves=300, rot=3), TR(gen=1, leaves=300), TR(gen=5, leaves=3, depth=40, rot=7), TR(gen=4, leaves=30, tseed=3)]
META["C16"]["bounds"] += "; fixed wide and deep trees of up to 600 nodes"
TABLE["C17"]["quick"] += [A(0, nd=2, n=300, random=r) for r in (1, 2)] + [A(0, nd=2, a=40, n=5, random=1), A(0, nd=3, a=17, b=20, n=3, random=1), A(0, nd=4, a=9, b=6, c=7, n=3, random=2)]
TABLE["C18"]["quick"] += [A(1, nd=2, gen=3, leaves=300, random=r) for r in (1, 2, 3)] + [A(1, nd=1, gen=4, leaves=60, random=r, tseed=r) for r in (1, 4, 5)] + [A(1, nd=2, gen=5, leaves=6, depth=40, random=r) for r in (1, 3)] + [A(1, nd=2, a=40, tree=4, random=1), A(1, nd=3, a=17, b=20, tree=4, random=3), A(1, nd=4, a=9, b=6, c=7, tree=4, random=3)]
TABLE["C19"]["quick"] += [A(2, nd=3, gen=3, leaves=40, n=10, random=r) for r in (1, 3)] + [A(2, nd=2, gen=5, leaves=4, depth=20, n=6, random=r) for r in (1, 3)] + [A(2, nd=2, tree=1, n=36, random=r) for r in (1, 2)] + [A(2, nd=3, a=40, tree=4, n=2, random=3), A(2, nd=4, a=9, b=17, tree=4, n=2, random=3)]
for p_ in ("C17", "C18", "C19"): META[p_]["bounds"] += "; sample partitions of up to 300 slices or leaves, 40 leaves by 10 slices, up to 378 attribute combinations"
TABLE["C20"]["quick"] += [ST(kind=0, nd=4, n=140, a=3, b=2, c=5, writes=0, set=1), ST(kind=0, nd=2, a=140, n=3, writes=0), ST(kind=1, nd=3, a=20, b=17, gen=3, leaves=6, writes=0, set=1), ST(kind=1, nd=2, a=3, gen=3, leaves=300, writes=0), ST(kind=2, nd=4, a=17, b=9, n=5, gen=4, leaves=9, writes=0, set=1), ST(kind=2, nd=3, a=3, n=140, tree=4, writes=0), ST(kind=1, nd=4, a=7, b=9, c=8, tree=1, writes=0, set=1), ST(kind=0, nd=4, a=7, b=9, c=8, n=2, writes=0)]
META["C20"]["bounds"] += "; written and read back up to 300 leaves, 140 slices, 504 attribute combinations"
TABLE["C21"]["quick"] += [ST(mode=1, type=0, n=400, near=2), ST(mode=1, type=1, n=700, near=1), ST(mode=1, type=2, n=150, near=2, filled=1), ST(mode=1, type=3, n=130, near=2)]
META["C21"]["bounds"] += "; up to 700 with the written cell at a border"
def WL(mode, kind, **p): return W(mode, kind, shape=1, **p)
LARGE = [(0, dict(n=40, th=16)), (0, dict(n=70, maxpart=60, mincut=50, th=64)), (1, dict(gen=4, leaves=60, force=2, th=16)), (1, dict(gen=3, leaves=40, th=64)), (1, dict(gen=5, leaves=6, depth=40, force=12, th=16)), (2, dict(gen=3, leaves=8, n=4, th=64)), (2, dict(tree=1, n=12, th=128, force=0))]
for m_ in (11, 12, 13, 14, 15): TABLE["C%d" % m_]["quick"] += [WL(m_, k, **dict(z, **(dict(dp=1) if m_ == 11 else {}))) for k, z in LARGE]; META["C%d" % m_]["bounds"] += "; planted problems of up to 70 slices, 60 leaves, depth 40 with a few symbolic cells"
TABLE["C24"]["quick"] += [OV(0, nd=2, gen=3, leaves=40, lo=1, stride=10), OV(0, nd=2, gen=5, leaves=6, depth=40, lo=1), OV(1, nd=2, n=40, lo=1, stride=20), OV(1, nd=3, n=20, lo=1, stride=20)]
META["C24"]["bounds"] += "; up to 40 leaves or slices with some values symbolic"
TABLE["C26"]["quick"] += [EQ(1, kind=0, n=60, random=3), EQ(1, kind=0, n=300, random=2), EQ(1, kind=1, gen=3, leaves=140, random=3), EQ(1, kind=1, gen=5, leaves=4, depth=40, random=3), EQ(1, kind=2, gen=3, leaves=8, n=6, random=3)]
META["C26"]["bounds"] += "; sample pairs with up to 300 slices or 140 leaves"
TABLE["C27"]["quick"] += [MO(0, kind=0, n=40, shape=1), MO(0, kind=1, gen=3, leaves=40, shape=1), MO(0, kind=1, gen=5, leaves=6, depth=40, force=12, shape=1), MO(0, kind=2, gen=3, leaves=8, n=4, shape=1)]
META["C27"]["bounds"] += "; planted problems of 40 slices, 40 leaves, depth 40"
TABLE["C28"]["quick"] += [MO(1, kind=0, n=60, stride=0, dp=1, lo=-2, hi=2), MO(1, kind=1, gen=4, leaves=60, stride=0, dp=1, lo=-2, hi=2), MO(1, kind=1, gen=3, leaves=40, stride=0, dp=1, lo=-1, hi=1), MO(1, kind=1, gen=5, leaves=5, depth=40, stride=0, dp=1, lo=-1, hi=1), MO(1, kind=2, gen=3, leaves=20, n=4, stride=0, dp=1, lo=-1, hi=1)]
META["C28"]["bounds"] += " (up to 60 slices or leaves, depth 40)"


# ------------------------------------------------------------------ very small and very large magnitudes
# pow2=k: the same problems in units of 2^k (everything scales exactly, so the tolerances scale along)
def scaled(prop, *cs):
    for u in (-160, 140): TABLE[prop]["quick"] += [dict(c, params=dict(c["params"], pow2=u)) for c in cs]
    META[prop]["bounds"] += "; also in units of 2^-160 and 2^140"
scaled("C01", O(n=3), O(n=20, stride=0, mode=1))
scaled("C02", H(tree=4), H(gen=2, leaves=20, stride=0, mode=1))
scaled("C03", S(tree=1, n=2, mode=1, stride=2), S(tree=5, n=4, stride=0, mode=1))
scaled("C05", O(n=3, mode=3), H(tree=4, mode=3), S(tree=0, n=2, mode=3))
scaled("C06", Q(0, mode=0, nd=2, a=2, n=2), Q(0, mode=0, nd=1, n=30, stride=0, zero=1))
scaled("C07", Q(1, mode=0, nd=1, tree=4), Q(1, mode=0, nd=2, gen=2, leaves=30, stride=0, zero=1))
scaled("C08", Q(2, mode=0, nd=2, tree=1, n=2), Q(2, mode=0, nd=3, tree=5, n=4, stride=0, zero=1))
scaled("C09", L9(0, R3, nd=1, n=3), L9(1, R3, nd=1, tree=4), Q(2, mode=1, nd=3, tree=5, n=4, stride=0, zero=1))
scaled("C10", Q(0, mode=3, root=0, n=3), Q(1, mode=3, root=0, tree=4), Q(2, mode=3, root=0, tree=1, n=2), Q(0, mode=2, nd=2, n=8, stride=0, zero=1))
scaled("C11", W(11, 0, n=3, th=256), W(11, 1, tree=4, th=256), W(11, 2, tree=0, n=2, th=256, stride=2))
scaled("C12", W(12, 0, n=3, th=256), W(12, 1, tree=4, th=256), W(12, 2, tree=0, n=2, th=256, stride=2))
scaled("C17", A(0, nd=2, n=4)); scaled("C18", A(1, nd=2, tree=4)); scaled("C19", A(2, nd=3, tree=1, n=2))
scaled("C27", MO(0, kind=0, n=2), MO(0, kind=1, tree=4, stride=2), MO(0, kind=2, tree=5, n=4, stride=0))
scaled("C28", MO(1, kind=0, n=3), MO(1, kind=1, tree=4), MO(1, kind=2, tree=0, n=2))


# ------------------------------------------------------------------ rebuilding, the R interface, independence, lifetime
def SE(**p): return C("self", **p)
TABLE["C29"] = {
    "quick": [SE(kind=0, n=n) for n in (1, 2, 3)] + [SE(kind=0, n=n, mode=1) for n in (1, 2, 4, 6)] + [SE(kind=1, tree=k) for k in (0, 1, 4, 9)] + [SE(kind=1, tree=k, mode=1) for k in (2, 4, 5, 9, 13, 14, 15, 16)] + [SE(kind=2, tree=0, n=2), SE(kind=2, tree=1, n=1), SE(kind=2, tree=1, n=2, stride=4)] + [SE(kind=2, tree=k, n=n, mode=1) for k, n in ((0, 3), (1, 2), (2, 2), (4, 1), (9, 2))] +
             [SE(kind=0, n=60, mode=1, random=r) for r in (1, 2)] + [SE(kind=1, gen=4, leaves=60, mode=1, random=r) for r in (1, 2)] + [SE(kind=2, gen=3, leaves=20, n=8, mode=1, random=r, stride=20) for r in (1, 3)] + [SE(kind=0, n=20, stride=0), SE(kind=1, gen=2, leaves=30, stride=0), SE(kind=2, tree=11, n=5, stride=0)],
    "thorough": [SE(kind=0, n=4), SE(kind=0, n=8, mode=1), SE(kind=1, tree=5), SE(kind=2, tree=1, n=3, mode=1), SE(kind=2, tree=4, n=2, mode=1)]}
META["C29"] = {"bounds": "computed partitions of up to 3 slices, 5 nodes, 3 nodes by 2 slices with every quality and p symbolic (larger ones with fixed qualities); caller-built ones: every partition of up to 6 slices, 13 nodes, 5 nodes by 2 slices, sample ones of up to 60 slices or leaves, 20 leaves by 8 slices"}
def RI(kind, **p): return C("rapi", kind=kind, nd=3, **p)
TABLE["C30"] = {
    "quick": [RI(0, a=1, b=1, n=2, lo=1), RI(1, a=1, b=1, tree=1, lo=1), RI(2, a=1, n=1, tree=1, lo=1)] + [RI(0, a=a, b=b, n=n, stride=0, seed=s) for a, b, n, s in ((1, 1, 1, 1), (2, 3, 4, 1), (3, 2, 5, 2), (1, 4, 9, 3), (2, 1, 12, 4))] + [RI(1, a=a, b=b, tree=k, stride=0, seed=s) for a, b, k, s in ((2, 3, 4, 1), (3, 2, 13, 2), (1, 4, 9, 3), (4, 1, 16, 1), (2, 2, 14, 2), (1, 1, 0, 1))] + [RI(2, a=a, n=n, tree=k, stride=0, seed=s) for a, n, k, s in ((2, 3, 4, 1), (3, 2, 13, 2), (1, 4, 9, 3), (4, 1, 15, 1), (2, 5, 1, 2))] +
             [RI(0, a=2, b=3, n=3, th=1024, stride=4, lo=1), RI(0, a=3, b=2, n=2, th=1024, lo=1), RI(1, a=2, b=3, tree=3, th=1024, lo=1), RI(1, a=3, b=2, tree=4, th=1024, lo=1), RI(1, a=1, b=2, tree=9, th=1024, lo=1), RI(2, a=2, n=1, tree=4, th=1024, lo=1), RI(2, a=3, n=2, tree=1, th=1024, stride=9, lo=1), RI(2, a=2, n=3, tree=4, th=1024, stride=12, lo=1), RI(0, a=2, b=3, n=3, stride=12, th=512, lo=1, seed=2), RI(1, a=2, b=3, tree=4, stride=12, th=512, lo=1, seed=2), RI(0, a=2, b=2, n=4, stride=0, th=16), RI(1, a=2, b=2, tree=13, stride=0, th=16), RI(2, a=2, n=3, tree=6, stride=0, th=16)] +
             [RI(0, a=2, b=2, n=5, stride=0, zero=1), RI(1, a=2, b=2, tree=5, stride=0, zero=1), RI(2, a=2, n=4, tree=5, stride=0, zero=1), RI(0, a=8, b=5, n=20, stride=0), RI(1, a=3, b=2, gen=2, leaves=30, stride=0), RI(2, a=3, n=6, gen=2, leaves=10, stride=0)],
    "thorough": [RI(0, a=1, b=2, n=3, stride=3, lo=1), RI(1, a=1, b=2, tree=4, stride=3, lo=1)]}
META["C30"] = {"bounds": "arrays with every value symbolic in [1/1024,100] for two elements at threshold 1/8 and for up to 3 slices or 5 nodes (6 attribute pairs) at threshold 1, with few symbolic values at threshold 1/2, fixed ones of up to 800 cells, 12 slices, 30 leaves", "assumptions": ["R, Rcpp and RcppArmadillo are replaced by small stand-ins (harness/stubs/RcppArmadillo.h): vectors share storage as in R, arrays are column-major with a dim attribute, integer vectors truncate"]}
def IN(**p): return C("inter", **p)
PAIRS = [dict(kind=0, n=3, n2=4), dict(kind=0, nd=1, n=5, nd2=3, n2=2), dict(kind=1, tree=4, tree2=2), dict(kind=1, tree=9, tree2=13, nd=3, nd2=1), dict(kind=2, n=2, tree=4, n2=3, tree2=1), dict(kind=2, nd=4, n=3, tree=1, nd2=2, n2=3, tree2=9), dict(kind=0, nd=3, n=3, kind2=2, nd2=3, tree2=1, n2=2), dict(kind=1, tree=4, kind2=2, nd=2, nd2=3, tree2=4, n2=2), dict(kind=0, n=3, kind2=1, tree2=4)]
SAME = [dict(kind=0, n=4), dict(kind=1, tree=4), dict(kind=2, tree=4, n=2)]
TABLE["C31"] = {
    "quick": [IN(stride=0, switches=2, **z) for z in PAIRS] + [IN(stride=0, switches=2, norm=1, set=1, **z) for z in PAIRS[::2]] + [IN(raw=1, stride=0, **z) for z in PAIRS] + [IN(stride=0, share=1, norm=k, **z) for k in (0, 1) for z in SAME] + [IN(stride=0, share=2, after=k, **z) for k in (5, 6) for z in SAME] + [IN(raw=1, stride=0, share=1, **z) for z in SAME] + [IN(raw=1, stride=0, share=2, after=k, **z) for k in (1, 2, 3) for z in SAME] +
             [IN(raw=1, kind=0, n=2, stride=2, switches=1), IN(raw=1, kind=1, tree=4, stride=5, switches=1, th=1024), IN(raw=1, kind=2, tree=1, n=2, stride=24, switches=1, th=1024), IN(kind=0, nd=1, n=2, stride=3, switches=1, th=1024), IN(raw=1, kind=0, n=20, n2=30, stride=0, switches=1), IN(raw=1, kind=2, tree=6, n=6, tree2=4, n2=8, stride=0, switches=1)],
    "thorough": [IN(stride=0, switches=5, **z) for z in PAIRS] + [IN(raw=1, kind=0, n=2, stride=2, switches=2), IN(raw=1, kind=1, tree=4, stride=3, switches=2)]}
META["C31"] = {"bounds": "two users of five to eight calls each, every interleaving with up to two or three (thorough: five) switches between them, symbolic qualities or data for up to 2 slices or 5 nodes, fixed ones beyond; shared data or qualities, copied partitioners", "assumptions": ["calls are not concurrent"]}
def LI(**p): return C("life", **p)
TABLE["C32"] = {
    "quick": [LI(stride=0, kind=0, nd=nd, n=3) for nd in (1, 2, 3, 4)] + [LI(stride=0, kind=1, nd=nd, tree=4) for nd in (1, 2, 3, 4)] + [LI(stride=0, kind=2, nd=nd, tree=4, n=2) for nd in (2, 3, 4)] + [LI(stride=0, norm=1, set=1, **z) for z in SAME] + [LI(raw=1, stride=0, **z) for z in SAME] + [LI(raw=1, kind=0, n=2, free=2), LI(raw=1, kind=1, tree=1, free=2), LI(raw=1, kind=2, tree=1, n=2, stride=8, free=2), LI(kind=0, nd=1, n=2, stride=2, free=1)] +
             [LI(mode=1, stride=0, norm=k, **z) for k in (0, 1) for z in SAME] + [LI(mode=1, raw=1, kind=0, n=2), LI(mode=1, raw=1, kind=1, tree=4, stride=3), LI(mode=1, raw=1, kind=2, tree=0, n=2, stride=3), LI(stride=0, kind=0, n=12, free=1), LI(stride=0, kind=1, tree=16, free=1), LI(stride=0, kind=2, tree=13, n=4, free=1)],
    "thorough": [LI(stride=0, free=7, **z) for z in SAME] + [LI(raw=1, kind=0, n=2, free=4)]}
META["C32"] = {"bounds": "one user's values, qualities, partitioner, partitions and aggregates released in every order of the first three (thorough: all), with fixed data of up to 12 slices, 13 nodes and symbolic qualities for 2 slices or 3 nodes", "assumptions": ["memory is counted in heap blocks; what a first use keeps for good is not counted"]}


# ------------------------------------------------------------------ shared quality objects, narrow optima, special values in sweeps
for prop, mode in (("C01", 0), ("C02", 0), ("C03", 0), ("C05", 3)):
    k = {"C01": [O], "C02": [H], "C03": [S], "C05": [O, H, S]}[prop]
    if O in k: TABLE[prop]["quick"] += [O(n=4, mode=mode, alias=a) for a in (1, 2, 3)]
    if H in k: TABLE[prop]["quick"] += [H(tree=t, mode=mode, alias=a) for t in (4, 9, 12) for a in (1, 2, 3)]
    if S in k: TABLE[prop]["quick"] += [S(tree=1, n=2, mode=mode, alias=a) for a in (1, 2, 3)]
    META[prop]["bounds"] += "; 4 slices, 6 nodes, 3 nodes by 2 slices whose cells share one to three quality objects"
NARROW = [(0, dict(n=3)), (1, dict(tree=4)), (2, dict(tree=1, n=2))]
TABLE["C11"]["quick"] += [W(11, k, shape=2, wexp=w, exp=e, p0=p0, **z) for k, z in NARROW for w, e, p0 in ((10, 13, 341), (13, 16, 700), (16, 18, 100))]
META["C11"]["bounds"] += "; thresholds down to 2^-18 on problems of three partitions, the middle one best only on an interval of symbolic place and width (down to 2^-16)"
TABLE["C13"]["quick"] += [W(13, k, stride=0, special=s, **dict(z, **x)) for k, z in ((0, dict(n=3)), (1, dict(tree=4)), (2, dict(tree=1, n=2))) for s in SPEC for x in (dict(th=0), dict(exp=149))] + [W(13, k, stride=0, special=1, everywhere=1, th=0, **z) for k, z in ((0, dict(n=4)), (1, dict(tree=9)), (2, dict(tree=0, n=2)))]
META["C13"]["bounds"] += "; not-a-number and infinities at one symbolic cell (or everywhere) with thresholds 0 and 2^-149"
TABLE["C31"]["quick"] += [IN(stride=0, switches=1, kind=0, n=12, n2=3), IN(stride=0, switches=1, kind=1, tree=13, tree2=4), IN(stride=0, switches=1, kind=1, tree=13, tree2=9), IN(stride=0, switches=1, kind=1, tree=2, tree2=4), IN(stride=0, switches=1, kind=2, tree=5, n=5, tree2=1, n2=2), IN(stride=0, switches=1, kind=2, tree=13, n=2, tree2=9, n2=4), IN(raw=1, stride=0, switches=1, kind=1, tree=13, tree2=9), IN(raw=1, stride=0, switches=1, kind=1, tree=14, tree2=6), IN(raw=1, stride=0, switches=1, kind=2, tree=13, n=2, tree2=9, n2=3), IN(raw=1, stride=0, switches=1, kind=0, n=9, n2=2)]


# ------------------------------------------------------------------ more than 65,536 values, two of them symbolic
def big(prop, note, *cs):
    TABLE[prop]["quick"] += [dict(c, opts={"max-instr": 2000000000}, params=dict(dict(stride=65000), **c["params"])) for c in cs]
    META[prop]["bounds"] += "; " + note
big("C20", "up to 72,000 attribute combinations or 20,000 slices", ST(kind=0, nd=2, a=270, n=270, writes=0, set=1), ST(kind=0, nd=3, a=260, b=270, n=1, writes=0), ST(kind=0, nd=4, a=41, b=42, c=41, n=1, writes=0, set=1), ST(kind=0, nd=1, n=20000, writes=0), ST(kind=1, nd=2, a=70000, tree=1, writes=0, set=1), ST(kind=1, nd=3, a=260, b=270, tree=1, writes=0), ST(kind=1, nd=4, a=41, b=42, c=41, tree=1, writes=0, set=1), ST(kind=2, nd=3, a=300, n=130, tree=1, writes=0), ST(kind=2, nd=4, a=260, b=270, n=1, tree=1, writes=0, set=1))
big("C06", "70,000 attributes", Q(0, mode=0, nd=2, a=70000, n=2, lo=1)); big("C07", "70,000 attributes", Q(1, mode=0, nd=2, a=70000, tree=1, lo=1)); big("C08", "33,000 attributes", Q(2, mode=0, nd=3, a=33000, tree=1, n=2, lo=1))
big("C17", "70,000 attributes", A(0, nd=2, a=70000, n=2, random=1)); big("C18", "70,000 attributes", A(1, nd=2, a=70000, tree=1, random=1)); big("C19", "33,000 attributes", A(2, nd=3, a=33000, tree=1, n=2, random=1))


# ------------------------------------------------------------------ same shapes with different data; histories with changed qualities; close parameters
TABLE["C31"]["quick"] += [IN(stride=0, switches=1, norm=k, kind=0, n=4, n2=4) for k in (0, 1)] + [IN(stride=0, switches=1, norm=k, kind=1, tree=4, tree2=4) for k in (0, 1)] + [IN(stride=0, switches=1, norm=k, kind=2, tree=4, tree2=4, n=2, n2=2) for k in (0, 1)] + \
    [IN(stride=0, switches=1, norm=1, kind=k, nd=4, nd2=4, tree=9, tree2=9, n=3, n2=3, set=1) for k in (0, 1, 2)] + [IN(raw=1, stride=0, switches=1, kind=0, n=5, n2=5), IN(raw=1, stride=0, switches=1, kind=1, tree=9, tree2=9), IN(raw=1, stride=0, switches=1, kind=2, tree=4, tree2=4, n=2, n2=2)]
for m_ in (12, 14, 15): TABLE["C%d" % m_]["quick"] += [W(m_, k, shape=2, wexp=w, exp=e, p0=p0, **z) for k, z in NARROW for w, e, p0 in ((10, 13, 5), (8, 11, 700))]
for m_ in (12, 14, 15): META["C%d" % m_]["bounds"] += "; parameters as close as 2^-10 on problems of three partitions"
TABLE["C25"]["quick"] += [HI(0, edit=e, kind=0, n=4, stride=0, **z) for e in (1, 2) for z in ({}, dict(min=256))] + [HI(0, edit=e, kind=1, tree=13, stride=0, pa=3, pb=9, **z) for e in (1, 2) for z in ({}, dict(min=128))] + [HI(0, edit=e, kind=2, tree=t, n=n, stride=0, pa=3, pb=9, **z) for e in (1, 2) for t, n, z in ((5, 3, {}), (4, 2, dict(min=320)))] + \
    [HI(0, edit=1, kind=0, n=3, stride=5, pa=4, pb=12, th=512), HI(0, edit=1, kind=1, tree=4, stride=6, pa=4, pb=12), HI(0, edit=1, kind=2, tree=1, n=2, stride=8, pa=4, pb=12), HI(0, kind=0, n=2, min=256, max=768, th=128), HI(0, kind=1, tree=1, min=256, th=128), HI(0, kind=2, tree=0, n=1, min=128, th=128)]
META["C25"]["bounds"] += "; qualities changed in place or normalized after a sweep (up to 4 slices, 11 nodes, 7 nodes by 3 slices)"
TABLE["C15"]["quick"] += [W(15, 0, n=3, lo=0, hi=1, th=256), W(15, 1, tree=4, lo=0, hi=1, th=256), W(15, 2, tree=0, n=2, stride=2, lo=0, hi=1, th=256)]


# ------------------------------------------------------------------ many partitions in one sweep; bounds left out
def LAD(m):
    x = dict(dp=1) if m == 11 else {}
    big = {"max-instr": 600000000}
    cs = [W(m, 0, shape=3, n=24, th=1, **x), W(m, 0, shape=3, n=40, pairs=1, th=1, seed=2, **x), W(m, 0, shape=3, n=12, th=8, symplan=1, **x), W(m, 0, shape=3, n=16, pairs=1, th=8, symplan=1, **x),
          W(m, 1, shape=3, gen=6, leaves=40, th=1, **x), W(m, 1, shape=3, gen=6, leaves=14, th=8, symplan=1, rot=2, **x), W(m, 2, shape=3, gen=6, leaves=16, n=2, th=1, **x), W(m, 2, shape=3, gen=6, leaves=6, n=3, th=8, symplan=1, **x)]
    for i, c in enumerate(cs): c["opts"] = big; c["params"]["def"] = i % 5
    return cs
for m_ in (11, 12, 13, 14, 15, 27):
    TABLE["C%d" % m_]["quick"] += LAD(m_); META["C%d" % m_]["bounds"] += "; sweeps of up to 24 different partitions, one change between them at a symbolic place"
TABLE["C12"]["quick"] += [W(12, k, th=128, **{"def": d}, **z) for k, z in ((0, dict(n=2)), (1, dict(tree=1)), (2, dict(tree=0, n=1))) for d in (1, 2, 3, 4)] + [W(12, k, th=128, min=320, **{"def": d}, **z) for k, z in ((0, dict(n=2)), (1, dict(tree=1)), (2, dict(tree=0, n=1))) for d in (1, 3)]
META["C12"]["bounds"] += "; lower or both bounds left to their defaults"


# ------------------------------------------------------------------ long histories; users one after another, with released memory handed out again
def long_(*cs):
    for c in cs: c["opts"] = {"max-instr": 1000000000}
    return list(cs)
TABLE["C25"]["quick"] += long_(HI(3, kind=0, n=2, stride=2, rounds=140), HI(3, kind=1, tree=1, stride=2, rounds=100), HI(3, kind=2, tree=1, n=2, stride=10, rounds=80), HI(3, kind=0, n=6, stride=0, rounds=600), HI(3, kind=1, tree=9, stride=0, rounds=600), HI(3, kind=2, tree=4, n=2, stride=0, rounds=400), HI(3, kind=0, n=6, stride=0, rounds=150, reuse=1)) + \
    long_(HI(2, kind=0, n=3, stride=0, rounds=300, norm=1), HI(2, kind=1, tree=4, stride=0, rounds=300, norm=1), HI(2, kind=2, tree=4, n=2, stride=0, rounds=300, norm=1))
META["C25"]["bounds"] += "; 80 to 600 requests and as many sweeps on one partitioner, 300 computations of the same qualities"
GRID = {"C01": (O, dict(n=4, stride=14), dict(n=6)), "C02": (H, dict(tree=1, stride=3), dict(tree=9)), "C03": (S, dict(tree=1, n=2, stride=10), dict(tree=4, n=3))}
for prop, (k, a, b) in GRID.items():
    TABLE[prop]["quick"] += long_(k(mode=1, asks=300, grid=512, **a), k(mode=1, asks=600, grid=1024, each=1, stride=0, **b)); META[prop]["bounds"] += "; up to 599 requests for other parameters before"
    TABLE["C05"]["quick"] += long_(k(mode=3, asks=150, grid=512, each=1, **a))
META["C05"]["bounds"] += "; 150 requests on one partitioner"
SER = [dict(kind=0, n=4), dict(kind=1, tree=4), dict(kind=2, tree=4, n=2)]
TABLE["C31"]["quick"] += [IN(share=3, users=6, twice=1, reuse=1, stride=0, vary=v, **z) for z in SER for v in (0, 1)] + [IN(share=3, users=5, twice=1, reuse=1, stride=0, raw=1, **z) for z in SER] + [IN(share=3, users=5, twice=1, reuse=1, vary=1, stride=0, norm=1, **z) for z in SER] + \
    [IN(share=3, users=2, twice=1, reuse=1, kind=0, n=2), IN(share=3, users=2, twice=1, reuse=1, kind=1, tree=1), IN(share=3, users=2, reuse=1, kind=2, tree=0, n=2)] + [IN(switches=1, stride=0, reuse=1, kind=1, tree=4, tree2=4), IN(switches=1, stride=0, reuse=1, kind=0, n=4, n2=4)]
META["C31"]["bounds"] += "; up to six users one after another on released memory that is handed out again at the same address"


# ------------------------------------------------------------------ long time ranges cut near an end; bounds left out next to 0 and 1; mirror images one after another
def edge(k, **z): return k(shape=4, **z)
TABLE["C04"]["quick"] += long_(edge(S, tree=0, n=70, mode=2, pn=8, places=3), edge(S, tree=1, n=36, mode=2, low=1), edge(S, tree=4, n=20, mode=2, low=1), edge(O, n=300, mode=2))
META["C04"]["bounds"] += "; ranges of 300 slices, 70 slices of one leaf, 36 of two and 20 of four nodes cut at a symbolic place near an end or in the middle"
TABLE["C01"]["quick"] += long_(edge(O, n=300, mode=1)); META["C01"]["bounds"] += "; 300 slices cut near an end or in the middle"
TABLE["C03"]["quick"] += long_(edge(S, tree=0, n=70, mode=1, places=3), edge(S, tree=1, n=36, mode=1, low=1)); META["C03"]["bounds"] += "; 70 slices of one leaf, 36 of two cut near an end or in the middle"
TABLE["C05"]["quick"] += long_(edge(O, n=200, mode=3), edge(S, tree=0, n=66, mode=3, pn=8, places=3))
TABLE["C29"]["quick"] += long_(edge(SE, kind=2, tree=0, n=66, pn=8, places=1), edge(SE, kind=0, n=200, places=3))
META["C29"]["bounds"] += "; 66 slices of one leaf, 200 slices cut near an end"
for m_ in (11, 12): TABLE["C%d" % m_]["quick"] += [W(m_, k, shape=2, wexp=12, exp=13, p0=p0, **{"def": d}, **z) for k, z in NARROW for p0, d in ((1021, 1), (1, 2), (1021, 3), (1021, 4), (1, 4))]
MIR = [dict(kind=0, n=5), dict(kind=0, n=7), dict(kind=1, tree=4), dict(kind=1, tree=9), dict(kind=2, tree=4, n=3), dict(kind=2, tree=1, n=4)]
TABLE["C31"]["quick"] += [IN(share=3, near=1, users=2, reuse=2, raw=r, stride=0, p=p, **z) for z in MIR for r in (0, 1) for p in (3, 6, 11)] + [IN(share=3, near=2, users=4, reuse=2, raw=r, stride=0, **z) for z in MIR[1::2] for r in (0, 1)] + [IN(share=3, near=1, users=3, reuse=2, norm=1, stride=0, set=1, p=p, **z) for z in MIR[::2] for p in (4, 12)] + \
    [IN(share=3, near=1, users=2, reuse=2, kind=0, n=2), IN(share=3, near=1, users=2, reuse=2, kind=1, tree=1), IN(share=3, near=1, users=2, reuse=2, kind=2, tree=0, n=2), IN(share=3, near=1, users=2, reuse=2, raw=1, kind=0, n=2, stride=2), IN(share=3, near=1, users=2, reuse=2, raw=1, kind=0, n=5, stride=11), IN(share=3, near=1, users=2, reuse=2, raw=1, kind=1, tree=4, stride=4)] + \
    [IN(share=3, users=6, twice=1, reuse=2, stride=0, vary=v, **z) for z in SER for v in (0, 1)] + [IN(share=3, users=5, twice=1, reuse=2, stride=0, raw=1, **z) for z in SER] + [IN(switches=1, stride=0, reuse=2, kind=1, tree=4, tree2=4), IN(switches=1, stride=0, reuse=2, kind=0, n=4, n2=4)]
META["C31"]["bounds"] += "; each with the same data as the one before in the opposite order"


# ------------------------------------------------------------------ values beyond single precision, many tried parameters, wide parts, lists kept through requests
for prop, mk in (("C06", lambda **z: Q(0, mode=0, **z)), ("C07", lambda **z: Q(1, mode=0, **z)), ("C08", lambda **z: Q(2, mode=0, **z))):
    z = [dict(n=3), dict(n=3), dict(n=5)] if prop == "C06" else [dict(tree=1), dict(tree=4), dict(tree=13)] if prop == "C07" else [dict(tree=1, n=2), dict(tree=4, n=2), dict(tree=9, n=3)]
    d = 2 if prop == "C08" else 1
    TABLE[prop]["quick"] += [mk(nd=d, hi=2000000000, lo=1, **z[0]), mk(nd=d + 1, a=2, hi=2000000000, lo=1024, stride=3, **z[1]), mk(nd=2, hi=100000000, lo=1024, set=1, **z[2]), mk(nd=2, hi=2000000000, stride=0, zero=1, **z[1]), mk(nd=2, hi=2000000000, stride=0, pow2=20, seed=2, **z[2]), mk(nd=2, hi=20000000, stride=0, seed=3, **z[2])]
    META[prop]["bounds"] += "; values up to 2e6 (and in units of 2^20)"
for prop, mode, e in (("C09", 1, {}), ("C10", 2, {})):
    TABLE[prop]["quick"] += [Q(0, mode=mode, nd=2, n=6, stride=0, hi=2000000000, zero=1), Q(1, mode=mode, nd=2, tree=13, stride=0, hi=2000000000, seed=2), Q(2, mode=mode, nd=3, tree=4, n=3, stride=0, hi=2000000000, seed=3, zero=1)]
TABLE["C11"]["quick"] += [W(11, k, shape=2, wexp=w, exp=e, p0=p0, tolexp=25, **z) for k, z in NARROW + [(1, dict(tree=2)), (2, dict(tree=4, n=3))] for w, e, p0 in ((22, 24, 5), (20, 22, 60))]
META["C11"]["bounds"] += " and 2^-24 where single precision has it"
def MANY(m):
    x = dict(dp=1) if m == 11 else {}
    cs = [W(m, 0, shape=3, n=24, exp=22, **x), W(m, 0, shape=3, n=20, pairs=1, exp=22, **x), W(m, 1, shape=3, gen=6, leaves=50, exp=24, **x), W(m, 2, shape=3, gen=6, leaves=42, n=1, exp=24, **x)]
    for c in cs: c["opts"] = {"max-instr": 4000000000}; c["budget"] = 120
    return cs
for m_ in (11, 12, 15, 27): TABLE["C%d" % m_]["quick"] += MANY(m_); META["C%d" % m_]["bounds"] += "; sweeps that try several hundred parameters"
TABLE["C25"]["quick"] += long_(HI(3, kind=0, n=6, stride=0, rounds=1000, every=499), HI(3, kind=1, tree=9, stride=0, rounds=1000, every=499), HI(3, kind=2, tree=4, n=2, stride=0, rounds=600, every=299), HI(3, kind=0, shape=3, n=12, stride=0, rounds=300, every=299), HI(3, kind=1, shape=3, gen=6, leaves=20, rounds=300, every=299), HI(3, kind=2, shape=3, gen=6, leaves=14, n=2, rounds=300, every=299))
META["C25"]["bounds"] += "; a sweep's lists kept through 499 requests"
TABLE["C28"]["quick"] += [MO(1, kind=2, tree=t, n=n, stride=0, dp=1, lo=-1, hi=1, seed=s, **x) for t, n in ((0, 5), (0, 8), (1, 6), (4, 7), (13, 5)) for s in (1, 2, 3) for x in ({}, dict(same=1))] + [MO(1, kind=2, tree=0, n=n, stride=0, dp=1, plain=4) for n in (5, 7, 9)] + [MO(1, kind=1, tree=13, stride=0, dp=1, lo=-1, hi=1, seed=s) for s in (1, 2, 3)] + [MO(1, kind=0, n=9, stride=0, dp=1, lo=-1, hi=1, seed=s) for s in (1, 2, 3)]
META["C28"]["bounds"] += "; 5 to 9 slices of up to 6 leaves with ties"
TABLE["C30"]["quick"] += [RI(1, a=1, b=1, gen=3, leaves=140, stride=0), RI(2, a=1, n=2, gen=3, leaves=140, stride=0), RI(1, a=1, b=2, gen=1, leaves=70, stride=0, th=64), RI(0, a=1, b=1, n=140, stride=0, th=512)]
META["C30"]["bounds"] += ", 140 leaves or slices"
TABLE["C32"]["quick"] += long_(LI(mode=1, raw=1, shape=3, kind=0, n=24, th=1), LI(mode=1, raw=1, shape=3, kind=1, gen=6, leaves=28, th=1), LI(mode=1, raw=1, shape=3, kind=2, gen=6, leaves=18, n=2, th=1), LI(raw=1, shape=3, kind=0, n=20, th=1, free=1), LI(raw=1, shape=3, kind=1, gen=6, leaves=20, th=1, free=1), LI(raw=1, shape=3, kind=2, gen=6, leaves=12, n=2, th=1, free=1))
META["C32"]["bounds"] += "; sweeps of up to 18 partitions"
WIDE = [(0, dict(n=140)), (0, dict(n=300)), (1, dict(gen=3, leaves=140)), (1, dict(gen=3, leaves=300)), (1, dict(gen=1, leaves=70)), (2, dict(gen=3, leaves=140, n=2)), (2, dict(gen=3, leaves=270, n=1))]
for k, z in WIDE:
    pr = "C%d" % (17 + k); TABLE[pr]["quick"] += [A(k, nd=nd, random=r, stride=7, a=1, b=1, c=1, set=nd % 2, **z) for nd in (2, 3, 4) for r in (-1, nd)]
for m_ in (17, 18, 19): META["C%d" % m_]["bounds"] += "; parts of up to 300 slices or leaves"
TABLE["C04"]["quick"] += long_(H(gen=3, leaves=140, stride=0, mode=2), H(gen=3, leaves=300, stride=0, mode=2, seed=2), S(gen=3, leaves=140, n=2, stride=0, mode=2), S(gen=3, leaves=270, n=1, stride=0, mode=2)); META["C04"]["bounds"] += ", 300 leaves"
TABLE["C05"]["quick"] += long_(H(gen=3, leaves=300, stride=0, mode=3), S(gen=3, leaves=140, n=2, stride=0, mode=3))
TABLE["C02"]["quick"] += long_(H(gen=3, leaves=300, stride=0, mode=1), H(gen=6, leaves=150, stride=0, mode=1)); META["C02"]["bounds"] += ", 300 leaves"
TABLE["C03"]["quick"] += long_(S(gen=3, leaves=140, n=2, stride=0, mode=1), S(gen=6, leaves=60, n=2, stride=0, mode=1)); META["C03"]["bounds"] += ", 140 leaves by 2 slices"
TABLE["C20"]["quick"] += [ST(kind=k, nd=nd, a=a, writes=0, set=a % 2 + (a > 200), **z) for a in (65, 129, 257) for k, nd, z in ((0, 2, dict(n=2)), (0, 3, dict(b=1, n=1)), (0, 4, dict(b=1, c=1, n=1)), (1, 2, dict(tree=0)), (1, 3, dict(b=1, tree=0)), (1, 4, dict(b=1, c=1, tree=1)), (2, 3, dict(n=2, tree=0)), (2, 4, dict(b=1, n=1, tree=1)))] + [ST(kind=0, nd=1, n=n, writes=0) for n in (65, 129, 257)] + [ST(kind=2, nd=2, n=n, tree=1, writes=0) for n in (65, 129, 257)]


# ------------------------------------------------------------------ a single quality edited in place, repeated sweeps after a change of scale, a second R call
TABLE["C25"]["quick"] += [HI(0, edit=3, kind=0, n=4, stride=0), HI(0, edit=3, kind=0, n=6, stride=0, seed=2, pa=4, pb=12), HI(0, edit=3, kind=1, tree=13, stride=0, pa=3, pb=9), HI(0, edit=3, kind=1, tree=9, stride=0, pa=4, pb=13), HI(0, edit=3, kind=2, tree=4, n=2, stride=0, pa=4, pb=12), HI(0, edit=3, kind=2, tree=1, n=3, stride=0, pa=5, pb=11),
    HI(0, edit=3, kind=0, n=3, stride=5, pa=4, pb=12, th=512), HI(0, edit=3, kind=1, tree=4, stride=6, pa=4, pb=12), HI(0, edit=3, kind=2, tree=1, n=2, stride=14, pa=4, pb=12)]
META["C25"]["bounds"] += "; one symbolic cell of up to 6 slices, 11 nodes or 5 nodes by 2 slices edited in place, then the same requests and the same sweep again"
for prop, mode in (("C14", 14), ("C15", 15)):
    TABLE[prop]["quick"] += [W(mode, 0, n=2, rescale=2), W(mode, 1, tree=1, rescale=2)] + [W(mode, k, stride=0, rescale=2, seed=s, **z) for k, z in ((0, dict(n=3)), (0, dict(n=6)), (1, dict(tree=4)), (1, dict(tree=13)), (2, dict(tree=4, n=2)), (2, dict(tree=1, n=3))) for s in (1, 2)]
    META[prop]["bounds"] += "; asked for, then again after the qualities are divided and multiplied by 8 in place and swept again (2 slices, 2 leaves symbolic, larger ones fixed)"
TABLE["C30"]["quick"] += [RI(0, a=2, b=2, n=4, stride=0, again=1), RI(1, a=2, b=2, tree=3, tree2=4, stride=0, again=1), RI(1, a=2, b=1, tree=5, tree2=6, stride=0, again=1), RI(1, a=2, b=1, tree=4, tree2=9, stride=0, again=1), RI(2, a=2, n=3, tree=3, tree2=4, stride=0, again=1), RI(2, a=2, n=2, tree=5, tree2=8, stride=0, again=1),
    RI(0, a=1, b=1, n=2, lo=1, again=1), RI(1, a=1, b=1, tree=1, lo=1, again=1), RI(2, a=1, n=1, tree=1, lo=1, again=1), RI(1, a=1, b=1, tree=3, tree2=4, lo=1, th=1024, again=1)]
META["C30"]["bounds"] += "; called again with other data and another hierarchy of the same size, then once more with the first"
TABLE["C31"]["quick"] += [IN(stride=0, switches=1, raw=r, **z) for r in (0, 1) for z in (dict(kind=1, tree=3, tree2=4), dict(kind=1, tree=4, tree2=3), dict(kind=1, tree=5, tree2=6), dict(kind=1, tree=8, tree2=7), dict(kind=2, n=2, tree=3, tree2=4), dict(kind=2, n=2, tree=6, tree2=5))]
META["C31"]["bounds"] += "; users whose hierarchies have the same size, number of leaves and sum of parents"


# ------------------------------------------------------------------ many attributes, slices, parts and tuples; parameters near 0
DIR = [(0, dict(nd=2, a=130, n=3)), (0, dict(nd=3, a=70, b=2, n=3)), (0, dict(nd=4, a=2, b=1, c=70, n=2)), (0, dict(nd=1, n=300)), (0, dict(nd=2, a=2, n=300)), (1, dict(nd=2, a=130, tree=4)), (1, dict(nd=3, a=2, b=66, tree=4)), (1, dict(nd=4, a=1, b=2, c=66, tree=4)), (2, dict(nd=3, a=130, n=2, tree=1)), (2, dict(nd=4, a=2, b=66, n=2, tree=1)), (2, dict(nd=2, n=80, tree=4)), (2, dict(nd=3, a=1, n=150, tree=1)), (2, dict(nd=4, a=1, b=1, n=70, tree=4)), (2, dict(nd=2, n=40, tree=13))]
for k, z in DIR: TABLE["C%d" % (17 + k)]["quick"] += long_(*[A(k, direct=1, random=r, stride=s, **z) for r, s in ((-1, 20), (2, 40))])
for k, z in ((0, dict(nd=2, a=600, n=2)), (0, dict(nd=3, a=2, b=300, n=2)), (1, dict(nd=2, a=600, tree=4)), (2, dict(nd=3, a=600, n=2, tree=1))): TABLE["C%d" % (17 + k)]["quick"] += long_(A(k, direct=1, random=-1, stride=200, **z))
TABLE["C17"]["quick"] += [A(0, direct=1, nd=d, n=4) for d in (1, 2)]; TABLE["C18"]["quick"] += [A(1, direct=1, nd=d, tree=t) for d, t in ((1, 13), (2, 4))]; TABLE["C19"]["quick"] += [A(2, direct=1, nd=d, tree=t, n=2) for d, t in ((2, 4), (3, 1))]
for m_ in (17, 18, 19): META["C%d" % m_]["bounds"] += "; partitions built from their cuts, with up to 132 attributes (and 300 ordered or 150 spatiotemporal slices)"
TABLE["C26"]["quick"] += long_(EQ(2, kind=0, n=150), EQ(2, kind=0, n=21), EQ(2, kind=1, gen=6, leaves=90), EQ(2, kind=1, gen=6, leaves=20), EQ(2, kind=2, gen=6, leaves=34, n=2), EQ(2, kind=2, gen=6, leaves=10, n=2)); META["C26"]["bounds"] += "; up to 150 parts that differ at two symbolic places"
TABLE["C11"]["quick"] += [W(11, 0, n=3, shape=2, wexp=7, exp=40, p0=341, gpow=30), W(11, 1, tree=4, shape=2, wexp=7, exp=40, p0=341, gpow=30)]
META["C11"]["bounds"] += "; gains 2^30 times the losses with thresholds of 2^-40"
TABLE["C12"]["quick"] += [dict(W(12, 0, shape=3, n=44, exp=9), opts={"max-instr": 4000000000}, budget=120), dict(W(12, 1, shape=3, gen=6, leaves=70, exp=9), opts={"max-instr": 4000000000}, budget=120)]; META["C12"]["bounds"] += ", of more than 1000 parts together"
TABLE["C29"]["quick"] += [SE(kind=1, gen=1, leaves=8, mode=1), SE(kind=2, gen=1, leaves=8, n=1, mode=1), SE(kind=2, gen=1, leaves=4, n=2, mode=1, random=3), SE(kind=1, gen=1, leaves=16, mode=1, stride=0)]; META["C29"]["bounds"] += "; every cut of a balanced tree of 16 leaves"
TABLE["C24"]["quick"] += [OV(m, nd=d, a=70, b=2, tree=t, n=2, lo=1, stride=s) for m in (0, 1, 2) for d, t, s in ((2, 1, 0), (2, 4, 40), (3, 9, 0))] + [OV(10, nd=2, a=70, tree=4, lo=1, stride=40), OV(11, nd=2, a=70, n=2, lo=1, stride=40), OV(3, kind=2, nd=3, a=70, n=2, tree=1, where=0, stride=40, lo=1), OV(4, kind=0, nd=2, a=70, n=2, stride=40, lo=1)]
META["C24"]["bounds"] += "; 70 attributes (140 in two dimensions)"
TABLE["C28"]["quick"] += [MO(1, kind=1, gen=4, leaves=l, stride=0, dp=1, lo=-1, hi=1, seed=s, **x) for l in (12, 24, 48) for s in (1, 2, 3, 4) for x in ({}, dict(same=1))] + [MO(1, kind=2, gen=4, leaves=12, n=3, stride=0, dp=1, lo=-1, hi=1, seed=s, same=1) for s in (1, 2)]
META["C28"]["bounds"] += "; wide inner nodes with ties"
