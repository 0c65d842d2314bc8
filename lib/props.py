"""Which jobs decide which property."""
import os, tempfile
_S = [None]
def scratch(create=True):
    if _S[0] is None and create:
        _S[0] = tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("TMPDIR", "/tmp"))
    return _S[0]

T = {}
def target(name, **k):
    T[name] = dict(name=name, **k)
def targets(P):
    b = P.get("build_thorough") if os.environ.get("VERIF_TIER") == "thorough" else None
    return [T[n] for n in (b or P.get("build", []))]
PROPS = {}

# ---- the Markov chain ------------------------------------------------------------------------
for k in (3, 5, 12):
    target("explorer%d" % k, harness=["explorer.cpp"], defs=["-DFEYNMAN_VERIF_MAX_K=%d" % k])
_A = ["diagrams of orders 4 to 9 are reached by a greedy climb and explored breadth first from there, up to the number of expanded states reported",
      "times are drawn from a finite set of values (1 to 3 positions), momenta from -3..3 (or -5..5; -12..12 where the search starts at a diagram of high order), lattices of 2 to 8 sites; the weight tables are generic complex numbers, optionally with zeros",
      "the pseudo-random generator is replaced by one that enumerates every word class the code can tell apart"]
def _mk(check, heavy=1.0):
    n = lambda x: str(int(x * heavy))
    q = ["explorer3 check=%s Order=2 NTau=1 states=4000000 time=300" % check,
         "explorer3 check=%s Order=1 NTau=3 Gamma=1 Sub=2 mixed=1 states=%s" % (check, n(350000)),
         "explorer3 check=%s Order=2 NTau=2 Gamma=1 Lx=2 Ly=2 Sub=2 Zeros=25 mixed=1 states=%s" % (check, n(350000)),
         "explorer3 check=%s Order=3 NTau=1 Gamma=1 mixed=1 seed=2 WormRW=2.5 PolarRW=0.375 GammaGRW=3.5 GammaWRW=0.625 states=%s" % (check, n(350000)),
         "explorer3 check=%s Order=2 NTau=2 tau0=1 mixed=1 seed=3 Beta=0.75 states=%s" % (check, n(400000)),
         "explorer3 check=%s Order=2 NTau=1 Gamma=1 Lx=3 Bins=5 seed=4 states=%s" % (check, n(500000)),
         "explorer3 check=%s Order=1 NTau=2 Gamma=1 Lx=2 Ly=3 Zeros=15 Bins=6 Tiny=3 seed=5 states=%s" % (check, n(400000)),
         "explorer12 check=%s Order=9 climb=9 NTau=1 Gamma=1 mixed=1 seed=2 states=%s" % (check, n(12000)),
         "explorer12 check=%s Order=4 climb=4 NTau=2 mixed=1 seed=5 Sub=2 states=%s" % (check, n(12000)),
         "explorer12 check=%s Order=6 climb=6 NTau=1 Gamma=1 mixed=1 seed=3 Ly=2 Zeros=10 states=%s" % (check, n(12000))]
    t = ["explorer3 check=%s Order=2 NTau=1 states=4000000" % check,
         "explorer3 check=%s Order=2 NTau=1 Gamma=1 states=9000000 time=3000" % check,
         "explorer3 check=%s Order=1 NTau=3 Gamma=1 Sub=2 states=5000000" % check,
         "explorer3 check=%s Order=2 NTau=2 Gamma=1 Lx=2 Ly=2 Sub=2 Zeros=25 mixed=1 states=2000000" % check,
         "explorer3 check=%s Order=3 NTau=2 Gamma=1 mixed=1 seed=2 WormRW=2.5 PolarRW=0.375 states=2000000" % check,
         "explorer5 check=%s Order=3 NTau=1 mixed=1 seed=3 states=2000000" % check,
         "explorer5 check=%s Order=4 NTau=1 mixed=1 seed=6 states=1500000" % check,
         "explorer12 check=%s Order=9 climb=9 NTau=1 Gamma=1 mixed=1 seed=2 states=60000" % check,
         "explorer12 check=%s Order=9 climb=9 NTau=2 mixed=1 seed=4 Ly=2 WormRW=2.5 PolarRW=0.375 states=25000" % check,
         "explorer12 check=%s Order=4 climb=4 NTau=2 Gamma=1 mixed=1 seed=5 Sub=2 states=60000" % check,
         "explorer12 check=%s Order=6 climb=6 NTau=1 Gamma=1 mixed=1 seed=3 Ly=2 Zeros=10 states=60000" % check]
    return q, t
for c, heavy in (("C01", .8), ("C02", 1.0), ("C03", 1.0), ("C04", 1.0), ("C05", 1.0), ("C06", .25)):
    q, t = _mk(c, heavy)
    if c == "C05":
        q = ["explorer3 check=C05 Order=2 NTau=1 states=4000000 time=300",
             "explorer3 check=C05 Order=1 NTau=2 Sub=2 Gamma=1 states=4000000",
             "explorer3 check=C05 Order=1 NTau=3 Ly=2 seed=2 states=4000000",
             "explorer3 check=C05 Order=3 NTau=1 mixed=1 states=300000"]
        t = q[:3] + ["explorer3 check=C05 Order=2 NTau=1 Sub=2 states=14000000 time=5000", "explorer5 check=C05 Order=3 NTau=1 mixed=1 states=2000000"]
    far = ["explorer12"] if c != "C05" else []
    PROPS[c] = dict(build=["explorer3"] + far, build_thorough=["explorer3", "explorer5"] + far, quick=q, thorough=t, assume=_A, parallel=8)
PROPS["C23"] = dict(build=["explorer3", "explorer5"], assume=_A,
                    quick=["explorer3 check=C23 Order=%d NTau=%d Gamma=%d seed=%d grid=16384 pool=4000" % (o, n, g, 3 + o) for o in (2, 3) for n in (1, 2) for g in (0, 1)] + ["explorer3 check=C23 Order=3 NTau=2 Sub=2 grid=8192 pool=4000", "explorer3 check=C23 Order=2 NTau=1 Lx=2 Ly=2 Sub=2 Gamma=1 grid=8192 pool=4000 Beta=0.7", "explorer5 check=C23 Order=4 NTau=1 Gamma=1 grid=8192 pool=8000", "explorer5 check=C23 Order=5 NTau=1 grid=8192 pool=8000"],
                    thorough=["explorer5 check=C23 Order=%d NTau=%d Gamma=%d grid=65536 pool=20000" % (o, n, g) for o in (2, 3, 4) for n in (1, 2) for g in (0, 1)])

# ---- lattice ---------------------------------------------------------------------------------
target("lattice2", harness=["lattice.cpp"])
target("lattice3", harness=["lattice.cpp"], overlay=[("src/utility/convention.h", r"const\s+int\s+D\s*=\s*2", "const int D = 3")], repo=["lattice/", "utility/"], optional=True)
PROPS["C07"] = dict(build=["lattice2", "lattice3"], quick=["lattice2", "lattice3"], thorough=["lattice2 L=12 sub=4 transvol=100", "lattice3 L=5 transvol=64"],
                    assume=["lattice sizes up to 7x7 (3x3x3 in the three-dimensional build), 1 to 3 sublattices; some long and large ones up to 300x257 and 40x40x45 with the displacements from a few sites only"])
target("index", harness=["index.cpp"])
PROPS["C08"] = dict(build=["index"], quick=["index"], thorough=["index deep=1"],
                    assume=["lattices up to 4x4 (6x6 thorough), up to 3 sublattices; temperatures and bin counts from a finite family; a difference closer to a bin edge than double rounding may fall on either side"])
target("lines", harness=["lines.cpp"])
PROPS["C09"] = dict(build=["lines"],
                    quick=["lines Lx=2 Ly=2 Sub=1 Bins=4 Tiny=2", "lines Lx=2 Ly=1 Sub=2 Bins=4 Tiny=2 seed=2", "lines Lx=3 Ly=1 Bins=2 Tiny=4 seed=3", "lines Lx=1 Ly=3 Bins=5 Tiny=3 Beta=0.7 edges=0 seed=4", "lines Lx=2 Ly=3 Bins=2 Tiny=2 Beta=0.5 seed=5", "lines Lx=3 Ly=2 Sub=2 Bins=2 Tiny=1 seed=6", "lines Lx=1 Ly=1 Bins=16 Tiny=8 seed=7"],
                    thorough=["lines Lx=3 Ly=3 Sub=1 Bins=8 Tiny=4", "lines Lx=2 Ly=2 Sub=2 Bins=8 Tiny=4 seed=2", "lines Lx=4 Ly=2 Bins=8 Tiny=8 seed=3", "lines Lx=2 Ly=4 Bins=7 Tiny=3 Beta=0.7 edges=0 seed=4", "lines Lx=1 Ly=1 Bins=32 Tiny=32 seed=7", "lines Lx=3 Ly=2 Sub=3 Bins=4 Tiny=2 seed=5"],
                    assume=["small lattices and time grids; times are multiples of beta/2^32 as the simulation draws them; one generic complex table per job"])
target("gamma3", harness=["gamma3.cpp"])
PROPS["C22"] = dict(build=["gamma3"],
                    quick=["gamma3 Lx=2 Ly=2 Bins=4 Tiny=2", "gamma3 Lx=2 Ly=1 Sub=2 Bins=2 Tiny=4 seed=2", "gamma3 Lx=3 Ly=1 Bins=4 Tiny=4 seed=3", "gamma3 Lx=1 Ly=3 Bins=5 Tiny=3 Beta=0.7 edges=0 seed=4", "gamma3 Lx=2 Ly=3 Bins=2 Tiny=2 Beta=0.5 seed=5", "gamma3 Lx=1 Ly=1 Bins=8 Tiny=8 seed=7"],
                    thorough=["gamma3 Lx=3 Ly=3 Bins=4 Tiny=4", "gamma3 Lx=2 Ly=2 Sub=2 Bins=4 Tiny=4 seed=2", "gamma3 Lx=4 Ly=2 Bins=4 Tiny=4 seed=3", "gamma3 Lx=2 Ly=2 Bins=7 Tiny=6 Beta=0.7 edges=0 seed=4", "gamma3 Lx=2 Ly=1 Bins=16 Tiny=16 seed=5"],
                    assume=["small lattices and time grids; times are multiples of beta/2^32 as the simulation draws them; four families of symmetry maps"])
_SMALL = [("src/utility/convention.h", r"const\s+int\s+MAX_ORDER\s*=\s*\d+", "const int MAX_ORDER = %d")]
target("pool", harness=["pool.cpp"])
for _n in (2, 3):
    target("pool%d" % (2 * _n), harness=["pool.cpp"], overlay=[(a, b, c % _n) for a, b, c in _SMALL], repo=["module/diagram/component", "utility/", "lattice/"], optional=True)
_full = ["pool depth=2 prefill=%d type=%d" % (p, t) for p in (0, 11, 18, 20) for t in range(3)]
PROPS["C10"] = dict(build=["pool", "pool4", "pool6"], quick=["pool4"] + ["pool6 type=%d" % t for t in range(3)] + _full,
                    thorough=["pool4", "pool6"] + ["pool depth=4 prefill=%d type=%d" % (p, t) for p in (0, 2, 5, 11, 17, 18, 19, 20) for t in range(3)],
                    assume=["all histories are explored at capacities 4 and 6 (a build with a smaller maximum order); at the shipped capacity of 20 all histories of 2 (4 thorough) operations from four (eight) fill levels", "callers pass pointers to readable memory"])
for _k in (2, 3, 4):
    target("momentum%d" % _k, harness=["momentum.cpp"], defs=["-DFEYNMAN_VERIF_MAX_K=%d" % _k])
target("momentum", harness=["momentum.cpp"])
PROPS["C11"] = dict(build=["momentum3", "momentum"], build_thorough=["momentum2", "momentum3", "momentum4", "momentum"],
                    quick=["momentum3", "momentum threads=8"], thorough=["momentum2", "momentum3", "momentum4", "momentum threads=8"],
                    assume=["all pairs in the range +-3 and their occupancy sets (+-2, +-4 too in the thorough tier); every pair in the shipped range +-10000"])
target("rng", harness=["rng.cpp"], repo=["utility/"])
target("rngplain", harness=["rng.cpp"], repo=["utility/"], guard=False)
PROPS["C12"] = dict(build=["rng", "rngplain"], quick=["rng part=words", "rngplain part=state", "rng part=state pos=30 depth=4"], thorough=["rng part=words", "rng part=more", "rngplain part=state tail=1400", "rngplain part=state pos=10 depth=8", "rng part=state"], parallel=4,
                    assume=["integer intervals from a list; the generator algorithm itself (std::mt19937) is trusted"])
target("estimator", harness=["estimator.cpp"])
target("estimator6", harness=["estimator.cpp"], overlay=[("src/estimator/estimator.h", r"#define\s+SIZE\s+\d+", "#define SIZE 6")], repo=["estimator/", "utility/", "lattice/"], optional=True)
PROPS["C13"] = dict(build=["estimator", "estimator6"],
                    quick=["estimator6 part=single depth=5 complex=1", "estimator6 part=single depth=5 complex=0", "estimator6 part=long n=400", "estimator part=long n=45000", "estimator part=many", "estimator6 part=set depth=4 complex=1", "estimator6 part=set depth=3 complex=0", "estimator part=single depth=2", "estimator part=set depth=2"],
                    thorough=["estimator6 part=single depth=6 complex=1", "estimator6 part=single depth=6 complex=0", "estimator6 part=long n=3000", "estimator part=long n=100000", "estimator part=many n=300000000", "estimator6 part=set depth=5 complex=1", "estimator6 part=set depth=5 complex=0"],
                    assume=["operation sequences up to the stated depth; a few values and squeeze factors, compared up to rounding (1e-11); up to 2e7 measurements in one history; histories of capacity 6 stand for the shipped 10000, which is run once beyond its capacity", "the weight sum starts at one, as documented"])
target("complex", harness=["complex.cpp"], repo=["utility/"])
PROPS["C20"] = dict(build=["complex"], quick=["complex depth=3"], thorough=["complex depth=4 deep=1"],
                    assume=["finite operands whose squared modulus neither overflows nor underflows; on the negative real axis either square root is accepted"])
target("timer", harness=["timer.cpp"], repo=["utility/"])
PROPS["C24"] = dict(build=["timer"], quick=["timer depth=6"], thorough=["timer depth=7"],
                    assume=["clocks have a resolution of one second and do not run backwards; intervals from a list; a timer is started before it is asked"])

# ---- python side -----------------------------------------------------------------------------
def py(name, args): return ["python3", "@VERIF@/pyharness/%s.py" % name] + args.split()
_PY = "the Python 2 sources are run through a mechanical translation to Python 3 (lib/py2), made anew from the working tree in every run"
PROPS["C18"] = dict(quick=[py("checkpoint", "part=round")] + [py("checkpoint", "part=crash form=%s depth=1%s" % (f, s)) for f in ("big", "text") for s in ("", " sub=x/y")] + [py("checkpoint", "part=crash form=text depth=2")]
                    + [py("checkpoint", "part=crash form=big depth=2 sizes=3 shards=8 shard=%d" % i) for i in range(8)],
                    thorough=[py("checkpoint", "part=round levels=2")] + [py("checkpoint", "part=crash form=text depth=3 sizes=3 shards=4 shard=%d" % i) for i in range(4)] + [py("checkpoint", "part=crash form=big depth=2 sizes=3,40,400 piece=512 shards=8 shard=%d" % i) for i in range(8)],
                    assume=[_PY, "h5py is replaced by a stand-in that empties the file when opened and fills it in several writes (h5py is not installed); its own format is not checked", "the crash is the death of the process: what the kernel has accepted is not lost"])
target("signal", harness=["signal.cpp"], repo=["utility/"], guard=False)
PROPS["C16"] = dict(build=["signal"], quick=["signal depth=7 signals=2 shards=8 shard=%d" % i for i in range(8)] + ["signal depth=3 signals=3 shards=4 shard=%d" % i for i in range(4)], thorough=["signal depth=5 signals=3 shards=16 shard=%d" % i for i in range(16)] + ["signal depth=9 signals=2 shards=8 shard=%d" % i for i in range(8)],
                    assume=["signals arrive at the library calls made by the operations and handlers, and between operations; an arrival inside the allocator is not explored", "one handler object at a time; sections are not nested"])
target("saveload", harness=["saveload.cpp"], guard=False)
_c17 = "explorer3 check=C17 "
PROPS["C17"] = dict(build=["saveload", "explorer3"], build_thorough=["saveload", "explorer3", "explorer5"],
                    quick=[_c17 + a for a in ("Order=2 NTau=1 states=120000 Beta=2.3", "Order=3 NTau=1 Gamma=1 mixed=1 seed=2 states=60000", "Order=1 NTau=2 Gamma=1 Lx=2 Ly=2 Sub=2 mixed=1 seed=3 states=120000 Beta=0.7")]
                    + ["saveload Order=%d seed=%d points=%d gap=%d Sub=%d Gamma=%d cont=%s" % a for a in ((2, 1, 300, 1, 1, 0, 25), (3, 2, 250, 7, 2, 0, "60 Beta=0.7 Version=2147483000"), (3, 3, 120, 3, 1, 1, "40 Beta=0.3 Version=70000"), (1, 4, 100, 2, 1, 1, 30), (4, 5, 250, 11, 1, 0, 100))],
                    thorough=[_c17 + a for a in ("Order=2 NTau=1 states=4000000 Beta=2.3", "Order=3 NTau=2 Gamma=1 mixed=1 seed=2 states=1500000", "Order=2 NTau=1 Gamma=1 Lx=2 Ly=2 Sub=2 mixed=1 seed=3 states=1500000")] + ["explorer5 check=C17 Order=4 NTau=1 mixed=1 seed=6 states=1000000"]
                    + ["saveload Order=%d seed=%d points=4000 gap=%d Sub=%d Gamma=%d cont=%d" % a for a in ((2, 11, 1, 1, 0, 40), (3, 12, 1, 2, 0, 100), (3, 13, 1, 1, 1, 60), (5, 14, 3, 1, 0, 200))],
                    assume=_A + ["continuations after a restart are followed along the chain of a fixed seed, every step of it a save point; the diagram itself is restored in every explored state", _PY, "numbers that are recomputed on restart are compared up to rounding (1e-9)"])
target("reweight", harness=["reweight.cpp"])
PROPS["C15"] = dict(build=["reweight"], quick=["reweight Order=1 counts=0,998,999,1300,5000", "reweight Order=1 Gamma=1", "reweight Order=2 counts=0,998,1300,5000", "reweight Order=2 Gamma=1 counts=0,1300,5000", "reweight Order=3 counts=0,1300,5000", "reweight Order=1 Gamma=1 counts=0,1998,2600 squeeze=2", "reweight Order=1 counts=0,3999,8000 squeeze=4"],
                    thorough=["reweight Order=1 counts=0,1,997,998,999,1000,1300,5000", "reweight Order=1 Gamma=1 counts=0,998,999,1300,5000", "reweight Order=2 counts=0,998,999,1300,5000", "reweight Order=2 Gamma=1 counts=0,998,1300,5000", "reweight Order=3 counts=0,998,1300,5000", "reweight Order=3 Gamma=1 counts=0,1300,5000"],
                    assume=["a sector counts as measured when the reweighting's own threshold of 1000 is reached"])
target("weightacc", harness=["weightacc.cpp"])
_c14 = lambda d, n, x="": ["weightacc kind=%s depth=%d shards=%d shard=%d%s" % (k, d, n, i, x) for k in ("sigma", "polar", "gammag", "gammaw") for i in range(n)]
PROPS["C14"] = dict(build=["weightacc"], quick=_c14(5, 2) + _c14(3, 1, " Order=3 Lx=2 Ly=2 Bins=3 Tiny=3 Beta=0.75 Sub=2") + _c14(4, 1, " Order=1 Lx=1 Bins=2 Tiny=2") + ["weightacc kind=polar depth=2 Order=2 Lx=4 Ly=4 Sub=2 Bins=64", "weightacc kind=sigma depth=2 Order=3 Lx=4 Ly=8 Sub=2 Bins=128"],
                    thorough=_c14(6, 13) + _c14(5, 4, " Order=3 Lx=2 Ly=2 Bins=3 Tiny=3 Beta=0.75 Sub=2"),
                    assume=["one representative measurement per kind of cell (where a measurement goes is decided by C06, C09 and C22); weights, norms and factors from a small set"])
target("listen", harness=["listen.cpp"], guard=False)
PROPS["C19"] = dict(build=["listen"],
                    quick=["listen depth=3 shards=8 warm=3000 WormRW=0.003 shard=%d" % i for i in range(8)] + ["listen depth=2 warm=%d Order=%d Sub=%d Gamma=%d seed=%d Lx=%d WormRW=%g Version=%d Beta=%g" % a for a in ((3000,3,2,0,2,2,.02,2147483000,.7),(200,2,1,1,3,2,.75,40000,.3),(2000,3,1,1,4,1,.05,0,.5),(0,1,1,1,5,2,.75,8388608,1.1),(2000,2,1,1,6,1,.02,255,.5))] + ["listen interleave=1 warm=%d Order=%d Sub=%d Gamma=%d seed=%d Lx=%d WormRW=%g" % a for a in ((3000,2,1,0,2,2,.02),(100,2,1,1,3,2,.75),(500,2,2,1,4,1,.05),(0,1,1,0,5,2,.75))],
                    thorough=["listen depth=4 shards=32 warm=3000 WormRW=0.003 shard=%d" % i for i in range(32)] + ["listen depth=3 warm=%d Order=%d Sub=%d Gamma=%d seed=%d Lx=%d WormRW=%g" % a for a in ((3000,3,2,0,2,2,.02),(200,2,1,1,3,2,.75),(2000,3,1,1,4,1,.05),(0,1,1,1,5,2,.75),(2000,2,1,1,6,1,.02))] + ["listen interleave=1 warm=%d Order=%d Sub=%d Gamma=%d seed=%d Lx=%d WormRW=%g" % a for w in (0, 50, 400, 2500) for a in ((w,3,1,0,2,2,.02),(w,2,1,1,3,2,.75),(w,2,2,1,4,1,.05),(w,2,1,0,5,3,.75))],
                    assume=["beta does not fall from one version to the next, as in the self-consistency loop; weight and basis files of the solver are consistent with its message", "two weight tables per version; messages, betas and squeeze factors from a list", "in the middle of a poll the solver (weights renamed into place, then the message) acts before and after each look-up of either file by name; beta is the same there, as within one run of the solver", _PY])
target("mainloop", harness=["mainloop.cpp", "mainproc.cpp"])
_m = lambda x, n=1: ["mainloop " + x + (" shards=%d shard=%d" % (n, i) if n > 1 else "") for i in range(n)]
PROPS["C21"] = dict(build=["mainloop"],
                    quick=_m("part=stop Order=1 Ly=1", 4) + _m("part=stop Order=2 Ly=1 load=1 first=1 toss=1", 4) + _m("part=clock depth=3 Order=1 Ly=1", 6) + _m("part=clock depth=2 warm=60 Order=1 Ly=1 WormRW=.05 ivals=1,2 advs=0,1,2", 2) + _m("part=clock depth=2 load=1 prep=60 WormRW=.05 Order=1 Ly=1 ivals=1,2 advs=0,1,2")
                    + _m("part=clock depth=3 ivals=1,2 advs=1,2 msgs=2 Ly=1 Order=2", 4) + _m("part=clock depth=2 ivals=0,1,2 advs=0,1,2 load=1 first=1 msgs=1 Order=2 Ly=1 toss=60 sweep=5", 4) + _m("part=clock depth=1 first=1 Order=2 Ly=1 toss=60 sweep=5 ivals=1,2 advs=0,1") + _m("part=clock depth=2 ivals=1,2 advs=0,1,3 msgs=2 Gamma=1 Order=1 Lx=2 Ly=1 WormRW=.1 sweep=2", 2) + _m("part=start Order=2 Ly=1"),
                    thorough=_m("part=stop signals=2 Order=1 Ly=1", 32) + _m("part=stop signals=1 Order=2 Sub=2", 8) + _m("part=stop signals=1 Order=1 Gamma=1 Ly=1 load=1", 8) + _m("part=clock depth=4 ivals=0,1,2,3 advs=0,1,2,3 Order=1 Ly=1", 32) + _m("part=clock depth=3 warm=60 Order=1 Ly=1 WormRW=.05 ivals=1,2 advs=0,1,2", 8) + _m("part=clock depth=3 load=1 prep=60 WormRW=.05 Order=1 Ly=1 ivals=1,2 advs=0,1,2", 8)
                    + _m("part=clock depth=4 ivals=1,2,3 advs=1,2 msgs=2 Ly=1 Order=2", 16) + _m("part=clock depth=3 ivals=0,1,2 advs=0,1,2 load=1 first=1 msgs=1 Order=2 Ly=2 toss=60 sweep=5", 16) + _m("part=clock depth=3 ivals=1,2 advs=0,1,3 msgs=2 Gamma=1 Order=1 Ly=1 WormRW=.1 sweep=2", 16) + _m("part=start Order=3"),
                    assume=["time advances in whole seconds and between rounds of a hundred measurements; intervals, advances and the number of rounds from small sets", "signals arrive at the library calls for files, clocks and signals and at the first and last random word of a round", "the units main() composes (the chain, the measurements, saving, annealing, reweighting) are taken from the library itself; other properties decide them", _PY])
_w = lambda d, n, x: [py("weights", "part=history depth=%d case=%d none=%d shards=%d shard=%d" % (d, x[0], x[1], n, i)) for i in range(n)]
PROPS["C25"] = dict(quick=[py("weights", "part=solve"), py("weights", "part=solve solver=fast")] + [py("weights", "part=fft depth=3 shards=6 shard=%d" % i) for i in range(6)] + _w(6, 8, (0, 0)) + _w(6, 2, (0, 1)) + sum((_w(5, 1, (c, 0)) for c in (1, 2, 3)), []),
                    thorough=[py("weights", "part=solve"), py("weights", "part=solve solver=fast")] + [py("weights", "part=fft depth=4 shards=32 shard=%d" % i) for i in range(32)] + _w(7, 64, (0, 0)) + _w(7, 16, (0, 1)) + sum((_w(6, 16, (c, 0)) for c in (1, 2, 3)), []),
                    assume=[_PY, "small lattices, few times and one or two sublattices; transforms are linear, so basis tensors decide them; comparisons up to rounding (1e-11)", "both linear solvers: the Python one and the compiled one, whose Cython source is built with the Cython and numpy that are here (two expressions of the time are spelled anew)"])
target("workers", harness=["workers.cpp"], guard=False)
_c = lambda x, n=1: [py("collecting", x + (" shards=%d shard=%d" % (n, i) if n > 1 else "")) for i in range(n)]
PROPS["C26"] = dict(build=["workers"],
                    quick=_c("part=files n=1") + _c("part=files n=1 gamma=1") + _c("part=files n=2") + _c("part=files n=2 gamma=1") + _c("part=files n=3", 8) + _c("part=files n=3 gamma=1 few=1", 2) + _c("part=files n=4 maxbad=2 few=1 allorders=4", 8) + _c("part=files n=5 maxbad=2 few=1", 2) + _c("part=orders") + _c("part=orders gamma=1 nt=11")
                    + _c("part=workers exe=@EXE:workers@ workers=3 sub=2") + _c("part=workers exe=@EXE:workers@ workers=3 gamma=1") + _c("part=workers exe=@EXE:workers@ workers=4 sub=1"),
                    thorough=_c("part=files n=3 gamma=1", 16) + _c("part=files n=4 maxbad=2 allorders=4", 32) + _c("part=files n=4 maxbad=3 few=1 gamma=1 allorders=4", 16) + _c("part=files n=5 maxbad=2 few=1 allorders=5", 32) + _c("part=orders nt=16") + _c("part=workers exe=@EXE:workers@ workers=4 sub=2 steps=40000"),
                    assume=[_PY, "h5py is replaced by a stand-in (not installed), so which bytes make a file unreadable is the stand-in's", "a file that does not fit the others (another norm or number of orders) is judged against those listed before it; at most one such file per case"])
_j = lambda *x: [py("jobs", a) for a in x]
PROPS["C27"] = dict(quick=_j("part=stop mc=3 dyson=1 cpu=2", "part=stop mc=2 dyson=1 cpu=2 early=1", "part=stop mc=2 dyson=1 cpu=2 stops=2 early=1 lines=0", "part=orders mc=5 cpu=3 pause=1", "part=orders mc=5 cpu=2", "part=orders mc=5 cpu=1", "part=orders mc=4 early=1 pause=1", "part=stop mc=3 dyson=0 cpu=1 int=1", "part=stop mc=3 dyson=0 cpu=3 early=2 lines=0", "part=stop mc=3 dyson=0 cpu=2 stops=2 early=2 lines=0", "part=files", "part=other", "part=other stops=1", "part=big mc=7", "part=ids"),
                    thorough=_j("part=stop mc=2 dyson=1 cpu=2 stops=2", "part=stop mc=4 dyson=1 cpu=2 pause=1", "part=stop mc=3 dyson=1 cpu=3 early=1 pause=1", "part=stop mc=3 dyson=1 cpu=2 stops=3 early=1 lines=0", "part=stop mc=3 dyson=1 cpu=2 stops=1 early=2", "part=orders mc=6 cpu=3", "part=orders mc=6 cpu=2 early=1", "part=orders mc=6 cpu=1 early=2", "part=stop mc=3 dyson=0 cpu=3 stops=2 early=2 lines=0", "part=files", "part=other", "part=other stops=1", "part=big mc=8 cpu=4", "part=big mc=8 dyson=1", "part=ids"),
                    assume=[_PY, "processes are stand-ins with the behaviour of Python 2's subprocess; a few runs with real processes are part of the check", "one group of Monte Carlo jobs and one solver, as in the shipped inlist; a stop request arrives at any executed line of the manager or any call it makes", "a job that was asked to end does end"])
_s = lambda x, n=1: [py("solving", x + (" shards=%d shard=%d" % (n, i) if n > 1 else "")) for i in range(n)]
PROPS["C28"] = dict(quick=_s("mode=mc depth=3", 3) + _s("depth=4 field=1 fails=3", 3) + _s("depth=3 gamma=1", 2) + _s("depth=2 gamma=1 tiny=4") + _s("mode=mc gamma=1 depth=2") + _s("depth=2 sumrule=1") + _s("mode=mc depth=2 sumrule=1 fails=1") + _s("depth=2 unknown=1 lattice=Checkerboard subs=2 field=1")
                    + _s("depth=2 kills=1 field=1") + _s("depth=2 oserrs=1") + _s("depth=2 sigs=1 fails=1") + _s("mode=mc depth=2 kills=1 fails=1 gamma=1") + _s("mode=mc depth=2 oserrs=1 fails=1") + _s("mode=mc depth=2 sigs=1 fails=1")
                    + _s("depth=2 fails=0 lines=2 visits=1", 4) + _s("mode=mc depth=1 fails=0 lines=1 visits=1", 4) + _s("mode=mc depth=1 startup=1 fails=0 visits=2"),
                    thorough=_s("mode=mc depth=4", 32) + _s("depth=5 field=1", 32) + _s("depth=4 gamma=1", 16) + _s("depth=4 gamma=1 tiny=4", 8) + _s("mode=mc gamma=1 depth=3", 16) + _s("depth=3 sumrule=1", 4) + _s("mode=mc depth=3 sumrule=1", 8) + _s("depth=3 unknown=1 lattice=Checkerboard subs=2 field=1", 4)
                    + _s("depth=3 kills=2 restarts=2 field=1", 16) + _s("depth=3 oserrs=2 restarts=2", 16) + _s("depth=3 kills=1 oserrs=1 restarts=2 gamma=1 fails=1", 16) + _s("depth=3 sigs=1 kills=1 restarts=2 fails=1", 16) + _s("mode=mc depth=3 kills=1 sigs=1 restarts=2 gamma=1 fails=1", 16)
                    + _s("depth=2 fails=0 lines=2", 16) + _s("mode=mc depth=1 fails=0 lines=1", 16) + _s("mode=mc depth=1 fails=0 lines=1 gamma=1 visits=3", 16) + _s("mode=mc depth=1 startup=1 fails=0"),
                    assume=[_PY, "matplotlib and the figures are left out; h5py is replaced by a stand-in (not installed)", "a lattice of four cells, eight times; the Dyson equations and diagrams are those of the repository (C31), the specification repeats only the loop", "signals act at the next executed line; a failing file operation fails when the file is opened or renamed (C18 has the writes)"])
_a = lambda *x: [py("agree", "exe=@EXE:explorer3@ " + a) for a in x]
PROPS["C29"] = dict(build=["explorer3"],
                    quick=_a("Order=2 Bins=5", "Order=2 Bins=3 Beta=0.5 seed=4", "part=map", "Lx=2 seed=2", "Lx=3 Ly=2 Sub=3 Bins=5", "Lx=2 Ly=2 Sub=2", "Gamma=1 Lx=3 sym=Square", "Gamma=1 Lx=2 Ly=2 sym=Square Bins=6 Tiny=3", "Gamma=1 Lx=2 Ly=3 Bins=3 sym=Square seed=3", "Gamma=1 Lx=3 Ly=3 Bins=4 sym=Square Beta=0.7", "Gamma=1 Lx=3 Ly=3 sym=Triangular seed=5", "Gamma=1 Lx=2 Ly=4 Bins=4 Tiny=2 sym=Triangular", "Gamma=1 Lx=4 Bins=3 seed=6 Beta=3.5"),
                    thorough=_a("Order=2 Gamma=1 Bins=2 Lx=2 sym=Square states=30000000", "Order=2 Bins=8", "Order=2 Lx=3 Bins=3 states=30000000", "Gamma=1 Lx=4 Ly=4 sym=Square Bins=3", "Gamma=1 Lx=3 Ly=3 sym=Square Bins=12 Tiny=4", "Gamma=1 Lx=2 Ly=2 sym=Square Bins=16 Tiny=8", "Gamma=1 Lx=3 Ly=3 sym=Triangular Bins=8", "Lx=4 Ly=4 Sub=2 Bins=8", "part=map"),
                    assume=_A[:1] + [_PY, "h5py is replaced by a stand-in (not installed)", "first order of all quantities, second order of self-energy and polarization (of the vertex functions in the thorough command); the times of every explored structure are summed over all bins and all orders within the bins", "a triangular lattice has its reflections only where the torus has them (its second length a multiple of its first); with vertex functions one atom per cell, a hermitian vertex function and a real interaction", "diagrams that differ by momenta only have the same value, so each structure is taken once"])
_b = lambda *x: [py("baremodel", a) for a in x]
_NAMES = ("Chain", "Square", "Checkerboard", "ValenceBond", "Triangular", "Assymetric_Triangular", "Honeycomb", "Kagome", "Cubic", "3DCheckerboard", "Pyrochlore")
PROPS["C30"] = dict(quick=_b(*["part=geometry lattice=%s l2=4" % n for n in _NAMES]) + _b("part=spins", "part=fermions l2=4", "part=averages", "part=phase", "part=field depth=5"),
                    thorough=_b(*["part=geometry lattice=%s l1=16 l2=7 l3=3" % n for n in _NAMES[:8]]) + _b("part=geometry lattice=Cubic l3=5", "part=geometry lattice=3DCheckerboard l3=4", "part=geometry lattice=Pyrochlore l3=4") + _b("part=spins l1=12 l2=7 l3=4", "part=fermions l2=8", "part=averages sites=40 l2=5", "part=phase", "part=field depth=7"),
                    assume=[_PY, "models and lattices that inlist.py and model.py name; couplings, fields and temperatures from a list (what is linear is decided by unit vectors)", "a bond between two cells that are joined several ways round a small torus counts once, as the program has it", "the Haldane and other unfinished models are left out"])
_d = lambda *x: [py("dysoneq", a) for a in x]
_ALL = ("first", "fock", "hartree-fock", "polarisation", "dyson", "refuse", "response", "vertex", "twow")
PROPS["C31"] = dict(quick=_d(*["part=%s L=2x2 nt=3" % x for x in _ALL[:-1]]) + _d("part=twow L=2x2 nt=2", "part=twow L=3x1 nt=2 tiny=1", "part=twow L=2x1 nt=4 tiny=2", "part=polarisation L=3 sub=2", "part=polarisation L=3x2", "part=dyson L=3 sub=2 nt=2", "part=dyson L=2x3 nt=4", "part=fock L=3 sub=2 nt=2", "part=hartree-fock L=3 sub=2 nt=2", "part=first L=3x2 nt=2", "part=response L=3 sub=2 nt=2", "part=vertex L=3 nt=2", "part=vertex L=3x2 nt=2 beta=1.9", "part=shared L=3x1", "part=dyson L=2x2 nt=3 solver=fast", "part=dyson L=3 sub=2 nt=2 solver=fast", "part=shared L=3x1 solver=fast"),
                    thorough=_d(*["part=%s L=%s nt=%d sub=%d beta=%g" % (x, l, n, u, b) for x in _ALL[:-2] for l, n, u, b in (("3x3", 4, 1, 1.3), ("3x2", 3, 2, .7), ("4", 6, 2, 2.5), ("2x2x2", 3, 1, .7))]) + _d("part=vertex L=3x3 nt=3", "part=vertex L=4x2 nt=2", "part=vertex L=2x2 nt=6 tiny=3", "part=twow L=3x2 nt=2 tiny=1", "part=twow L=3x3 nt=2", "part=twow L=2x2 nt=4 tiny=2", "part=shared L=3x2", "part=shared L=2x2 nt=4"),
                    assume=[_PY, "everything but the Dyson equations is linear in each argument, so tuples of basis functions decide it for the given lattice; the Dyson equations are decided by their residual on dense tables", "the linear solver is the Python one, and for a part of the Dyson equations and shared tables the compiled one; C25 has both"])
target("glue", harness=["glue.cpp"])
_g = lambda x, n=1: ["glue " + x + (" shards=%d shard=%d" % (n, i) if n > 1 else "") for i in range(n)]
PROPS["C32"] = dict(build=["glue"], quick=_g("part=values", 4) + _g("part=arrays") + _g("part=calls") + _g("part=dict depth=4", 4) + _g("part=dict all=1 depth=3", 4),
                    thorough=_g("part=values long=1", 8) + _g("part=arrays dims=7") + _g("part=calls") + _g("part=dict depth=5", 16) + _g("part=dict all=1 depth=4", 32),
                    assume=["the interpreter is Python 3 behind the names of Python 2's interface (Python 2 is not installed), so int and long are one type and text is text", "a value counts as of another type only where it cannot be given exactly in the type asked for; truth values and whole floating-point numbers may be read as numbers or refused", "numbers up to 67 bits and one far larger, texts without a zero byte, containers up to three elements (four in the thorough command)"])
target("params", harness=["params.cpp"], guard=False)
_p = lambda x, n=1: ["params " + x + (" shards=%d shard=%d" % (n, i) if n > 1 else "") for i in range(n)]
PROPS["C33"] = dict(build=["params"], quick=_p("part=fields triples=1", 16) + _p("part=dims", 8),
                    thorough=_p("part=fields triples=1", 32) + _p("part=dims deep=1", 16),
                    assume=["values of a set per field; what is refused with one value of each other field is taken to be refused with all", "dimensions from small sets (three lattices, two of the same volume, one or two sublattices, two to four numbers of bins each)", _PY])
_o = lambda x, n=1: [py("accepting", x + (" shards=%d shard=%d" % (n, i) if n > 1 else "")) for i in range(n)]
PROPS["C34"] = dict(quick=_o("part=orders ord=3 scale=0.5", 4) + _o("part=orders ord=3 few=1") + _o("part=orders ord=2 nt=11 sub=2", 2) + _o("part=orders ord=1 both=1") + _o("part=orders ord=2 both=1 few=1", 2) + _o("part=versions ord=2", 2) + _o("part=versions ord=3 few=1", 2),
                    thorough=_o("part=orders ord=4", 32) + _o("part=orders ord=3 scale=0.25", 4) + _o("part=orders ord=2 both=1", 16) + _o("part=orders ord=3 nt=16 sub=2", 16) + _o("part=versions ord=3", 32),
                    assume=[_PY, "one file of statistics per version; the error of an order is that of the documented spline fit of its largest cell; five kinds of data per order"])
target("killed", harness=["killed.cpp"], guard=False)
_k = lambda x, n=1: ["killed " + x + (" shards=%d shard=%d" % (n, i) if n > 1 else "") for i in range(n)]
PROPS["C35"] = dict(build=["killed"], quick=_k("saves=2 depth=2", 8) + _k("left=2 fresh=1 saves=1 depth=2 seed=2", 4) + _k("left=1 saves=2 Order=3 Beta=0.7 Sub=2 seed=3") + _k("Gamma=1 Order=1 Lx=2 Ly=1 saves=2 seed=4") + _k("Gamma=1 left=2 fresh=1 Order=2 Lx=2 Ly=2 saves=1 seed=5") + _k("saves=3 gap=1 Order=1 seed=6"),
                    thorough=_k("saves=2 depth=3", 64) + _k("left=2 fresh=1 saves=1 depth=3 seed=2", 32) + _k("left=1 saves=2 depth=2 Order=3 Beta=0.7 Sub=2 seed=3", 8) + _k("Gamma=1 Order=1 Lx=2 Ly=1 saves=2 depth=2 seed=4", 16) + _k("Gamma=1 left=2 fresh=1 Order=2 Lx=2 Ly=2 saves=1 depth=2 seed=5", 16) + _k("saves=3 gap=1 Order=1 seed=6 depth=2", 16),
                    assume=["operations on files take effect in the order in which they are issued, as after the death of a process; h5py is replaced by a stand-in (not installed)", "the saves of a life are few and at steps of a list; the chain is that of a fixed seed per job", "the manager continues the workers whose statistics exist (C27)", _PY])
