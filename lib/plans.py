"""What is checked for each property: which parts of the specification are explored, which behaviours
and random calls are replayed on the library, and which calls are judged."""
from . import gen
from .gen import Out, Vec, OUTS, INS, CONS, KEYOPS, ACCESS, PRODS, ROUNDED, ROUNDEDKEY
from .engine import Job

ALLV = ["new", "fromkey", "fromks", "fromit", "own", "swap", "clear", "get", "getmut", "ins1", "ins", "erase", "eq"] + OUTS + INS + KEYOPS
DENSE = ["fromvec", "fromdim", "clone", "size", "resize", "getslice", "getidx", "getmutslice"]
FIT = {"d": ALLV + DENSE + ["degree"] + PRODS, "w": ALLV + DENSE + ["degree", "rewrap"] + PRODS,
       "dt": ALLV + DENSE + ["degree", "rewrap"], "i": ALLV + DENSE, "j": ALLV + DENSE, "c": ALLV + DENSE, "s": ALLV + ["iter"], "ws": ALLV + ["iter", "rewrap"]}

D_P = [("d", n, "p") for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 33)]
D_X = [("d", 2, "p5"), ("d", 3, "p5"), ("d", 2, "f64"), ("d", 3, "f64"), ("d", 2, "f32"), ("d", 3, "f32")]
INT = [("i", 1, "p"), ("i", 1, "f32"), ("j", 1, "p"), ("c", 1, "p")]
WRAP = [("dt", n, "p") for n in (1, 2, 3)] + [("dt", 2, "f64")] + [("w", n, "p") for n in (1, 2, 3)] + [("w", 2, "f64")]
SPARSE = [("s", 1, "p"), ("s", 1, "p5"), ("s", 1, "f64")]
WSPARSE = [("ws", 1, "p")]

FREE = {"d": [(1, 0), (1, 1), (1, 5), (2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4),
              (4, 1), (4, 2), (4, 3), (5, 2), (5, 3), (6, 2), (7, 2), (8, 2), (10, 2), (12, 2),
              (1, 2), (1, 3), (1, 8), (1, 12), (1, 20), (2, 6), (2, 7), (3, 5), (4, 4), (6, 3), (8, 3), (9, 2), (11, 2), (16, 2)],
        "h": [(1, 5), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)], "p5": [(2, 3), (2, 4), (3, 3)],
        "w": [(1, 3), (1, 9), (2, 2), (2, 3), (2, 4), (2, 6), (3, 2), (3, 3), (3, 4)],
        "dt": [(1, 3), (1, 9), (2, 2), (2, 3), (2, 4), (2, 6), (3, 2), (3, 3), (3, 4)],
        "f64": [(2, 2), (2, 3), (2, 4), (3, 2), (3, 3)], "f32": [(2, 2), (2, 3), (3, 2)]}


def episodes(run, count, make):
    """count random episodes; make(rng, out, number) writes one"""
    eps = []
    for i in range(count):
        o = Out()
        make(run.rng("random", i), o, i)
        # one call of make may write several episodes
        for l in o:
            if l.startswith("begin"):
                eps.append([])
            eps[-1].append(l)
    return eps


QUICK = 2          # how many times the basic number of random episodes


def big(tier, quick, factor=20):
    return quick * QUICK if tier == "quick" else quick * factor


# ------------------------------------------------------------------------------------------- keys

MC_KEYS = [("MCWords", "MCWords.cfg")]
MC_ORDER = [("MCOrderQ", "MCOrderQ.cfg"), ("MCPacked", "MCPacked.cfg")]
MC_PACKED = MC_KEYS + [("MCPacked", "MCPacked.cfg")]
MC_CAT = MC_PACKED + [("MCPacked", "MCPacked.unguarded.cfg", "Joined is violated")]


def keys(checked, make, steps=40, per=4, gens=None, mc=MC_KEYS, extra=None, frame=1, widest=False):
    def plan(tier):
        def random(run, tier):
            ws = gen.KEY_WIDTHS + (gen.VERY_WIDE if widest else [])
            def one(rng, o, i):
                make(rng, ws[i % len(ws)], steps, o)
            eps = episodes(run, big(tier, per * len(ws)), one)
            if extra:
                eps += extra(run, tier)
            return eps
        p = {"header": {"checked": checked, "frame": frame}, "mc": mc, "random": random,
             "assumptions": ["widths up to 2^31-1 out of a fixed list of %d%s; 64 bit machine" % (
                 len(gen.KEY_WIDTHS), ", and 2^31 and 2^32-1 with letters below 2^31" if widest else "")]}
        if gens:
            p["gens"] = lambda tier: [("GenKeys", dict(N=n, Alpha=a, Ops=ops, Level=lv, Longest=lo), ["begin keys %d 3 1" % n], lim)
                                      for n, a, ops, lv, lo, lim in gens(tier)]
        return p
    return plan


WIDE = 1048576     # three letters at most
MID = 65535        # three letters; 4096: four


def g01(tier):
    ops = {"new", "letter", "letters", "push", "copy", "read", "eq"}
    yield WIDE, {1, 2, WIDE}, ops - {"letters"}, 1, 3, 1500 if tier == "quick" else None
    yield 32768, {1, 32768}, {"letters", "push", "read"}, 3, 3, 1000 if tier == "quick" else None
    yield 3, {1, 2, 3}, {"push", "read", "eq"}, 1, 3, 1000 if tier == "quick" else None


def g02(tier):
    yield WIDE, {1, WIDE}, {"cat"}, 2, 3, 2500 if tier == "quick" else None
    yield 1000, {7, 1000}, {"cat"}, 1, 4, 1500 if tier == "quick" else None
    yield 2, {1, 2}, {"cat"}, 1, 4, 1000 if tier == "quick" else None


def g03(tier):
    yield WIDE, {1, 2, WIDE}, {"idx"}, 1, 3, 100 if tier == "quick" else None
    yield 2, {1, 2}, {"idx"}, 1, 5, 100 if tier == "quick" else None
    yield 3, {1, 2, 3}, {"idx"}, 1, 3, 100 if tier == "quick" else None


def g04(tier):
    yield 2, {1, 2}, {"cmp"}, 1, 4, None
    yield 3, {1, 2, 3}, {"cmp"}, 1, 2 if tier == "quick" else 3, None
    yield WIDE, {1, 2, WIDE}, {"cmp"}, 1, 3, 1600
    yield 1, {1}, {"cmp"}, 1, 12, None


def g05(tier):
    yield WIDE, {1, WIDE - 1, WIDE}, {"iterfrom", "next", "nth"}, 4, 3, 900 if tier == "quick" else None
    yield 2, {1, 2}, {"iterfrom", "next", "nth", "iter"}, 3, 3, 700 if tier == "quick" else None


def g06(tier):
    yield 2, {1, 2}, {"deg", "dimkey", "idx"}, 1, 4, 200 if tier == "quick" else None
    yield 1000, {1, 1000}, {"deg", "dimkey", "idx"}, 1, 4, 200 if tier == "quick" else None


def g07(tier):
    yield 10, {1, 9, 10}, {"fmt"}, 1, 3, 300 if tier == "quick" else None


def fmt_vectors(run, tier):
    def one(rng, o, i):
        fl, n, sc = (D_P + [("d", 2, "p5")])[i % (len(D_P) + 1)]
        v = Vec(rng, o, fl, n, sc)
        v.run(["fmt", "fmt", "fmt", "ins1", "resize", "addi", "smli"], 20)
    def floats(rng, o, i):
        n = rng.choice([2, 3])           # the widths the driver has for floats
        o("begin vec d", n, ["f64", "f32"][i % 2], 0, 3, 0)
        def x():
            m = rng.choice([rng.randint(0, 40), rng.randint(0, 15999), 8 * rng.randint(0, 1900)])
            t = "%d/8" % m if m % 8 else str(m // 8)
            return "-" + t if m and rng.random() < 0.4 else t
        for _ in range(8):
            o("fromvec", 1, ",".join(x() for _ in range(rng.randint(1, 20))))
            o("fmtf", 1)
            o("ins1", 1, gen.tok([rng.randint(1, n) for _ in range(rng.randint(0, 3))]), x())
            o("fmtf", 1)
    def sweeps(rng, o, i):
        fl, n, sc = rng.choice(D_P)
        gen.sweep(rng, o, fl, n, sc, ["fmt", "ins1", "fmt"], [300, 1100, 4100][i % 3])
    return episodes(run, big(tier, 44), one) + episodes(run, big(tier, 12), floats) + episodes(run, big(tier, 3), sweeps)


def keys_blocks_too(rng, n, steps, o):
    gen.keys_blocks(rng, n, steps, o)
    md = gen.depth(n)
    for _ in range(steps // 4):
        o("letters", 1, gen.tok(gen.words_boundary(rng, n)))
        o("idx", 1)
        d = rng.randint(0, md)
        o("at", 2, max(0, min(min(gen.start(n, md + 1), 2 ** 64) - 1, gen.start(n, d) + rng.choice([-1, 0, 1]))))


def long_iteration(run, tier):
    """from the beginning through many words; small widths"""
    eps = []
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 16, 100):
        o = Out()
        o("begin keys", n, 1, 1)
        o("iter", 1)
        for _ in range(big(tier, 150, 8)):
            o("next", 1, 1)
        eps.append(list(o))
    # far along: the words in between are counted only
    rng = run.rng("long")
    for n in rng.sample(gen.KEY_WIDTHS, 40 if tier == "quick" else len(gen.KEY_WIDTHS)):
        o = Out()
        o("begin keys", n, 3, 2)
        o("iter", 1)
        o("letters", 2, gen.tok(gen.word(rng, n)))
        o("iterfrom", 2, 2)
        for _ in range(4):
            for j in (1, 2):
                o("skip", j, rng.choice([n - 1, n, n + 1, rng.randint(0, 3000), rng.randint(0, 60000)]) % big(tier, 100000, 30))
                for _ in range(3):
                    o("next", j, 3)
        eps.append(list(o))
    return eps


# ---------------------------------------------------------------------------------------- vectors

SIZES = [260, 515, 600, 1027, 1100, 2055, 4100]


def vec_random(flavors, ops, per, steps, nb=0, heap=False, nr=4, big_=False, large=1, fuses=0):
    """ops: list or function of the flavor"""
    def random(run, tier):
        def one(rng, o, i):
            lg = 0 if i < small else 1 if i < large_ else 2
            fl, n, sc = flavors[i % len(flavors)] if not lg else huge[(i - small) % len(huge)]
            if lg == 2:
                fl, n, sc = rng.choice(huge)
            can = FIT[fl] + ["near"] + ["fmt"] * (fl == "d" and not sc.startswith("f"))
            mine = [x for x in (ops(fl) if callable(ops) else ops) if x in can]
            v = Vec(rng, o, fl, n, sc, nr=nr, nb=rng.choice([2, 4, 6]) if nb else 0, big=big_ or (tier != "quick" and i % 3 == 0), large=lg)
            if heap:
                mine = mine + ["heap"] * max(1, len(mine) // 8)
            v.run(mine, [steps, steps // (1 if fl in ("s", "ws") else 4), steps // 6][lg], fuses)
            if heap:
                o("heap")
        def sweeps(rng, o, i):
            fl, n, sc = rng.choice(huge)
            can = FIT[fl] + ["near"] + ["fmt"] * (fl == "d")
            mine = sorted({x for x in (ops(fl) if callable(ops) else ops) if x in can and x not in PRODS})
            size = min(SIZES[i % len(SIZES)], 600 if fl in ("s", "ws") else 5000)
            gen.sweep(rng, o, fl, n, sc, rng.sample(mine, min(len(mine), 40 if size < 1300 else 8)), size, 3 if nb else 0)
            if heap:
                o("heap")
        small = big(tier, per * len(flavors))
        huge = [f for f in flavors if f[2] == "p"]
        large_ = small + big(tier, large * len(huge))
        return episodes(run, large_ + big(tier, 3 if huge else 0), one) + episodes(run, big(tier, len(SIZES) if huge else 0), sweeps)
    return random


def with_rounded(random, flavors, ops, per):
    """also vectors of floating point numbers that need rounding"""
    kinds = [(f, k) for f in flavors for k in ("f64", "f32")]
    def both(run, tier):
        def one(rng, o, i):
            gen.rounded(rng, o, kinds[i % len(kinds)][0], kinds[i % len(kinds)][1], ops, 40)
        return random(run, tier) + episodes(run, big(tier, per * len(kinds)), one)
    return both


def dense_gen(ops, vecs="@V2small", modes=("own",), level=1, keys="@K2", scals=(0, 1, 4), degs=(0, 1, 2, 3), funs=("id", "sq"),
              pairs="@P2", cuts=(0, 1, 3, 4, 7), begins=("begin vec d 2 p5 0 3 2",), n=2, p=5, kind="t", maxd=0, limit=None):
    return ("GenDense", dict(Kind=kind, N=n, P=p, MaxD=maxd, Ops=set(ops), Vecs=vecs, Modes=set(modes), Level=level, Keys=keys,
                             Scals=set(scals), Degrees=set(degs) - {-1}, NoDegree=-1 in degs, Funs=set(funs), PairLists=pairs, Cuts=set(cuts)), list(begins), limit)


def int_gen(ops, **k):
    a = dict(vecs="@VI", keys="@KI", pairs="@PI", kind="i", n=1, p=46337, begins=["begin vec i 1 p 0 3 2"])
    a.update(k)
    return dense_gen(ops, **a)


def one_gen(ops, **k):
    """the one-letter alphabet"""
    a = dict(vecs="@V1", n=1, p=46337, begins=["begin vec d 1 p 0 3 2"], keys="@K1", pairs="@P1")
    a.update(k)
    return dense_gen(ops, **a)


def sparse_gen(ops, level=1, p=5, begins=("begin vec s 1 p5 0 3 0",), limit=None):
    return ("GenSparse", dict(P=p, Ops=set(ops), Vecs="@VS", Level=level, Ks="@KS", Scals={0, 1, 4}, PairLists="@PS"), list(begins), limit)


def vectors(header, random, gens=None, mc=(), **more):
    def plan(tier):
        p = {"header": header, "mc": list(mc), "random": random}
        if gens:
            p["gens"] = lambda tier: list(gens(tier))
        p.update(more)
        return p
    return plan


def q(tier, n):
    return n if tier == "quick" else None


def g08(tier):
    yield dense_gen(CONS, pairs="@P2all", keys="@K2all", scals=(0, 1, 2, 4), vecs="@V2one", limit=q(tier, 2000))
    yield int_gen(["fromkey", "fromks", "fromit", "fromdim", "new"], vecs="@VIone")
    yield one_gen(CONS, vecs="@V1")


def g09(tier):
    yield dense_gen(OUTS + INS, vecs="@V2" if tier == "quick" else "@V2wide", scals=(0, 2, 4), limit=q(tier, 3000))
    yield dense_gen(["addi", "subi", "asrm", "ssld", "negi", "add", "sub"], vecs="@V2small", level=2, scals=(3,), limit=q(tier, 1500))
    yield int_gen(OUTS + INS, scals=(2,), limit=q(tier, 1000))
    yield one_gen(OUTS + INS, scals=(3,), limit=q(tier, 500))


def g10(tier):
    yield dense_gen(ACCESS, vecs="@V2", scals=(0, 3), limit=q(tier, 2500))
    yield dense_gen(["ins1", "erase", "clear", "swap", "resize", "get", "getmut"], vecs="@V2small", keys="@K2", scals=(3,),
                    cuts=(0, 2, 7), level=2, limit=q(tier, 2500))
    yield int_gen([x for x in ACCESS if x != "degree"], scals=(0, 3), limit=q(tier, 1500))
    yield one_gen(ACCESS, scals=(3,), limit=q(tier, 700))


SPARSE_OPS = ALLV + ["iter"]


def g11(tier):
    yield sparse_gen(SPARSE_OPS, limit=q(tier, 3000))
    yield sparse_gen(["addi", "subi", "ins1", "erase", "swap", "kam", "own", "neg", "getmut", "clear"], level=2, limit=q(tier, 3000))


LENT_OPS = ALLV + DENSE + ["degree"] + PRODS


def g12(tier):
    yield dense_gen(LENT_OPS, modes=("own", "ro", "rw"), vecs="@V2lent", keys="@K2few", scals=(3,), degs=(1, 2), funs=("sq",),
                    cuts=(0, 1, 4), limit=q(tier, 5000))
    yield dense_gen(["swap", "addi", "subi", "ins1", "resize", "clear", "negi", "muli", "clone", "own", "erase", "kam"],
                    modes=("own", "ro", "rw"), vecs="@V2lent2", keys="@K2few", scals=(3,), degs=(2,), cuts=(3,), level=2 if tier == "quick" else 3,
                    limit=q(tier, 3000))


def g13(tier):
    yield dense_gen(ALLV + DENSE + ["degree", "rewrap"], p=46337, vecs="@V2small", scals=(0, 3), keys="@K2", cuts=(0, 1, 4),
                    begins=["begin vec dt 2 p 0 3 2", "begin vec w 2 p 0 3 2"], limit=q(tier, 1500))
    yield dense_gen(PRODS, p=46337, vecs="@V2small", scals=(3,), degs=(1, 3), begins=["begin vec w 2 p 0 3 2"], limit=q(tier, 700))
    yield sparse_gen(SPARSE_OPS + ["rewrap"], p=46337, begins=["begin vec ws 1 p 0 3 0"], limit=q(tier, 1500))


def g14(tier):
    yield dense_gen(["eq", "clone", "own"], vecs="@V2eq", modes=("own", "ro", "rw"), limit=q(tier, 2500))
    yield dense_gen(["clone", "own", "ins1", "negi", "addi", "erase", "clear", "resize", "smli", "eq"], keys="@K2few", scals=(3,),
                    cuts=(2,), vecs="@V2lent2", modes=("own", "rw"), level=3, limit=q(tier, 2500))
    yield sparse_gen(["eq", "own"])
    yield sparse_gen(["own", "ins1", "negi", "addi", "erase", "eq"], level=2, limit=q(tier, 1500))


def g15(tier):
    yield dense_gen(KEYOPS, vecs="@V2", keys="@K2all", scals=(0, 1, 3), limit=q(tier, 2500))
    yield dense_gen(KEYOPS, vecs="@V2small", keys="@K2few", scals=(2, 3), level=2, limit=q(tier, 1500))
    yield int_gen(KEYOPS, scals=(0, 3), limit=q(tier, 800))
    yield sparse_gen(KEYOPS)
    yield dense_gen(KEYOPS, p=46337, vecs="@V2small", keys="@K2", scals=(3,), begins=["begin vec dt 2 p 0 3 2", "begin vec w 2 p 0 3 2"], limit=q(tier, 500))


def g16(tier):
    yield dense_gen(["mul"], vecs="@V2wide", degs=(0, 1, 2, 3, 4, 5), limit=None)
    yield dense_gen(["mul"], vecs="@V3", n=3, degs=(0, 1, 2, 3), begins=["begin vec d 3 p5 0 3 2"])
    yield one_gen(["mul"], vecs="@V1wide", degs=(0, 1, 2, 3, 4, 6))


def g17(tier):
    yield dense_gen([x for x in PRODS if x != "mul"], vecs="@V2", degs=(-1, 0, 1, 2, 4), scals=(3,), funs=("id", "neg", "sq", "twice", "inc"),
                    limit=q(tier, 3000))
    yield dense_gen(["muli", "addmul", "submul", "mslp", "mrrd", "mii"], vecs="@V2small", level=2, degs=(1, 3), scals=(2,), funs=("sq",),
                    limit=q(tier, 1500))
    yield one_gen([x for x in PRODS if x != "mul"], degs=(0, 2, 3), scals=(3,), limit=q(tier, 500))


def g19(tier):
    yield dense_gen(["exp", "log", "fmexp"], vecs="@V2unit", maxd=3, begins=["begin vec d 2 p5 3 3 2"])
    yield dense_gen(["exp", "log", "fmexp"], vecs="@V2unit", maxd=4, p=46337, begins=["begin vec w 2 p 4 3 2", "begin vec d 2 p 4 3 2"])
    yield dense_gen(["exp", "log", "fmexp"], vecs="@V2unit", maxd=2, p=46337, begins=["begin vec dt 2 p 2 3 2"])
    yield one_gen(["exp", "log", "fmexp"], vecs="@V1unit", maxd=5, begins=["begin vec d 1 p 5 3 2"])


def g25(tier):
    yield dense_gen(ALLV + DENSE + PRODS, vecs="@V2small", keys="@K2", scals=(3,), degs=(0, 1, 3), funs=("sq",), cuts=(0, 1, 4), limit=q(tier, 3500))
    yield dense_gen(PRODS, n=3, vecs="@V3", scals=(3,), degs=(0, 1, 2, 3), funs=("sq",), begins=["begin vec d 3 p5 0 3 2"], limit=q(tier, 1200))
    yield dense_gen(["exp", "log", "fmexp"], vecs="@V2unit", maxd=3, begins=["begin vec d 2 p5 3 3 2"], limit=q(tier, 300))


def laws_random(run, tier):
    kinds = []
    for fl, n, sc in [("d", 1, "p"), ("d", 2, "p"), ("d", 2, "p"), ("d", 3, "p"), ("d", 4, "p"), ("d", 5, "p"), ("d", 7, "p"), ("d", 2, "p5"),
                      ("d", 3, "p5"), ("w", 2, "p"), ("w", 3, "p"), ("d", 8, "p"), ("d", 16, "p")]:
        top = {1: 5, 2: 4, 3: 3}.get(n, 2)
        for d in range(0, top + 1):
            kinds.append((fl, n, sc, d))
    # deeper ones: only compared, so the specification need not multiply
    deep = [("d", 1, "p", d) for d in (6, 7, 8, 11, 15, 24)] + [(f, 2, "p", d) for d in (5, 6, 7, 8) for f in ("d", "w")] + \
        [("d", 3, "p", 4), ("d", 3, "p", 5), ("w", 3, "p", 4), ("d", 4, "p", 3), ("d", 4, "p", 4), ("d", 5, "p", 3), ("d", 7, "p", 3),
         ("d", 10, "p", 2), ("d", 10, "p", 3), ("d", 8, "p", 3)]
    kinds += deep
    def one(rng, o, i):
        fl, n, sc, d = kinds[i % len(kinds)]
        gen.laws(rng, o, fl, n, sc, d)
    return episodes(run, big(tier, 12 * len(kinds)), one) + \
        episodes(run, big(tier, 8, 8), lambda rng, o, i: gen.laws_huge(rng, o, *gen.HUGE[i % len(gen.HUGE)]))


def series_random(run, tier):
    kinds = [("d", n, "p", d) for n, d in FREE["d"]] + [("d", n, "p5", d) for n, d in FREE["p5"]] + \
        [(f, n, "p", d) for f in ("w", "dt") for n, d in FREE[f]] + [("d", n, s, d) for s in ("f64", "f32") for n, d in FREE[s] if d == 2]
    # p5: dividing by 5 and more is not possible
    kinds = [k for k in kinds if not (k[2] == "p5" and k[3] > 4)]
    def one(rng, o, i):
        fl, n, sc, d = kinds[i % len(kinds)]
        gen.series(rng, o, fl, n, sc, d)
    return episodes(run, big(tier, 3 * len(kinds), 10), one)


def products_random(ops):
    flavors = [(f, n, "p") for f, n in (("d", 1), ("d", 2), ("d", 3), ("d", 4), ("d", 5), ("d", 6), ("d", 7), ("d", 8), ("d", 9), ("d", 10), ("d", 12), ("d", 16), ("d", 20), ("w", 2), ("w", 3))] + \
        [("d", 2, "p5"), ("d", 3, "p5"), ("d", 2, "f64"), ("d", 3, "f32")]
    mine = [x for x in ops if x in PRODS]
    return lambda run, tier: vec_random(flavors, ops, 4, 25, nr=4)(run, tier) + \
        episodes(run, big(tier, 30), lambda rng, o, i: gen.products_huge(rng, o, *gen.HUGE[i % len(gen.HUGE)], mine))


def random_lent(run, tier):
    fl = [("d", 1, "p"), ("d", 2, "p"), ("d", 3, "p"), ("d", 2, "p5"), ("d", 2, "f64"), ("i", 1, "p")]
    fl += [("j", 1, "p"), ("w", 2, "p"), ("w", 3, "p"), ("dt", 2, "p"), ("dt", 1, "p"), ("d", 2, "h")]
    return vec_random(fl, lambda f: [x for x in FIT[f] if x not in ("rewrap",)] + ["swap", "clear", "resize", "ins1"] * 2, 7, 45, nb=1)(run, tier) + \
        series_twin(["d", "w", "w", "w", "dt"], nb=2, per=12)(run, tier)


def series_twin(flavors, nb, per):
    """exp, log and fmexp next to their twins; half of the arguments as they have to be"""
    def random(run, tier):
        def one(rng, o, i):
            fl = flavors[i % len(flavors)]
            n, d = rng.choice([x for x in FREE[fl] if gen.start(x[0], x[1] + 1) < 130])
            v = Vec(rng, o, fl, n, "p", maxd=d, nb=nb, dmax=d)
            if nb:
                v.bufs()
            for r in (1, 2, 3, 4):
                if not (nb and rng.random() < 0.5 and v.do(rng.choice(["borrow", "borrowmut"]), r)):
                    v.setup(r)
            for _ in range(4):
                c = v.reg()
                if rng.random() < 0.5:
                    o("erase", c, ".")
                a = v.reg(c)
                o("exp", a, c)
                # the driver makes a copy of vectors that are not free tensors of this degree themselves
                own = [("fmexp", v.reg(a), a), ("fmexp", v.reg(c), c)] if fl == "w" or not nb else []
                o(*rng.choice([("log", c, a), ("addi", a, c)] + own))
                if rng.random() < 0.3:
                    v.setup(v.reg())
        return episodes(run, big(tier, per * len(flavors), 8), one)
    return random


def random_frame(run, tier):
    fl = D_P + D_X + INT + WRAP
    eps = vec_random(fl, lambda f: FIT[f] + ["fmt"], 3, 40, heap=True)(run, tier)
    # scalars that are accounted for, calls that panic half way
    own = [("d", 1, "h"), ("d", 2, "h"), ("d", 3, "h"), ("dt", 2, "h"), ("w", 2, "h"), ("i", 1, "h"), ("s", 1, "h")]
    eps += vec_random(own, lambda f: FIT[f], 4, 40, heap=True)(run, tier)
    eps += vec_random(own + [("d", 2, "p"), ("d", 3, "p"), ("s", 1, "p"), ("ws", 1, "p")], lambda f: FIT[f], 4, 40, heap=True, fuses=0.4)(run, tier)
    eps += vec_random([("d", 2, "h"), ("d", 3, "h"), ("i", 1, "h"), ("w", 2, "h")], lambda f: FIT[f], 3, 40, heap=True, nb=1, fuses=0.3)(run, tier)
    eps += vec_random([("d", 2, "p"), ("d", 3, "p"), ("i", 1, "p")], lambda f: FIT[f], 4, 40, heap=True, nb=1)(run, tier)
    eps += vec_random(SPARSE + WSPARSE, lambda f: FIT[f], 5, 40, heap=True)(run, tier)
    def one(rng, o, i):
        sc = "h" if i % 3 == 2 else "p"
        n, d = FREE["h" if sc == "h" else "d"][i // 3 % len(FREE["h" if sc == "h" else "d"])]
        v = Vec(rng, o, "d", n, sc, maxd=d, dmax=d)
        v.run(["exp", "log", "fmexp", "fmexp", "mul", "heap"], 12, 0.2)
    return eps + episodes(run, big(tier, 45), one)


# -------------------------------------------------------------------------------------------- Lie

def hall(checked, random, mc, gens=None, **more):
    def plan(tier):
        p = {"header": {"checked": checked}, "mc": mc, "random": random, "profiles": ["dev", "plain"]}
        if gens:
            p["gens"] = lambda tier: list(gens(tier))
        p.update(more)
        return p
    return plan


def hall_gens(tier):
    for n, sizes, lv in ((1, {0, 1, 2, 5}, 3), (2, {0, 1, 2, 3, 7}, 3), (3, {0, 1, 4, 12}, 3), (2, {1, 20, 62}, 2), (1000, {0, 2, 5}, 3)):
        yield ("GenHall", dict(Width=n, Sizes=sizes, Level=lv), ["begin table %d" % n], 100 if tier == "quick" else None)


def tables(make):
    def random(run, tier):
        ws = gen.TABLE_WIDTHS
        def one(rng, o, i):
            make(rng, ws[i % len(ws)], o)
        return episodes(run, big(tier, 4 * len(ws)), one)
    return random


def cache_jobs(run, tier):
    jobs = []
    for k in range(4 if tier == "quick" else 24):
        o = Out()
        gen.cache(run.rng("cache", k), o, [2, 3, 4, 8, 16])
        jobs.append(Job("cache-%d" % k, "HallTrace", [list(o)], ["dev", "plain"][k % 2], processes=3 if tier == "quick" else 10))
    return jobs


def hall_keys_random(run, tier):
    return episodes(run, big(tier, 16), lambda rng, o, i: gen.hall_keys(rng, o, 500))


def coef_random(run, tier):
    return episodes(run, big(tier, 16), lambda rng, o, i: gen.coef(rng, o, ["f64", "f32"][i % 2], 250))


def copying(f):
    return ["eq", "own", "clone", "rewrap"] * 4 + ["near"] * 8 + [x for x in FIT[f] if x not in PRODS]


MUSTS = ["mul", "comm", "add", "sub", "neg", "sml", "smr", "fromkey", "fromcat", "fromvec", "fromit", "new"]

PLANS = {
    "C01": keys(["new", "letter", "letters", "push", "copy", "read", "eq", "maxd"], gen.keys_words, gens=g01, mc=MC_PACKED, widest=True),
    "C02": keys(["cat"], gen.keys_cat, steps=10, gens=g02, mc=MC_CAT, widest=True),
    "C03": keys(["idx", "at"], gen.keys_index, gens=g03, mc=MC_PACKED),
    "C04": keys(["cmp"], gen.keys_order, steps=8, gens=g04, mc=MC_ORDER, widest=True),
    "C05": keys(["iter", "iterfrom", "next", "skip", "nth", "hint"], gen.keys_iter, steps=30, gens=g05, mc=MC_PACKED, extra=long_iteration),
    "C06": keys(["deg", "start", "idxdeg", "dimkey", "dimidx", "maxd", "blocks"], keys_blocks_too, gens=g06),
    "C07": keys(["fmt", "fmtf"], gen.keys_fmt, steps=12, gens=g07, extra=fmt_vectors, widest=True),
    "C08": vectors({"checked": CONS + ["fromcat"]}, vec_random(D_P + D_X + INT, CONS * 2 + ["ins1", "addi"], 3, 30), g08),
    "C09": vectors({"checked": OUTS + INS + ROUNDED}, with_rounded(vec_random(D_P + D_X + INT, OUTS + INS, 4, 40), ["d"], ROUNDED, 8), g09,
                   mc=[("MCFloat", "MCFloat.cfg")]),
    "C10": vectors({"checked": ACCESS}, vec_random(D_P + D_X + INT, ACCESS + ["get", "addi", "negi", "kam"], 4, 40), g10),
    "C11": vectors({"checked": SPARSE_OPS + ROUNDED}, with_rounded(vec_random(SPARSE, SPARSE_OPS + ["iter", "get", "near"] * 2, 30, 45, large=10), ["s"], ROUNDED, 6), g11),
    "C12": vectors({"bufs": 1, "twin": 1}, random_lent, g12, needs=["lent"]),
    "C13": vectors({"checked": ROUNDED + ROUNDEDKEY, "twin": 1}, lambda run, tier: vec_random(WRAP + WSPARSE * 3 + [("w", 2, "h"), ("dt", 2, "h")], lambda f: FIT[f], 8, 40)(run, tier) +
                   with_rounded(lambda run, tier: [], ["dt", "w"], ROUNDED + ROUNDEDKEY, 3)(run, tier) + series_twin(["w", "dt"], nb=0, per=20)(run, tier), g13),
    "C14": vectors({"checked": ["eq", "clone", "own", "rewrap"], "frame": 2},
                   lambda run, tier: vec_random(D_P[:4] + D_X + INT + WRAP + SPARSE * 3 + WSPARSE, copying, 4, 40)(run, tier) +
                   vec_random(D_P[1:3] + WRAP[1:6:3], copying, 6, 40, nb=1)(run, tier), g14),
    "C15": vectors({"checked": KEYOPS + ROUNDEDKEY},
                   with_rounded(vec_random(D_P + D_X + INT + WRAP + SPARSE * 2 + WSPARSE, KEYOPS * 2 + ["ins1", "erase", "addi"], 3, 40),
                                ["d", "s", "dt"], ROUNDEDKEY, 2), g15),
    "C16": vectors({"checked": ["mul", "maai"], "frame": 1}, products_random(["mul"] * 5 + ["maai", "addi", "resize"]), g16,
                   mc=[("MCTensorQ", "MCTensorQ.cfg")]),
    "C17": vectors({"checked": [x for x in PRODS if x != "mul"]}, products_random([x for x in PRODS if x != "mul"]), g17,
                   mc=[("MCTensorQ", "MCTensorQ.cfg")]),
    "C18": vectors({"checked": ["same"], "must": MUSTS}, laws_random, mc=[("MCTensorQ", "MCTensorQ.cfg")]),
    "C19": vectors({"checked": ["exp", "log", "fmexp", "same"], "frame": 1}, series_random, g19, mc=[("MCSeriesQ", "MCSeriesQ.cfg")]),
    "C20": lambda tier: {"header": {"checked": ["fconst", "fneg", "finv", "fdeg", "fadd", "fsub", "fmul", "fdiv", "frat"]},
                         "mc": [("MCFloat", "MCFloat.cfg")], "random": coef_random},
    "C21": hall(["tnew", "grow", "get"], tables(gen.table_sizes), [("MCHall", "MCHall.cfg")], hall_gens, needs=["table"]),
    "C22": hall(["find"], tables(gen.table_find), [("MCHall", "MCHall.cfg")], hall_gens, needs=["table"]),
    "C23": hall(["hget", "race", "mixed", "storm", "isletter", "range", "details"], lambda run, tier: [],
                [("HallCache", "HallCache.cfg"), ("HallCache", "HallCache.blind.cfg", "OneSetPerWidth is violated"),
                 ("HallCache", "HallCache.upgrade.cfg", "Answered")], jobs_extra=cache_jobs, proofs=["HallCacheProof"],
                needs=["id", "cache"]),
    "C24": hall(["hnew", "hletter", "hparts"], hall_keys_random, [], needs=["hkeys"]),
    "C25": vectors({"frame": 2, "mem": 1}, random_frame, g25, suffix=["heap"]),
}
