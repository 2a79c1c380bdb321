"""C06-C09: the concurrent parts, under a controlled scheduler."""
from vlib.core import Script, path_cover
from checks import refs

DBG = ["-O1"]
REL = ["-O2", "-DNDEBUG"]


def run_line(acts):
    return "run " + " ".join(str(a["t"]) for a in acts)


def explores(ctx, quick_bound=2, quick_limit=1500):
    """The ways a program's schedules are explored beyond the model's."""
    r = ctx.rng
    b, n = ctx.pick((quick_bound, quick_limit), (4, 20000))
    return ["explore %d %d" % (b, n), "random %d %d %d" % (ctx.pick(100, 2000), r.randint(1, 10**6), r.choice([30, 60, 85]))]


def c06(ctx):
    d = ctx.build([("ts_dbg", "tscount.cpp", DBG), ("ts_rel", "tscount.cpp", REL)])
    ctx.model("TsCountMC")
    edges = ctx.model("TsCountMC", "TsCountMCe.cfg", edges=True)
    if ctx.thorough:
        ctx.model("TsCountMC", "SPECIFICATION Spec\nCONSTANTS Threads = {0, 1, 2, 3}\n MaxOwn = 2\nVIEW View\n"
                  "INVARIANTS OneKiller NoLiveRefAtDeath Counted\nCHECK_DEADLOCK FALSE\n")
    paths, total = path_cover(edges, maxlen=40)
    full = len(paths)
    r = ctx.rng
    r.shuffle(paths)
    paths = paths[:ctx.pick(700, None)]
    ctx.notes.append("%d transitions covered by %d schedules, %d replayed" % (total, full, len(paths)))
    S = []
    for n, (root, acts) in enumerate(paths):
        import json
        own = json.loads(root)[1]
        L = ["kind " + ["plain", "virt", "impl"][n % 3]]
        for t in range(3):
            ops = [a["o"] for a in acts if a["t"] == t and a["o"] in "ar"]
            ops = [y for o in ops for y in ((o, "t") if r.random() < 0.5 else (o,))]
            L.append("th %d %s" % (own[t], " ".join((["t"] if r.random() < 0.5 else []) + ops)))
        L.append(run_line(acts))
        S.append(Script("m%d" % n, L, "model"))
    for i in range(ctx.pick(24, 60)):
        nt = r.choice([2, 2, 3, 3, 4])
        L = ["kind " + ["plain", "virt", "impl"][i % 3]]
        for t in range(nt):
            L.append("th %d %s" % (r.choice([1, 1, 2]), " ".join(["t"] * r.randint(0, 1) + [r.choice("aart") for _ in range(r.randint(0, 3))])))
        S.append(Script("x%d" % i, L + explores(ctx, 2, 300)))
    ctx.conform("TsCountTrace", d, S, split="begin")
    refs.sequential_ts(ctx)
    ctx.assumptions.append("values are sequentially consistent; orderings are judged by happens-before on the recorded memory orders")


def c07(ctx):
    d = ctx.build([("aref_rel", "atomicref.cpp", REL), ("aref_dbg", "atomicref.cpp", DBG)])
    ctx.model("AtomicRefMC")
    edges = ctx.model("AtomicRefMC", "AtomicRefMCe.cfg", edges=True)
    if ctx.thorough:
        ctx.model("AtomicRefMC", "SPECIFICATION Spec\nCONSTANTS Threads = {0, 1, 2}\n Objs = {1, 2, 3, 4}\n MaxOps = 2\nVIEW View\n"
                  "INVARIANTS Exact Safe NoLeak OneLocker\nCHECK_DEADLOCK FALSE\n", timeout=3000)
    paths, total = path_cover(edges, maxlen=60)
    full = len(paths)
    r = ctx.rng
    r.shuffle(paths)
    paths = paths[:ctx.pick(800, 12000)]
    ctx.notes.append("%d transitions covered by %d schedules, %d replayed" % (total, full, len(paths)))
    S = []
    for n, (root, acts) in enumerate(paths):
        L = ["start 1 %d" % (n % 2)]
        for t in range(2):
            L.append("th " + " ".join(a["o"] for a in acts if a["t"] == t and a["o"] != "."))
        L.append(run_line(acts))
        S.append(Script("m%d" % n, L, "model"))
    fixed = [["R R", "W D W"], ["R", "W N W"], ["R D R", "R W H"], ["W R", "R W"], ["R", "N W", "R H"], ["R", "W W", "R"],
             ["W", "W", "R"], ["R H", "R N", "W"], ["W W", "R R"], ["R X", "W W W"]]
    progs = list(fixed)
    for i in range(ctx.pick(14, 60)):
        progs.append([" ".join(r.choice("RRWWNHDX") for _ in range(r.randint(1, 3))) for _ in range(r.choice([2, 2, 3]))])
    for i, p in enumerate(progs):
        S.append(Script("x%d" % i, ["start %d %d" % (r.random() < 0.8, r.random() < 0.7)] + ["th " + q for q in p] + explores(ctx, 2, 250)))
    ctx.conform("AtomicRefTrace", d, S, split="begin")
    ctx.assumptions.append("values are sequentially consistent; orderings are judged by happens-before on the recorded memory orders")


def tls_op(r, nv, t):
    return r.choice("SWSWTUGGHENFPA") + str(r.randrange(nv)) + ":" + str(r.choice([0, 0, 1, 2, 3, 4, 5]))


def c08(ctx):
    d = ctx.build([("tls_rel", "tls.cpp", REL), ("tls_dbg", "tls.cpp", DBG), ("tls_one", "tls.cpp", DBG + ["-DKE_SINGLE_THREADED"])])
    one = {"tls_one": d.pop("tls_one")}
    ctx.model("TlsMC")
    edges = ctx.model("TlsMC", "TlsMCe.cfg", edges=True)
    if ctx.thorough:
        ctx.model("TlsMC", "SPECIFICATION Spec\nCONSTANTS Threads = {0, 1, 2}\n Vars = {0, 1}\n MaxOps = 2\n MaxRefuse = 2\n MaxLose = 1\n Vals = {1, 2}\nVIEW View\n"
                  "INVARIANTS ReadsOwn OneCreator SlotFirst\nCHECK_DEADLOCK FALSE\n", timeout=3000)
    import json
    paths, total = path_cover(edges, maxlen=60)
    full = len(paths)
    r = ctx.rng
    r.shuffle(paths)
    paths = paths[:ctx.pick(800, 12000)]
    ctx.notes.append("%d transitions covered by %d schedules, %d replayed" % (total, full, len(paths)))
    kinds = ["word", "int", "ptr", "enum"]

    def head(nv, refuse, lose=0):
        return ["vars " + " ".join(r.choice(kinds) for _ in range(nv)), "refuse %d" % refuse, "lose %d" % lose, "fill %d" % r.choice([0, 0x5a, 0xff, 1])]
    S = []
    for n, (root, acts) in enumerate(paths):
        L = head(1, *json.loads(root)[4:6])
        for t in range(2):
            L.append("th " + " ".join("%s%d:%d" % tuple(a["o"]) for a in acts if a["t"] == t and a["o"]) + " G0")
        L.append(run_line(acts))
        S.append(Script("m%d" % n, L, "model"))
    for i in range(ctx.pick(40, 120)):
        nv = r.choice([1, 1, 2, 2, 3])
        L = head(nv, r.choice([0, 0, 0, 1, 2, 4]), r.choice([0, 0, 0, 0, 1, 2]))
        if r.random() < .3:
            L.append("ini " + " ".join(tls_op(r, nv, -1) for _ in range(r.randint(1, 3))))
        for t in range(r.choice([1, 2, 2, 3])):
            L.append("th " + " ".join(tls_op(r, nv, t) for _ in range(r.randint(1, 3))))
        if r.random() < .6:
            v = r.randrange(nv)
            L.append("fin " + " ".join(["G%d" % k for k in range(nv)] + ["D%d" % v, "C%d" % v, "G%d" % v] + [tls_op(r, nv, -1) for _ in range(3)]))
        S.append(Script("x%d" % i, L + explores(ctx, 2, 200)))
    # exhaustion, one thread: refused, retried, given up, used again
    for i in range(ctx.pick(200, 1500)):
        nv = r.choice([1, 2, 3])
        L = head(nv, 0)
        seq = []
        for _ in range(r.randint(3, 14)):
            k = r.random()
            v = r.randrange(nv)
            if k < .15:
                seq.append("R%d" % r.randint(1, 3))
            elif k < .3:
                seq += ["D%d" % v, "C%d" % v]
            else:
                o = tls_op(r, nv, 0)
                seq.append({"S": "T", "W": "U"}.get(o[0], o[0]) + o[1:])
        S.append(Script("r%d" % i, L + ["ini " + " ".join(seq), "run"]))
    ctx.conform("TlsTrace", d, S, split="begin")
    S = [s for s in S if s.id[0] == "r"]
    ctx.conform("TlsTrace", one, S, cfg="TlsTrace1.cfg", split="begin", label="(single-threaded build)")
    ctx.assumptions.append("slots are those of a stand-in for pthread keys; values are sequentially consistent, orderings are judged by happens-before on the recorded memory orders")


def c09(ctx):
    d = ctx.build([("mutex_dbg", "mutex.cpp", DBG + ["-U_FORTIFY_SOURCE"]), ("mutex_rel", "mutex.cpp", REL + ["-U_FORTIFY_SOURCE"])])
    ctx.model("MutexMC")
    edges = ctx.model("MutexMC", "MutexMCe.cfg", edges=True)
    paths, total = path_cover(edges, maxlen=60)
    full = len(paths)
    r = ctx.rng
    r.shuffle(paths)
    paths = paths[:ctx.pick(1000, 20000)]
    ctx.notes.append("%d transitions covered by %d schedules, %d replayed" % (total, full, len(paths)))
    S = []
    for n, (root, acts) in enumerate(paths):
        L = ["mutexes 1"]
        for t in range(2):
            L.append("th " + " ".join(a["o"] + "0" for a in acts if a["t"] == t and a["o"] != "."))
        L.append(run_line(acts))
        S.append(Script("m%d" % n, L, "model"))
    for i in range(ctx.pick(60, 200)):
        nm = r.choice([1, 1, 2])
        L = ["mutexes %d" % nm]
        for t in range(r.choice([2, 2, 3])):
            L.append("th " + " ".join(r.choice("LTUUOOGQBMW") + str(r.randrange(nm)) for _ in range(r.randint(1, 5))))
        S.append(Script("x%d" % i, L + explores(ctx, 2, 200)))
    ctx.conform("MutexTrace", d, S, split="begin")
    ctx.assumptions.append("std::mutex underneath is a stand-in that is exclusive by construction; that ke::Mutex reaches it in every acquisition is what is checked")
