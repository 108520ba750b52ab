"""C01: concurrent conversions behave as if each ran alone."""
import random

from .. import boot, engine, ops, runner

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 14000, "thorough": 150000}
FAMS = {"quick": 126, "thorough": 420}
RULE = ("A run is 2-4 caller threads, each making 1-4 library calls on shared or own objects, under one "
        "instruction-level schedule. It is non-trivial when at least one thread was parked in the middle of a call "
        "while another ran; two runs are distinct when the sequence of (parked at, resumed at) code locations differs.")
STATES = "distinct pairs (code location where a thread was parked, code location where the next one was resumed)"
COMPONENTS = {"real": ["all epcpy code", "CPython threads", "re, enum, base64"],
              "stub": ["thread scheduling", "locks and conditions of library code", "clocks", "random sources"]}
ASSUMPTIONS = ["calls into the standard library are atomic (not preempted inside)",
               "preemption only at bytecode boundaries of library code, as CPython with a GIL guarantees",
               "inputs are sampled, not enumerated"]


def prepare(ctx):
    engine.instrument()
    ctx.catalogue(FAMS[ctx.tier])
    ctx.need([["new", c, u] for f in ctx.fam for c, u in f["ids"]])


def plan_ops(plan):
    out = []
    for t in plan["threads"]:
        out += [o for _, o in t]
    out += plan["post"]
    for o in list(out):
        if o[0] in ("meth", "attr", "eqx"):
            out.append(["new", o[1], o[2]])
        if o[0] == "eq":
            out += [["new", o[1], o[2]], ["new", o[3], o[4]]]
    return out


def prepare_replay(ctx, plan):
    ctx.need(plan_ops(plan))
    engine.instrument()


def require(ctx, plan):
    pass


def pick_pool(r, ctx):
    """operations this run draws from: few identities, so that threads meet"""
    if ctx.rare and r.random() < 0.08:
        return rare_pool(r, ctx)
    if ctx.susp and r.random() < 0.5:
        d = ctx.susp[r.choice(sorted(ctx.susp))]
        pool = d[r.choice(sorted(d))]
        k = r.random()
        if k < 0.6:
            pool = one_object(r, pool)
        elif k < 0.8:
            pool = pool + [o for l in r.sample(sorted(d), min(2, len(d))) for o in d[l]]
        if len(pool) > 1:
            return pool
    f = r.choice(ctx.fam)
    if r.random() < 0.2:
        pool = one_object(r, f["ops"])
        if len(pool) > 1:
            return pool
    k = r.random()
    fams = [f]
    if k < 0.25:
        fams.append(r.choice(ctx.byscheme[f["scheme"]]))
    elif k < 0.45:
        fams.append(r.choice(ctx.fam))
    pool = [o for x in fams for o in x["ops"]]
    k = r.random()
    if k < 0.3:
        sub = [o for o in pool if o[0] == "meth"]
    elif k < 0.45:
        sub = [o for o in pool if o[0] in ("new", "cls", "fn")]
    elif k < 0.75:
        # calls of one function with different arguments
        names = sorted({opname(o) for o in pool})
        n = r.choice(names)
        sub = [o for o in pool if opname(o) == n]
    else:
        sub = pool
    return sub if len(sub) > 1 else pool


def rare_pool(r, ctx):
    """operations that reach code others seldom reach, among ordinary ones"""
    s = r.choice(sorted(ctx.rare))
    return ctx.rare[s] * 3 + r.sample(r.choice(ctx.byscheme[s])["ops"], 8)


def same_object(o, x):
    return o[0] in ("meth", "attr", "new", "eq", "eqx") and x[0] in ("meth", "attr", "new", "eq", "eqx") and o[1:3] == x[1:3]


def one_object(r, pool):
    """the operations on one object"""
    m = [o for o in pool if o[0] in ("meth", "eq")]
    if not m:
        return pool
    x = r.choice(m)
    return [o for o in m if same_object(o, x)]


def opname(o):
    return {"meth": lambda: "m:" + o[3], "cls": lambda: "c:" + o[2], "fn": lambda: "f:" + o[1]}.get(o[0], lambda: o[0])()


def strategy(r, threads, susp=False):
    k = r.random()
    if susp and r.random() < 0.4:
        return {"kind": "hot", "mask": engine.F_SUSP, "p": r.choice([0.9, 0.5, 0.2, 0.1])}
    if k < 0.4:
        return {"kind": "rand", "p": r.choice([0.3, 0.1, 0.05, 0.03, 0.01, 0.003])}
    if k < 0.7:
        m = r.choice([engine.F_HOT, engine.F_STORE, engine.F_HOT | engine.F_STORE, engine.F_BP])
        return {"kind": "hot", "mask": m, "p": r.choice([0.9, 0.5, 0.2, 0.05]) if m in (engine.F_STORE, engine.F_BP)
                else r.choice([0.3, 0.1, 0.03])}
    pts = []
    for _ in range(r.randint(1, 4)):
        t = r.randrange(len(threads))
        o = r.choice(threads[t])[0]
        pts.append([t, o, int(2 ** r.uniform(0, 12.5))])
    return {"kind": "pct", "points": pts}


def gen(ctx, i):
    r = runner.rng(ctx.seed, ID, i)
    pool = pick_pool(r, ctx)
    nt = r.choice([2, 2, 2, 3, 3, 4])
    oid = 0
    threads = []
    same = r.choice(pool) if r.random() < 0.1 else None
    for _ in range(nt):
        l = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            l.append([oid, same or r.choice(pool)])
            oid += 1
        threads.append(l)
    post = [r.choice(pool) for _ in range(r.randint(0, 3))]
    return {"threads": threads, "post": post, **ops.worked(r, ctx, pool), "mode": r.choice(["shared", "shared", "own", "fresh"]),
            "strategy": strategy(r, threads, bool(ctx.susp)), "first": r.randrange(nt), "seed": r.getrandbits(40)}


def execute(ctx, plan):
    rnd = random.Random(plan["seed"])
    random.seed(plan["seed"])
    threads = plan["threads"]
    mode = plan["mode"]
    past = {}
    v = ops.relive(plan, past)
    if v:
        return {"viol": v, "stats": {"evaluations": 1}}
    pool = {}
    if mode == "shared":
        for c, u in sorted({(o[1], o[2]) for t in threads for _, o in t if o[0] in ("meth", "attr", "eqx")} |
                           {x for t in threads for _, o in t if o[0] == "eq" for x in ((o[1], o[2]), (o[3], o[4]))}):
            pool[c, u] = ops.fresh(c, u)
    results = [[] for _ in threads]
    kept = []
    eng = None

    def body(t):
        own = {}

        def getobj(c, u):
            if mode == "fresh":
                return ops.fresh(c, u)
            d = pool if mode == "shared" else own
            o = d.get((c, u))
            if o is None:
                o = ops.fresh(c, u)
                d[c, u] = o
            return o

        def run():
            for oid, op in threads[t]:
                eng.begin(t, oid)
                keep = []
                res = ops.outcome(op, getobj, keep)
                results[t].append((oid, op, res))
                if keep:
                    kept.append((oid, op, keep[0]))
        return run
    eng = engine.Engine([body(t) for t in range(len(threads))], plan["strategy"], rnd, plan["first"])
    eng.run()
    stats = {"evaluations": 0, "preemptions": sum(1 for x in eng.trace if x[1] >= 0), "instructions": eng.total,
             "strategy_" + plan["strategy"]["kind"]: 1, "calls": sum(len(x) for x in results),
             "mode_" + mode: 1, **past}
    inner = [x for x in eng.locs]
    out = {"viol": None, "stats": stats, "trace": eng.trace}
    if inner:
        out["sigs"] = [runner.h64([[o[1] for o in t] for t in threads] + [inner])]
        out["states"] = sorted({runner.h64(list(x)) for x in inner})
        if plan["seed"] % 97 == 0:
            out["sample"] = {"threads": [[ops.key(o)[:160] for _, o in t] for t in threads],
                             "switches": [[a, c, d, e, "%s+%s" % l[0]] for (a, c, d, e), l in
                                          zip([x for x in eng.trace if x[1] >= 0], inner)][:12]}

    def bad(kind, op, got, exp, **k):
        out["viol"] = {"kind": kind, "op": op, "got": got, "expected": exp, **k}
        return out
    if eng.stuck:
        out["viol"] = {"kind": "stuck", "detail": eng.stuck}
        return out
    for t, l in enumerate(results):
        for oid, op, res in l:
            stats["evaluations"] += 1
            exp = ctx.expect(op)[0]
            if res != exp:
                return bad("outcome", op, res, exp, thread=t)
    for (c, u), o in sorted(pool.items()):
        stats["evaluations"] += 1
        p, exp = ops.probe(o), ctx.expect(["new", c, u])[1]
        if p != exp:
            return bad("probe", ["new", c, u], p, exp)
    for oid, op, o in kept:
        stats["evaluations"] += 1
        p, exp = ops.probe(o), ctx.expect(op)[1]
        if p != exp:
            return bad("probe", op, p, exp)
    for op in plan["post"]:
        stats["evaluations"] += 1
        res, exp = ops.outcome(op), ctx.expect(op)[0]
        if res != exp:
            return bad("post", op, res, exp)
    out["viol"] = ops.relive(plan, stats, "later")
    for k, v in boot.SEAM_USE.items():
        stats["seam_" + k] = v
    return out


def settle(plan, res):
    """the same run with its schedule written out"""
    p = dict(plan)
    p["strategy"] = {"kind": "list", "sw": res.get("trace", [])} if "trace" in res else plan["strategy"]
    return p


def drop(p, t, j):
    q = dict(p)
    q["threads"] = [list(x) for x in p["threads"]]
    q["threads"][t].pop(j)
    return q


def shrink(plan, res):
    yield from ops.less(plan)
    if plan["post"] and res["viol"]["kind"] != "post":
        q = dict(plan)
        q["post"] = []
        yield q
    sw = plan["strategy"].get("sw", [])
    for size in (len(sw) // 2, len(sw) // 4, len(sw) // 8):
        if size > 1:
            for a in range(0, len(sw), size):
                q = dict(plan)
                q["strategy"] = {"kind": "list", "sw": sw[:a] + sw[a + size:]}
                yield q
    for t in range(len(plan["threads"])):
        if plan["threads"][t]:
            q = dict(plan)
            q["threads"] = [([] if x == t else l) for x, l in enumerate(plan["threads"])]
            yield q
            for j in range(len(plan["threads"][t])):
                yield drop(plan, t, j)
    for a in range(len(sw)):
        q = dict(plan)
        q["strategy"] = {"kind": "list", "sw": sw[:a] + sw[a + 1:]}
        yield q
    for j in range(len(plan["post"])):
        q = dict(plan)
        q["post"] = plan["post"][:j] + plan["post"][j + 1:]
        yield q
