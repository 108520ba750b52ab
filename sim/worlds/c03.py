"""C03: an interrupted conversion leaves no trace."""
import random
import sys

from .. import boot, engine, ops, runner

ID = "C03"
LEVEL = "fault_enumeration"
RUNS = {"quick": 7000, "thorough": 90000}
FAMS = {"quick": 84, "thorough": 294}
RULE = ("A run is one process history of calls of which 1-60 are cut short at chosen points. Each call that really was cut "
        "short is one non-trivial case; two are distinct when function, code location of the strike, its ordinal and the "
        "kind of error differ.")
STATES = "distinct (code location, kind of error) pairs at which a call was cut short"
COMPONENTS = {"real": ["all epcpy code", "CPython exception delivery points, import machinery and recursion limit",
                       "re, enum, base64"],
              "stub": ["the source of the errors", "thread scheduling", "locks of library code", "clocks"]}
ASSUMPTIONS = ["asynchronous errors arrive where CPython 3.12 delivers them (function entry, backward jump, return of a C "
               "function, inside Python code of the standard library as a whole)",
               "memory exhaustion is injected at bytecode level, not inside C code",
               "inputs are sampled; in sweep runs every delivery point of the chosen call is hit"]


class Cancel(BaseException):
    pass


class Deadline(Exception):
    pass


KINDS = {"interrupt": KeyboardInterrupt, "cancel": Cancel, "timeout": TimeoutError, "deadline": Deadline,
         "exit": SystemExit, "memory": MemoryError, "stack": RecursionError}
CLS = {"memory": "mem", "stack": "rec"}


def measure(op):
    """number of points per class in a call"""
    out = []
    for c in ("async", "mem", "rec"):
        p = engine.Points(c, [], None)
        with p:
            ops.outcome(op)
        out.append(p.n)
    return out


def prepare(ctx):
    engine.instrument(engine.E_POINTS)
    runner.MEASURE = measure
    ctx.catalogue(FAMS[ctx.tier])
    ctx.need([["new", c, u] for f in ctx.fam for c, u in f["ids"]])
    ctx.nimport = runner.in_child(lambda: count_import(), cpu=60)["ok"]
    ctx.extra["import_points"] = ctx.nimport


def prepare_replay(ctx, plan):
    engine.instrument(engine.E_POINTS)
    l = []
    for s in plan["steps"]:
        if s[0] in ("op", "hit", "deep"):
            l.append(s[1])
    for t in plan.get("threads", []):
        l += [o for _, o in t]
    for o in list(l):
        if o[0] in ("meth", "attr", "eqx"):
            l.append(["new"] + o[1:3])
        if o[0] == "eq":
            l += [["new"] + o[1:3], ["new"] + o[3:5]]
    ctx.need(l)


def require(ctx, plan):
    pass


def points(ctx, op, kind):
    return ctx.expect(op)[3][("async", "mem", "rec").index(CLS.get(kind, "async"))]


def draw(r, ctx):
    if ctx.rare and r.random() < 0.08:
        from . import c01
        return c01.rare_pool(r, ctx)
    if ctx.susp and r.random() < 0.5:
        d = ctx.susp[r.choice(sorted(ctx.susp))]
        return d[r.choice(sorted(d))]
    f = r.choice(ctx.fam)
    if r.random() < 0.3:
        return [o for x in r.sample(ctx.byscheme[f["scheme"]], 2) for o in x["ops"]]
    return f["ops"]


def gen(ctx, i):
    r = runner.rng(ctx.seed, ID, i)
    k = r.random()
    base = {"objects": r.choice(["pool", "pool", "fresh"]), "seed": r.getrandbits(40)}
    if k < 0.03:
        n = r.choice([1, 1, 2, 3])
        pool = draw(r, ctx)
        return {**base, "what": "import", "kind": r.choice(sorted(KINDS)),
                "hits": [r.randint(1, max(1, ctx.nimport)) for _ in range(n)],
                "steps": [["op", r.choice(pool)] for _ in range(6)] + [["op", r.choice(r.choice(ctx.fam)["ops"])] for _ in range(6)]}
    pool = draw(r, ctx)
    if k < 0.18:
        # other threads at work while one is cut short
        from . import c01
        nt = r.choice([2, 2, 3])
        threads = []
        oid = 0
        sub = c01.one_object(r, pool) if r.random() < 0.5 else pool
        for _ in range(nt):
            l = []
            for _ in range(r.choice([1, 2, 3])):
                l.append([oid, r.choice(sub)])
                oid += 1
            threads.append(l)
        hits = []
        for _ in range(r.choice([1, 1, 2])):
            t = r.randrange(nt)
            oid, op = r.choice(threads[t])
            kind = r.choice(["interrupt", "cancel", "timeout", "deadline", "stack"])
            hits.append([t, oid, r.randint(1, max(1, points(ctx, op, kind))), kind])
        return {**base, "what": "threads", **ops.worked(r, ctx, pool), "threads": threads, "hits": hits,
                "strategy": c01.strategy(r, threads, bool(ctx.susp)), "first": r.randrange(nt),
                "steps": [["op", r.choice(sub)] for _ in range(3)]}
    if k < 0.5:
        # sweep: every point of one call
        op = r.choice(pool)
        kind = r.choice(sorted(KINDS))
        total = points(ctx, op, kind)
        a = 1 if total <= 60 else r.randint(1, total - 50)
        steps = []
        for n in range(a, min(total, a + 59) + 1):
            steps.append(["hit", op, kind, n])
            steps.append(["op", op])
            if r.random() < 0.3:
                steps.append(["op", r.choice(pool)])
        return {**base, "what": "history", **ops.worked(r, ctx, pool), "steps": steps}
    steps = []
    for _ in range(r.choice([3, 8, 20, 40])):
        x = r.random()
        op = r.choice(pool)
        if x < 0.5:
            kind = r.choice(sorted(KINDS))
            steps.append(["hit", op, kind, engine.point(r, points(ctx, op, kind), ctx)])
            if r.random() < 0.5:
                steps.append(["op", op])
        elif x < 0.6:
            steps.append(["deep", op, r.randint(1, 30)])
        else:
            steps.append(["op", op])
    return {**base, "what": "history", **ops.worked(r, ctx, pool), "steps": steps}


# -- import ------------------------------------------------------------------------------

def forget():
    for m in [m for m in sys.modules if m == "epcpy" or m.startswith("epcpy.")]:
        del sys.modules[m]
    ops.LIB = None


def lazy_ins(p):
    def ins(code, off):
        if code not in engine.CODES:
            if not code.co_filename.startswith(boot.PKG):
                return engine.MON.DISABLE
            engine.CODES[code] = engine.flags(code)
        p.ins(code, off)
    return ins


def import_under(p):
    """import the library afresh with points armed"""
    def guard(f):
        def g(code, off, fn, arg):
            if code.co_filename.startswith(boot.PKG):
                return f(code, off, fn, arg)
        return g
    M = engine.MON
    M.restart_events()
    M.set_events(engine.TOOL, engine.E_POINTS)
    engine.callbacks(lazy_ins(p), guard(p.cret), guard(p.call))
    p.live = True
    try:
        ops.lib()
    finally:
        p.live = False
        engine.callbacks()
        M.set_events(engine.TOOL, 0)


def count_import():
    forget()
    p = engine.Points("async", [], None)
    import_under(p)
    return p.n


# -- execution ----------------------------------------------------------------------------

def deep(op, m, getobj):
    """the call with m free stack frames"""
    d = 0
    f = sys._getframe()
    while f:
        d += 1
        f = f.f_back
    old = sys.getrecursionlimit()
    L = ops.lib()
    kw = L.kw(op[1], op[4]) if op[0] == "meth" else None
    o = getobj(op[1], op[2]) if op[0] == "meth" else None
    try:
        sys.setrecursionlimit(d + m + 1)
    except RecursionError:
        return None
    try:
        try:
            v = getattr(o, op[3])(**kw) if o is not None else ops.call(op)
        finally:
            sys.setrecursionlimit(old)
    except RecursionError:
        return ["exc", "RecursionError"]
    except BaseException as e:
        return ops.norm_exc(e)
    return ops.norm(v)


def execute(ctx, plan):
    random.seed(plan["seed"])
    objs = {}
    stats = {"evaluations": 0, "what_" + plan["what"]: 1}
    out = {"viol": None, "stats": stats, "sigs": [], "states": []}
    sigs, states = set(), set()

    def getobj(c, u):
        if plan["objects"] == "fresh":
            return ops.fresh(c, u)
        if (c, u) not in objs:
            objs[c, u] = ops.fresh(c, u)
        return objs[c, u]

    def bad(kind, **k):
        out["viol"] = {"kind": kind, **k}
        return out

    def count(kind, loc, op):
        stats["fault:" + kind] = stats.get("fault:" + kind, 0) + 1
        sigs.add(runner.h64([kind, list(loc), op[0], op[3] if op[0] == "meth" else op[1:3] if op[0] == "cls" else op[1]]))
        states.add(runner.h64([kind, list(loc[1:])]))

    out["viol"] = ops.relive(plan, stats)
    if out["viol"]:
        return out
    if plan["what"] == "import":
        forget()
        done = False
        for h in plan["hits"]:
            err = KINDS[plan["kind"]]("struck")

            def act(p):
                raise err
            p = engine.Points(CLS.get(plan["kind"], "async"), [h], act)
            try:
                import_under(p)
            except BaseException as e:
                if e is not err:
                    return bad("import_error", got=ops.norm_exc(e), expected=ops.norm_exc(err), at=h)
            stats["evaluations"] += 1
            if p.fired:
                count(plan["kind"], p.fired[0], ["import", "import"])
            if ops.LIB is not None and not p.fired:
                done = True
                break
            ops.LIB = None
        try:
            ops.LIB = None
            ops.lib()
        except BaseException as e:
            return bad("import_retry", got=ops.norm_exc(e), expected="import succeeds")
    elif plan["what"] == "threads":
        r = run_threads(ctx, plan, getobj, objs, bad, count, stats)
        out["trace"] = r[1]
        if r[0]:
            return out

    for n, s in enumerate(plan["steps"]):
        op = s[1]
        exp = ctx.expect(op)[0]
        stats["evaluations"] += 1
        if s[0] == "op":
            got = ops.outcome(op, getobj)
            if got != exp:
                return bad("later_call", step=n, op=op, got=got, expected=exp)
        elif s[0] == "deep":
            got = deep(op, s[2], getobj)
            if got is None:
                continue
            if got == ["exc", "RecursionError"]:
                count("stack_limit", (0, "deep", s[2]), op)
            elif got != exp:
                return bad("struck_call", step=n, op=op, got=got, expected=exp, error="stack limit", frames=s[2])
        else:
            kind = s[2]
            err = KINDS[kind]("struck")

            def act(p):
                raise err
            p = engine.Points(CLS.get(kind, "async"), [s[3]], act)
            mine = objs
            try:
                with p:
                    v = ops.call(op, getobj)
            except BaseException as e:
                if e is err:
                    count(kind, p.fired[0], op)
                    e = v = None
                    continue
                got = ops.norm_exc(e)
                e = None
            else:
                got = ops.norm(v)
            v = None
            if p.fired:
                return bad("struck_call", step=n, op=op, got=got, expected=ops.norm_exc(err), at=p.fired[0], error=kind)
            if got != exp:
                return bad("later_call", step=n, op=op, got=got, expected=exp)
    for (c, u), o in sorted(objs.items()):
        stats["evaluations"] += 1
        q, exp = ops.probe(o), ctx.expect(["new", c, u])[1]
        if q != exp:
            return bad("probe", op=["new", c, u], got=q, expected=exp)
    out["viol"] = ops.relive(plan, stats, "later")
    out["sigs"] = sorted(sigs)
    out["states"] = sorted(states)
    if plan["seed"] % 61 == 0 and plan["what"] == "history":
        out["sample"] = {"steps": [str(x)[:150] for x in plan["steps"][:6]]}
    return out


def run_threads(ctx, plan, getobj, objs, bad, count, stats):
    threads = plan["threads"]
    rnd = random.Random(plan["seed"])
    for t in threads:
        for _, o in t:
            if o[0] in ("meth", "attr", "eqx"):
                getobj(o[1], o[2])
            elif o[0] == "eq":
                getobj(o[1], o[2])
                getobj(o[3], o[4])
    hits = {}
    for t, oid, n, kind in plan["hits"]:
        hits[t, oid] = (n, kind)
    cnt = {}
    errs = {}
    results = [[] for _ in threads]

    def on_step(t, code, off):
        h = hits.get((t.tid, t.op))
        if h is None:
            return
        f = engine.CODES[code][off]
        if f & (engine.F_BP if h[1] != "stack" else engine.F_RESUME) and not engine.importing():
            k = (t.tid, t.op)
            cnt[k] = cnt.get(k, 0) + 1
            if cnt[k] == h[0]:
                errs[k] = e = KINDS[h[1]]("struck")
                count(h[1], (h[0], code.co_qualname, off), ["threads", "threads"])
                raise e

    def body(t):
        def run():
            for oid, op in threads[t]:
                eng.begin(t, oid)
                try:
                    v = ops.call(op, getobj)
                    res = ops.norm(v)
                except BaseException as e:
                    res = "struck" if e is errs.get((t, oid)) else ops.norm_exc(e)
                v = e = None
                results[t].append((oid, op, res))
        return run
    eng = engine.Engine([body(t) for t in range(len(threads))], plan["strategy"], rnd, plan["first"], on_step=on_step)
    eng.run()
    if eng.stuck:
        bad("stuck", detail=eng.stuck)
        return True, eng.trace
    for t, l in enumerate(results):
        for oid, op, res in l:
            stats["evaluations"] += 1
            if (t, oid) in errs:
                if res != "struck":
                    bad("struck_call", op=op, got=res, expected=ops.norm_exc(errs[t, oid]))
                    return True, eng.trace
            elif res != ctx.expect(op)[0]:
                bad("other_thread", op=op, thread=t, got=res, expected=ctx.expect(op)[0])
                return True, eng.trace
    return False, eng.trace


def settle(plan, res):
    if plan["what"] == "threads" and "trace" in res:
        return {**plan, "strategy": {"kind": "list", "sw": res["trace"]}}
    v = res.get("viol") or {}
    if "step" in v:
        return {**plan, "steps": plan["steps"][:v["step"] + 1]}
    return plan


def shrink(plan, res):
    yield from ops.less(plan)
    if plan["what"] == "threads":
        from . import c01
        for q in c01.shrink({**plan, "post": []}, res):
            q = dict(q)
            q.pop("post")
            yield q
        for j in range(len(plan["hits"])):
            yield {**plan, "hits": plan["hits"][:j] + plan["hits"][j + 1:]}
    if plan["what"] == "import":
        for j in range(len(plan["hits"])):
            if len(plan["hits"]) > 1:
                yield {**plan, "hits": plan["hits"][:j] + plan["hits"][j + 1:]}
    for l in runner.cut(plan["steps"]):
        yield {**plan, "steps": l}
    if plan["objects"] != "fresh":
        yield {**plan, "objects": "fresh"}
