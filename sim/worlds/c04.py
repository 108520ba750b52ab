"""C04: conversions may be re-entered at any point."""
import random
import sys

from .. import boot, engine, ops, runner

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 70000}
FAMS = {"quick": 84, "thorough": 294}
RULE = ("A run is a short history of calls during which handlers run at chosen points and themselves call the library, "
        "nested up to depth 12. Each inner call made inside an outer one is a non-trivial case; two are distinct when outer "
        "function, code location, inner function or depth differ.")
STATES = "distinct (code location interrupted, inner function) pairs"
COMPONENTS = {"real": ["all epcpy code", "re, enum, base64"],
              "stub": ["signal and finaliser delivery", "locks of library code", "clocks"]}
ASSUMPTIONS = ["handlers run where CPython 3.12 runs them: function entry, backward jump, return of a C function, "
               "Python code of the standard library as a whole",
               "inputs and nesting patterns are sampled, not enumerated"]


def measure(op):
    p = engine.Points("async", [], None)
    with p:
        ops.outcome(op)
    return p.n


def prepare(ctx):
    engine.instrument(engine.E_POINTS)
    runner.MEASURE = measure
    ctx.catalogue(FAMS[ctx.tier])
    ctx.need([["new", c, u] for f in ctx.fam for c, u in f["ids"]])


def tree_ops(t):
    yield t["op"]
    for _, u in t["hits"]:
        yield from tree_ops(u)


def prepare_replay(ctx, plan):
    engine.instrument(engine.E_POINTS)
    l = [o for t in plan["calls"] for o in tree_ops(t)]
    for o in list(l):
        if o[0] in ("meth", "attr", "eqx"):
            l.append(["new"] + o[1:3])
        if o[0] == "eq":
            l += [["new"] + o[1:3], ["new"] + o[3:5]]
    ctx.need(l)


def require(ctx, plan):
    pass


def gen(ctx, i):
    from . import c01
    r = runner.rng(ctx.seed, ID, i)
    pool = c01.pick_pool(r, ctx)

    def tree(depth):
        op = r.choice(pool)
        hits = []
        if depth:
            total = max(1, ctx.expect(op)[3])
            k = r.random()
            if k < 0.6:
                ns = [engine.point(r, total, ctx) for _ in range(r.choice([1, 1, 2]))]
            elif k < 0.8:
                ns = list(range(r.randint(1, 5), total + 1, r.choice([1, 2, 3, 7])))[:40]
            else:
                ns = sorted(r.sample(range(1, total + 1), min(total, r.randint(2, 6))))
            one = tree(depth - 1) if r.random() < 0.5 else None
            for n in sorted(set(ns)):
                hits.append([n, one or tree(depth - 1 if len(ns) < 4 else 0)])
        return {"op": op, "hits": hits}

    def tower(depth):
        # the same few calls inside each other, many deep
        some = [r.choice(pool) for _ in range(r.choice([1, 1, 2]))]
        t = None
        for _ in range(depth):
            op = r.choice(some)
            t = {"op": op, "hits": [[engine.point(r, ctx.expect(op)[3], ctx), t]] if t else []}
        return t
    if r.random() < 0.15:
        calls = [tower(r.choice([3, 4, 5, 9, 12])) for _ in range(r.choice([1, 2, 4]))]
        return {"calls": calls, "objects": r.choice(["pool", "pool", "fresh"]), "seed": r.getrandbits(40),
                **ops.worked(r, ctx, pool)}
    calls = [tree(r.choice([1, 1, 1, 2, 2, 3]) if r.random() < 0.8 else 0) for _ in range(r.choice([1, 2, 4, 6]))]
    return {"calls": calls, "objects": r.choice(["pool", "pool", "fresh"]), "seed": r.getrandbits(40),
                **ops.worked(r, ctx, pool)}


def execute(ctx, plan):
    random.seed(plan["seed"])
    objs = {}
    stats = {"evaluations": 0, "calls": 0}
    out = {"viol": None, "stats": stats}
    sigs, states = set(), set()
    stack = []
    log = []

    def getobj(c, u):
        if plan["objects"] == "fresh":
            return ops.fresh(c, u)
        if (c, u) not in objs:
            objs[c, u] = ops.fresh(c, u)
        return objs[c, u]

    def act(p):
        t = p.tree[p.at]
        loc = p.fired[-1]
        stats["fault:handler ran"] = stats.get("fault:handler ran", 0) + 1
        stats["max_depth_%d" % len(stack)] = stats.get("max_depth_%d" % len(stack), 0) + 1
        sigs.add(runner.h64([list(loc[1:]), fn(p.op), fn(t["op"]), len(stack)]))
        states.add(runner.h64([list(loc[1:]), fn(t["op"])]))
        sys.call_tracing(run, (t, "%s at %s+%d" % (fn(p.op), loc[1], loc[2])))

    def run(t, where):
        p = engine.Points("async", [n for n, _ in t["hits"]], act)
        p.tree = {n: u for n, u in t["hits"]}
        p.op = t["op"]
        if stack:
            stack[-1].live = False
        stack.append(p)
        engine.callbacks(p.ins, p.cret, p.call)
        p.live = True
        try:
            res = ops.outcome(t["op"], getobj)
        finally:
            p.live = False
            stack.pop()
            if stack:
                q = stack[-1]
                engine.callbacks(q.ins, q.cret, q.call)
                q.live = True
            else:
                engine.callbacks()
        log.append((t["op"], res, where, len(stack)))

    out["viol"] = ops.relive(plan, stats)
    if out["viol"]:
        return out
    for t in plan["calls"]:
        run(t, "")
    for op, res, where, depth in log:
        stats["evaluations"] += 1
        stats["calls"] += 1
        exp = ctx.expect(op)[0]
        if res != exp:
            out["viol"] = {"kind": "inner" if depth else "outer", "op": op, "got": res, "expected": exp,
                           "depth": depth, "inside": where}
            return out
    for (c, u), o in sorted(objs.items()):
        stats["evaluations"] += 1
        q, exp = ops.probe(o), ctx.expect(["new", c, u])[1]
        if q != exp:
            out["viol"] = {"kind": "probe", "op": ["new", c, u], "got": q, "expected": exp}
            return out
    out["viol"] = ops.relive(plan, stats, "later")
    out["sigs"] = sorted(sigs)
    out["states"] = sorted(states)
    if plan["seed"] % 61 == 0 and sigs:
        out["sample"] = {"calls": [brief(t) for t in plan["calls"][:2]]}
    return out


def fn(o):
    return o[0] + ":" + (o[3] if o[0] == "meth" else o[2] if o[0] == "cls" else o[1])


def brief(t):
    return {"op": str(t["op"])[:120], "hits": [[n, brief(u)] for n, u in t["hits"][:2]]}


def settle(plan, res):
    return plan


def shrink(plan, res):
    yield from ops.less(plan)
    for l in runner.cut(plan["calls"]):
        yield {**plan, "calls": l}
    for j, t in enumerate(plan["calls"]):
        for q in small(t):
            yield {**plan, "calls": plan["calls"][:j] + [q] + plan["calls"][j + 1:]}
    if plan["objects"] != "fresh":
        yield {**plan, "objects": "fresh"}


def small(t):
    for l in runner.cut(t["hits"]):
        yield {**t, "hits": l}
    for j, (n, u) in enumerate(t["hits"]):
        for q in small(u):
            yield {**t, "hits": t["hits"][:j] + [[n, q]] + t["hits"][j + 1:]}
