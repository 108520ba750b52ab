"""C02: a call's outcome never depends on what was called before."""
import gc
import random
import re

from .. import boot, engine, model, ops, runner

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 100000}
FAMS = {"quick": 126, "thorough": 420}
RULE = ("A run is one process history of 20-400 calls (floods of other calls or up to 70000 repeated calls in some runs) with objects kept, "
        "dropped and recreated, returned values scribbled on, caches purged and the clock moved. It is non-trivial when "
        "it makes at least two calls; two runs are distinct when their step sequences differ.")
STATES = "distinct (previous call, call, same object or not) triples by function name and scheme"
COMPONENTS = {"real": ["all epcpy code", "re, enum, base64", "CPython object allocation and id reuse"],
              "stub": ["clocks", "random sources"]}
ASSUMPTIONS = ["the first call of a forked process is taken as the outcome determined by the arguments alone",
               "inputs and histories are sampled, not enumerated"]


def prepare(ctx):
    engine.instrument()
    ctx.catalogue(FAMS[ctx.tier])
    ctx.need([["new", c, u] for f in ctx.fam for c, u in f["ids"]])
    engine.uninstrument()


def prepare_replay(ctx, plan):
    need = []
    for s in plan["steps"]:
        if s[0] in ("op", "repeat"):
            need.append(s[1])
            if s[1][0] in ("meth", "attr", "eqx"):
                need.append(["new"] + s[1][1:3])
            if s[1][0] == "eq":
                need += [["new"] + s[1][1:3], ["new"] + s[1][3:5]]
    ctx.need(need)


def require(ctx, plan):
    pass


def gen(ctx, i):
    r = runner.rng(ctx.seed, ID, i)
    k = r.random()
    if ctx.rare and r.random() < 0.06:
        from . import c01
        pool = c01.rare_pool(r, ctx)
    elif ctx.susp and k < 0.35:
        d = ctx.susp[r.choice(sorted(ctx.susp))]
        pool = [o for s in r.sample(sorted(d), min(len(d), r.choice([1, 1, 2, 4]))) for o in d[s]]
        if r.random() < 0.5:
            f = r.choice(ctx.fam)
            pool = pool + f["ops"]
    elif k < 0.65:
        f = r.choice(ctx.fam)
        pool = list(f["ops"])
    elif k < 0.8:
        f = r.choice(ctx.fam)
        pool = [o for x in ctx.byscheme[f["scheme"]] for o in x["ops"]]
    else:
        pool = [o for x in r.sample(ctx.fam, r.randint(2, 12)) for o in x["ops"]]
    names = sorted({name(o) for o in pool})
    if r.random() < 0.3:
        keepn = set(r.sample(names, min(len(names), r.randint(1, 4))))
        pool = [o for o in pool if name(o) in keepn]
    n = r.choice([20, 40, 80, 150, 400])
    w = {"drop": r.choice([0, 0.05, 0.3]), "scribble": r.choice([0, 0, 0.05, 0.2]),
         "env": r.choice([0, 0.02, 0.05]), "repeat": r.choice([0, 0.1, 0.3])}
    steps = []
    last = None
    for _ in range(n):
        x = r.random()
        if x < w["drop"]:
            steps.append(["drop", r.randrange(1000)])
        x = r.random()
        if x < w["scribble"]:
            steps.append(["scribble", r.randrange(1000), r.randrange(6)])
        x = r.random()
        if x < w["env"]:
            steps.append(r.choice([["gc"], ["gc"], ["purge"], ["clock", r.choice([-86400.0, 0.5, 61.0, 3600.0, 1e7])],
                                   ["map", r.choice(sorted(model.BY_SCHEME)).upper(), r.randrange(4)], ["probe"]]))
        if last is not None and r.random() < w["repeat"]:
            steps.append(["op", last, r.randrange(4)])
        else:
            last = r.choice(pool)
            steps.append(["op", last, r.randrange(4)])
    if r.random() < 0.06:
        sch = r.choice(model.SCHEMES) if r.random() < 0.3 else ops.scheme(r.choice(pool))
        steps.insert(r.randrange(len(steps)), ["flood"] + ops.history(r, sch, 0.04))
    if i % 400 == 7:
        o = r.choice(pool)
        steps.insert(len(steps) // 2, ["repeat", o, min(r.choice([10000, 40000, 70000]), 20000000 // (200 + len(str(o))))])
    return {"steps": steps, "objects": r.choice(["pool", "pool", "fresh", "twins"]), "seed": r.getrandbits(40)}


def name(o):
    return {"meth": lambda: o[1] + "." + o[3], "cls": lambda: o[1] + "." + o[2], "fn": lambda: o[1]}.get(
        o[0], lambda: o[1] + ":" + o[0])()


def scribble(v, how):
    """what a careless caller may do with a value it was given, as far as the value lets them"""
    try:
        _scribble(v, how)
    except (AttributeError, TypeError):
        pass


def _scribble(v, how):
    if isinstance(v, dict):
        if how % 2:
            v.clear()
        else:
            for k in list(v):
                v[k] = None
    elif isinstance(v, BaseException):
        if how % 2:
            v.message = "scribbled"
        v.args = ("scribbled",)
        v.add_note("scribbled")
    elif isinstance(v, list):
        v.clear()
    elif hasattr(v, "__dict__"):
        if how % 3 == 0:
            v.epc_uri = "scribbled"
        elif how % 3 == 1:
            for k in list(vars(v)):
                try:
                    setattr(v, k, None)
                except Exception:
                    pass
        else:
            vars(v).clear()


def execute(ctx, plan):
    random.seed(plan["seed"])
    mode = plan["objects"]
    objs, hashes = {}, {}
    given = []
    stats = {"evaluations": 0, "calls": 0, "history_length": len(plan["steps"])}
    out = {"viol": None, "stats": stats}
    states = set()
    prev = None

    def getobj(c, u, slot):
        if mode == "fresh":
            return ops.fresh(c, u)
        k = (c, u, slot if mode == "twins" else 0)
        if k not in objs:
            objs[k] = ops.fresh(c, u)
            hashes[k] = ops.hashed(objs[k])
        return objs[k]

    def bad(n, kind, op, got, exp):
        out["viol"] = {"kind": kind, "step": n, "op": op, "got": got, "expected": exp}
        return out

    def probe_all(n):
        for (c, u, s), o in objs.items():
            stats["evaluations"] += 1
            if ops.hashed(o) != hashes[c, u, s]:
                return bad(n, "hash", ["new", c, u], "changed", "unchanged")
            p, e = ops.probe(o), ctx.expect(["new", c, u])[1]
            if p != e:
                return bad(n, "probe", ["new", c, u], p, e)

    for n, s in enumerate(plan["steps"]):
        k = s[0]
        if k == "op":
            op = s[1]
            slot = s[2]
            err = None
            try:
                v = ops.call(op, lambda c, u: getobj(c, u, slot))
            except BaseException as e:
                err = e
            stats["calls"] += 1
            stats["evaluations"] += 1
            got = ops.norm_exc(err) if err is not None else ops.norm(v)
            exp = ctx.expect(op)
            if got != exp[0]:
                return bad(n, "outcome", op, got, exp[0])
            if err is not None:
                given.append(err)
            elif not isinstance(v, (str, bool, int)):
                given.append(v)
                if isinstance(v, ops.lib().EPCScheme) and s[2] == 0:
                    stats["evaluations"] += 1
                    p = ops.probe(v)
                    if p != exp[1]:
                        return bad(n, "probe", op, p, exp[1])
            err = v = None
            if len(given) > 20:
                given.pop(0)
            me = name(op)
            states.add(runner.h64([prev, me, mode]))
            prev = me
        elif k == "drop":
            if objs:
                del objs[sorted(objs)[s[1] % len(objs)]]
            if given:
                given.pop(s[1] % len(given))
            stats["fault:object dropped"] = stats.get("fault:object dropped", 0) + 1
        elif k == "scribble":
            if given:
                v = given.pop(s[1] % len(given))
                if not any(v is o for o in objs.values()):
                    scribble(v, s[2])
                    stats["fault:returned value scribbled"] = stats.get("fault:returned value scribbled", 0) + 1
                v = None
        elif k == "gc":
            gc.collect()
            stats["fault:garbage collection"] = stats.get("fault:garbage collection", 0) + 1
        elif k == "purge":
            re.purge()
            stats["fault:regex cache purged"] = stats.get("fault:regex cache purged", 0) + 1
        elif k == "clock":
            boot.CLOCK.advance(s[1])
            stats["fault:clock jump"] = stats.get("fault:clock jump", 0) + 1
            stats["simulated_ms"] = stats.get("simulated_ms", 0) + int(max(0, s[1]) * 1000)
        elif k == "map":
            scribble(ops.lib().cls[s[1]].header_to_schemes(), s[2])
            stats["fault:returned map scribbled"] = stats.get("fault:returned map scribbled", 0) + 1
        elif k == "probe":
            if probe_all(n):
                return out
        elif k == "flood":
            v = ops.flood(*s[1:])
            if v:
                return bad(n, "flood", v["op"], v["got"], v["expected"])
            stats["calls"] += s[4]
            stats["fault:flood of other calls"] = stats.get("fault:flood of other calls", 0) + 1
        elif k == "repeat":
            exp = ctx.expect(s[1])[0]
            for _ in range(s[2]):
                got = ops.outcome(s[1])
                if got != exp:
                    return bad(n, "outcome", s[1], got, exp)
            stats["calls"] += s[2]
            stats["evaluations"] += s[2]
    if probe_all(len(plan["steps"])):
        return out
    if stats["calls"] > 1:
        out["sigs"] = [runner.h64(plan["steps"])]
    out["states"] = sorted(states)
    if plan["seed"] % 97 == 0:
        out["sample"] = {"objects": mode, "steps": [str(x)[:140] for x in plan["steps"][:8]],
                         "length": len(plan["steps"])}
    return out


def settle(plan, res):
    v = res.get("viol")
    if v and "step" in v and v["kind"] == "outcome":
        return {**plan, "steps": plan["steps"][:v["step"] + 1]}
    return plan


def shrink(plan, res):
    for l in runner.cut(plan["steps"]):
        yield {**plan, "steps": l}
    for j, s in enumerate(plan["steps"]):
        if s[0] in ("flood", "repeat") and s[-1] > 10:
            yield {**plan, "steps": plan["steps"][:j] + [s[:-1] + [s[-1] // 2]] + plan["steps"][j + 1:]}
    if plan["objects"] != "fresh":
        yield {**plan, "objects": "fresh"}
