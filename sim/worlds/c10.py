"""C10: conversions never disturb the host process."""
import gc
import random
import sys

from .. import boot, engine, host, locales, ops, runner

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 28000}
FAMS = {"quick": 63, "thorough": 210}
RULE = ("A run is a host process with its own choice of process-wide settings making 4-30 calls, from one or several "
        "threads, some cut short; 27 groups of settings are compared with what the host set at every point inside a call "
        "where they could have changed, and all of them after each call. A non-trivial case is a call observed at two or "
        "more inner points; two are distinct when function, scheme or host settings differ.")
STATES = "distinct code locations at which the settings were compared"
COMPONENTS = {"real": ["all epcpy code", "the process-wide settings of CPython and the operating system", "re, enum, base64"],
              "stub": ["thread scheduling", "locks of library code", "clocks", "standard streams (recording)"]}
ASSUMPTIONS = ["settings can only change when library code calls something or stores something; they are compared right "
               "after each such instruction",
               "lazy import of standard-library modules is not counted as opening files",
               "inputs are sampled, not enumerated"]


def measure(op):
    p = engine.Points("async", [], None)
    with p:
        ops.outcome(op)
    return p.n


def prepare(ctx):
    engine.instrument(engine.E_POINTS)
    runner.MEASURE = measure
    make_locales()
    ctx.catalogue(FAMS[ctx.tier])


def prepare_replay(ctx, plan):
    engine.instrument(engine.E_POINTS)
    make_locales()


def make_locales():
    host.LOCALES[:] = locales.make()
    runner.CLEANUP.append(locales.remove)


def require(ctx, plan):
    pass


class Cancel(BaseException):
    pass


def gen(ctx, i):
    from . import c01
    r = runner.rng(ctx.seed, ID, i)
    k = r.random()
    h = host.choose(r)
    seed = r.getrandbits(40)
    if ctx.rare and r.random() < 0.1:
        pool = c01.rare_pool(r, ctx)
    elif k < 0.5:
        pool = [o for f in r.sample(ctx.fam, 3) for o in f["ops"]]
    else:
        pool = c01.pick_pool(r, ctx)
    if k < 0.15:
        threads = []
        oid = 0
        for _ in range(r.choice([2, 2, 3])):
            l = []
            for _ in range(r.choice([1, 2, 3])):
                l.append([oid, r.choice(pool)])
                oid += 1
            threads.append(l)
        return {"what": "threads", "host": h, "threads": threads, "strategy": c01.strategy(r, threads, bool(ctx.susp)),
                "first": 0, "seed": seed, "steps": []}
    steps = []
    if k < 0.45 and k > 0.3:
        # one function on as many inputs as possible, good and bad
        pool = [o for o in pool if c01.opname(o) == c01.opname(pool[r.randrange(len(pool))])] or pool
    for _ in range(r.choice([4, 10, 20, 30])):
        op = r.choice(pool)
        if r.random() < 0.25:
            steps.append(["hit", op, r.choice(["interrupt", "cancel", "memory"]),
                          r.randint(1, max(1, ctx.expect(op)[3]))])
        else:
            steps.append(["op", op])
    return {"what": "history", "host": h, "steps": steps, "seed": seed}


KINDS = {"interrupt": KeyboardInterrupt, "cancel": Cancel, "memory": MemoryError}


def execute(ctx, plan):
    audit = host.Audit()
    host.apply(plan["host"])
    stats = {"evaluations": 0, "calls": 0, "what_" + plan["what"]: 1}
    out = {"viol": None, "stats": stats, "sigs": [], "states": []}
    locs = set()
    found = []
    mine = {}
    CODES = engine.CODES
    # let everything lazy in the harness happen before the reference is taken
    host.fast()
    host.slow()

    def look(code, off):
        stats["evaluations"] += 1
        locs.add((code.co_qualname, off))
        d = host.diff(mine.get(boot.real_ident(), ref[0]), host.fast())
        if d is not None and not found:
            found.append([d, [code.co_qualname, off]])

    if plan["what"] == "threads":
        host.COUNT_THREADS = False      # simulated threads end at their own time; starts are audited
        rnd = random.Random(plan["seed"])

        def on_step(t, code, off):
            if CODES[code][off] & engine.F_AFTER and not found and not engine.importing():
                look(code, off)

        def body(t):
            def run():
                # decimal context and the like belong to the thread
                host.fast()
                own = host.fast()
                mine[boot.real_ident()] = tuple(o if o[0] in host.PER_THREAD else g for o, g in zip(own, ref[0]))
                for oid, op in plan["threads"][t]:
                    eng.begin(t, oid)
                    ops.outcome(op)
                    stats["calls"] += 1
            return run
        eng = engine.Engine([body(t) for t in range(len(plan["threads"]))], plan["strategy"], rnd, plan["first"],
                            on_step=on_step)
        ref = [None]
        audit.install()
        start = eng.make_callback

        def armed():
            # called when all threads wait at their gates: the reference includes them
            cb = start()
            ref[0] = host.fast()
            s0.extend(host.slow())
            audit.on = True
            return cb
        eng.make_callback = armed
        s0 = []
        eng.run()
        audit.on = False
        out["trace"] = eng.trace
        stats["preemptions"] = len(eng.trace)
        if eng.stuck:
            out["viol"] = {"kind": "stuck", "detail": eng.stuck}
            return out
        if found:
            out["viol"] = {"kind": "setting", "setting": found[0][0][0], "host": found[0][0][1], "now": found[0][0][2],
                           "at": found[0][1]}
            return out
        d = host.diff(ref[0], host.fast()) or host.diff(s0, host.slow())
        if d:
            out["viol"] = {"kind": "setting", "setting": d[0], "host": d[1], "now": d[2], "at": "end"}
            return out
    else:
        audit.install()
        for n, s in enumerate(plan["steps"]):
            op = s[1]
            ref = [host.fast()]
            s0 = host.slow()
            before = stats["evaluations"]
            err = None
            if s[0] == "hit":
                err = KINDS[s[2]]("struck")

                def act(p):
                    raise err
                p = engine.Points("async", [s[3]], act)
            else:
                p = engine.Points("async", [], None)
            pins = p.ins

            def ins(code, off):
                if CODES[code][off] & engine.F_AFTER and not found and p.live and not engine.importing():
                    look(code, off)
                pins(code, off)
            engine.callbacks(ins, p.cret, p.call)
            p.live = True
            audit.on = True
            try:
                ops.call(op)
            except BaseException:
                pass
            audit.on = False
            p.live = False
            engine.callbacks()
            stats["calls"] += 1
            if p.fired:
                stats["fault:" + s[2]] = stats.get("fault:" + s[2], 0) + 1
            if stats["evaluations"] - before > 1:
                out["sigs"].append(runner.h64([op, plan["host"]]))
            stats["evaluations"] += 1
            if found:
                out["viol"] = {"kind": "setting", "setting": found[0][0][0], "host": found[0][0][1],
                               "now": found[0][0][2], "at": found[0][1], "op": op, "step": n}
                return out
            d = host.diff(ref[0], host.fast()) or host.diff(s0, host.slow())
            if d:
                out["viol"] = {"kind": "setting", "setting": d[0], "host": d[1], "now": d[2], "at": "after the call",
                               "op": op, "step": n}
                return out
            if audit.seen:
                break
    if audit.seen:
        out["viol"] = {"kind": "outside", "events": audit.seen[:4]}
        return out
    for k in ("recursion", "digits", "locale", "warnings", "cwd"):
        stats["fault:host %s changed" % k] = 1 if plan["host"][k] not in (0, -1, "C", "default", "") else 0
    out["states"] = sorted(runner.h64(list(x)) for x in locs)
    if plan["seed"] % 31 == 0 and plan["what"] == "history":
        out["sample"] = {"host": plan["host"], "steps": [str(x)[:120] for x in plan["steps"][:4]]}
    return out


def settle(plan, res):
    if plan["what"] == "threads" and "trace" in res:
        return {**plan, "strategy": {"kind": "list", "sw": res["trace"]}}
    v = res.get("viol") or {}
    if "step" in v:
        return {**plan, "steps": plan["steps"][:v["step"] + 1]}
    return plan


def shrink(plan, res):
    if plan["what"] == "threads":
        from . import c01
        for q in c01.shrink({**plan, "post": []}, res):
            q = dict(q)
            q.pop("post")
            yield q
        return
    for l in runner.cut(plan["steps"]):
        yield {**plan, "steps": l}
    plain = {"recursion": 0, "digits": -1, "prec": 28, "rounding": "ROUND_HALF_EVEN", "decimal_traps": False, "locale": "C",
             "warnings": "default", "signals": False, "env": False, "cwd": "", "gc": True, "hooks": False, "timeout": 0,
             "loglevel": 30, "switch": 0.005, "gct": 700}
    for k, v in plain.items():
        if plan["host"][k] != v:
            yield {**plan, "host": {**plan["host"], k: v}}
