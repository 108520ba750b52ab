"""C08: objects and errors survive snapshots and hand-over between processes."""
import base64
import copy
import json
import pickle
import random
import sys

from .. import boot, engine, ops, runner, spare

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 150000}
FAMS = {"quick": 84, "thorough": 294}
RULE = ("A run is the life of 1-4 objects: conversions, snapshots between and in the middle of calls, hand-over of snapshots "
        "and errors to freshly started processes, use of originals and copies after each other. Each restored object or "
        "error is a non-trivial case; two are distinct when class, way of copying, number of hand-overs or the code location "
        "of a mid-call snapshot differ.")
STATES = "distinct (class, way of copying, code location of the snapshot) triples"
COMPONENTS = {"real": ["all epcpy code", "pickle and copy", "separate processes for restored state"],
              "stub": ["signal delivery for mid-call snapshots", "transport between processes", "clocks"]}
ASSUMPTIONS = ["processes exchanging snapshots run the same version of the library",
               "inputs and histories are sampled, not enumerated"]
HOWS = ["copy", "deep", "p0", "p1", "p2", "p3", "p4", "p5", "list", "slow"]




def dump(o, how):
    """bytes for the pickling ways"""
    if how == "slow":
        import io
        f = io.BytesIO()
        pickle._Pickler(f, 4).dump(o)
        return f.getvalue()
    if how == "list":
        return pickle.dumps([o, {"again": o}], 5)
    try:
        return pickle.dumps(o, int(how[1:]))
    except TypeError as e:
        # protocols 0 and 1 know no __slots__; a class that has them needs a later one
        if int(how[1:]) > 1 or "__slots__" not in str(e):
            raise
        return pickle.dumps(o, 2)


def undump(b, how):
    if how == "list":
        l = pickle.loads(b)
        if l[0] is not l[1]["again"]:
            raise ValueError("identity inside one snapshot lost")
        return l[0]
    if how == "slow":
        import io
        return pickle._Unpickler(io.BytesIO(b)).load()
    return pickle.loads(b)


def snap(o, how):
    if how == "copy":
        return copy.copy(o)
    if how == "deep":
        return copy.deepcopy(o)
    return undump(dump(o, how), how)


def measure(op):
    p = engine.Points("async", [], None)
    try:
        o = ops.fresh(op[1], op[2]) if op[0] == "meth" else None
    except Exception:
        o = None
    with p:
        ops.outcome(op, ops.fresh if o is None else lambda c, u: o)
    return p.n


def prepare(ctx):
    engine.instrument(engine.E_POINTS)
    runner.MEASURE = measure
    ctx.catalogue(FAMS[ctx.tier])
    ctx.need([["new", c, u] for f in ctx.fam for c, u in f["ids"]])


def prepare_replay(ctx, plan):
    engine.instrument(engine.E_POINTS)
    l = [["new"] + o for o in plan["objs"]]
    for s in plan["steps"]:
        if s[0] in ("op", "mid", "err", "use", "made"):
            l.append(s[1])
        if s[0] == "hop":
            l += s[3]
        if s[0] == "errhop":
            l.append(s[1])
    ctx.need(l)


def require(ctx, plan):
    pass


def gen(ctx, i):
    r = runner.rng(ctx.seed, ID, i)
    f = r.choice(ctx.fam)
    d = None
    if ctx.susp and r.random() < 0.5:
        d = ctx.susp[r.choice(sorted(ctx.susp))]
        s = r.choice(sorted(d))
        f = r.choice(ctx.byscheme.get(s) or [f])
    objs = r.sample(f["ids"], r.randint(1, len(f["ids"])))
    m = [o for o in f["ops"] if o[0] in ("meth", "attr", "eqx") and [o[1], o[2]] in objs]
    other = f["ops"]
    hot = []
    if d:
        keys = {ops.key(o) for o in d.get(f["scheme"], [])}
        hot = [o for o in m if ops.key(o) in keys]
    errs = [o for o in f["ops"] if ctx.expect(o)[0][0] == "exc" and ctx.expect(o)[0][1] == "ConvertException"]
    errs += [o for o in ctx.rare.get(f["scheme"], []) if ctx.expect(o)[0][:2] == ["exc", "ConvertException"]] * 3
    made = [o for o in f["ops"] if ctx.expect(o)[0][0] == "obj"]
    hop = r.random() < 0.35
    steps = []
    for _ in range(r.choice([3, 6, 12, 20])):
        k = r.random()
        how = r.choice(HOWS)
        if k < 0.25 and m:
            steps.append(["op", r.choice(m)])
        elif k < 0.3:
            steps.append(["op", r.choice(other)])
        elif k < 0.45:
            steps.append(["snap", r.randrange(len(objs)), how])
        elif k < 0.58 and m:
            op = r.choice(hot if hot and r.random() < 0.7 else m)
            steps.append(["mid", op, engine.point(r, ctx.expect(op)[3], ctx), how])
        elif k < 0.65 and m:
            steps.append(["use", r.choice(m), r.randrange(100)])
        elif k < 0.72 and errs:
            steps.append(["err", r.choice(errs), [r.choice(HOWS) for _ in range(r.randint(1, 4))]])
        elif k < 0.78 and made:
            steps.append(["made", r.choice(made), how])
        elif k < 0.83:
            steps.append(["scribble", r.randrange(100), r.randrange(4)])
        elif k < 0.88:
            steps.append(["again", r.randrange(100), how])
        elif hop and k < 0.96 and m:
            steps.append(["hop", r.randrange(len(objs)), "p%d" % r.randrange(6), r.sample(m, min(len(m), 3)), r.randint(1, 3)])
        elif hop and errs:
            steps.append(["errhop", r.choice(errs), "p%d" % r.randrange(6), r.randint(1, 3)])
    return {"objs": objs, "steps": steps, **ops.worked(r, ctx, other, 0.01), "seed": r.getrandbits(40)}


def serve(q):
    """in a fresh process: restore, use, hand on"""
    q = json.loads(q)
    try:
        o = undump(base64.b64decode(q["data"]), q["how"])
    except Exception as e:
        return {"fail": ops.norm_exc(e)}
    if q["kind"] == "err":
        return {"type": type(o).__name__, "exc": ops.norm_exc(o), "data": base64.b64encode(dump(o, q["how"])).decode()}
    out = {"type": type(o).__name__, "probe": ops.probe(o), "res": [], "eq": ops.alike(o, ops.fresh(q["cls"], q["uri"]))}
    for op in q["ops"]:
        out["res"].append(ops.outcome(op, lambda c, u: o if (c, u) == (q["cls"], q["uri"]) else ops.fresh(c, u)))
    out["data"] = base64.b64encode(dump(o, q["how"])).decode()
    return out


def execute(ctx, plan):
    random.seed(plan["seed"])
    ops.lib()
    sp = spare.Spare(serve) if any(s[0] in ("hop", "errhop") for s in plan["steps"]) else None
    stats = {"evaluations": 0, "snapshots": 0}
    out = {"viol": None, "stats": stats}
    sigs, states = set(), set()
    out["viol"] = ops.relive(plan, stats)
    if out["viol"]:
        return out
    objs = {(c, u): ops.fresh(c, u) for c, u in plan["objs"]}
    copies = []         # (object, cls, uri, how, scribbled)

    def getobj(c, u):
        return objs[c, u] if (c, u) in objs else ops.fresh(c, u)

    def bad(kind, **k):
        out["viol"] = {"kind": kind, **k}
        return out

    def same(kind, got, exp, **k):
        stats["evaluations"] += 1
        if got != exp:
            bad(kind, got=got, expected=exp, **k)
            return False
        return True

    def take(o, c, u, how, where, n):
        try:
            s = snap(o, how)
        except Exception as e:
            bad("snapshot_failed", cls=c, uri=u, how=how, got=ops.norm_exc(e), at=where, step=n)
            return None
        stats["snapshots"] += 1
        stats["way_" + how] = stats.get("way_" + how, 0) + 1
        sigs.add(runner.h64([c, how, where, n > 3]))
        states.add(runner.h64([c, how, where]))
        copies.append([s, c, u, how, False])
        return s

    def verify(s, o, c, u, how, n):
        exp = ctx.expect(["new", c, u])
        return (same("type", type(s).__name__, c, step=n, how=how, op=["new", c, u])
                and same("equal", ops.alike(s, o), [True] * 5, step=n, how=how, op=["new", c, u])
                and same("copy", ops.probe(s), exp[1], step=n, how=how, op=["new", c, u]))

    for n, s in enumerate(plan["steps"]):
        k = s[0]
        if k == "op":
            if not same("outcome", ops.outcome(s[1], getobj), ctx.expect(s[1])[0], step=n, op=s[1]):
                return out
        elif k == "snap":
            if s[1] >= len(plan["objs"]):
                continue
            c, u = plan["objs"][s[1]]
            x = take(objs[c, u], c, u, s[2], "between", n)
            if x is None or not verify(x, objs[c, u], c, u, s[2], n):
                return out
        elif k == "made":
            keep = []
            ops.outcome(s[1], getobj, keep)
            exp = ctx.expect(s[1])
            if keep:
                try:
                    x = snap(keep[0], s[2])
                except Exception as e:
                    return bad("snapshot_failed", op=s[1], how=s[2], got=ops.norm_exc(e), step=n)
                stats["snapshots"] += 1
                if not (same("equal", ops.alike(x, keep[0]), [True] * 5, step=n, how=s[2], op=s[1])
                        and same("copy", ops.probe(x), exp[1], step=n, how=s[2], op=s[1])):
                    return out
        elif k == "mid":
            op = s[1]
            c, u = op[1], op[2]
            if (c, u) not in objs:
                continue
            o = objs[c, u]
            got = []

            def act(p):
                got.append(take(o, c, u, s[3], "%s+%d" % p.fired[-1][1:], n))
            p = engine.Points("async", [s[2]], act)
            with p:
                res = ops.outcome(op, getobj)
            if out["viol"]:
                return out
            if not same("outcome", res, ctx.expect(op)[0], step=n, op=op):
                return out
            if got:
                stats["fault:snapshot in the middle of a call"] = stats.get("fault:snapshot in the middle of a call", 0) + 1
                if not verify(got[0], o, c, u, s[3], n):
                    return out
        elif k == "use":
            l = [x for x in copies if x[1:3] == s[1][1:3] and not x[4]]
            if l:
                x = l[s[2] % len(l)]
                if not same("copy_outcome", ops.outcome(s[1], lambda c, u: x[0]), ctx.expect(s[1])[0], step=n, op=s[1],
                            how=x[3]):
                    return out
        elif k == "again":
            l = [x for x in copies if not x[4]]
            if l:
                x = l[s[1] % len(l)]
                y = take(x[0], x[1], x[2], s[2], "copy of a copy", n)
                if y is None or not verify(y, x[0], x[1], x[2], s[2], n):
                    return out
        elif k == "scribble":
            l = [x for x in copies if not x[4] and not any(x[0] is o for o in objs.values())]
            if l:
                x = l[s[1] % len(l)]
                for a in list(vars(x[0]) if hasattr(x[0], "__dict__") else ["epc_uri"]):
                    try:
                        setattr(x[0], a, "scribbled")
                    except Exception:
                        pass
                x[4] = True
                stats["fault:copy overwritten"] = stats.get("fault:copy overwritten", 0) + 1
        elif k == "err":
            try:
                ops.call(s[1])
                e = None
            except Exception as x:
                e = x
            exp = ctx.expect(s[1])[0]
            if e is not None and not same("outcome", ops.norm_exc(e), exp, step=n, op=s[1]):
                return out
            for j, how in enumerate(s[2]):
                if e is None:
                    break
                try:
                    e = snap(e, how)
                except Exception as x:
                    return bad("snapshot_failed", op=s[1], how=how, got=ops.norm_exc(x), step=n)
                stats["snapshots"] += 1
                sigs.add(runner.h64(["err", s[1][:2], how, j]))
                if not same("error", ops.norm_exc(e) if isinstance(e, BaseException) else repr(e), exp, step=n, op=s[1],
                            how=s[2][:j + 1]):
                    return out
        elif k == "hop":
            if s[1] >= len(plan["objs"]):
                continue
            c, u = plan["objs"][s[1]]
            try:
                data = base64.b64encode(dump(objs[c, u], s[2])).decode()
            except Exception as e:
                return bad("snapshot_failed", op=["new", c, u], how=s[2], got=ops.norm_exc(e), step=n)
            mine = [o for o in s[3] if (o[1], o[2]) == (c, u)]
            for h in range(s[4]):
                a = sp.ask(json.dumps({"kind": "obj", "data": data, "how": s[2], "cls": c, "uri": u, "ops": mine}).encode())
                if "error" in a:
                    raise RuntimeError(a["error"])
                if "hang" in a:
                    return bad("hang", op=["new", c, u], step=n)
                a = a["ok"]
                stats["fault:process replaced"] = stats.get("fault:process replaced", 0) + 1
                sigs.add(runner.h64([c, s[2], "hop", h]))
                if "fail" in a:
                    return bad("restore_failed", op=["new", c, u], how=s[2], got=a["fail"], step=n)
                exp = ctx.expect(["new", c, u])
                if not (same("type", a["type"], c, step=n, how=s[2]) and same("equal", a["eq"], [True] * 5, step=n, how=s[2])
                        and same("copy", a["probe"], exp[1], step=n, how=s[2], op=["new", c, u], hop=h)):
                    return out
                for op, res in zip(mine, a["res"]):
                    if not same("copy_outcome", res, ctx.expect(op)[0], step=n, op=op, how=s[2], hop=h):
                        return out
                data = a["data"]
        elif k == "errhop":
            try:
                ops.call(s[1])
                continue
            except Exception as x:
                e = x
            exp = ctx.expect(s[1])[0]
            try:
                data = base64.b64encode(dump(e, s[2])).decode()
            except Exception as x:
                return bad("snapshot_failed", op=s[1], how=s[2], got=ops.norm_exc(x), step=n)
            for h in range(s[3]):
                a = sp.ask(json.dumps({"kind": "err", "data": data, "how": s[2]}).encode())
                if "error" in a:
                    raise RuntimeError(a["error"])
                if "hang" in a:
                    return bad("hang", op=s[1], step=n)
                a = a["ok"]
                stats["fault:process replaced"] = stats.get("fault:process replaced", 0) + 1
                sigs.add(runner.h64(["errhop", s[1][:2], s[2], h]))
                if "fail" in a:
                    return bad("restore_failed", op=s[1], how=s[2], got=a["fail"], step=n)
                if not same("error", a["exc"], exp, step=n, op=s[1], how=s[2], hop=h):
                    return out
                data = a["data"]
    if sp:
        sp.close()
    for (c, u), o in sorted(objs.items()):
        if not same("original", ops.probe(o), ctx.expect(["new", c, u])[1], op=["new", c, u]):
            return out
    for s, c, u, how, scr in copies:
        if not scr and not same("copy", ops.probe(s), ctx.expect(["new", c, u])[1], op=["new", c, u], how=how):
            return out
    out["viol"] = ops.relive(plan, stats, "later")
    out["sigs"] = sorted(sigs)
    out["states"] = sorted(states)
    if plan["seed"] % 61 == 0:
        out["sample"] = {"objs": plan["objs"], "steps": [str(x)[:130] for x in plan["steps"][:6]]}
    return out


def settle(plan, res):
    v = res.get("viol") or {}
    if "step" in v:
        return {**plan, "steps": plan["steps"][:v["step"] + 1]}
    return plan


def shrink(plan, res):
    yield from ops.less(plan)
    for l in runner.cut(plan["steps"]):
        yield {**plan, "steps": l}
