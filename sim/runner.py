"""Drives a world: baselines, worker processes, one forked child per run, minimisation,
replay files and evidence."""
import collections
import gc
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import traceback

from . import boot, ops

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
WALL_LIMIT = 300        # a run parked for this long (wall) is an error of the harness
CPU_LIMIT = 30          # a run burning this much CPU never returns


CLEANUP = []            # what to undo before the check ends


class HarnessError(Exception):
    pass


def rng(*parts):
    return random.Random(":".join(str(p) for p in parts))


def h64(x):
    if not isinstance(x, (str, bytes)):
        x = json.dumps(x, sort_keys=True)
    if isinstance(x, str):
        x = x.encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


def _read_all(fd, deadline):
    out = []
    while True:
        left = deadline - boot.real_monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        d = os.read(fd, 1 << 16)
        if not d:
            return b"".join(out)
        out.append(d)


def in_child(fn, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    """fn() in a forked copy of this process; JSON result.  ["hang"] when it never returns."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            gc.disable()
            boot.CLOCK.reset()
            try:
                res = {"ok": fn()}
            except BaseException:
                res = {"error": traceback.format_exc()}
            data = json.dumps(res).encode()
            while data:
                data = data[os.write(wfd, data):]
        finally:
            os._exit(0)
    os.close(wfd)
    try:
        data = _read_all(rfd, boot.real_monotonic() + wall)
    finally:
        os.close(rfd)
    if data is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise HarnessError("a run was parked for %d s of wall time" % wall)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            return {"hang": True}
        return {"crash": os.WTERMSIG(st)}
    if not data:
        raise HarnessError("a run ended without a result")
    res = json.loads(data)
    if "error" in res:
        raise HarnessError(res["error"])
    return res


def parallel(items, fn, workers=None):
    """fn(item) for every item, spread over forked workers; results in order (JSON)"""
    workers = workers or WORKERS
    n = min(workers, max(1, len(items)))
    kids = []
    for w in range(n):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                try:
                    res = [[i, fn(items[i])] for i in range(w, len(items), n)]
                    data = json.dumps({"ok": res}).encode()
                except BaseException:
                    data = json.dumps({"error": traceback.format_exc()}).encode()
                while data:
                    data = data[os.write(wfd, data):]
            finally:
                os._exit(0)
        os.close(wfd)
        kids.append((pid, rfd))
    out = [None] * len(items)
    err = None
    for pid, rfd in kids:
        data = _read_all(rfd, boot.real_monotonic() + 1500)
        os.close(rfd)
        if data is None:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        if not data:
            err = err or "worker died"
            continue
        r = json.loads(data)
        if "error" in r:
            err = err or r["error"]
            continue
        for i, v in r["ok"]:
            out[i] = v
    if err:
        raise HarnessError(err)
    return out


# -- baselines --------------------------------------------------------------------------

def baseline_one(op):
    def go():
        from . import engine
        keep = []
        if engine.CODES:
            with engine.Cover() as c:
                o = ops.outcome(op, keep=keep)
            susp = sorted(engine.code_name(x) for x in c.seen if x in SUSP)
        else:
            o = ops.outcome(op, keep=keep)
            susp = []
        res = [o, ops.probe(keep[0]) if keep else None, susp]
        if MEASURE is not None:
            res.append(MEASURE(op))
        return res
    r = in_child(go, cpu=4)
    if "ok" not in r:
        return None
    return r["ok"]


SUSP = set()
MEASURE = None      # extra measurement on an operation, made after its baseline


def baselines(oplist):
    """op key -> [outcome, probe] as the first and only call of a process"""
    uniq = {}
    for o in oplist:
        uniq.setdefault(ops.key(o), o)
    keys = sorted(uniq)
    res = parallel([uniq[k] for k in keys], baseline_one)
    return dict(zip(keys, res))


SEED = []


def reach(fam):
    """lines a family's operations reach, and unusual operations around it that reach others"""
    from . import engine
    def go():
        r = rng(*SEED, "reach", fam["ids"])
        with engine.Lines() as cov:
            for o in fam["ops"]:
                ops.outcome(o)
            own = cov.new()
            new = []
            for o, _ in ops.oddities(r, fam, REACH):
                ops.outcome(o)
                l = cov.new()
                if l:
                    new.append([o, sorted(l)])
        return [sorted(own), new]
    r = in_child(go, cpu=20)
    return r.get("ok") or [[], []]


REACH = 250


class Ctx:
    """what a world prepares once and all its runs read"""

    def __init__(self, world, seed, tier):
        self.world = world
        self.seed = seed
        self.tier = tier
        self.base = {}
        self.fam = []
        self.rare = {}
        self.dormant = []
        self.extra = {}

    def catalogue(self, nfam, schemes=None, nsib=2):
        from . import model, engine
        SUSP.update(c for c, f in engine.CODES.items()
                    if any(x & engine.F_SUSP for x in f))
        r = rng(self.seed, self.world.ID, "cat")
        S = schemes or model.SCHEMES + ["sgtin"]
        seen = set()
        self.fam = [ops.family(r, S[i % len(S)], nsib, seen) for i in range(nfam)]
        self.extra["pairs_of_traits_catalogued"] = len(seen)
        # what reaches lines of the library that the family's own operations do not
        SEED[:] = [self.seed, self.world.ID]
        found = parallel(self.fam, reach)
        fams = collections.Counter(l for own, new in found for l in set(own) | {x for _, ls in new for x in ls})
        self.extra["library_lines_reached"] = len(fams)
        self.extra["library_lines_not_reached"] = sorted(engine.all_lines() - set(fams))
        # code that writes lasting state and has parts that single calls do not reach: what does, may be earlier work
        self.dormant = sorted(engine.all_lines([c for c in engine.SUSPS if engine.all_lines([c]) & set(fams)]) - set(fams))
        engine.dormant(set(self.dormant))
        few = max(3, nfam // 12)
        rare = collections.defaultdict(list)
        for f, (own, new) in zip(self.fam, found):
            have = {ops.key(o) for o in f["ops"]}
            for o, ls in new:
                if ops.key(o) not in have and any(fams[l] <= 2 * few for l in ls):
                    f["ops"].append(o)
                    have.add(ops.key(o))
                    if any(fams[l] <= few for l in ls):
                        rare[f["scheme"]].append(o)
        # damaged deliveries: those that reach a different refusal or a different kind of result are kept
        cand = [ops.oddities(r, f, 70) for f in self.fam]
        self.base = baselines([o for f in self.fam for o in f["ops"]] + [o for c in cand for o, _ in c])
        seen = collections.Counter()
        for f, c in zip(self.fam, cand):
            for o in f["ops"]:
                seen[ops.shape(o, self.base[ops.key(o)])] += 1
            have = {ops.key(o) for o in f["ops"]}
            for o, kind in c:
                k = ops.shape(o, self.base[ops.key(o)])
                k2 = (o[1] if o[0] == "fn" else o[0] + str(o[2])[:24], kind)
                if (seen[k] < 3 or seen[k2] < 4) and ops.key(o) not in have:
                    seen[k] += 1
                    seen[k2] += 1
                    f["ops"].append(o)
                    have.add(ops.key(o))
        used = {ops.key(o) for f in self.fam for o in f["ops"]}
        self.base = {k: v for k, v in self.base.items() if k in used}
        self.extra["kinds_of_call_and_outcome_catalogued"] = len(seen)
        dropped = 0
        for f in self.fam:
            n = len(f["ops"])
            f["ops"] = [o for o in f["ops"] if self.base.get(ops.key(o)) is not None]
            dropped += n - len(f["ops"])
        self.rare = {k: l for k, v in sorted(rare.items()) for l in [[o for o in v if self.base.get(ops.key(o)) is not None]] if l}
        self.extra["ops_reaching_rare_lines"] = sum(len(v) for v in self.rare.values())
        self.extra["ops_catalogued"] = len(self.base)
        self.extra["ops_dropped_never_return"] = dropped
        # which operations run code that writes lasting state, per family: searched first
        self.susp = {}
        for f in self.fam:
            for o in f["ops"]:
                for c in self.base[ops.key(o)][2]:
                    self.susp.setdefault(c, {}).setdefault(f["scheme"], []).append(o)
        self.extra["functions_writing_lasting_state"] = sorted(self.susp)
        self.byscheme = collections.defaultdict(list)
        for f in self.fam:
            self.byscheme[f["scheme"]].append(f)

    def need(self, oplist):
        """baselines for exactly these operations (replay)"""
        miss = [o for o in oplist if ops.key(o) not in self.base]
        if miss:
            self.base.update(baselines(miss))

    def expect(self, op):
        return self.base[ops.key(op)]


# -- running ----------------------------------------------------------------------------

def execute(world, ctx, plan):
    r = in_child(lambda: world.execute(ctx, plan))
    if "hang" in r:
        return {"viol": {"kind": "hang", "detail": "a call did not return within %d s of CPU time" % CPU_LIMIT}}
    if "crash" in r:
        if getattr(world, "CRASH_OK", False):
            return {"viol": None, "stats": {"interpreter_crashes": 1}}
        raise HarnessError("run killed by signal %d" % r["crash"])
    return r["ok"]


class Agg:
    def __init__(self):
        self.stats = collections.Counter()
        self.sigs = set()
        self.states = set()
        self.samples = []
        self.runs = 0

    def add(self, plan, res):
        self.runs += 1
        self.stats.update(res.get("stats", {}))
        for s in res.get("sigs", ()):
            self.sigs.add(s)
        for s in res.get("states", ()):
            self.states.add(s)
        if res.get("sample") is not None and len(self.samples) < 3:
            self.samples.append(res["sample"])


def worker(world, ctx, idx, n, runs, wfd, stopfd):
    agg = Agg()
    viol = []
    log = open("%s.%d" % (os.environ["SIM_LOG"], idx), "w") if os.environ.get("SIM_LOG") else None
    for i in range(idx, runs, n):
        if select.select([stopfd], [], [], 0)[0]:
            break
        plan = world.gen(ctx, i)
        res = execute(world, ctx, plan)
        agg.add(plan, res)
        if log:
            print(i, h64(plan), h64(res), file=log, flush=True)
        if res["viol"]:
            viol.append([i, plan, res])
            os.write(wfd, b"V")
            break
    out = {"stats": dict(agg.stats), "sigs": sorted(agg.sigs), "states": sorted(agg.states),
           "samples": agg.samples, "runs": agg.runs, "viol": viol}
    data = b"\n" + json.dumps(out).encode()
    while data:
        data = data[os.write(wfd, data):]


def campaign(world, ctx, runs):
    """all runs of this invocation; returns (aggregate, violations sorted by run index)"""
    n = min(WORKERS, max(1, runs))
    stop_r, stop_w = os.pipe()
    kids = []
    for w in range(n):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                try:
                    worker(world, ctx, w, n, runs, wfd, stop_r)
                except BaseException:
                    data = b"\n" + json.dumps({"error": traceback.format_exc()}).encode()
                    while data:
                        data = data[os.write(wfd, data):]
            finally:
                os._exit(0)
        os.close(wfd)
        kids.append((pid, rfd))
    bufs = {r: b"" for _, r in kids}
    open_ = set(bufs)
    stopped = False
    deadline = boot.real_monotonic() + 6 * 3600
    while open_:
        if boot.real_monotonic() > deadline:
            raise HarnessError("campaign exceeded its wall limit")
        for fd in select.select(list(open_), [], [], 5)[0]:
            d = os.read(fd, 1 << 16)
            if not d:
                open_.discard(fd)
                continue
            bufs[fd] += d
            if not stopped and bufs[fd].startswith(b"V"):
                os.write(stop_w, b"x")
                stopped = True
    agg = Agg()
    viol = []
    for pid, fd in kids:
        os.close(fd)
        os.waitpid(pid, 0)
        body = bufs[fd].split(b"\n", 1)
        if len(body) < 2:
            raise HarnessError("worker ended without a report")
        r = json.loads(body[1])
        if "error" in r:
            raise HarnessError(r["error"])
        agg.stats.update(r["stats"])
        agg.sigs.update(r["sigs"])
        agg.states.update(r["states"])
        agg.samples += r["samples"]
        agg.runs += r["runs"]
        viol += r["viol"]
    os.close(stop_r)
    os.close(stop_w)
    viol.sort(key=lambda v: v[0])
    return agg, viol


def minimise(world, ctx, plan, res, budget=600, wall=120):
    """greedy: take any smaller plan that still violates; what is left after the time is reported as it is"""
    n = 0
    end = boot.real_monotonic() + wall
    improved = True
    while improved and n < budget:
        improved = False
        for cand in world.shrink(plan, res):
            n += 1
            if n > budget or boot.real_monotonic() > end:
                return plan, res, n
            try:
                world.require(ctx, cand)
                r2 = execute(world, ctx, cand)
            except HarnessError:
                continue
            if r2.get("viol") and r2["viol"]["kind"] == res["viol"]["kind"]:
                plan, res = world.settle(cand, r2), r2
                improved = True
                break
    return plan, res, n


def write_replay(world, seed, idx, plan, res):
    d = "/verif/replays"
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (world.ID, seed, idx))
    with open(path, "w") as f:
        json.dump({"property": world.ID, "seed": seed, "run": idx, "violation": res["viol"], "plan": plan}, f,
                  indent=1, sort_keys=True)
    return path


def cut(l):
    """l with chunks removed, big chunks first"""
    n = len(l)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield l[:a] + l[a + size:]
        size //= 2
