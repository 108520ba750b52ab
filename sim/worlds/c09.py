"""C09: replicas fed the same requests agree in every environment."""
import json
import os
import shutil
import socket
import subprocess
import sys
import tempfile

from .. import boot, gen as idgen, locales, ops, runner

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 50000}
FAMS = {"quick": 63, "thorough": 210}
ENVS = {"quick": 56, "thorough": 240}
RULE = ("A run is one request log of 8-60 requests consumed by 2-4 replica processes with different environments; each "
        "replica is restarted up to 3 times and sees its own order and repetitions. Every outcome, and every conversion of "
        "every object obtained, is compared with the same request as the only one of a plain process. A non-trivial case is "
        "a request in an environment that differs from the plain one; two are distinct when the request or an attribute of "
        "the environment differs.")
STATES = "distinct (process environment, life: clock, random state, identity, collector setting) combinations"
COMPONENTS = {"real": ["all epcpy code", "CPython started with the real flags, hash seed, locale and variables", "re, enum, "
                       "base64", "time-zone rules", "locales compiled by localedef"],
              "stub": ["clocks", "random sources of library code", "process id, host and user name", "request log delivery"]}
ASSUMPTIONS = ["Python's own warnings-as-errors and safe-path switches are not varied", "environments are sampled, not "
               "enumerated", "one Python version and one machine type"]
MODULES = ["epcpy", "epcpy.epc_schemes", "epcpy.utils.common", "epcpy.utils.parsers", "epcpy.utils.regex",
           "epcpy.epc_schemes.base_scheme"] + ["epcpy.epc_schemes." + x for x in
                                              ("adi", "bic", "cpi", "gdti", "giai", "gid", "ginc", "grai", "gsin", "gsrn",
                                               "gsrnp", "imovn", "itip", "lgtin", "pgln", "sgcn", "sgln", "sgtin", "sscc",
                                               "upui", "usdod")]
STDLIB = ["decimal", "locale", "json", "logging", "unittest", "asyncio", "http.client", "sqlite3", "ctypes", "csv"]
PLAIN = {"hashseed": 0, "opt": 0, "locale": "C.UTF-8", "utf8": "", "tz": "UTC", "vars": {}, "clock": 1_700_000_000.0,
         "random": 1, "imports": [], "ballast": 0, "cwd": "/", "pid": 4242, "node": "replica", "setlocale": False,
         "flags": [], "io": "", "pycache": False}
LIFE = {"clock": 1_700_000_000.0, "random": 1, "env": {}, "tz": "", "setlocale": False, "gc": "on", "pid": 4242,
        "node": "replica", "where": "", "streams": "", "digits": 0}
ZONES = ["UTC", "Asia/Kolkata", "America/New_York", "Pacific/Kiritimati", "Europe/Amsterdam", "XYZ+9:30", "Australia/Lord_Howe"]
VARS = ["DEBUG", "EPCPY_DEBUG", "EPC_STRICT", "EPCPY_STRICT", "LOG_LEVEL", "USER", "TMPDIR", "LANGUAGE", "TERM",
        "NO_COLOR", "COLUMNS", "CI", "ENV", "EPCPY_CACHE", "PROD", "TESTING", "PYTEST_CURRENT_TEST", "XDG_CONFIG_HOME"]
VALUES = ["", "0", "1", "true", "false", "7", "production", "€", "/nonexistent", "strict"]
LOCS = []
ASKED = []


def clock(r):
    return r.choice([0.0, 1.5, 946684799.0, 951782400.0, 1_700_000_000.0, 2147483646.5, 4102444800.0, -5e8,
                     float(r.randrange(0, 4_000_000_000)), r.randrange(0, 4_000_000_000) + r.random()])


def environment(r):
    e = dict(PLAIN)
    on = lambda p=0.5: r.random() < p       # noqa: E731
    if on(0.8):
        e["hashseed"] = r.choice([1, 2, 3, 42, 4294967295, r.randrange(1, 1 << 32)])
    if on():
        e["opt"] = r.choice([1, 2])
    if on():
        e["locale"] = r.choice(["C", "POSIX"] + LOCS * 2)
        e["setlocale"] = on(0.7)
        e["utf8"] = r.choice(["", "0", "1"])
    if on():
        e["tz"] = r.choice(ZONES)
    if on():
        e["vars"] = some_vars(r)
    if on():
        e["clock"] = clock(r)
    if on():
        e["random"] = r.getrandbits(32)
    if on(0.6):
        m = list(MODULES)
        r.shuffle(m)
        m = m[:r.randint(1, len(m))]
        if on():
            m = [r.choice(STDLIB)] + m
        e["imports"] = m
    if on(0.3):
        e["ballast"] = r.choice([1, 7, 1000, 30000])
    if on(0.3):
        e["cwd"] = r.choice(["/usr", "/proc", "/etc"])
    if on():
        e["pid"] = r.randrange(2, 4_000_000)
        e["node"] = r.choice(["a", "edge-%d" % r.randrange(100), "höst"])
    if on(0.4):
        e["flags"] = r.choice([["-s"], ["-X", "utf8=1"], ["-b"], ["-X", "faulthandler"], ["-W", "always"],
                               ["-W", "default"], ["-X", "no_debug_ranges"], ["-X", "importtime"], ["-u"], ["-X", "dev"]])
    if on(0.3):
        e["io"] = r.choice(["ascii", "latin-1", "utf-16", "cp1252:replace"])
    e["pycache"] = on(0.3)
    return e


def some_vars(r):
    """application variables; those the library asks for, if any, more often"""
    v = {k: r.choice(VALUES) for k in r.sample(VARS + idgen.WORDS, r.randint(1, 6))}
    for k in ASKED:
        if r.random() < 0.7:
            v[k] = r.choice(VALUES)
    return v


def a_life(r):
    l = dict(LIFE)
    on = lambda p=0.5: r.random() < p       # noqa: E731
    if on():
        l["clock"] = clock(r)
    if on():
        l["random"] = r.getrandbits(32)
    if on(0.3):
        l["env"] = some_vars(r)
    if on(0.3):
        l["tz"] = r.choice(ZONES)
    l["setlocale"] = on(0.3)
    if on(0.4):
        l["gc"] = r.choice(["off", "often"])
    if on():
        l["pid"] = r.randrange(2, 4_000_000)
        l["node"] = r.choice(["a", "edge-%d" % r.randrange(100), "z9"])
    if on(0.3):
        l["where"] = r.choice(["thread", "loop", "loop thread"])
    if on(0.2):
        l["streams"] = "none"
    if on(0.2):
        l["digits"] = r.choice([640, 1000, 100000])
    return l


def ekey(e):
    return json.dumps(e, sort_keys=True)


# -- replica processes -------------------------------------------------------------------

ZYG = {}            # environment key -> socket path
PROCS = []
DIR = None


def scratch():
    global DIR
    if DIR is None:
        DIR = tempfile.mkdtemp(prefix="sim-rep-")
        runner.CLEANUP.append(remove)
    return DIR


def remove():
    for p in PROCS:
        p.kill()
        p.wait()
    locales.remove()
    shutil.rmtree(DIR, ignore_errors=True)


def launch(e):
    d = scratch()
    path = os.path.join(d, "r%d" % len(PROCS))
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "SIM_REPO": boot.REPO, "PYTHONNOUSERSITE": "1",
           "PYTHONHASHSEED": str(e["hashseed"]), "TZ": e["tz"], "LC_ALL": e["locale"], "LOCPATH": locales.DIR or "",
           **e["vars"]}
    if not env["LOCPATH"]:
        env.pop("LOCPATH")
    if e["utf8"]:
        env["PYTHONUTF8"] = e["utf8"]
    if e["io"]:
        env["PYTHONIOENCODING"] = e["io"]
    if e["locale"] in ("C", "POSIX") and e["utf8"] == "0":
        env["PYTHONCOERCECLOCALE"] = "0"
    cache = "/nonexistent-pycache"
    if e["pycache"]:
        cache = os.path.join(d, "pycache")      # compiled by whoever comes first
    argv = [sys.executable, "-X", "pycache_prefix=" + cache]
    if not e["pycache"]:
        argv.append("-B")
    if "-W" not in e["flags"]:
        argv += ["-W", "ignore"]
    argv += e["flags"] + ["-" + "O" * e["opt"]] * bool(e["opt"]) + [boot.HERE + "replica.py", path]
    p = subprocess.Popen(argv, env=env, cwd=e["cwd"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=open(path + ".err", "wb"))
    p.stdin.write(json.dumps({k: e[k] for k in ("clock", "random", "ballast", "setlocale", "imports", "pid", "node")}).encode()
                  + b"\n")
    p.stdin.flush()
    PROCS.append(p)
    return p, path


def start(envs):
    """replica processes for these environments, 8 at a time; a replica that cannot start is noted"""
    todo = []
    for e in envs:
        k = ekey(e)
        if k not in ZYG and k not in [x[0] for x in todo]:
            todo.append((k, e))
    for a in range(0, len(todo), 8):
        batch = [(k, e) + launch(e) for k, e in todo[a:a + 8]]
        for k, e, p, path in batch:
            if b"ready" in p.stdout.readline().replace(b"\0", b""):
                ZYG[k] = path
            else:
                p.wait()
                with open(path + ".err", "rb") as f:
                    ZYG[k] = ["failed", f.read()[-1500:].decode("utf-8", "replace")]


def prepare(ctx):
    words()
    ctx.catalogue(FAMS[ctx.tier])
    scratch()
    LOCS[:] = locales.make()
    r = runner.rng(ctx.seed, ID, "env")
    ctx.envs = [environment(r) for _ in range(ENVS[ctx.tier])]
    start([PLAIN] + ctx.envs)
    if isinstance(ZYG[ekey(PLAIN)], list):
        raise runner.HarnessError("plain replica does not start: " + ZYG[ekey(PLAIN)][1])
    ctx.extra["process_environments"] = len(ctx.envs)
    ctx.extra["locales_made"] = list(LOCS)


def words():
    """names in library code that might be environment variables"""
    idgen.WORDS[:] = sorted(set(t for t in idgen.all_texts("epcpy") if t.isidentifier() and len(t) > 2 and t.isupper()))
    ASKED[:] = [x for x in idgen.asked("epcpy") if not x.startswith("PYTHON")]


def prepare_replay(ctx, plan):
    LOCS[:] = locales.make()
    scratch()
    require(ctx, plan)


def require(ctx, plan):
    ctx.need([x for w, x in plan["log"] if w == "op"])
    start([rep["env"] for rep in plan["replicas"]])


# -- runs ----------------------------------------------------------------------------------

def gen(ctx, i):
    from . import c01
    r = runner.rng(ctx.seed, ID, i)
    pool = [o for f in r.sample(ctx.fam, r.choice([1, 2, 4])) for o in f["ops"]] if r.random() < 0.6 else c01.pick_pool(r, ctx)
    if ctx.rare and r.random() < 0.15:
        pool = pool[:40] + [o for s in r.sample(sorted(ctx.rare), min(3, len(ctx.rare))) for o in ctx.rare[s]]
    log = [["op", r.choice(pool)] for _ in range(r.choice([8, 20, 40, 60]))]
    reps = []
    for _ in range(r.choice([2, 3, 4])):
        env = r.choice(ctx.envs)
        order = list(range(len(log)))
        k = r.random()
        if k < 0.3:
            r.shuffle(order)
        elif k < 0.6:           # late deliveries
            for _ in range(r.randint(1, 6)):
                a = r.randrange(len(order))
                order.insert(min(len(order), a + r.randint(1, 9)), order.pop(a))
        for _ in range(r.choice([0, 0, 2, 8])):
            order.insert(r.randint(0, len(order)), r.choice(order))
        lives = []
        cuts = sorted(r.sample(range(1, len(order)), r.choice([0, 0, 1, 3])))
        for a, b in zip([0] + cuts, cuts + [len(order)]):
            if a and r.random() < 0.5:
                a = max(0, a - r.randint(1, 5))         # redelivered after the restart
            steps = []
            for j in order[a:b]:
                if r.random() < 0.08:
                    steps.append(r.choice([["jump", r.choice([1.0, -3600.0, 86400.0, 1e8, -1e8, 0.25])],
                                           ["reseed", r.getrandbits(20)], ["collect", 0]]))
                steps.append(["op", j])
            lives.append({**a_life(r), "steps": steps})
        reps.append({"env": env, "lives": lives})
    return {"log": log, "replicas": reps, "seed": i}


def live(path, plan, log):
    s = socket.socket(socket.AF_UNIX)
    s.connect(path)
    f = s.makefile("rwb")
    steps = [["op", log[x][1]] if w == "op" else [w, x] for w, x in plan["steps"]]
    f.write(json.dumps({**plan, "steps": steps}).encode() + b"\n")
    f.flush()
    l = f.readline()
    s.close()
    return json.loads(l) if l else None


def execute(ctx, plan):
    st = {"evaluations": 0, "lives": 0, "requests": 0, "simulated_clock_jump_s": 0}
    out = {"viol": None, "stats": st, "sigs": [], "states": []}
    log = plan["log"]
    for n, rep in enumerate(plan["replicas"]):
        e = rep["env"]
        z = ZYG[ekey(e)]
        if isinstance(z, list):
            out["viol"] = {"kind": "import", "replica": n, "detail": z[1]}
            return out
        diffs = {k: v for k, v in e.items() if v != PLAIN[k]}
        dk = [[k, h] for k, h in sorted((k, runner.h64(v)) for k, v in diffs.items())]
        seen = []
        for m, lf in enumerate(rep["lives"]):
            res = live(z, lf, log)
            st["lives"] += 1
            if res is None:
                out["viol"] = {"kind": "died", "replica": n, "life": m}
                return out
            if "error" in res:
                raise runner.HarnessError(res["error"])
            if m:
                st["fault:restart"] = st.get("fault:restart", 0) + 1
            for k in ("clock", "random", "env", "tz", "setlocale", "gc", "pid", "where", "streams", "digits"):
                if lf[k] != LIFE[k]:
                    st["fault:life %s" % k] = st.get("fault:life %s" % k, 0) + 1
            for w, x in lf["steps"]:
                if w != "op":
                    st["fault:" + w] = st.get("fault:" + w, 0) + 1
                    if w == "jump":
                        st["simulated_clock_jump_s"] += abs(x)
            got = iter(res["ok"])
            for w, x in lf["steps"]:
                if w != "op":
                    continue
                if seen and x in seen:
                    st["fault:repeated request"] = st.get("fault:repeated request", 0) + 1
                elif seen and x < seen[-1]:
                    st["fault:out of order"] = st.get("fault:out of order", 0) + 1
                seen.append(x)
                g = next(got)
                want = ctx.expect(log[x][1])
                st["requests"] += 1
                st["evaluations"] += 1 + len(g[1] or ())
                if g != want[:2]:
                    a, b = (g[0], want[0]) if g[0] != want[0] else (g[1], want[1])
                    out["viol"] = {"kind": "outcome", "replica": n, "life": m, "op": log[x][1], "got": a, "expected": b}
                    return out
                for k, h in dk:
                    out["sigs"].append(runner.h64([log[x][1], k, h]) >> 12)
            out["states"].append(runner.h64([e, {k: v for k, v in lf.items() if k != "steps"}]))
        for k in diffs:
            st["fault:env " + k] = st.get("fault:env " + k, 0) + 1
    out["sigs"] = sorted(set(out["sigs"]))
    if plan["seed"] % 911 == 0:
        rep = plan["replicas"][0]
        out["sample"] = {"environment": {k: v for k, v in rep["env"].items() if v != PLAIN[k] and k != "imports"},
                         "lives": len(rep["lives"]), "first_requests": [str(x[1])[:120] for x in log[:3]]}
    return out


def settle(plan, res):
    v = res.get("viol") or {}
    if "life" in v:
        rep = plan["replicas"][v["replica"]]
        return {**plan, "replicas": [{**rep, "lives": [rep["lives"][v["life"]]]}]}
    if "replica" in v:
        return {**plan, "replicas": [plan["replicas"][v["replica"]]]}
    return plan


def shrink(plan, res):
    for i, rep in enumerate(plan["replicas"]):
        def put(new):
            l = list(plan["replicas"])
            l[i] = new
            return {**plan, "replicas": l}
        for j, lf in enumerate(rep["lives"]):
            def lput(x):
                l = list(rep["lives"])
                l[j] = x
                return put({**rep, "lives": l})
            for s in runner.cut(lf["steps"]):
                yield lput({**lf, "steps": s})
            for k, v in LIFE.items():
                if lf[k] != v:
                    yield lput({**lf, k: v})
        for k, v in PLAIN.items():
            if rep["env"][k] != v:
                yield put({**rep, "env": {**rep["env"], k: v}})
        if rep["env"]["vars"]:
            for k in rep["env"]["vars"]:
                yield put({**rep, "env": {**rep["env"], "vars": {a: b for a, b in rep["env"]["vars"].items() if a != k}}})
        if len(rep["env"]["imports"]) > 1:
            for s in runner.cut(rep["env"]["imports"]):
                yield put({**rep, "env": {**rep["env"], "imports": s}})
    used = sorted({x for rep in plan["replicas"] for lf in rep["lives"] for w, x in lf["steps"] if w == "op"})
    if len(used) < len(plan["log"]):
        m = {x: y for y, x in enumerate(used)}
        yield {**plan, "log": [plan["log"][x] for x in used], "replicas": [
            {**rep, "lives": [{**lf, "steps": [[w, m[x]] if w == "op" else [w, x] for w, x in lf["steps"]]}
                              for lf in rep["lives"]]} for rep in plan["replicas"]]}
