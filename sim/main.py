"""check <ID>            run the check (VERIF_SEED, VERIF_TIER)
   check <ID> --replay F  execute one replay file"""
import gc
import importlib
import json
import os
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot                                     # noqa: E402

boot.install()
from sim import gen, runner                              # noqa: E402

EVID = "/verif/evidence"


def replay(world, path, quiet=False):
    d = json.load(open(path))
    ctx = runner.Ctx(world, d["seed"], "quick")
    world.prepare_replay(ctx, d["plan"])
    res = runner.execute(world, ctx, d["plan"])
    if res["viol"]:
        if not quiet:
            print(json.dumps(res["viol"], indent=1, sort_keys=True))
        print("VIOLATION property=%s replay=%s" % (world.ID, path))
        return 1
    print("replay of %s: no violation" % path)
    return 0


def known(world):
    """open findings: lines 'open: property=<id> <signature> | <what fails>'"""
    out = []
    try:
        for l in open("/verif/known_findings.txt"):
            if l.startswith("open: property=%s " % world.ID):
                sig, _, what = l.split(" ", 2)[2].partition("|")
                out.append((sig.strip(), what.strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    wid = sys.argv[1]
    world = importlib.import_module("sim.worlds." + wid.lower())
    if getattr(world, "LOAD", True):
        boot.load()
        gen.mine("epcpy")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if "--replay" in sys.argv:
        return replay(world, sys.argv[sys.argv.index("--replay") + 1])
    t0 = boot.real_monotonic()
    ctx = runner.Ctx(world, seed, tier)
    world.prepare(ctx)
    t1 = boot.real_monotonic()
    scale = float(os.environ.get("SIM_SCALE", "1"))
    runs = max(1, int(world.RUNS[tier] * scale))
    gc.collect()
    gc.freeze()
    agg, viol = runner.campaign(world, ctx, runs)
    t2 = boot.real_monotonic()
    ev = {
        "property": wid, "tier": tier, "seed": seed, "level": world.LEVEL,
        "coverage": {
            "evaluations": int(agg.stats.get("evaluations", 0)),
            "distinct_nontrivial": len(agg.sigs),
            "rule": world.RULE,
            "samples": agg.samples[:3],
            "simulated_runs": agg.runs,
            "seeds": "run indices 0..%d derived from seed %d" % (runs - 1, seed),
            "runs_per_hour": int(agg.runs / max(1e-9, t2 - t1) * 3600),
            "distinct_states": len(agg.states),
            "state_measure": world.STATES,
            "counts": {k: int(v) for k, v in sorted(agg.stats.items()) if not k.startswith("fault:")},
            "faults_fired": {k[6:]: int(v) for k, v in sorted(agg.stats.items()) if k.startswith("fault:")},
            "components": world.COMPONENTS,
            **ctx.extra,
        },
        "assumptions": world.ASSUMPTIONS,
        "wall_s": round(boot.real_monotonic() - t0, 3),
        "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)

    def save():
        ev["wall_s"] = round(boot.real_monotonic() - t0, 3)
        with open(os.path.join(EVID, wid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    if not viol:
        save()
        for sig, what in known(world):
            print("KNOWN-FINDING: property=%s %s" % (wid, what))
        print("%s held: %d runs, %d evaluations, %d distinct, %.1f s" % (
            wid, agg.runs, ev["coverage"]["evaluations"], len(agg.sigs), boot.real_monotonic() - t0))
        return 0
    for idx, plan, res in viol[:3]:
        plan0 = world.settle(plan, res)
        plan1, res1, tries = runner.minimise(world, ctx, plan0, res)
        path = None
        for p, r in ((plan1, res1), (plan0, res)):
            path = runner.write_replay(world, seed, idx, p, r)
            c = subprocess.run(["/verif/check", wid, "--replay", path], capture_output=True, text=True)
            if c.returncode == 1:
                break
            print("note: a plan did not reproduce in a fresh process\n" + c.stdout[-500:] + c.stderr[-1500:])
            path = None
        if path:
            break
        print("violation seen in run %d but not reproducible in a fresh process: %s" % (idx, json.dumps(res["viol"])))
    else:
        save()
        return 2
    ev["coverage"]["minimisation_runs"] = tries
    save()
    print(json.dumps(r["viol"], indent=1, sort_keys=True)[:4000])
    print("seed=%d run=%d minimised in %d executions" % (seed, idx, tries))
    print("VIOLATION property=%s replay=%s" % (wid, path))
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR: the check itself failed")
        rc = 2
    for f in runner.CLEANUP:
        f()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
