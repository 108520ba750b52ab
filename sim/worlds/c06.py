"""C06: a damaged delivery is contained: an error, or what the data says."""
import random

from .. import gen as G, model, ops, party, runner, spell
from ..damage import ELEMENT, KEYED, damaged, gtin, route, sent
from ..model import Bad
from ..party import CONV

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 24000, "thorough": 300000}
RULE = ("A run is a stream of deliveries (tag reads and messages in six representations) through a medium that truncates, "
        "flips, drops, inserts, repeats, splices, pads, re-headers and misroutes, into receivers that parse each delivery and "
        "keep objects and compare earlier ones afterwards. Every damaged or misrouted delivery is a non-trivial case; two are "
        "distinct when parser, representation, kinds of damage, outcome class or scheme differ.")
STATES = "distinct texts delivered"
COMPONENTS = {"real": ["all epcpy code"], "stub": ["senders (reference model)", "radio and message bus", "routing"]}
ASSUMPTIONS = ["sim/spell.py states what a text spells under a lenient reading; strictly well-formed texts must be accepted, "
               "lenient ones may be refused", "deliveries are text of type str", "damage is sampled, not enumerated"]


def prepare(ctx):
    pass


def prepare_replay(ctx, plan):
    pass


def require(ctx, plan):
    pass


def gen(ctx, i):
    r = runner.rng(ctx.seed, ID, i)
    s = model.SCHEMES[i % len(model.SCHEMES)]
    ids = [G.ident(r, s)]
    for _ in range(3):
        ids.append(r.choice([G.ident(r), G.sibling(r, ids[0]), G.ident(r, s)]))
    p = r.choice([0.0, 0.5, 0.8, 0.95, 1.0]) if i % 10 else 0.0
    steps = []
    for _ in range(r.choice([10, 30, 60])):
        a = r.choice(ids) if r.random() < 0.4 else G.ident(r, s)
        if r.random() < p:
            steps.append(["get", *damaged(r, a, ids)])
        elif a.scheme == "sgtin" and r.random() < 0.1:
            steps.append(["get", ["cls", "SGTIN", "from_gtin_plus_serial", list(gtin(r, a))], []])
        else:
            rep, text, L = sent(r, a)
            steps.append(["get", route(r, rep, text, L, a.scheme, False), []])
        if r.random() < 0.3:
            steps.append(["again", r.randrange(1000)])
    steps.append(["again", r.randrange(1000)])
    return {"steps": steps, "seed": r.getrandbits(40)}


# -- judging --------------------------------------------------------------------------------

def judge(op):
    """(allowed, required): outcomes a receiver may give besides a conversion error, and the
    one it has to give (None: refusing is fine)"""
    k = op[0]
    if k == "new" or k == "cls" and op[2] == "from_epc_uri":
        i, must = spell.uri(op[2] if k == "new" else op[3][0])
        t = op[2] if k == "new" else op[3][0]
        if i is None or i.scheme.upper() != op[1]:
            return [], None
        o = ["obj", op[1], t]
        return [o], o if must else None
    if k == "cls":
        t = op[3][0]
        if op[2] == "from_gs1_element_string":
            i, must = spell.element(t, op[3][1])
        elif op[2] == "from_gtin_plus_serial":
            i, must = spell.gtin(*op[3])
            if i is None:
                return [], None
            o = ["obj", "SGTIN", i.uri()]
            # unusual escapes stay as they were sent
            return [o, ["obj", "SGTIN", "urn:epc:id:sgtin:%s.%s.%s" % (*i.f[:2], op[3][1])]], o if must else None
        else:
            i, must = {"from_tag_uri": spell.tag_uri, "from_binary": spell.binary, "from_hex": spell.hexa,
                       "from_base64": spell.base64}[op[2]](t)
        if i is None or i.scheme.upper() != op[1]:
            return [], None
        return objs(i, t, op[2], must)
    name, t = op[1], op[2][0]
    if name == "get_gs1_key":
        ks, must = spell.keys(t, op[2][1] if len(op[2]) > 1 else None, op[3].get("gtin"))
        return [["val", "str", x] for x in sorted(ks)], ["val", "str", must] if must is not None else None
    if name.startswith("epc_pure_identity"):
        i, must = spell.uri(t)
        if i is None:
            return [], None
        C = i.scheme.upper()
        if name.endswith("gs1_element_string"):
            if C not in ELEMENT:
                return [], None
            o = ["val", "str", i.element_string()]
            return [o], o if must else None
        if name.endswith("gs1_key"):
            if C not in KEYED:
                return [], None
            n = op[3].get("gtin")
            k = i.gs1_key(n or 14) if not n or C in ("SGTIN", "LGTIN") else None
            if k is None:
                return [], None
            o = ["val", "str", k]
            return [o], o if must else None
        if (name.endswith("gs1_element") and C not in ELEMENT or name.endswith("gs1_keyed") and C not in KEYED
                or name.endswith("tag_encodable") and C.lower() not in model.BY_SCHEME):
            return [], None
        o = ["obj", C, t]
        return [o], o if must else None
    if name == "gs1_element_string_to_gs1_element":
        i, must = spell.element(t, op[2][1])
    else:
        i, must = {"tag_uri_to_tag_encodable": spell.tag_uri, "binary_to_tag_encodable": spell.binary,
                   "hex_to_tag_encodable": spell.hexa, "base64_to_tag_encodable": spell.base64}[name](t)
    if i is None:
        return [], None
    return objs(i, t, name, must)


def objs(i, t, name, must):
    C = i.scheme.upper()
    o = ["obj", C, i.uri()]
    out = [o]
    if "tag_uri" in name:
        # unusual escapes stay as they were sent
        rest = t.split(":", 4)[4]
        if model.CODINGS[t.split(":")[3]][1]:
            rest = rest.split(".", 1)[1]
        out.append(["obj", C, "urn:epc:id:%s:%s" % (i.scheme, rest)])
    return out, o if must else None


def execute(ctx, plan):
    random.seed(plan["seed"])
    ops.lib()
    stats = {"evaluations": 0, "deliveries_intact": 0, "accepted": 0, "refused": 0}
    out = {"viol": None, "stats": stats}
    sigs, states = set(), set()
    good = []           # (operation, outcome, object, probe)

    def bad(kind, **k):
        out["viol"] = {"kind": kind, **k}
        return out

    for n, s in enumerate(plan["steps"]):
        if s[0] == "again":
            if not good:
                continue
            op, res, obj, pr = good[s[1] % len(good)]
            stats["evaluations"] += 1
            o2, r2 = party.lib_read(op)
            if r2 != res:
                return bad("later_delivery", op=op, got=r2, expected=res, step=n)
            if obj is not None:
                p2 = ops.probe(obj)
                if p2 != pr:
                    return bad("earlier_object", op=op, got=p2, expected=pr, step=n)
            continue
        op, kinds = s[1], s[2]
        obj, res = party.lib_read(op)
        stats["evaluations"] += 1
        for k in kinds:
            stats["fault:" + k] = stats.get("fault:" + k, 0) + 1
        if not kinds:
            stats["deliveries_intact"] += 1
        may, must = judge(op)
        refused = res[:2] == ["exc", CONV]
        stats["refused" if refused else "accepted"] += 1
        states.add(runner.h64([op[2] if op[0] == "new" else op[3][0] if op[0] == "cls" else op[2][0]]))
        sigs.add(runner.h64([op[:3] if op[0] == "cls" else op[:2], sorted(kinds), refused, res[1]]))
        if res[0] == "exc" and not refused:
            return bad("foreign_exception", op=op, got=res, damage=kinds, step=n)
        if refused:
            if must is not None:
                return bad("refused_well_formed", op=op, got=res, expected=must, damage=kinds, step=n)
        elif res not in may:
            return bad("made_up", op=op, got=res, allowed=may, damage=kinds, step=n)
        if obj is not None:
            try:
                pr = ops.probe(obj)
            except Exception as e:
                return bad("follow_up", op=op, got=ops.norm_exc(e), step=n)
            for x in pr[1:]:
                if x[0] == "exc" and x[1] not in (CONV,):
                    return bad("follow_up", op=op, got=x, damage=kinds, step=n)
            stats["evaluations"] += len(pr)
        if not refused and must is not None:
            good.append((op, res, obj, pr if obj is not None else None))
            if len(good) > 40:
                good.pop(0)
    out["sigs"] = sorted(sigs)
    out["states"] = sorted(states)
    if plan["seed"] % 97 == 0:
        out["sample"] = {"steps": [ascii(x)[:150] for x in plan["steps"][:5]]}
    return out


def settle(plan, res):
    v = res.get("viol") or {}
    if "step" in v:
        return {**plan, "steps": plan["steps"][:v["step"] + 1]}
    return plan


def shrink(plan, res):
    st = plan["steps"]
    for l in runner.cut(st):
        yield {**plan, "steps": l}
