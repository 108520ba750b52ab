"""C07: every collector converges to the same inventory, one entry per item."""
import heapq
import random

from .. import gen as G, model, ops, party, runner
from ..damage import ELEMENT, KEYED, gtin
from ..model import Bad
from ..party import CONV, as_rep, js, mk

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 24000, "thorough": 300000}
RULE = ("A run is a discrete-event simulation: readers report 1-8 items, each report in a representation chosen per attempt, "
        "to 1-4 collectors over links that drop, duplicate, delay, reorder and partition, with retransmission until "
        "acknowledged, collector restarts from their logs and gossip between collectors in library-made representations. Each "
        "delivery and each final comparison is a non-trivial case; two are distinct when scheme, representation, coding, filter value, who "
        "made the text, way of delivery (first, repeated, after restart, gossip) or collector state differ.")
STATES = "distinct (set of items held, set of items reported) pairs seen at a collector"
COMPONENTS = {"real": ["all epcpy code"],
              "stub": ["network, clock and timers (discrete events)", "readers' tags (reference model)", "collector processes and their logs"]}
ASSUMPTIONS = ["reports are well formed and name valid identities in canonical URI form", "every report gets through eventually",
               "the company prefix length accompanies an element string"]
RTO = 50


def prepare(ctx):
    pass


def prepare_replay(ctx, plan):
    pass


def require(ctx, plan):
    pass


def forms(r, i):
    """a way to report item i: [representation, coding, filter, style, who makes the text]"""
    l = ["uri", "uri"]
    if i.scheme in model.BY_SCHEME:
        l += ["tag_uri", "binary", "hex", "hex", "base64"]
    if i.element_string():
        l += ["elem", "elem"]
    if i.scheme == "sgtin":
        l += ["gtin"]
    rep = r.choice(l)
    c = f = None
    if rep in ("tag_uri", "binary", "hex", "base64"):
        cs = [x for x in model.BY_SCHEME[i.scheme] if i.encodable(x)]
        if not cs:
            return ["uri", None, None, 0, "model"]
        c = r.choice(cs)
        f = r.randrange(G.nflt(c))
    return [rep, c, f, r.randrange(3), r.choice(["model", "lib"])]


def gen(ctx, n):
    r = runner.rng(ctx.seed, ID, n)
    s = model.SCHEMES[n % len(model.SCHEMES)]
    items = []
    base = G.ident(r, s)
    for _ in range(r.randint(1, 8)):
        i = r.choice([lambda: base, lambda: G.sibling(r, r.choice(items or [base])), lambda: G.ident(r, s), lambda: G.ident(r)])()
        if i.valid() and i not in items:
            items.append(i)
    nc, nr = r.randint(1, 4), r.randint(1, 3)
    faulty = r.random() < 0.8
    T = r.choice([50, 200, 800])
    reports = []
    for k in range(len(items) + r.choice([0, 3, 10])):
        it = k if k < len(items) else r.randrange(len(items))
        reports.append([r.randrange(T), r.randrange(nr), it, [forms(r, items[it]) for _ in range(r.randint(1, 4))]])
    r.shuffle(reports)
    pd = r.choice([0, 0.1, 0.4]) if faulty else 0
    drops, dups, delays, parts, crash = [], [], [], [], []
    for m in range(len(reports)):
        for c in range(nc):
            for a in range(3):
                if r.random() < pd:
                    drops.append([m, c, a])
                if faulty and r.random() < 0.12:
                    dups.append([m, c, a, r.randrange(1, 200)])
                if faulty and r.random() < 0.3:
                    delays.append([m, c, a, r.choice([1, 10, 100, 400])])
    ackdrops = [x for x in drops if r.random() < 0.5]
    drops = [x for x in drops if x not in ackdrops]
    if faulty and r.random() < 0.4:
        for _ in range(r.randint(1, 3)):
            t = r.randrange(T)
            parts.append([r.randrange(nr), r.randrange(nc), t, t + r.choice([30, 200, 900])])
    if faulty and r.random() < 0.4:
        for _ in range(r.randint(1, 3)):
            crash.append([r.randrange(2 * T), r.randrange(nc)])
    gossip = []
    if nc > 1 and r.random() < 0.6:
        for _ in range(r.randint(1, 6)):
            gossip.append([r.randrange(2 * T + 100), r.randrange(nc), r.randrange(nc), r.randrange(1000), r.randrange(5)])
    return {"items": [js(i) for i in items], "nc": nc, "nr": nr, "reports": reports, "drops": drops, "dups": dups,
            "delays": delays, "ackdrops": ackdrops, "parts": parts, "crash": crash, "gossip": gossip, "seed": r.getrandbits(40)}


class Violation(Exception):
    pass


def execute(ctx, plan):
    random.seed(plan["seed"])
    ops.lib()
    stats = {"evaluations": 0, "deliveries": 0, "gossip_messages": 0, "simulated_time_units": 0}
    out = {"viol": None, "stats": stats}
    sigs, states = set(), set()
    items = [mk(j) for j in plan["items"]]
    uris = {i.uri(): i for i in items}

    def fail(kind, **k):
        out["viol"] = {"kind": kind, **k}
        raise Violation

    def same(kind, got, exp, **k):
        stats["evaluations"] += 1
        if got != exp:
            fail(kind, got=got, expected=exp, **k)

    def fault(k):
        stats["fault:" + k] = stats.get("fault:" + k, 0) + 1

    def meth(o, name, **kw):
        return ops.outcome(["meth", type(o).__name__, "", name, kw], lambda c, u: o)

    handheld = {}       # objects library-based readers keep

    def text_of(i, form):
        """the report's text: (representation, text, prefix length)"""
        rep, c, f, style, who = form
        L = i.prefix_len()
        if who == "lib":
            u = i.uri()
            if u not in handheld:
                o, res = party.lib_read(["fn", "epc_pure_identity_to_scheme", [u], {}])
                same("accept", res, ["obj", i.scheme.upper(), u], op=["epc_pure_identity_to_scheme", u])
                handheld[u] = o
            o = handheld[u]
            if rep == "uri":
                return rep, o.epc_uri, L
            if rep == "elem":
                res = meth(o, "gs1_element_string")
                same("element_string", res, ["val", "str", i.element_string()], item=u)
                return rep, res[2], L
            if rep == "gtin":
                g = (14, 13, 12)[style]
                res = meth(o, "gtin", gtin=g)
                if i.gs1_key(g) is None:
                    same("gtin", res[:2], ["exc", CONV], item=u, gtin=g)
                    res = meth(o, "gtin")
                    g = 14
                same("gtin", res, ["val", "str", i.gs1_key(g)], item=u, gtin=g)
                return rep, res[2] + " " + o.epc_uri.split(":", 4)[4].split(".", 2)[2], L
            res = party.lib_encode(o, c, f, rep)
            if res[0] != "val":
                fail("encode", item=u, coding=c, filter=f, rep=rep, got=res)
            return rep, res[2], L
        if rep == "uri":
            return rep, i.uri(), L
        if rep == "elem":
            return rep, i.element_string(), L
        if rep == "gtin":
            return rep, gtin(random.Random(style), i)[0] + " " + i.uri().split(":", 4)[4].split(".", 2)[2], L
        if rep == "tag_uri":
            return rep, i.tag_uri(c, f), L
        return rep, as_rep(i.encode(c, f), rep, style), L

    def parse_op(rep, text, L, style, C):
        """C: class of the item where the collector knows it beforehand"""
        if rep == "gtin":
            return ["cls", "SGTIN", "from_gtin_plus_serial", text.split(" ") + [L]]
        if rep == "elem":
            if C:
                return ["cls", C, "from_gs1_element_string", [text, L]]
            return ["fn", "gs1_element_string_to_gs1_element", [text, L], {}]
        if rep == "uri" and C and style:
            for j, have in enumerate((KEYED, ELEMENT)):
                if C in have and (len(text) + style) % 2 == j:
                    return ["fn", "epc_pure_identity_to_" + ("gs1_keyed", "gs1_element")[j], [text], {}]
            if C.lower() in model.BY_SCHEME:
                return ["fn", "epc_pure_identity_to_tag_encodable", [text], {}]
        return party.read_op(text, rep, "cls" if C else "fn", C)

    class Collector:
        def __init__(self, n):
            self.n = n
            self.inv = []           # one object per item
            self.log = []           # (representation, text, prefix length) of the accepted reports, survives restarts
            self.seen = set()

    cols = [Collector(n) for n in range(plan["nc"])]
    reported = set()

    def check_object(o, i, via):
        """everything the collector derives from an entry"""
        u = i.uri()
        e = i.element_string()
        if e:
            same("element_string", meth(o, "gs1_element_string"), ["val", "str", e], item=u, via=via)
        k = i.gs1_key()
        if k is not False:
            same("gs1_key", meth(o, "gs1_key"), ["val", "str", k], item=u, via=via)
            if i.scheme in ("sgtin", "lgtin"):
                for g in (8, 12, 13, 14):
                    res = meth(o, "gs1_key", gtin=g)
                    k = i.gs1_key(g)
                    if k is None:
                        same("gtin", res[:2], ["exc", CONV], item=u, gtin=g, via=via)
                    else:
                        same("gtin", res, ["val", "str", k], item=u, gtin=g, via=via)

    def accept(col, rep, text, L, style, via, form=None, known=None):
        op = parse_op(rep, text, L, style, known)
        o, res = party.lib_read(op)
        stats["evaluations"] += 1
        if o is None:
            fail("rejected", op=op, got=res, collector=col.n, via=via)
        u = o.epc_uri
        i = uris.get(u)
        if i is None or u not in reported:
            fail("phantom", op=op, got=res, collector=col.n, via=via)
        if type(o).__name__ != i.scheme.upper():
            fail("class", op=op, got=res, collector=col.n)
        hits = []
        for x in col.inv:
            a = ops.alike(x, o)
            stats["evaluations"] += 1
            if len(set(a)) > 1:
                fail("comparison", op=op, item=u, entry=x.epc_uri, got=a, collector=col.n, via=via)
            if a[0]:
                hits.append(x)
        if len(hits) > 1:
            fail("duplicate_entry", op=op, item=u, collector=col.n, via=via)
        held = [x for x in col.inv if x.epc_uri == u]
        if len(hits) != len(held):
            fail("equality", op=op, item=u, entries=[x.epc_uri for x in col.inv], collector=col.n, via=via)
        sigs.add(runner.h64([i.scheme, rep, form and form[1], form and form[4], form and form[2], via, bool(hits), min(len(col.inv), 4)]))
        if not hits:
            col.inv.append(o)
            col.log.append([rep, text, L])
        # keys straight from the report
        k = i.gs1_key()
        if k is not False and rep not in ("base64", "gtin"):
            a = [text, L] if rep == "elem" or known and L else [text]
            res = ops.outcome(["fn", "get_gs1_key", a, {}])
            same("key_from_report", res, ["val", "str", k], op=["get_gs1_key", a], item=u)
            pat = u.replace(":id:", ":idpat:", 1)
            if i.scheme != "lgtin" and style == 0:
                same("key_from_pattern", ops.outcome(["fn", "get_gs1_key", [pat], {}]), ["val", "str", k], op=["get_gs1_key", pat])
            if i.scheme in ("sgtin", "sgln", "grai", "gdti", "giai", "ginc") and style == 1:
                n = 1 if i.scheme in ("giai", "ginc") else 2
                pat = ".".join(pat.split(".", n)[:n] + ["*"])
                same("key_from_pattern", ops.outcome(["fn", "get_gs1_key", [pat], {}]),
                     ["val", "str", model.Ident(i.scheme, *i.f[:n], "*").gs1_key()], op=["get_gs1_key", pat])
            if i.scheme in ("sgtin", "lgtin") and style == 2:
                for g in (12, 13):
                    res = ops.outcome(["fn", "get_gs1_key", a, {"gtin": g}])
                    kk = i.gs1_key(g)
                    same("key_from_report", res if kk is not None else res[:2], ["val", "str", kk] if kk is not None else ["exc", CONV],
                         op=["get_gs1_key", a, g])
        if rep == "uri" and style == 2:
            if i.element_string():
                same("element_from_report", ops.outcome(["fn", "epc_pure_identity_to_gs1_element_string", [text], {}]),
                     ["val", "str", i.element_string()], op=text)
            if k is not False:
                same("key_from_report", ops.outcome(["fn", "epc_pure_identity_to_gs1_key", [text], {}]), ["val", "str", k], op=text)
        states.add(runner.h64([sorted(x.epc_uri for x in col.inv), sorted(reported)]))

    drops = {tuple(x) for x in plan["drops"]}
    ackdrops = {tuple(x) for x in plan["ackdrops"]}
    dups = {tuple(x[:3]): x[3] for x in plan["dups"]}
    delays = {tuple(x[:3]): x[3] for x in plan["delays"]}
    acked = set()
    q = []
    seq = 0

    def at(t, *ev):
        nonlocal seq
        seq += 1
        heapq.heappush(q, (t, seq, ev))

    def cut(reader, c, t):
        return any(p[0] == reader and p[1] == c and p[2] <= t < p[3] for p in plan["parts"])

    try:
        for m, (t, reader, it, fs) in enumerate(plan["reports"]):
            if it < len(items):
                at(t, "report", m)
        for t, c in plan["crash"]:
            at(t, "crash", c)
        for t, a, c, pick, how in plan["gossip"]:
            at(t, "gossip", a, c, pick, how)
        now = 0
        while q:
            now, _, ev = heapq.heappop(q)
            if now > 100000:
                raise RuntimeError("simulation does not settle")
            k = ev[0]
            if k == "report":
                reported.add(items[plan["reports"][ev[1]][2]].uri())
                for c in range(plan["nc"]):
                    at(now, "send", ev[1], c, 0)
            elif k == "send":
                _, m, c, a = ev
                if (m, c) in acked:
                    continue
                t, reader, it, fs = plan["reports"][m]
                at(now + RTO, "send", m, c, a + 1)
                if cut(reader, c, now):
                    fault("partition")
                    continue
                if (m, c, a) in drops:
                    fault("loss")
                    continue
                form = fs[(a + c) % len(fs)]
                rep, text, L = text_of(items[it], form)
                d = 5 + delays.get((m, c, a), 0)
                if (m, c, a) in delays:
                    fault("delay")
                at(now + d, "arrive", m, c, a, rep, text, L, form)
                if (m, c, a) in dups:
                    fault("duplicate")
                    at(now + d + dups[m, c, a], "arrive", m, c, a, rep, text, L, form)
            elif k == "arrive":
                _, m, c, a, rep, text, L, form = ev
                stats["deliveries"] += 1
                accept(cols[c], rep, text, L, form[3], "retry" if a else "first", form,
                       items[plan["reports"][m][2]].scheme.upper() if (m + c + a) % 3 == 0 else None)
                reader = plan["reports"][m][1]
                if (m, c, a) in ackdrops or cut(reader, c, now):
                    fault("lost acknowledgement")
                else:
                    at(now + 5, "ack", m, c)
            elif k == "ack":
                acked.add((ev[1], ev[2]))
            elif k == "crash":
                col = cols[ev[1]]
                log, col.inv, col.log = col.log, [], []
                fault("collector restart")
                for rep, text, L in log:
                    accept(col, rep, text, L, 0, "restart")
                same("recovery", len(col.inv), len(log), collector=col.n)
            elif k == "gossip":
                _, a, c, pick, how = ev
                if a == c or not cols[a].inv:
                    continue
                o = cols[a].inv[pick % len(cols[a].inv)]
                i = uris[o.epc_uri]
                stats["gossip_messages"] += 1
                rep, cd, f = "uri", None, None
                if how == 1 and i.element_string():
                    rep = "elem"
                elif how >= 2 and i.scheme in model.BY_SCHEME:
                    cs = [x for x in model.BY_SCHEME[i.scheme] if i.encodable(x)]
                    if cs:
                        cd = cs[pick % len(cs)]
                        f = pick % G.nflt(cd)
                        rep = ["tag_uri", "hex", "base64"][how - 2]
                if rep == "uri":
                    text = o.epc_uri
                else:
                    res = meth(o, "gs1_element_string") if rep == "elem" else party.lib_encode(o, cd, f, rep)
                    if res[0] != "val":
                        fail("encode", item=o.epc_uri, coding=cd, filter=f, rep=rep, got=res)
                    text = res[2]
                accept(cols[c], rep, text, i.prefix_len(), pick % 3, "gossip", [rep, cd, f, 0, "lib"])
        stats["simulated_time_units"] += now
        want = sorted(reported)
        for col in cols:
            same("converged", sorted(x.epc_uri for x in col.inv), want, collector=col.n)
            for o in col.inv:
                check_object(o, uris[o.epc_uri], "final")
            for other in cols:
                for o in other.inv:
                    same("agreement", [a for a in (ops.alike(x, o) for x in col.inv) if any(a)], [[True] * 5], item=o.epc_uri,
                         collectors=[col.n, other.n])
        same("reader_objects", sorted(o.epc_uri for o in handheld.values()), sorted(handheld))
    except Violation:
        return out
    out["sigs"] = sorted(sigs)
    out["states"] = sorted(states)
    if plan["seed"] % 97 == 0:
        out["sample"] = {"items": [i.uri() for i in items], "reports": [str(x)[:150] for x in plan["reports"][:3]],
                         "collectors": plan["nc"], "drops": len(plan["drops"]), "partitions": plan["parts"]}
    return out


def settle(plan, res):
    return plan


def shrink(plan, res):
    for k in ("reports", "gossip", "crash", "parts", "drops", "ackdrops", "dups", "delays"):
        if plan[k]:
            if k == "reports":
                for n in range(len(plan["reports"])):
                    yield drop_report(plan, n)
            else:
                for l in runner.cut(plan[k]):
                    yield {**plan, k: l}
    if plan["nc"] > 1:
        yield {**plan, "nc": 1, "crash": [[t, 0] for t, c in plan["crash"]], "gossip": []}
    for n, x in enumerate(plan["reports"]):
        if len(x[3]) > 1:
            for l in runner.cut(x[3]):
                if l:
                    yield {**plan, "reports": plan["reports"][:n] + [x[:3] + [l]] + plan["reports"][n + 1:]}


def drop_report(plan, n):
    def shift(l):
        return [[x[0] - (x[0] > n)] + x[1:] for x in l if x[0] != n]
    return {**plan, "reports": plan["reports"][:n] + plan["reports"][n + 1:], "drops": shift(plan["drops"]),
            "ackdrops": shift(plan["ackdrops"]), "dups": shift(plan["dups"]), "delays": shift(plan["delays"])}
