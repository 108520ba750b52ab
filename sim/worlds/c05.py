"""C05: a commissioned tag reads back as the identity written, by every party."""
import json
import random
import re

from .. import gen as G, model, ops, party, runner, spare
from ..damage import gtin
from ..model import Bad
from ..party import CONV, as_rep, js, mk

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 24000, "thorough": 300000}
RULE = ("A run is a history of one to four stations (the library's and a foreign one built on the reference model) writing, "
        "copying and reading a few tags with word-addressed memory, with torn, lost and repeated writes, station restarts and "
        "reads past the end of the EPC. Every encode, refusal and read is a non-trivial case; two are distinct when coding, "
        "filter value, company prefix length, serial class, origin of the object, representation, condition of the tag or "
        "amount over-read differ.")
STATES = "distinct contents of tag memory that were read"
COMPONENTS = {"real": ["all epcpy code", "fresh processes for restarted stations"],
              "stub": ["foreign stations (reference model)", "tag memory and radio", "crashes of stations"]}
ASSUMPTIONS = ["the reference model in sim/model.py states the TDS codings correctly",
               "where the standard leaves reserved bits or fillers to the reader, reading and refusing are both accepted",
               "identities and histories are sampled, not enumerated"]
REPS = ["binary", "hex", "base64"]
BANK = 64           # words


def prepare(ctx):
    pass


def prepare_replay(ctx, plan):
    pass


def require(ctx, plan):
    pass


ENC = sorted(model.BY_SCHEME)


def write_faults(r, p):
    out = []
    while r.random() < p and len(out) < 4:
        out.append([r.choice(["torn", "torn", "lost", "crash"]), r.randrange(32)])
    return out


def gen(ctx, i):
    r = runner.rng(ctx.seed, ID, i)
    ids = []
    s = ENC[i % len(ENC)]
    for _ in range(r.randint(1, 3)):
        a = G.ident(r, s)
        ids.append(a)
        for _ in range(r.randint(0, 3)):
            b = G.sibling(r, a)
            if b.scheme in model.BY_SCHEME:
                ids.append(b)
    ids = [x for x in ids if x.valid()] or [G.ident(r, "sgtin")]
    nt = r.randint(1, 4)
    faulty = r.random() < 0.7
    steps = []
    for _ in range(r.choice([6, 25, 60])):
        k = r.random()
        t = r.randrange(nt)
        over = r.choice([0, 0, 0, 1, 2, 7, 30]) if faulty else 0
        rep = r.choice(REPS)
        if k < 0.42:
            a = r.choice(ids) if r.random() < 0.5 else G.ident(r, s)
            c = r.choice(model.BY_SCHEME[a.scheme])
            src = r.choice(["uri", "uri", "uri2", "fn", "pool", "pool", "elem", "read", "tagged", "spelt", "spelt", "gtin"])
            c2 = r.choice(model.BY_SCHEME[a.scheme])
            steps.append(["write", t, r.choice(["lib", "lib", "lib", "foreign"]), js(a), [src, c2, G.pick_flt(r, c2), r.choice(REPS)],
                          c, r.randrange(G.nflt(c)), r.choice(REPS + ["tag_uri"]), write_faults(r, 0.25) if faulty else []])
        elif k < 0.72:
            steps.append(["read", t, rep, over, r.choice(["cls", "fn"]), r.randrange(3), r.random() < 0.2])
        elif k < 0.8:
            steps.append(["copy", t, r.randrange(nt), rep, over, r.randrange(2), r.randrange(64), r.choice(REPS),
                          write_faults(r, 0.25) if faulty else []])
        elif k < 0.86 and faulty:
            steps.append(["restart"])
        elif k < 0.9:
            steps.append(["freshread", t, rep, over])
        elif k < 0.94 and faulty:
            steps.append(["decay", t, r.randrange(32), r.randrange(16)])
        else:
            steps.append(["erase", t])
    if r.random() < 0.8:
        steps = [x for x in steps if x[0] != "freshread"]
    return {"tags": nt, "steps": steps, "seed": r.getrandbits(40)}


def serve(q):
    o, out = party.lib_read(json.loads(q))
    return out


class Tag:
    def __init__(self):
        self.mem = [0] * BANK
        self.n = 0              # EPC length in words, from the protocol control word
        self.item = None        # (identity, coding, filter) commissioned, or None after damage

    def write(self, ws, faults, item):
        """program word by word, verify, retry; True when the read-back matched"""
        log = []
        for kind, k in faults + [["none", 0]]:
            self.n = len(ws)
            before = list(self.mem)
            for j, w in enumerate(ws):
                if kind in ("torn", "crash") and j == k % len(ws):
                    break
                if kind == "lost" and j == k % len(ws):
                    continue
                self.mem[j] = w
            if kind != "none":
                log.append(kind)
            self.item = None
            if kind == "crash":
                return False, log
            if self.mem[:len(ws)] == ws:
                self.item = item
                return True, log
        return False, log

    def bits(self, over):
        return model.words_bits(self.mem[:min(BANK, self.n + over)])


def serial_class(i):
    x = i.f[-1]
    return ("digits" if x.isdigit() else "escapes" if any(c in model.ESC or c in model.CPESC for c in x) else "text",
            x[:1] == "0", min(len(x), 31) // 6)


def execute(ctx, plan):
    random.seed(plan["seed"])
    ops.lib()
    steps = plan["steps"]
    sp = spare.Spare(serve) if any(s[0] == "freshread" for s in steps) else None
    stats = {"evaluations": 0, "encodes": 0, "reads": 0, "refusals": 0}
    out = {"viol": None, "stats": stats}
    sigs, states = set(), set()
    tags = [Tag() for _ in range(plan["tags"])]
    pool = {}

    def bad(kind, **k):
        out["viol"] = {"kind": kind, **k}
        return out

    def fault(k):
        stats["fault:" + k] = stats.get("fault:" + k, 0) + 1

    def obtain(i, src):
        """the object a station works on; None after a violation"""
        how, c2, f2, rep = src
        C, u = i.scheme.upper(), i.uri()
        op = ["new", C, u]
        if how == "pool":
            if (C, u) in pool:
                return pool[C, u]
        elif how == "uri2":
            op = ["cls", C, "from_epc_uri", [u]]
        elif how == "fn":
            op = ["fn", "epc_pure_identity_to_tag_encodable", [u], {}]
        elif how == "elem" and i.element_string():
            op = ["fn", "gs1_element_string_to_gs1_element", [i.element_string(), i.prefix_len()], {}]
        elif how in ("read", "tagged") and i.encodable(c2):
            f2 %= G.nflt(c2)
            if how == "read":
                op = party.read_op(as_rep(i.encode(c2, f2), rep, f2), rep, "fn")
            else:
                op = party.read_op(i.tag_uri(c2, f2), "tag_uri", "fn" if len(u) % 2 else "cls", C)
        elif how == "gtin" and C == "SGTIN":
            op = ["cls", C, "from_gtin_plus_serial", list(gtin(random.Random(f2), i))]
        elif how == "spelt":
            # escapes with lower-case digits spell the same identity; refusing them is accepted
            op = ["new", C, re.sub("%[0-9A-F]{2}", lambda m: m.group().lower(), u)]
            o, res = party.lib_read(op)
            if o is not None and op[2] != u:
                stats["evaluations"] += 1
                stats["other spelling"] = stats.get("other spelling", 0) + 1
                return o
            op = ["new", C, u]
        o, res = party.lib_read(op)
        stats["evaluations"] += 1
        if res != ["obj", C, u]:
            bad("accept", op=op, got=res, expected=["obj", C, u])
            return None
        pool[C, u] = o
        return o

    def encode(o, i, coding, flt, rep):
        """words a library station would write, or None (refused); raises on violation"""
        res = party.lib_encode(o, coding, flt, rep)
        spelt = o.epc_uri != i.uri()
        stats["evaluations"] += 1
        sigs.add(runner.h64([coding, flt, len(i.f[0]), serial_class(i), rep]))
        try:
            want = i.encode(coding, flt)
        except Bad:
            want = None
        what = {"identity": i.uri(), "coding": coding, "filter": flt, "rep": rep}
        if want is None:
            stats["refusals"] += 1
            if res[:2] != ["exc", CONV]:
                bad("not_refused", got=res, **what)
                return False
            return None
        stats["encodes"] += 1
        if res[0] != "val":
            bad("refused", got=res, **what)
            return False
        text = res[2]
        try:
            if rep == "tag_uri":
                got = model.parse_tag_uri(re.sub("%[0-9a-f]{2}", lambda m: m.group().upper(), text) if spelt else text)
                if got[2] is None:
                    got = (got[0], got[1], flt)
                if got != (i, coding, flt):
                    raise Bad("reads as %s %s %s" % (got[0].uri(), got[1], got[2]))
                return model.words(got[0].encode(coding, flt))
            bits = party.bits_of(text, rep)
            ws = model.words(bits)
        except Bad as e:
            bad("unreadable", got=text, why=str(e), **what)
            return False
        if len(ws) > BANK:
            bad("unreadable", got=text, why="does not fit any tag", **what)
            return False
        # a foreign reader, on a tag that held something else before
        for fill in ("", "1" * 256):
            try:
                i2, c2, f2, strict = model.decode(model.words_bits(ws) + fill)
            except Bad as e:
                bad("unreadable", got=text, why=str(e), **what)
                return False
            if not strict:
                bad("unreadable", got=text, why="reserved bits or fillers are not zero", **what)
                return False
            if (i2, c2) != (i, coding) or (f2 is not None and f2 != flt):
                bad("wrong_identity", got=[i2.uri(), c2, f2], text=text, **what)
                return False
        return ws

    def program(t, ws, faults, item):
        ok, log = tags[t].write(ws, faults, item)
        for k in log:
            fault(k + " write")
            if k == "crash":
                pool.clear()
                fault("station restart")
        return ok

    def look(t, rep, over, route, style, trim, n, fresh=False):
        """library reads a tag; (identity or None, object) or False"""
        tag = tags[t]
        if tag.n == 0:
            return None, None
        if trim and tag.item:
            bits = tag.item[0].encode(tag.item[1], tag.item[2])
            if tag.bits(0)[:len(bits)] != bits:
                raise RuntimeError("memory differs from the item recorded")
        else:
            trim = False
            bits = tag.bits(over)
        if over and not trim:
            fault("read past the end")
        i, may = party.allowed(bits)
        cls = None
        if tag.item and route == "cls":
            cls = tag.item[0].scheme.upper()
        elif i is not None and route == "cls":
            cls = i.scheme.upper()
        op = party.read_op(as_rep(bits, rep, style), rep, route, cls)
        if fresh:
            a = sp.ask(json.dumps(op).encode())
            if "error" in a:
                raise RuntimeError(a["error"])
            if "hang" in a:
                return bad("hang", op=op, step=n) and False
            o, res = None, a["ok"]
            fault("read by a new process")
        else:
            o, res = party.lib_read(op)
        stats["evaluations"] += 1
        stats["reads"] += 1
        states.add(runner.h64(bits))
        sigs.add(runner.h64(["read", HDR(bits), rep, route, min(over, 8), trim, tag.item is None, i is None]))
        if i is None:
            if res[:2] != ["exc", CONV]:
                bad("made_up", op=op, got=res, step=n)
                return False
            return None, None
        exp = ["obj", i.scheme.upper(), i.uri()]
        if res != exp and not (may and tag.item is None and res[:2] == ["exc", CONV]):
            bad("read", op=op, got=res, expected=exp, step=n, commissioned=tag.item is not None)
            return False
        if o is not None:
            if not (o == ops.fresh(exp[1], exp[2])):
                bad("unequal", op=op, expected=exp, step=n)
                return False
        return (i, o) if res == exp else (None, None)

    for n, s in enumerate(steps):
        k = s[0]
        if k == "write":
            _, t, who, ij, src, coding, flt, rep, faults = s
            i = mk(ij)
            if who == "foreign":
                try:
                    ws = model.words(i.encode(coding, flt))
                except Bad:
                    continue
            else:
                o = obtain(i, src)
                if o is None:
                    out["viol"]["step"] = n
                    return out
                ws = encode(o, i, coding, flt, rep)
                if ws is False:
                    out["viol"]["step"] = n
                    return out
                if ws is None:
                    continue
            program(t, ws, faults, (i, coding, flt))
            if k == "write" and tags[t].item:
                r = look(t, "hex", 0, "fn", 0, False, n)
                if r is False:
                    return out
        elif k == "read":
            if look(s[1], s[2], s[3], s[4], s[5], s[6], n) is False:
                return out
        elif k == "freshread":
            if look(s[1], s[2], s[3], "fn", 0, False, n, fresh=True) is False:
                return out
        elif k == "copy":
            _, a, b, rep, over, ci, flt, rep2, faults = s
            r = look(a, rep, over, "fn", 0, False, n)
            if r is False:
                return out
            i, o = r
            if i is None:
                continue
            l = model.BY_SCHEME[i.scheme]
            c = l[ci % len(l)]
            ws = encode(o, i, c, flt % G.nflt(c), rep2)
            if ws is False:
                out["viol"]["step"] = n
                return out
            if ws is not None:
                program(b, ws, faults, (i, c, flt % G.nflt(c)))
        elif k == "restart":
            pool.clear()
            fault("station restart")
        elif k == "decay":
            tag = tags[s[1]]
            if tag.n:
                tag.mem[s[2] % tag.n] ^= 1 << s[3]
                tag.item = None
                fault("decayed bit")
        elif k == "erase":
            tags[s[1]].n = 0
            tags[s[1]].item = None
    if sp:
        sp.close()
    out["sigs"] = sorted(sigs)
    out["states"] = sorted(states)
    if plan["seed"] % 97 == 0:
        out["sample"] = {"steps": [str(x)[:150] for x in steps[:5]]}
    return out


def HDR(bits):
    return model.HEADER.get(int(bits[:8], 2))


def settle(plan, res):
    v = res.get("viol") or {}
    if "step" in v:
        return {**plan, "steps": plan["steps"][:v["step"] + 1]}
    return plan


def shrink(plan, res):
    st = plan["steps"]
    for l in runner.cut(st):
        yield {**plan, "steps": l}
    for n, s in enumerate(st):
        if s[0] in ("write", "copy") and s[-1]:
            for l in runner.cut(s[-1]):
                yield {**plan, "steps": st[:n] + [s[:-1] + [l]] + st[n + 1:]}
        if s[0] == "write" and s[4][0] != "uri":
            yield {**plan, "steps": st[:n] + [s[:4] + [["uri"] + s[4][1:]] + s[5:]] + st[n + 1:]}
        if s[0] == "write" and s[2] == "lib":
            yield {**plan, "steps": st[:n] + [s[:2] + ["foreign"] + s[3:]] + st[n + 1:]}
        if s[0] in ("read", "freshread", "copy"):
            x = 3 if s[0] != "copy" else 4
            if s[x]:
                yield {**plan, "steps": st[:n] + [s[:x] + [0] + s[x + 1:]] + st[n + 1:]}
