"""Library calls as data.

An operation is a JSON list; executing it gives an *outcome*, also JSON: the value or the
exception (type, text).  Object-valued outcomes carry the object so that the caller can
probe it later.

  ["new", CLS, uri]                      constructor
  ["meth", CLS, uri, name, kw]           method of an object (taken from a pool)
  ["cls", CLS, name, args]               classmethod
  ["fn", name, args, kw]                 module function
  ["eq", CLS1, uri1, CLS2, uri2]         comparison of two objects
  ["eqx", CLS, uri, value]               comparison with something else
  ["attr", CLS, uri]                     epc_uri of an object
"""
import re
import sys

from . import model, gen

GTIN = {8: "GTIN8", 12: "GTIN12", 13: "GTIN13", 14: "GTIN14"}


class Lib:
    """names of the library under test, looked up once"""

    def __init__(self):
        import epcpy
        import epcpy.epc_schemes as s
        import epcpy.utils.parsers as p
        import epcpy.utils.common as c
        from epcpy.epc_schemes.base_scheme import EPCScheme
        self.cls = {n: getattr(s, n) for n in (x.upper() for x in model.SCHEMES)}
        self.p = p
        self.CE = epcpy.ConvertException
        self.EPCScheme = EPCScheme
        self.flt = {}
        self.coding = {}
        for n, k in self.cls.items():
            m = sys.modules[k.__module__]
            f = getattr(m, n + "FilterValue", None)
            if f is not None:
                self.flt[n] = f
            if n.lower() in model.BY_SCHEME:
                self.coding[n] = {x.value: x for x in k.BinaryCodingScheme}
        from epcpy.epc_schemes.sgtin import GTIN_TYPE
        self.gtin = {k: GTIN_TYPE[v] for k, v in GTIN.items()}

    def kw(self, cls, kw):
        out = {}
        for k, v in kw.items():
            if k == "coding":
                out["binary_coding_scheme"] = self.coding[cls][v]
            elif k == "filter":
                out["filter_value"] = self.flt[cls](str(v))
            elif k == "gtin":
                out["gtin_type"] = self.gtin[v]
            else:
                out[k] = v
        return out


LIB = None


def lib():
    global LIB
    if LIB is None:
        LIB = Lib()
    return LIB


def fresh(cls, uri):
    return lib().cls[cls](uri)


def call(op, getobj=fresh):
    """run the operation; exceptions propagate"""
    L = lib()
    k = op[0]
    if k == "meth":
        o = getobj(op[1], op[2])
        return getattr(o, op[3])(**L.kw(op[1], op[4]))
    if k == "new":
        return L.cls[op[1]](op[2])
    if k == "cls":
        return getattr(L.cls[op[1]], op[2])(*op[3])
    if k == "fn":
        kw = op[3]
        if "gtin" in kw:
            kw = {"gtin_type": L.gtin[kw["gtin"]], **{a: b for a, b in kw.items() if a != "gtin"}}
        return getattr(L.p, op[1])(*op[2], **kw)
    if k == "eq":
        return getobj(op[1], op[2]) == getobj(op[3], op[4])
    if k == "eqx":
        return getobj(op[1], op[2]) == op[3]
    if k == "attr":
        return getobj(op[1], op[2]).epc_uri
    raise KeyError(k)


def norm(v):
    if isinstance(v, (str, bool, int, float)) or v is None:
        return ["val", type(v).__name__, v]
    if isinstance(v, lib().EPCScheme):
        return ["obj", type(v).__name__, getattr(v, "epc_uri", None)]
    if isinstance(v, dict):
        return ["map", sorted([str(a), str(b)] for a, b in v.items())]
    if isinstance(v, (list, tuple)):
        return ["seq", [norm(x) for x in v]]
    return ["other", type(v).__name__]


def norm_exc(e):
    return ["exc", type(e).__name__, str(e), str(getattr(e, "message", ""))]


def outcome(op, getobj=fresh, keep=None):
    """outcome of the operation; objects made are appended to keep"""
    try:
        v = call(op, getobj)
    except BaseException as e:
        return norm_exc(e)
    if keep is not None and isinstance(v, lib().EPCScheme):
        keep.append(v)
    return norm(v)


def probe_ops(cls, coding_filter=(0, 1)):
    """conversions used to look at everything an object carries"""
    out = []
    s = cls.lower()
    if s in model.BY_SCHEME:
        for c in model.BY_SCHEME[s]:
            n = gen.nflt(c)
            kw = {"coding": c}
            if n > 1:
                kw["filter"] = coding_filter[1] % n
            out.append(("tag_uri", kw))
            out.append(("binary", kw))
    if s not in ("adi", "usdod", "gid", "bic", "imovn"):
        out.append(("gs1_element_string", {}))
        if s not in ("cpi", "itip", "upui"):
            out.append(("gs1_key", {}))
    return out


def probe(o):
    L = lib()
    n = type(o).__name__
    out = [getattr(o, "epc_uri", None)]
    for name, kw in probe_ops(n):
        try:
            out.append(norm(getattr(o, name)(**L.kw(n, kw))))
        except BaseException as e:
            out.append(norm_exc(e))
    return out


def hashed(o):
    """hash of the object, or None where objects cannot be hashed"""
    if type(o).__hash__ is None:
        return None
    try:
        return hash(o)
    except TypeError:
        return None


def alike(a, b):
    """what comparing two objects says: ==, both ways; not !=, both ways; and, of equal objects that can be
    hashed, whether a set takes them for one entry"""
    out = [bool(a == b), bool(b == a), not a != b, not b != a]
    if out[0]:
        h, g = hashed(a), hashed(b)
        out.append(h == g and (h is None or len({a, b}) == 1))
    else:
        out.append(False)
    return out


# -- operation catalogue ----------------------------------------------------------------

def damage_text(r, s):
    k = r.random()
    if not s:
        return "x"
    i = r.randrange(len(s))
    if k < 0.25:
        return s[:i]
    if k < 0.5:
        return s[:i] + r.choice("0123456789ABCFabcf%.:()-* _/zZ#") + s[i + 1:]
    if k < 0.65:
        return s[:i] + r.choice("0123456789ABCF%.:()- ") + s[i:]
    if k < 0.8:
        return s[:i] + s[i + 1:]
    if k < 0.88:
        return s + r.choice(["0", "00", " ", "\n", ".", "A", "=", "%"])
    if k < 0.94:
        # a stuck repeater: part of the text many times over
        j = min(len(s), i + r.choice([1, 1, 2, 4, 8]))
        return s[:i] + s[i:j] * r.choice([2, 20, 300, 1500]) + s[j:]
    return s[i:] + s[:i]


def import_b64(bits):
    import base64
    ws = model.words(bits)
    return base64.b64encode(b"".join(w.to_bytes(2, "big") for w in ws)).decode()


def meth_ops(r, i, nf=2):
    """encoder and key operations on one identity"""
    C = i.scheme.upper()
    u = i.uri()
    ops = [["attr", C, u]]
    for c in model.BY_SCHEME.get(i.scheme, []):
        for f in sorted({gen.pick_flt(r, c) for _ in range(nf)}):
            kw = {"coding": c}
            if gen.nflt(c) > 1:
                kw["filter"] = f
            for m in ("tag_uri", "binary", "hex", "base64"):
                ops.append(["meth", C, u, m, kw])
    if i.element_string():
        ops.append(["meth", C, u, "gs1_element_string", {}])
    if i.gs1_key() is not False:
        ops.append(["meth", C, u, "gs1_key", {}])
    if i.scheme in ("sgtin", "lgtin"):
        for g in (8, 12, 13, 14):
            ops.append(["meth", C, u, "gs1_key", {"gtin": g}])
        ops.append(["meth", C, u, "gtin", {}])
    return ops


def parse_ops(r, i, bad=0.5):
    """constructors and parsers fed with every text form of one identity"""
    C = i.scheme.upper()
    u = i.uri()
    ops = [["new", C, u], ["cls", C, "from_epc_uri", [u]], ["fn", "epc_pure_identity_to_scheme", [u], {}]]
    txt = [(["cls", C, "from_epc_uri"], u, []), (["fn", "epc_pure_identity_to_scheme"], u, [])]
    for fn in ("epc_pure_identity_to_gs1_element", "epc_pure_identity_to_gs1_element_string",
               "epc_pure_identity_to_gs1_keyed", "epc_pure_identity_to_gs1_key",
               "epc_pure_identity_to_tag_encodable", "get_gs1_key"):
        ops.append(["fn", fn, [u], {}])
    e = i.element_string()
    if e:
        L = i.prefix_len()
        ops.append(["cls", C, "from_gs1_element_string", [e, L]])
        ops.append(["fn", "gs1_element_string_to_gs1_element", [e, L], {}])
        ops.append(["fn", "get_gs1_key", [e, L], {}])
        ops.append(["fn", "gs1_element_string_to_gs1_element", [e, r.randint(6, 12)], {}])
        txt.append((["cls", C, "from_gs1_element_string"], e, [L]))
        txt.append((["fn", "gs1_element_string_to_gs1_element"], e, [L]))
        txt.append((["fn", "get_gs1_key"], e, [L]))
    pat = u.replace(":id:", ":idpat:", 1)
    w = pat.split(".", len(i.f) - 1)
    if i.gs1_key() is not False:
        ops.append(["fn", "get_gs1_key", [pat], {}])
        ops.append(["fn", "get_gs1_key", [".".join(w[:len(i.f) - 1] + ["*"])], {}])
        txt.append((["fn", "get_gs1_key"], pat, []))
    elif r.random() < 0.3:
        ops.append(["fn", "get_gs1_key", [pat], {}])
    if r.random() < 0.2:
        n = r.randint(1, len(i.f))
        ops.append(["fn", "get_gs1_key", [".".join([*w[:-n], *(["*"] * n)] if n < len(i.f) else
                                                  [w[0].rpartition(":")[0] + ":*"] + ["*"] * (n - 1))], {}])
    if i.scheme in ("sgtin", "lgtin"):
        g = r.choice((8, 12, 13, 14))
        ops.append(["fn", "get_gs1_key", [u], {"gtin": g}])
        ops.append(["fn", "epc_pure_identity_to_gs1_key", [u], {"gtin": g}])
    if i.scheme == "sgtin":
        ops.append(["cls", C, "from_gtin_plus_serial", [i.core(), i.f[2], len(i.f[0])]])
    for c in model.BY_SCHEME.get(i.scheme, []):
        f = gen.pick_flt(r, c)
        try:
            bits = i.encode(c, f)
        except model.Bad:
            continue
        hx = model.words_hex(model.words(bits))
        if r.random() < 0.3:
            hx = hx.lower()
        b64 = import_b64(bits)
        t = i.tag_uri(c, f)
        if r.random() < 0.3:
            # the whole memory bank behind the EPC is read as well
            extra = "".join(r.choice("01") for _ in range(r.choice([16, 64, 512, 2048])))
            over = bits + "0" * (-len(bits) % 16) + extra
            ops.append(["cls", C, "from_binary", [over]])
            ops.append(["fn", "binary_to_tag_encodable", [over], {}])
            ops.append(["fn", "get_gs1_key", [model.words_hex(model.words(over))], {}])
        for head, s in ((["cls", C, "from_binary"], bits), (["cls", C, "from_hex"], hx),
                        (["cls", C, "from_base64"], b64), (["cls", C, "from_tag_uri"], t),
                        (["fn", "binary_to_tag_encodable"], bits), (["fn", "hex_to_tag_encodable"], hx),
                        (["fn", "base64_to_tag_encodable"], b64), (["fn", "tag_uri_to_tag_encodable"], t),
                        (["fn", "get_gs1_key"], hx), (["fn", "get_gs1_key"], bits), (["fn", "get_gs1_key"], t)):
            ops.append(head + [[s]] + ([{}] if head[0] == "fn" else []))
            txt.append((head, s, []))
    for head, s, extra in txt:
        if r.random() < bad:
            ops.append(head + [[damage_text(r, s)] + extra] + ([{}] if head[0] == "fn" else []))
    return ops


def family(r, scheme=None, nsib=2, seen=None):
    """operations on a handful of closely related identities"""
    base = gen.ident(r, scheme) if seen is None else gen.novel(r, lambda: gen.ident(r, scheme), seen)
    ids = [base]
    while len(ids) < 1 + nsib:
        s = gen.sibling(r, r.choice(ids))
        if s.valid() and s not in ids:
            ids.append(s)
    ops = []
    for i in ids:
        ops += meth_ops(r, i)
        ops += parse_ops(r, i)
    for a in ids:
        for c in ids:
            if r.random() < 0.5:
                ops.append(["eq", a.scheme.upper(), a.uri(), c.scheme.upper(), c.uri()])
    ops.append(["eqx", base.scheme.upper(), base.uri(), r.choice([base.uri(), None, 0])])
    if base.scheme in model.BY_SCHEME:
        ops.append(["cls", base.scheme.upper(), "header_to_schemes", []])
    seen, out = set(), []
    for o in ops:
        k = repr(o)
        if k not in seen:
            seen.add(k)
            out.append(o)
    return {"scheme": base.scheme, "ids": [[i.scheme.upper(), i.uri()] for i in ids], "ops": out}


def oddities(r, fam, n):
    """damaged deliveries and unusual arguments around the identities of a family"""
    from . import damage, spell
    ids = [spell.uri(u)[0] for _, u in fam["ids"]]
    out = []
    while len(out) < n:
        a = r.choice(ids)
        C = a.scheme.upper()
        k = r.random()
        if k < 0.8:
            op, kinds = damage.damaged(r, a, ids)
            out.append((op, kinds[0]))
        elif k < 0.9 and a.scheme in model.BY_SCHEME:
            cs = [c for c in model.BY_SCHEME[a.scheme] if a.encodable(c)]
            if cs:
                c = r.choice(cs)
                out.append((["cls", C, "from_tag_uri", [a.tag_uri(c, gen.pick_flt(r, c)), r.choice([True, False])]], "flag"))
        elif a.element_string() and r.random() < 0.5:
            out.append((r.choice([["cls", C, "from_gs1_element_string", [a.element_string(), r.randint(0, 15)]],
                                  ["fn", "gs1_element_string_to_gs1_element", [a.element_string(), r.randint(0, 15)], {}]]), "length"))
        elif a.scheme == "sgtin":
            g, s, L = a.core(), a.f[2], len(a.f[0])
            if r.random() < 0.5:
                g = damage.damage_text(r, g, s)[1]
            if r.random() < 0.5:
                s = r.choice(["", 0, 7, 10 ** 12, damage.damage_text(r, s, g)[1], s.zfill(20)])
            if r.random() < 0.3:
                L = r.choice([0, 5, 6, 12, 13, 14, -1])
            out.append((["cls", C, "from_gtin_plus_serial", [g, s, L]], "args"))
    return out


def shape(op, base):
    """what an operation exercises: function, scheme, kind of outcome, wording of the refusal"""
    if base is None:
        return ("hang",)
    o = base[0]
    head = [str(x) for x in op[1:3] if isinstance(x, str) and len(x) < 50 and ":" not in x]
    if o[0] == "exc":
        return (op[0], *head, o[1], " ".join(re.sub("[^A-Za-z |]", "", o[2]).split()[:4]))
    if o[0] == "obj":
        return (op[0], *head, o[1])
    return (op[0], *head, o[0], str(o[1])[:20])


def key(op):
    import json
    return json.dumps(op, sort_keys=True)


# -- earlier work of a process --------------------------------------------------------------

def scheme(op):
    """the scheme an operation is about, as far as it shows"""
    if op[0] != "fn":
        return op[1].lower()
    m = re.match("urn:epc:(?:id|tag|idpat):([a-z]+)", op[2][0]) if op[2] and isinstance(op[2][0], str) else None
    return m[1] if m and m[1] in model.SCHEMES else "sgtin"


def worked(r, ctx, pool, p=0.03):
    """earlier and later work of the process a run happens in: mostly none"""
    out = {"dormant": ctx.dormant} if ctx.dormant else {}
    for k in ("history", "later"):
        if r.random() < p * (7 if ctx.dormant and k == "history" else 2.5 if ctx.susp else 1):
            out[k] = history(r, scheme(r.choice(pool)))
            if ctx.dormant:
                out[k][3] *= r.choice([1, 2, 4])
    return out


def relive(plan, stats, when="history"):
    """does that work; None, or what went wrong in it"""
    if plan.get("dormant"):
        from . import engine
        engine.dormant(set(plan["dormant"]))
    h = plan.get(when)
    if not h:
        return None
    stats["fault:process with %s work" % ("earlier" if when == "history" else "later")] = 1
    v = flood(*h)
    return v and {"kind": "other_work", "when": when, **v}


def less(plan):
    """smaller plans as regards earlier and later work"""
    for k in ("history", "later"):
        h = plan.get(k)
        if h:
            yield {**plan, k: None}
            if h[3] > 10:
                yield {**plan, k: h[:3] + [h[3] // 2]}


def history(r, scheme, big=0.0):
    """plan of earlier work: [scheme, seed, style, number of calls]"""
    return [scheme, r.randrange(1 << 30), r.choice(["wide", "wide", "deep"]),
            30000 if r.random() < big else r.choice([200, 800, 1500, 4000])]


def flood(scheme, seed, style, n):
    """calls on many identities ("wide"; outcomes compared with the model's) or all calls on fewer ("deep"; outcomes
    ignored); None, or the first call that came out wrong"""
    import random
    r = random.Random(seed)
    made = 0
    while made < n:
        i = gen.ident(r, scheme)
        if style == "deep":
            l = [(o, None) for o in meth_ops(r, i, 1) + parse_ops(r, i, 0.2)]
        else:
            C, u = scheme.upper(), i.uri()
            me = ["obj", C, u]
            l = [(["new", C, u], me), (["fn", "epc_pure_identity_to_scheme", [u], {}], me)]
            cs = model.BY_SCHEME.get(scheme)
            if cs:
                c = r.choice(cs)
                kw = {"coding": c, "filter": gen.pick_flt(r, c)} if gen.nflt(c) > 1 else {"coding": c}
                l.append((["meth", C, u, r.choice(["hex", "base64"]), kw], None))
                if i.encodable(c):
                    f = kw.get("filter", 0)
                    l.append((["meth", C, u, "binary", kw], ["val", "str", i.encode(c, f)]))
                    l.append((["cls", C, "from_binary", [i.encode(c, f)]], me))
                    l.append((["meth", C, u, "tag_uri", kw], ["val", "str", i.tag_uri(c, f)]))
            if i.gs1_key() is not False:
                l.append((["meth", C, u, "gs1_key", {}], ["val", "str", i.gs1_key()]))
            if i.element_string():
                l.append((["meth", C, u, "gs1_element_string", {}], ["val", "str", i.element_string()]))
            if r.random() < 0.1:
                l.append((["fn", "epc_pure_identity_to_scheme", [damage_text(r, u)], {}], None))
        for o, exp in l:
            try:
                got = norm(call(o))
            except Exception as e:
                got = norm_exc(e)
            made += 1
            if exp is not None and got != exp:
                return {"op": o, "got": got, "expected": exp, "call": made}
    return None
