"""Messages about identities, what a medium does to them, and where they end up."""
import random
import re

from . import gen as G, model, party


def sent(r, i, bits=None):
    """a message about identity i: (representation, text, company prefix length)"""
    k = r.random()
    L = i.prefix_len()
    if bits is None and i.scheme in model.BY_SCHEME and k < 0.62:
        cs = [c for c in model.BY_SCHEME[i.scheme] if i.encodable(c)]
        if cs:
            c = r.choice(cs)
            bits = i.encode(c, G.pick_flt(r, c))
            if r.random() < 0.2:
                bits = model.words_bits(model.words(bits))
            if r.random() < 0.15:
                return "tag_uri", i.tag_uri(c, G.pick_flt(r, c)), L
    if bits is not None:
        rep = r.choice(["binary", "hex", "base64"])
        return rep, bits if rep == "binary" else party.as_rep(bits, rep, r.randrange(3)), L
    e = i.element_string()
    if e and k < 0.8:
        return "elem", e, L
    if (i.gs1_key() is not False or r.random() < 0.3) and k < 0.85:
        return "idpat", pattern(r, i), L
    return "uri", i.uri(), L


def pattern(r, i):
    """an identity, or a group of them, as an id pattern"""
    h, t = i.uri().rsplit(":", 1)
    x = r.random()
    if x < 0.5 and "." in t:
        f = t.split(".", {"giai": 1, "ginc": 1, "itip": 4}.get(i.scheme, 2))
        for j in range(r.choice([1, 1, 1, 2, len(f)])):
            f[-1 - j % len(f)] = "*"
        t = ".".join(f)
    return ("%s:%s" % (h, t)).replace(":id:", ":idpat:", 1)


HEADERS = sorted(format(h, "08b") for h in model.HEADER)


def put(b, at, n, v):
    v = max(0, min(v, (1 << n) - 1))
    return b[:at] + format(v, "0%db" % n) + b[at + n:]


def field_edge(r, b):
    """a field just inside or outside of its range"""
    coding = model.HEADER.get(int(b[:8], 2))
    d = r.choice([-1, 0, 0, 1, 2, 10])
    if coding in ("usdod-96", "adi-var"):
        p = r.choice([8, 12, 14, 20, 28, 44, 50, 56])
        return put(b, p, 8 if p + 8 <= len(b) else 1, r.choice([0, 32, 33, 35, 36, 45, 64, 73, 79, 91, 255]))
    if coding is None or coding == "gid-96" or len(b) < 96:
        return put(b, 8, 3, d + 1)
    P = int(b[11:14], 2)
    if P > 6 or r.random() < 0.1:
        return put(b, 11, 3, r.choice([6, 7, 5, 0]))
    L = 12 - P
    M = model.M[L]
    if r.random() < 0.4:
        return put(b, 14, M, 10 ** L + d)
    if coding in model.LAYOUT:
        tot, (kind, n) = model.LAYOUT[coding]
        K = model.PREFIX[coding.split("-")[0]][0] - L
        end = 14 + tot
        x = r.random()
        if x < 0.5:
            return put(b, 14 + M, tot - M, 10 ** K + d)
        if coding.startswith("itip") and x < 0.75:
            return put(b, end + r.choice([0, 7]), 7, r.choice([99, 100, 101, 127, 0]))
        if kind == "numstr":
            return put(b, end, n, r.choice([0, 1, 2, 9, 10, 19, 20, 99, 100, 2 * 10 ** 11, 10 ** 12, 2 * 10 ** 12 - 1, 2 * 10 ** 12]))
        if kind == "str":
            c = end + 7 * r.randrange(n)
            return put(b, c, 7, r.choice([0, 0, 1, 31, 32, 35, 36, 64, 91, 94, 96, 123, 127, 65]))
        if kind == "zero":
            return put(b, end + r.randrange(n), 1, 1)
        return b
    if coding == "giai-202":
        return put(b, 14 + M + 7 * r.randrange((188 - M) // 7), 7, r.choice([0, 0, 1, 32, 35, 96, 127]))
    return put(b, 14 + M, 6, r.choice([0, 0, 33, 64, 27, 30, 45, 47]))


def damage_bits(r, b):
    k = r.choice(["edge", "edge", "edge", "flip", "flips", "burst", "ones", "zeros", "trunc", "truncword", "header", "swapwords", "shift", "part",
                  "dupword", "extend"])
    n = len(b)
    if n < 16:
        return k, b[:r.randrange(n + 1)]
    x = r.randrange(n)
    if k == "edge":
        return k, field_edge(r, b)
    if k == "flip":
        x = r.randrange(8, n) if r.random() < 0.9 else r.randrange(n)
        b = b[:x] + "10"[int(b[x])] + b[x + 1:]
    elif k == "flips":
        for _ in range(r.randint(2, 6)):
            x = r.randrange(8, n)
            b = b[:x] + "10"[int(b[x])] + b[x + 1:]
    elif k == "burst":
        y = min(n, x + r.randint(2, 24))
        b = b[:x] + "".join(r.choice("01") for _ in range(y - x)) + b[y:]
    elif k in ("ones", "zeros"):
        x = r.randrange(8, n)
        y = min(n, x + r.choice([3, 7, 16, 44, 200]))
        b = b[:x] + ("1" if k == "ones" else "0") * (y - x) + b[y:]
    elif k == "trunc":
        b = b[:x]
    elif k == "truncword":
        b = b[:16 * r.randint(1, max(1, n // 16))]
    elif k == "header":
        b = r.choice(HEADERS) + b[8:]
        if r.random() < 0.5:
            b += "".join(r.choice("01") for _ in range(r.choice([16, 112, 300])))
    elif k == "swapwords":
        w = [b[j:j + 16] for j in range(0, n, 16)]
        a, c = r.randrange(len(w)), r.randrange(len(w))
        w[a], w[c] = w[c], w[a]
        b = "".join(w)
    elif k == "shift":
        s = r.randint(1, 9)
        b = b[s:] + "0" * s if r.random() < 0.5 else b[:8] + "0" * s + b[8:]
    elif k == "part":
        p = 14 if b[:8] == "00111011" else 11
        b = b[:p] + format(r.randrange(8), "03b") + b[p + 3:]
    elif k == "dupword":
        w = [b[j:j + 16] for j in range(0, n, 16)]
        a = r.randrange(len(w))
        w.insert(a, w[a])
        b = "".join(w)
    else:
        b += "".join(r.choice("01") for _ in range(r.choice([1, 5, 16, 100, 2000])))
    return k, b


ODD = ["١", "１", "²", "İ", "\ud800", "\x00", "\n", "\r\n", "\t", "​", "é", "\U0001d7d8", " ", "\x7f", "१"]
WORDS = ["urn:epc:id:", "urn:epc:class:", "urn:epc:tag:", "urn:epc:idpat:", "sgtin", "sscc", "-96:", "(01)", "(21)", "(8006)",
         "%", "%2", "%zz", "%25", "%00", "%7f", "%ff", "%41", "%2f", "*", "..", "::", "()", "\\", "{}", "0", "00", ".", ":", "-"]


def damage_text(r, s, other):
    k = r.choice(["cut", "head", "subst", "insert", "delete", "dup", "swap", "splice", "glue", "pad", "case", "odd", "word",
                  "field", "fielddup", "stuck", "digit", "garbage", "empty", "reverse", "replace", "grow", "shrink", "dot"])
    n = len(s)
    x = r.randrange(n) if n else 0
    if k == "cut":
        return k, s[:x]
    if k == "head":
        return k, s[x:]
    if k == "subst":
        return k, s[:x] + r.choice("0123456789ABCDEFabcdefGZz%.:()-*_/#+=!\"'<>? ") + s[x + 1:]
    if k == "insert":
        return k, s[:x] + r.choice("0123456789ABCDEFabcdefGZz%.:()-*_/#+=! ") + s[x:]
    if k == "delete":
        return k, s[:x] + s[x + r.choice([1, 1, 2, 5]):]
    if k == "dup":
        y = x + r.randint(1, 12)
        return k, s[:y] + s[x:y] + s[y:]
    if k == "swap" and n > 1:
        x = r.randrange(n - 1)
        return k, s[:x] + s[x + 1] + s[x] + s[x + 2:]
    if k == "splice" and other:
        return k, s[:x] + other[r.randrange(len(other)):]
    if k == "glue":
        return k, s + r.choice(["", " ", "\n", ",", ";"]) + other
    if k == "pad":
        p = r.choice([" ", "\n", "0", "00", "=", "==", "===", "\x00", "\t", "A", "\r\n", "0x", "0b", "b'", "+", "-"])
        return k, p + s if r.random() < 0.4 else s + p
    if k == "case":
        return k, r.choice([s.upper(), s.lower(), s.swapcase(), s[:x] + s[x:].upper()])
    if k == "odd":
        return k, s[:x] + r.choice(ODD) + s[x + r.randrange(2):]
    if k == "word":
        return k, s[:x] + r.choice(WORDS) + s[x + r.choice([0, 1, 3]):]
    if k in ("field", "fielddup"):
        sep = r.choice([".", ":"])
        p = s.split(sep)
        a = r.randrange(len(p))
        p = p[:a] + p[a + 1:] if k == "field" else p[:a] + [p[a]] + p[a:]
        return k, sep.join(p)
    if k in ("grow", "shrink"):
        # a component longer or shorter than it was
        t = list(re.finditer(r"[^.:()]+", s))
        if t:
            m = r.choice(t[-4:])
            w = m[0]
            if k == "shrink":
                w = w[:r.randrange(len(w))]
            else:
                w += "".join(r.choice(w) for _ in range(r.choice([1, 1, 2, 5, 10, 20, 30])))
            return k, s[:m.start()] + w + s[m.end():]
    if k == "dot":
        # a separator some places off
        d = [j for j, c in enumerate(s) if c == "."]
        if d:
            x = r.choice(d)
            t = s[:x] + s[x + 1:]
            x = max(0, x + r.choice([-8, -7, -6, -2, -1, 1, 2, 6, 7]))
            return k, t[:x] + "." + t[x:]
    if k == "stuck":
        y = min(n, x + r.choice([1, 1, 2, 5]))
        return k, s[:x] + s[x:y] * r.choice([2, 10, 60, 700, 5000]) + s[y:]
    if k == "digit":
        d = [j for j, c in enumerate(s) if c.isdigit()]
        if d:
            x = r.choice(d)
            return k, s[:x] + r.choice("0123456789") + s[x + 1:]
    if k == "garbage":
        return k, "".join(r.choice(ODD + WORDS + list("0123456789abcXYZ%().: ")) for _ in range(r.randint(1, 30)))
    if k == "empty":
        return k, r.choice(["", " ", ":", ".", "urn:epc:id:", "urn:epc:tag:", "0", "=", "(", "urn:epc:id:sgtin:", "30", "00110000"])
    if k == "reverse":
        return k, s[::-1]
    if k == "replace" and n:
        return k, s.replace(s[x], r.choice(["", "0", ".", "%", s[x] * 2]))
    return "none", s


def gtin(r, a):
    """an SGTIN as GTIN, serial and company prefix length; leading zeros may have been dropped"""
    g = a.core()
    n = r.choice([n for n in (14, 13, 12, 8) if not g[:14 - n].strip("0")])
    return g[14 - n:], a.uri().split(":", 4)[4].split(".", 2)[2], len(a.f[0])


REPS = ["uri", "tag_uri", "binary", "hex", "base64", "elem", "idpat"]


def route(r, rep, text, L, scheme, lost):
    """operation a receiver performs; lost: the routing label was damaged as well"""
    op = _route(r, rep, text, L, scheme, lost)
    if op[0] == "fn" and op[1].endswith("gs1_key") and r.random() < (0.4 if scheme in ("sgtin", "lgtin") else 0.1):
        op[3] = {"gtin": r.choice([8, 12, 13, 14])}
    return op


def _route(r, rep, text, L, scheme, lost):
    if lost:
        rep = r.choice(REPS)
        if r.random() < 0.3:
            L = r.choice([0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 40])
        if r.random() < 0.4:
            scheme = r.choice(model.SCHEMES)
    C = scheme.upper()
    k = r.random()
    if rep == "elem":
        if L is None:
            L = r.randint(6, 12)
        if k < 0.3 and C in ELEMENT:
            return ["cls", C, "from_gs1_element_string", [text, L]]
        if k < 0.65:
            return ["fn", "gs1_element_string_to_gs1_element", [text, L], {}]
        return ["fn", "get_gs1_key", [text, L], {}]
    if rep == "idpat":
        return ["fn", "get_gs1_key", [text], {}]
    if rep == "uri":
        if k < 0.3:
            return ["new", C, text]
        if k < 0.4:
            return ["cls", C, "from_epc_uri", [text]]
        f = r.choice(["epc_pure_identity_to_scheme", "epc_pure_identity_to_scheme", "epc_pure_identity_to_gs1_element",
                      "epc_pure_identity_to_gs1_keyed", "epc_pure_identity_to_tag_encodable", "get_gs1_key",
                      "epc_pure_identity_to_gs1_element_string", "epc_pure_identity_to_gs1_key"])
        return ["fn", f, [text], {}]
    if k < 0.35 and scheme in model.BY_SCHEME:
        return ["cls", C, "from_" + rep, [text]]
    if k < 0.5 and rep != "base64":
        return ["fn", "get_gs1_key", [text], {}]
    return ["fn", party.FN[rep], [text], {}]


ELEMENT = {s.upper() for s in model.SCHEMES if s not in ("adi", "usdod", "gid", "bic", "imovn")}
KEYED = {s.upper() for s in model.SCHEMES if G.ident(random.Random(1), s).gs1_key() is not False}


def damaged(r, a, others):
    """(operation, kinds of damage): a damaged or misrouted delivery about identity a"""
    kinds = []
    bits = None
    if r.random() < 0.45 and a.scheme in model.BY_SCHEME:
        cs = [c for c in model.BY_SCHEME[a.scheme] if a.encodable(c)]
        if cs:
            c = r.choice(cs)
            bits = a.encode(c, G.pick_flt(r, c))
            for _ in range(r.choice([1, 1, 2])):
                k, bits = damage_bits(r, bits)
                kinds.append(k)
            if not bits:
                bits = None
    if a.scheme == "sgtin" and bits is None and r.random() < 0.15:
        g, serial, L = gtin(r, a)
        for _ in range(r.choice([1, 1, 2])):
            x = r.random()
            if x < 0.5:
                k, g = damage_text(r, g, gtin(r, G.ident(r, "sgtin"))[0])
            elif x < 0.9:
                k, serial = damage_text(r, serial, sent(r, r.choice(others))[1])
            else:
                k, L = "prefix_length", r.choice([0, 1, 5, 6, 7, 8, 11, 12, 13, 14, 40])
            kinds.append(k)
        return ["cls", "SGTIN", "from_gtin_plus_serial", [g, serial, L]], kinds
    rep, text, L = sent(r, a, bits)
    if not kinds or r.random() < 0.2:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k, text = damage_text(r, text, sent(r, r.choice(others))[1])
            kinds.append(k)
    lost = r.random() < 0.2
    if lost:
        kinds.append("misrouted")
    return route(r, rep, text, L, a.scheme, lost), kinds
