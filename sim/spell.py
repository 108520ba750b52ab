"""What a delivered text spells out.

Each function returns (identity or None, must): the identity the text stands for under a
lenient reading, and whether a receiver has to accept it (strictly well formed) or may also
refuse it.  None means that nothing is spelled: the only right answer is a conversion error.
"""
import re

from . import model
from .model import Bad, Ident

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def binary(t):
    if not t or t.strip("01"):
        return None, False
    try:
        i, _, _, strict = model.decode(t)
    except Bad:
        return None, False
    return i, strict


def hexa(t):
    if not t or t.strip("0123456789abcdefABCDEF"):
        return None, False
    i, strict = binary("".join(format(int(c, 16), "04b") for c in t))
    return i, strict and len(t) % 4 == 0


def base64(t):
    body = t.rstrip("=")
    if not body or body.strip(B64) or len(t) - len(body) > 2:
        return None, False
    n = len(body) * 6 // 8 * 8
    i, strict = binary("".join(format(B64.index(c), "06b") for c in body)[:n])
    return i, strict and len(t) % 4 == 0 and n % 16 == 0 and len(body) * 6 - n < 6 and _tail_zero(body, n)


def _tail_zero(body, n):
    return not "".join(format(B64.index(c), "06b") for c in body)[n:].strip("0")


def _unesc(s):
    """lenient: any two hex digits of either case"""
    out, i = "", 0
    while i < len(s):
        if s[i] == "%":
            e = s[i + 1:i + 3]
            if not re.match(r"[0-9A-Fa-f]{2}\Z", e):
                raise Bad("escape")
            c = chr(int(e, 16))
            i += 3
        else:
            c = s[i]
            if c in model.ESC:
                raise Bad("not escaped")
            i += 1
        if c not in model.GS3A3:
            raise Bad("char")
        out += c
    return out


def uri(t):
    try:
        return model.parse_uri(t), True
    except Bad:
        pass
    m = re.match(r"urn:epc:(id|class):([a-z]+):(.*)\Z", t, re.S)
    if not m or m.group(2) not in model.SCHEMES or (m.group(1) == "class") != (m.group(2) == "lgtin"):
        return None, False
    s, body = m.group(2), m.group(3)
    # only the escapes of the last field may be written in more than one way
    if s in model.PREFIX and model.PREFIX[s][2]:
        n = 2 + (2 if s == "itip" else 0)
    elif s in ("giai", "ginc"):
        n = 1
    else:
        return None, False
    f = body.split(".", n)
    if len(f) != n + 1:
        return None, False
    try:
        i = Ident(s, *f[:-1], _unesc(f[-1]))
    except Bad:
        return None, False
    return (i, False) if i.valid() else (None, False)


def tag_uri(t):
    m = re.match(r"urn:epc:tag:([a-z]+-[0-9a-z]+):(.*)\Z", t, re.S)
    if not m or m.group(1) not in model.CODINGS:
        return None, False
    coding, rest = m.groups()
    must = True
    fb = model.CODINGS[coding][1]
    f = 0
    if fb:
        ft, dot, rest = rest.partition(".")
        if not model.NUM.match(ft) or not dot:
            return None, False
        f = int(ft) if len(ft) < 5 else 9999
        must = f < 1 << fb
    i, ok = uri("urn:epc:id:%s:%s" % (coding.split("-")[0], rest))
    return i, must and ok and i is not None and i.encodable(coding)


ELEM = [
    ("sgtin", r"\(01\)([0-9]{14})\(21\)(.+)\Z"), ("lgtin", r"\(01\)([0-9]{14})\(10\)(.+)\Z"),
    ("upui", r"\(01\)([0-9]{14})\(235\)(.+)\Z"), ("itip", r"\(8006\)([0-9]{14})([0-9]{2})([0-9]{2})\(21\)(.+)\Z"),
    ("sgln", r"\(414\)([0-9]{13})\(254\)(.+)\Z"), ("grai", r"\(8003\)0([0-9]{13})(.+)\Z"),
    ("gdti", r"\(253\)([0-9]{13})(.+)\Z"), ("sgcn", r"\(255\)([0-9]{13})(.+)\Z"),
    ("sscc", r"\(00\)([0-9]{18})\Z"), ("gsrn", r"\(8018\)([0-9]{18})\Z"), ("gsrnp", r"\(8017\)([0-9]{18})\Z"),
    ("gsin", r"\(402\)([0-9]{17})\Z"), ("pgln", r"\(417\)([0-9]{13})\Z"),
]
ELEM = [(s, re.compile(x, re.S)) for s, x in ELEM]


def element(t, L):
    """a wrong check digit may be ignored"""
    if not isinstance(L, int) or not 6 <= L <= 12:
        return None, False
    i = None
    for s, ai in (("giai", "8004"), ("ginc", "401")):
        m = re.match(r"\(%s\)([0-9]{%d})(.+)\Z" % (ai, L), t, re.S)
        if m:
            i = Ident(s, *m.groups())
    m = re.match(r"\(8010\)([0-9]{%d})(.+)\(8011\)([0-9]+)\Z" % L, t, re.S)
    if m:
        i = Ident("cpi", *m.groups())
    for s, x in ELEM:
        m = x.match(t)
        if m:
            d, rest = m.group(1)[:-1], m.groups()[1:]
            if model.PREFIX[s][1]:
                f = d[1:1 + L], d[0] + d[1 + L:]
            else:
                f = d[:L], d[L:]
            i = Ident(s, *f, *rest)
    if i is None or not i.valid():
        return None, False
    return i, i.element_string() == t


def gtin(g, serial, L):
    """leading zeros of the GTIN may be missing, a wrong check digit may be ignored"""
    if not isinstance(L, int) or not 6 <= L <= 12 or not g or len(g) > 14 or g.strip("0123456789"):
        return None, False
    d = g.zfill(14)
    i, ok = uri("urn:epc:id:sgtin:%s.%s%s.%s" % (d[1:1 + L], d[0], d[1 + L:-1], serial))
    return i, ok and len(g) in (8, 12, 13, 14) and i.core() == d


def idpat(t):
    """identity with which an id pattern agrees in everything its key needs"""
    if not t.startswith("urn:epc:idpat:"):
        return None, False
    return uri("urn:epc:id:" + t[14:])


def keys(t, L, n=None):
    """(set of keys that could be derived, key that must be given or None); n: as a GTIN of n digits"""
    out, must = set(), []
    for i, ok in (uri(t), tag_uri(t), idpat(t), element(t, L) if L is not None else (None, False), binary(t), hexa(t)):
        if i is not None:
            if n and i.scheme not in ("sgtin", "lgtin"):
                continue
            k = i.gs1_key(n or 14)
            if k:
                out.add(k)
                if ok:
                    must.append(k)
    return out, (must[0] if len(must) == 1 and len(out) == 1 else None)
