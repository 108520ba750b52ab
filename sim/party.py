"""Parties that exchange identities: the library under test and the reference model behind
one interface.  Library results are reduced to plain data before they are compared."""
import base64

from . import model, ops
from .model import Bad, Ident

CONV = "ConvertException"
DEFAULTED = ("gid-96", "usdod-96", "adi-var", "gsrn-96", "gsrnp-96", "sgcn-96", "sscc-96")


def mk(j):
    return Ident(j[0], *j[1])


def js(i):
    return [i.scheme, list(i.f)]


def b64(bits):
    ws = model.words(bits)
    return base64.b64encode(b"".join(w.to_bytes(2, "big") for w in ws)).decode()


def as_rep(bits, rep, style=0):
    """text of a memory read"""
    if rep == "binary":
        return bits
    if rep == "hex":
        h = model.words_hex(model.words(bits))
        return h.lower() if style % 3 == 1 else "".join(
            c.lower() if (i * 7 + style) % 2 else c for i, c in enumerate(h)) if style % 3 == 2 else h
    t = b64(bits)
    return t.rstrip("=") if style % 3 == 1 else t


FN = {"binary": "binary_to_tag_encodable", "hex": "hex_to_tag_encodable", "base64": "base64_to_tag_encodable",
      "tag_uri": "tag_uri_to_tag_encodable", "uri": "epc_pure_identity_to_scheme"}


def read_op(text, rep, route, cls=None):
    """operation that hands a read to the library"""
    if route == "cls" and cls is not None:
        return ["cls", cls, "from_epc_uri" if rep == "uri" else "from_" + rep, [text]]
    return ["fn", FN[rep], [text], {}]


def enc_kw(coding, flt):
    kw = {"coding": coding}
    if model.CODINGS[coding][1]:
        kw["filter"] = flt
    return kw


def lib_read(op):
    """(object or None, outcome)"""
    keep = []
    o = ops.outcome(op, keep=keep)
    return (keep[0] if keep else None), o


def lib_encode(o, coding, flt, rep):
    """outcome of o.<rep>(coding, filter); the coding is left out now and then where it has a default"""
    C = type(o).__name__
    kw = enc_kw(coding, flt)
    if coding in DEFAULTED and (flt + len(o.epc_uri)) % 2:
        del kw["coding"]
    return ops.outcome(["meth", C, "", rep, kw], lambda c, u: o)


def bits_of(text, rep):
    """bits an encoder's answer stands for; Bad when it is not well formed"""
    if not isinstance(text, str):
        raise Bad("not text")
    if rep == "binary":
        if not text or text.strip("01"):
            raise Bad("binary")
        return text
    if rep == "hex":
        if len(text) % 4 or text.strip("0123456789ABCDEFabcdef") or not text:
            raise Bad("hex")
        return format(int(text, 16), "0%db" % (4 * len(text)))
    try:
        raw = base64.b64decode(text, validate=True)
    except ValueError:
        raise Bad("base64")
    if len(raw) % 2 or not raw:
        raise Bad("base64")
    return "".join(format(x, "08b") for x in raw)


def allowed(bits):
    """what a reader may make of these bits: (identity or None, refusal allowed)"""
    try:
        i, coding, flt, strict = model.decode(bits)
    except Bad:
        return None, True
    return i, not strict
