"""Independent reference model of the EPC Tag Data Standard codings and GS1 keys.

Shares no code with the library under test.  An identity is (scheme, fields) where fields
are *unescaped* character strings.  Everything is derived from the small tables below.
"""
import re

M = {12: 40, 11: 37, 10: 34, 9: 30, 8: 27, 7: 24, 6: 20}     # company prefix bits by length

GS3A3 = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
            "!\"%&'()*+,-./:;<=>?_")
ESC = {c: "%%%02X" % ord(c) for c in '"%&/<>?'}
CPREF = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-/#")
CPESC = {"/": "%2F", "#": "%23"}
CAGE = set("ABCDEFGHJKLMNPQRSTUVWXYZ0123456789")
ADICH = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-/")

DIG = re.compile(r"[0-9]+\Z")
NUM = re.compile(r"(0|[1-9][0-9]*)\Z")


def digits(s, n=None):
    return bool(DIG.match(s)) and (n is None or len(s) == n)


def esc(s):
    return "".join(ESC.get(c, c) for c in s)


def cpesc(s):
    return "".join(CPESC.get(c, c) for c in s)


def check_digit(d):
    t = 0
    for i, c in enumerate(reversed(d)):
        t += int(c) * (3 if i % 2 == 0 else 1)
    return str(-t % 10)


# kind -> (digits after prefix total, string field spec)
#   prefix schemes: total digits of prefix+reference, then serial (kind, min, max)
PREFIX = {
    #        total  indicator-first  serial
    "sgtin": (13, True, ("gs", 1, 20)),
    "sscc": (17, True, None),
    "sgln": (12, False, ("gs", 1, 20)),
    "grai": (12, False, ("gs", 1, 16)),
    "gsrn": (17, False, None),
    "gsrnp": (17, False, None),
    "gdti": (12, False, ("gs", 1, 17)),
    "sgcn": (12, False, ("dig", 1, 12)),
    "gsin": (16, False, None),
    "upui": (13, True, ("gs", 1, 28)),
    "pgln": (12, False, None),
    "lgtin": (13, True, ("gs", 1, 20)),
    "itip": (13, True, ("gs", 1, 20)),
}
SCHEMES = ["adi", "bic", "cpi", "gdti", "giai", "gid", "ginc", "grai", "gsin", "gsrn", "gsrnp",
           "imovn", "itip", "lgtin", "pgln", "sgcn", "sgln", "sgtin", "sscc", "upui", "usdod"]

# coding name -> (header, filter bits, body spec)
CODINGS = {
    "sgtin-96": (0x30, 3), "sgtin-198": (0x36, 3), "sscc-96": (0x31, 3),
    "sgln-96": (0x32, 3), "sgln-195": (0x39, 3), "grai-96": (0x33, 3), "grai-170": (0x37, 3),
    "giai-96": (0x34, 3), "giai-202": (0x38, 3), "gsrn-96": (0x2D, 3), "gsrnp-96": (0x2E, 3),
    "gdti-96": (0x2C, 3), "gdti-174": (0x3E, 3), "cpi-96": (0x3C, 3), "cpi-var": (0x3D, 3),
    "sgcn-96": (0x3F, 3), "itip-110": (0x40, 3), "itip-212": (0x41, 3), "gid-96": (0x35, 0),
    "usdod-96": (0x2F, 4), "adi-var": (0x3B, 6),
}
HEADER = {h: c for c, (h, _) in CODINGS.items()}
BY_SCHEME = {}
for _c in CODINGS:
    BY_SCHEME.setdefault(_c.split("-")[0], []).append(_c)
# bits for prefix+reference together, bits (and kind) of the serial
LAYOUT = {
    "sgtin-96": (44, ("int", 38)), "sgtin-198": (44, ("str", 20)),
    "sscc-96": (58, ("zero", 24)),
    "sgln-96": (41, ("int", 41)), "sgln-195": (41, ("str", 20)),
    "grai-96": (44, ("int", 38)), "grai-170": (44, ("str", 16)),
    "gsrn-96": (58, ("zero", 24)), "gsrnp-96": (58, ("zero", 24)),
    "gdti-96": (41, ("int", 41)), "gdti-174": (41, ("str", 17)),
    "sgcn-96": (41, ("numstr", 41)),
    "itip-110": (44, ("int", 38)), "itip-212": (44, ("str", 20)),
}
LENGTH = {"sgtin-96": 96, "sgtin-198": 198, "sscc-96": 96, "sgln-96": 96, "sgln-195": 195,
          "grai-96": 96, "grai-170": 170, "giai-96": 96, "giai-202": 202, "gsrn-96": 96,
          "gsrnp-96": 96, "gdti-96": 96, "gdti-174": 174, "cpi-96": 96, "sgcn-96": 96,
          "itip-110": 110, "itip-212": 212, "gid-96": 96, "usdod-96": 96}


class Bad(Exception):
    pass


def b(v, n):
    v = int(v)
    if v < 0 or v >= 1 << n:
        raise Bad("range")
    return format(v, "0%db" % n)


def six(c):
    o = ord(c)
    return format(o & 0x3F, "06b")


def unsix(g):
    v = int(g, 2)
    c = chr(v) if v >= 32 else chr(64 + v)
    return c


class Ident:
    __slots__ = ("scheme", "f")

    def __init__(self, scheme, *f):
        self.scheme = scheme
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Ident) and (self.scheme, self.f) == (o.scheme, o.f)

    def __hash__(self):
        return hash((self.scheme, self.f))

    def __repr__(self):
        return "Ident(%s)" % self.uri()

    # -- validity -------------------------------------------------------------------
    def valid(self):
        s, f = self.scheme, self.f
        if s in PREFIX:
            tot, _, ser = PREFIX[s]
            if not (digits(f[0]) and 6 <= len(f[0]) <= 12):
                return False
            if f[1] and not digits(f[1]):
                return False
            if len(f[0]) + len(f[1]) != tot:
                return False
            i = 2
            if s == "itip":
                if not (digits(f[2], 2) and digits(f[3], 2)):
                    return False
                i = 4
            if ser:
                k, lo, hi = ser
                if not lo <= len(f[i]) <= hi:
                    return False
                return digits(f[i]) if k == "dig" else all(c in GS3A3 for c in f[i])
            return True
        if s in ("giai", "ginc"):
            return (digits(f[0]) and 6 <= len(f[0]) <= 12 and len(f[1]) >= 1
                    and len(f[0]) + len(f[1]) <= 30 and all(c in GS3A3 for c in f[1]))
        if s == "cpi":
            return (digits(f[0]) and 6 <= len(f[0]) <= 12 and 1 <= len(f[1])
                    and len(f[0]) + len(f[1]) <= 30 and all(c in CPREF for c in f[1])
                    and bool(NUM.match(f[2])) and len(f[2]) <= 12)
        if s == "gid":
            return all(NUM.match(x) for x in f) and all(
                len(x) < 20 and int(x) < 1 << n for x, n in zip(f, (28, 24, 36)))
        if s == "usdod":
            return (len(f[0]) in (5, 6) and all(c in CAGE for c in f[0]) and bool(NUM.match(f[1]))
                    and len(f[1]) < 20 and int(f[1]) < 1 << 36)
        if s == "adi":
            ser = f[2][1:] if f[2][:1] == "#" else f[2]
            return (len(f[0]) in (5, 6) and all(c in CAGE for c in f[0]) and len(f[1]) <= 32
                    and all(c in ADICH for c in f[1]) and len(ser) >= 1 and len(f[2]) <= 30
                    and all(c in ADICH for c in ser))
        if s == "bic":
            return bool(re.match(r"[A-HJ-NP-Z]{3}[JUZ][0-9]{7}\Z", f[0]))
        if s == "imovn":
            return digits(f[0], 7)
        raise KeyError(s)

    # -- text forms -----------------------------------------------------------------
    def body(self):
        s, f = self.scheme, self.f
        if s in PREFIX and PREFIX[s][2]:
            return ".".join(f[:-1]) + "." + esc(f[-1])
        if s in ("giai", "ginc"):
            return f[0] + "." + esc(f[1])
        if s in ("cpi", "adi"):
            return ".".join(cpesc(x) for x in f)
        return ".".join(f)

    def uri(self):
        return "urn:epc:%s:%s:%s" % ("class" if self.scheme == "lgtin" else "id", self.scheme, self.body())

    def core(self):
        """digits of the GS1 key without serial, check digit included"""
        tot, ind, _ = PREFIX[self.scheme]
        p, r = self.f[0], self.f[1]
        d = r[0] + p + r[1:] if ind else p + r
        return d + check_digit(d)

    def gs1_key(self, gtin_len=14):
        s = self.scheme
        if s in ("sgtin", "lgtin"):
            k = self.core()
            if k[:14 - gtin_len].strip("0"):
                return None
            return k[14 - gtin_len:]
        if s in ("sscc", "gsrn", "gsrnp", "sgln", "gsin", "pgln"):
            return self.core()
        if s in ("grai", "gdti", "sgcn"):
            return self.core() + self.f[2]
        if s in ("giai", "ginc"):
            return self.f[0] + self.f[1]
        return False

    def element_string(self):
        s, f = self.scheme, self.f
        if s == "sgtin":
            return "(01)%s(21)%s" % (self.core(), f[2])
        if s == "lgtin":
            return "(01)%s(10)%s" % (self.core(), f[2])
        if s == "upui":
            return "(01)%s(235)%s" % (self.core(), f[2])
        if s == "itip":
            return "(8006)%s%s%s(21)%s" % (self.core(), f[2], f[3], f[4])
        if s == "sgln":
            return "(414)%s(254)%s" % (self.core(), f[2])
        if s == "cpi":
            return "(8010)%s%s(8011)%s" % f
        if s == "grai":
            return "(8003)0" + self.gs1_key()
        ai = {"sscc": "00", "giai": "8004", "gsrn": "8018", "gsrnp": "8017", "gdti": "253", "sgcn": "255",
              "ginc": "401", "gsin": "402", "pgln": "417"}.get(s)
        return "(%s)%s" % (ai, self.gs1_key()) if ai else False

    def prefix_len(self):
        return len(self.f[0]) if self.scheme in PREFIX or self.scheme in ("giai", "ginc", "cpi") else None

    # -- tag forms ------------------------------------------------------------------
    def tag_uri(self, coding, flt):
        self.encode(coding, flt)
        if CODINGS[coding][1] == 0:
            return "urn:epc:tag:%s:%s" % (coding, self.body())
        return "urn:epc:tag:%s:%d.%s" % (coding, flt, self.body())

    def encodable(self, coding):
        try:
            self.encode(coding, 0)
            return True
        except Bad:
            return False

    def encode(self, coding, flt):
        """bit string (no word padding); Bad when the coding cannot represent the identity"""
        if coding.split("-")[0] != self.scheme or not self.valid():
            raise Bad("scheme")
        h, fb = CODINGS[coding]
        out = b(h, 8) + (b(flt, fb) if fb else "")
        f = self.f
        if coding == "gid-96":
            return out + b(f[0], 28) + b(f[1], 24) + b(f[2], 36)
        if coding == "usdod-96":
            return out + "".join(b(ord(c), 8) for c in f[0].rjust(6)) + b(f[1], 36)
        if coding == "adi-var":
            return (out + "".join(six(c) for c in f[0].rjust(6)) + "".join(map(six, f[1])) + "000000"
                    + "".join(map(six, f[2])) + "000000")
        L = len(f[0])
        out += b(12 - L, 3) + b(f[0], M[L])
        if coding in ("giai-96", "giai-202"):
            n = (82 if coding == "giai-96" else 188) - M[L]
            if coding == "giai-96":
                if not NUM.match(f[1]):
                    raise Bad("leading zero or not numeric")
                return out + b(f[1], n)
            return out + self._str(f[1], n // 7, n)
        if coding == "cpi-96":
            if not NUM.match(f[1]) or len(f[1]) > 15 - L:
                raise Bad("reference")
            return out + b(f[1], 51 - M[L]) + b(f[2], 31)
        if coding == "cpi-var":
            return out + "".join(map(six, f[1])) + "000000" + b(f[2], 40)
        tot, (kind, n) = LAYOUT[coding]
        out += b(f[1] or "0", tot - M[L])
        if self.scheme == "itip":
            out += b(f[2], 7) + b(f[3], 7)
        if kind == "zero":
            return out + "0" * n
        ser = f[-1]
        if kind == "int":
            if not NUM.match(ser):
                raise Bad("leading zero or not numeric")
            return out + b(ser, n)
        if kind == "numstr":
            return out + b("1" + ser, n)
        return out + self._str(ser, n, n * 7)

    @staticmethod
    def _str(s, chars, bits):
        if len(s) > chars:
            raise Bad("too long")
        return "".join(b(ord(c), 7) for c in s).ljust(bits, "0")


def words(bits):
    """pad to 16-bit words, as tag memory holds them"""
    bits += "0" * (-len(bits) % 16)
    return [int(bits[i:i + 16], 2) for i in range(0, len(bits), 16)]


def words_hex(ws):
    return "".join("%04X" % w for w in ws)


def words_bits(ws):
    return "".join(format(w, "016b") for w in ws)


def decode(bits):
    """(identity, coding, filter, strict) spelled out by a bit string, or Bad.

    strict is False when reserved bits or non-canonical fillers were ignored; a reader may
    then refuse the data as well.
    """
    if len(bits) < 8 or bits.strip("01"):
        raise Bad("short")
    coding = HEADER.get(int(bits[:8], 2))
    if coding is None:
        raise Bad("header")
    scheme = coding.split("-")[0]
    need = LENGTH.get(coding)
    if need is not None:
        if len(bits) < need:
            raise Bad("short")
        bits = bits[:need]
    p = [8]

    def take(n):
        if p[0] + n > len(bits):
            raise Bad("short")
        v = bits[p[0]:p[0] + n]
        p[0] += n
        return v

    def num(n):
        return int(take(n), 2)
    fb = CODINGS[coding][1]
    flt = num(fb) if fb else None
    strict = True

    def chars7(n):
        nonlocal strict
        out, end = "", False
        for _ in range(n):
            v = num(7)
            if v == 0:
                end = True
            elif end:
                raise Bad("after terminator")
            else:
                out += chr(v)
        return out

    def chars6():
        out = ""
        while True:
            g = take(6)
            if g == "000000":
                return out
            out += unsix(g)

    def done(*f):
        i = Ident(scheme, *f)
        if not i.valid():
            raise Bad("invalid")
        return i, coding, flt, strict

    if coding == "gid-96":
        return done(str(num(28)), str(num(24)), str(num(36)))
    if coding == "usdod-96":
        raw = "".join(chr(num(8)) for _ in range(6))
        cage = raw.replace(" ", "")
        if raw != cage.rjust(6):
            strict = False
        return done(cage, str(num(36)))
    if coding == "adi-var":
        raw = "".join(unsix(take(6)) for _ in range(6))
        cage = raw[1:] if raw[0] == " " else raw
        if "@" in cage:                         # six zero bits inside the code
            strict = False
            cage = cage[:cage.index("@")]
        return done(cage, chars6(), chars6())
    P = num(3)
    if P > 6:
        raise Bad("partition")
    L = 12 - P
    c = num(M[L])
    if c >= 10 ** L:
        raise Bad("prefix")
    pref = str(c).zfill(L)
    if coding in ("giai-96", "giai-202"):
        n = (82 if coding == "giai-96" else 188) - M[L]
        if coding == "giai-96":
            return done(pref, str(num(n)))
        ref = chars7(n // 7)
        if n % 7 and num(n % 7):
            strict = False
        return done(pref, ref)
    if coding == "cpi-96":
        ref = str(num(51 - M[L]))
        if len(ref) > 15 - L:
            strict = False
        return done(pref, ref, str(num(31)))
    if coding == "cpi-var":
        ref = chars6()
        return done(pref, ref, str(num(40)))
    tot, (kind, n) = LAYOUT[coding]
    K = PREFIX[scheme][0] - L
    v = num(tot - M[L])
    if K == 0:
        if v:
            strict = False
        ref = ""
    else:
        if v >= 10 ** K:
            raise Bad("reference")
        ref = str(v).zfill(K)
    f = [pref, ref]
    if scheme == "itip":
        for _ in range(2):
            v = num(7)
            if v > 99:
                raise Bad("piece")
            f.append("%02d" % v)
    if kind == "zero":
        if num(n):
            strict = False
    elif kind == "int":
        f.append(str(num(n)))
    elif kind == "numstr":
        s = str(num(n))
        if s[0] != "1" or len(s) < 2:
            raise Bad("numeric string")
        f.append(s[1:])
    else:
        f.append(chars7(n))
    return done(*f)


UNESC = {v: k for k, v in ESC.items()}


def unesc(s):
    """strict: only the seven mandatory escapes, upper case"""
    out, i = "", 0
    while i < len(s):
        if s[i] == "%":
            e = s[i:i + 3]
            if e not in UNESC:
                raise Bad("escape")
            out += UNESC[e]
            i += 3
        elif s[i] in GS3A3 and s[i] not in ESC:
            out += s[i]
            i += 1
        else:
            raise Bad("char")
    return out


def parse_uri(u):
    """strict parser of a pure identity URI; Bad when it is not canonical and valid"""
    m = re.match(r"urn:epc:(id|class):([a-z]+):(.*)\Z", u, re.S)
    if not m or m.group(2) not in SCHEMES or (m.group(1) == "class") != (m.group(2) == "lgtin"):
        raise Bad("uri")
    s, body = m.group(2), m.group(3)
    if s in PREFIX:
        n = 1 + bool(PREFIX[s][2]) + (2 if s == "itip" else 0)
        f = body.split(".", n)
        if len(f) != n + 1:
            raise Bad("fields")
        if PREFIX[s][2] and PREFIX[s][2][0] == "gs":
            f[-1] = unesc(f[-1])
    elif s in ("giai", "ginc"):
        f = body.split(".", 1)
        if len(f) != 2:
            raise Bad("fields")
        f[1] = unesc(f[1])
    elif s in ("cpi", "adi"):
        f = body.split(".")
        if len(f) != 3:
            raise Bad("fields")
        if "/" in body or "#" in body:
            raise Bad("escape")
        f = [x.replace("%2F", "/").replace("%23", "#") for x in f]
        if any("%" in x for x in f):
            raise Bad("escape")
    else:
        f = body.split(".")
        if len(f) != {"gid": 3, "usdod": 2, "bic": 1, "imovn": 1}[s]:
            raise Bad("fields")
    i = Ident(s, *f)
    if not i.valid() or i.uri() != u:
        raise Bad("invalid")
    return i


def parse_tag_uri(u):
    """(identity, coding, filter); Bad when not canonical and valid"""
    m = re.match(r"urn:epc:tag:([a-z]+-[0-9a-z]+):(.*)\Z", u, re.S)
    if not m or m.group(1) not in CODINGS:
        raise Bad("tag uri")
    coding, rest = m.groups()
    flt = None
    if CODINGS[coding][1]:
        f, _, rest = rest.partition(".")
        if not NUM.match(f) or len(f) > 3:
            raise Bad("filter")
        flt = int(f)
    i = parse_uri("urn:epc:id:%s:%s" % (coding.split("-")[0], rest))
    return i, coding, flt
