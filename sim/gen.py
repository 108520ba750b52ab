"""Seeded generation of identities and variations of them (workload, not schedule)."""
from . import model
from .model import Ident, M

NAMES = {s: s.upper() for s in model.SCHEMES}
GS = sorted(model.GS3A3)
GSPLAIN = [c for c in GS if c.isalnum()]
GSESC = sorted(model.ESC)
CP = sorted(model.CPREF)
ADI = sorted(model.ADICH)
CAGE = sorted(model.CAGE)


TOKENS = ["%22", "%2F", "%25", "(21)", "(10)", "(254)", "(8011)", "%3C%3E", "..", "::", "%", "?", "(0A)", "id", "idpat", "pat",
          "urn:epc:id:", "sgtin", "tag", "class", "-96", "*", ".*", "%%", "'", "--", "(01)", "None", "nan", "0x1", "1e5", "1_0"]
MINED = []
NUMBERS = []
# separators that occur in the scheme's own texts
OWN = {"sgtin": ["(21)", "(01)"], "lgtin": ["(10)", "(01)"], "upui": ["(235)", "(01)"], "itip": ["(21)", "(8006)"],
       "sgln": ["(254)", "(414)"], "grai": ["(8003)", "(8003)0"], "giai": ["(8004)"], "gdti": ["(253)"], "ginc": ["(401)"]}


WORDS = []


def constants(package):
    """every constant in the code of the package"""
    import sys
    import types

    def flat(x):
        if isinstance(x, types.CodeType):
            for y in x.co_consts:
                yield from flat(y)
        elif isinstance(x, (tuple, frozenset)):
            for y in sorted(x, key=repr):
                yield from flat(y)
        else:
            yield x
    for n in sorted(sys.modules):
        m = sys.modules[n]
        if n == package or n.startswith(package + "."):
            for v in list(vars(m).values()):
                if isinstance(v, types.FunctionType) and v.__module__ == n:
                    yield from flat(v.__code__)
                elif isinstance(v, type) and v.__module__ == n:
                    for w in list(vars(v).values()):
                        f = getattr(w, "__func__", w)
                        f = getattr(f, "fget", f)
                        if isinstance(f, types.FunctionType):
                            yield from flat(f.__code__)
                elif isinstance(v, (str, int)):
                    yield v
            try:
                with open(m.__file__) as f:
                    yield from flat(compile(f.read(), m.__file__, "exec"))
            except (OSError, TypeError, AttributeError):
                pass


def mine(package):
    """texts and numbers that appear in the code of the package, used as parts of identities"""
    texts, nums = set(), set()
    for x in constants(package):
        if isinstance(x, str) and 1 <= len(x) <= 12 and all(c in model.GS3A3 for c in x):
            texts.add(x)
            if x.isdigit() and x.isascii():
                nums.add(int(x))
        elif isinstance(x, bool):
            pass
        elif isinstance(x, int) and 0 <= x < 1 << 64:
            nums.add(x)
            if x < 64:
                nums.update((2 ** x, 10 ** x if x < 20 else 2 ** x))
    for t in sorted(texts):
        if t not in TOKENS:
            MINED.append(t)
    NUMBERS[:] = sorted(nums)


def all_texts(package):
    return [x for x in constants(package) if isinstance(x, str)]


def asked(package):
    """texts in code that looks at the environment"""
    import sys
    import types
    out = set()

    def walk(c):
        near = {"environ", "getenv", "environb", "expandvars"} & set(c.co_names)
        for x in c.co_consts:
            if isinstance(x, types.CodeType):
                walk(x)
            elif near and isinstance(x, str) and x.isidentifier():
                out.add(x)
    for n in sorted(sys.modules):
        if n == package or n.startswith(package + "."):
            try:
                with open(sys.modules[n].__file__) as f:
                    walk(compile(f.read(), n, "exec"))
            except (OSError, TypeError, AttributeError):
                pass
    return sorted(out)


def dstr(r, n):
    k = r.random()
    if n == 0:
        return ""
    if k > 0.95 and NUMBERS:
        x = str(max(0, r.choice(NUMBERS) + r.choice([-1, 0, 0, 1])))
        if len(x) <= n:
            return x.zfill(n) if r.random() < 0.5 else x.ljust(n, "0")
    if k < 0.08:
        return "0" * n
    if k < 0.16:
        return "9" * n
    if k < 0.3:
        z = r.randint(0, n)
        return "0" * z + "".join(r.choice("0123456789") for _ in range(n - z))
    return "".join(r.choice("0123456789") for _ in range(n))


def nint(r, bits, maxdigits=99):
    """decimal numeral below 2**bits, biased to boundaries"""
    k = r.random()
    top = min((1 << bits) - 1, 10 ** maxdigits - 1)
    if k < 0.08:
        v = 0
    elif k < 0.16:
        v = top
    elif k < 0.2:
        v = top - r.randint(0, 3)
    elif k < 0.35:
        v = min(top, 10 ** r.randint(0, len(str(top)) - 1) + r.randint(-1, 1))
    elif k < 0.45 and NUMBERS:
        v = r.choice(NUMBERS) + r.choice([-1, 0, 0, 1])
    elif k < 0.6:
        v = r.getrandbits(r.randint(1, bits))
    else:
        v = r.randint(0, top)
    return str(max(0, min(v, top)))


def chars(r, alphabet, lo, hi, special="", p_special=0.0):
    k = r.random()
    n = hi if k < 0.15 else lo if k < 0.25 else r.randint(lo, hi)
    out = "".join(r.choice(special) if special and r.random() < p_special else r.choice(alphabet)
                  for _ in range(n))
    return out


def gs_serial(r, lo, hi, bits=None, scheme=None):
    """gs3a3 string; sometimes a numeral (encodable as integer), sometimes nearly one"""
    k = r.random()
    if bits and k < 0.35:
        s = nint(r, bits)
        if lo <= len(s) <= hi:
            return s
    if k < 0.45:
        return chars(r, "0123456789", lo, hi)
    if k < 0.5 and bits:
        s = str((1 << bits) + r.randint(0, 5))
        if lo <= len(s) <= hi:
            return s
    if k < 0.55:
        n = r.randint(max(lo, 2), min(hi, 8))
        return "0" + chars(r, "0123456789", n - 1, n - 1)
    if k < 0.65:
        return chars(r, GSPLAIN, lo, hi)
    if k < 0.75:
        return chars(r, GSPLAIN, lo, hi, GSESC, 0.5)
    if k < 0.8:
        return chars(r, "()0123456789", lo, hi)
    if k < 0.84:
        return chars(r, ".:-_0A%", lo, hi)
    if k < 0.91:        # text that looks like an escape or an application identifier
        k = r.random()
        t = r.choice(OWN[scheme] if k < 0.3 and scheme in OWN else MINED if k > 0.65 and MINED else TOKENS)
        t = (chars(r, GSPLAIN, 0, 3) * r.randrange(2) + t + chars(r, GSPLAIN, 0, 6))[:hi]
        if len(t) >= lo:
            return t
    return chars(r, GS, lo, hi)


SERIAL_BITS = {"sgtin": 38, "sgln": 41, "grai": 38, "gdti": 41, "itip": 38}


def prefix(r):
    L = r.randint(6, 12)
    return dstr(r, L)


def ident(r, scheme=None, pref=None):
    s = scheme or r.choice(model.SCHEMES)
    P = model.PREFIX.get(s)
    if P:
        p = pref or prefix(r)
        f = [p, dstr(r, P[0] - len(p))]
        if s in ("sgtin", "lgtin") and not pref and r.random() < 0.15:
            # also a GTIN-13, GTIN-12 or GTIN-8
            z = r.choice([1, 2, 6, 6])
            d = "0" * (z - 1) + dstr(r, 13 - z)
            f = [d[:len(p)], "0" + d[len(p):]]
        if s == "itip":
            f += ["%02d" % r.choice([0, 1, 2, 9, 10, 50, 98, 99, r.randint(0, 99)]) for _ in range(2)]
        if P[2]:
            k, lo, hi = P[2]
            f.append(dstr(r, r.randint(lo, hi)) if k == "dig" else gs_serial(r, lo, hi, SERIAL_BITS.get(s), s))
        return Ident(s, *f)
    if s in ("giai", "ginc"):
        p = pref or prefix(r)
        n = 82 - M[len(p)]
        return Ident(s, p, gs_serial(r, 1, 30 - len(p), n, s))
    if s == "cpi":
        p = pref or prefix(r)
        if r.random() < 0.4:
            ref = nint(r, 60, 15 - len(p))
        elif r.random() < 0.3:
            ref = dstr(r, r.randint(1, 30 - len(p)))
        else:
            ref = chars(r, CP, 1, 30 - len(p), "/#-", 0.2)
        return Ident(s, p, ref, nint(r, 31) if r.random() < 0.6 else nint(r, 40, 12))
    if s == "gid":
        return Ident(s, nint(r, 28), nint(r, 24), nint(r, 36))
    if s == "usdod":
        return Ident(s, chars(r, CAGE, 5, 6), nint(r, 36))
    if s == "adi":
        ser = chars(r, ADI, 1, 30, "-/0P", 0.3)
        if r.random() < 0.3:
            ser = "#" + ser[:29]
        return Ident(s, chars(r, CAGE, 5, 6), chars(r, ADI, 0, 32, "-/0P@"[:4], 0.3), ser)
    if s == "bic":
        return Ident(s, chars(r, "ABCDEFGHJKLMNPQRSTUVWXYZ", 3, 3) + r.choice("JUZ") + dstr(r, 7))
    if s == "imovn":
        return Ident(s, dstr(r, 7))
    raise KeyError(s)


def features(i):
    """coarse traits of an identity; pairs of them are what a catalogue should not lack"""
    out = [("prefix", i.prefix_len())]
    for n, x in enumerate(i.f):
        if not x:
            out.append((n, "empty"))
            continue
        z = len(x) - len(x.lstrip("0"))
        out.append((n, "zeros", "all" if z == len(x) else z if z < 3 else 3 + (z > 5)))
        out.append((n, "length", len(x) if len(x) < 3 else len(x) // 5 + 3))
        out.append((n, "kind", "number" if x.isdigit() else "escape" if set(x) & set(GSESC) else "text" if x.isalnum() else "mark"))
        out.append((n, "ends", x[0].isdigit(), x[-1].isdigit(), x == x[0] * len(x)))
    return out


def pairs(i):
    f = features(i)
    return {(i.scheme, a, b) for k, a in enumerate(f) for b in f[:k + 1]}


def novel(r, make, seen, tries=12):
    """of several candidates the one with most pairs of traits not seen before"""
    best = max((make() for _ in range(tries)), key=lambda i: len(pairs(i) - seen))
    seen |= pairs(best)
    return best


def sibling(r, i):
    """a different valid identity sharing most of its text with i"""
    for _ in range(20):
        f = list(i.f)
        k = r.random()
        j = ident(r, i.scheme)
        if k < 0.12:
            o = j
        elif k < 0.2 and f[-1]:
            # almost the same serial: other case, leading zero, one character more or less
            x = f[-1]
            f[-1] = r.choice([x.swapcase(), x.upper(), x.lower(), "0" + x, x.lstrip("0"), x[:-1], x + "0", x[::-1], x + x[-1]])
            o = Ident(i.scheme, *f)
        elif k < 0.5 and len(f) >= 2:
            f[-1] = j.f[-1]
            o = Ident(i.scheme, *f)
        elif k < 0.6 and i.prefix_len() and i.scheme in model.PREFIX:
            # shift the border between company prefix and reference: same digits
            d = f[0] + f[1]
            L = r.randint(6, 12)
            if L < len(d) or model.PREFIX[i.scheme][0] == 12:
                f[0], f[1] = d[:L], d[L:]
            o = Ident(i.scheme, *f)
        elif k < 0.8:
            a = r.randrange(len(f))
            if not f[a]:
                continue
            x = r.randrange(len(f[a]))
            f[a] = f[a][:x] + r.choice("0123456789") + f[a][x + 1:]
            o = Ident(i.scheme, *f)
        else:
            rel = [s for s in model.SCHEMES if s != i.scheme and len(_shape(s)) == len(f) and
                   model.PREFIX.get(s, (0,))[0] == model.PREFIX.get(i.scheme, (0,))[0]]
            if not rel:
                continue
            o = Ident(r.choice(rel), *f)
        try:
            if o.valid() and o != i:
                return o
        except Exception:
            continue
    return j


def _shape(s):
    P = model.PREFIX.get(s)
    if P:
        return [0] * (2 + bool(P[2]) + (2 if s == "itip" else 0))
    return [0] * {"giai": 2, "ginc": 2, "cpi": 3, "gid": 3, "usdod": 2, "adi": 3, "bic": 1, "imovn": 1}[s]


def nflt(coding):
    return 1 << model.CODINGS[coding][1] if model.CODINGS[coding][1] else 1


def pick_flt(r, coding):
    n = nflt(coding)
    return r.choice([0, 1, n - 1, r.randrange(n)]) if n > 1 else 0
