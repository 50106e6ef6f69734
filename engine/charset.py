"""Sets of code points as sorted, disjoint, inclusive intervals."""

from functools import lru_cache

MAX = 0x10FFFF


class CharSet:
    __slots__ = ("r", "h")

    def __init__(self, r):
        self.r = r
        self.h = hash(r)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, CharSet) and self.r == o.r)

    def __bool__(self):
        return bool(self.r)

    def __contains__(self, cp):
        if isinstance(cp, str):
            cp = ord(cp)
        for lo, hi in self.r:
            if cp < lo:
                return False
            if cp <= hi:
                return True
        return False

    def __or__(self, o):
        if self is o or not o.r:
            return self
        if not self.r:
            return o
        return _or(self, o)

    def __and__(self, o):
        if self is o:
            return self
        return _and(self, o)

    def __sub__(self, o):
        if not o.r or not self.r:
            return self
        return _and(self, _inv(o))

    def __le__(self, o):
        return self is o or (self | o).r == o.r

    def size(self):
        return sum(b - a + 1 for a, b in self.r)

    def chars(self, limit=None):
        out = []
        for a, b in self.r:
            for c in range(a, b + 1):
                out.append(chr(c))
                if limit is not None and len(out) >= limit:
                    return out
        return out

    def __repr__(self):
        if self.r == ((0, MAX),):
            return "<any>"
        out = []
        for a, b in self.r[:24]:
            f = lambda x: (
                chr(x) if 0x21 <= x < 0x7F and x not in (0x2C, 0x2D) else "%X" % x
            )
            out.append(f(a) if a == b else f(a) + "-" + f(b))
        if len(self.r) > 24:
            out.append("...")
        return "<" + ",".join(out) + ">"


def norm(ranges):
    rs = sorted((a, b) for a, b in ranges if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return CharSet(tuple(out))


@lru_cache(maxsize=100000)
def _or(a, b):
    return norm(a.r + b.r)


@lru_cache(maxsize=100000)
def _and(a, b):
    out = []
    i = j = 0
    ar, br = a.r, b.r
    while i < len(ar) and j < len(br):
        lo = max(ar[i][0], br[j][0])
        hi = min(ar[i][1], br[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if ar[i][1] < br[j][1]:
            i += 1
        else:
            j += 1
    return CharSet(tuple(out))


@lru_cache(maxsize=100000)
def _inv(a):
    out = []
    p = 0
    for lo, hi in a.r:
        if p <= lo - 1:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAX:
        out.append((p, MAX))
    return CharSet(tuple(out))


@lru_cache(maxsize=100000)
def of(s):
    """The set of the code points of a str, or of the values of a bytes."""
    if isinstance(s, (bytes, bytearray)):
        return norm([(c, c) for c in s])
    return norm([(ord(c), ord(c)) for c in s])


def rng(a, b):
    return norm([(a, b)])


EMPTY = CharSet(())
ANY = CharSet(((0, MAX),))
ASCII = rng(0, 0x7F)
SURR = rng(0xD800, 0xDFFF)
SCALAR = ANY - SURR
BYTE = rng(0, 255)
HEXUP = of("0123456789ABCDEF")
DIGITS = of("0123456789")
ALPHA = of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
ALNUM = ALPHA | DIGITS
UPPER = of("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOWER = of("abcdefghijklmnopqrstuvwxyz")
HEX = of("0123456789abcdefABCDEF")
NONASCII = ANY - ASCII


@lru_cache(maxsize=None)
def by_pred(name):
    """Interval set of all code points whose one-character string satisfies a
    str predicate method (isdigit, isalpha, isspace, ...).  This tabulates the
    Unicode database of Python itself, not the analysed code."""
    out = []
    start = None
    for cp in range(MAX + 1):
        ok = getattr(chr(cp), name)()
        if ok and start is None:
            start = cp
        elif not ok and start is not None:
            out.append((start, cp - 1))
            start = None
    if start is not None:
        out.append((start, MAX))
    return CharSet(tuple(out))
