"""Abstract value domains: integers, strings/bytes, tuples and their union."""

from . import charset as C
from .charset import CharSet

INF = float("inf")
ONLY_MAX = 48


class IntF:
    __slots__ = ("lo", "hi", "excl")

    def __init__(self, lo, hi, excl=frozenset()):
        self.lo, self.hi, self.excl = lo, hi, excl

    @staticmethod
    def make(lo, hi, excl=frozenset()):
        if excl:
            while lo in excl:
                lo += 1
            while hi in excl:
                hi -= 1
            excl = frozenset(e for e in excl if lo < e < hi)
        if lo > hi:
            return None
        return IntF(lo, hi, excl)

    def __eq__(self, o):
        return (
            isinstance(o, IntF)
            and self.lo == o.lo
            and self.hi == o.hi
            and self.excl == o.excl
        )

    def __hash__(self):
        return hash((self.lo, self.hi, self.excl))

    def has(self, v):
        return self.lo <= v <= self.hi and v not in self.excl

    def const(self):
        return self.lo if self.lo == self.hi else None

    def join(self, o):
        ex = frozenset(
            e for e in self.excl | o.excl if not self.has(e) and not o.has(e)
        )
        return IntF.make(min(self.lo, o.lo), max(self.hi, o.hi), ex)

    def meet(self, o):
        return IntF.make(
            max(self.lo, o.lo), min(self.hi, o.hi), self.excl | o.excl
        )

    def __repr__(self):
        e = "" if not self.excl else "\\%s" % sorted(self.excl)
        return "[%s,%s]%s" % (self.lo, self.hi, e)


THRESH = [-(2**32), -65536, -256, -1, 0, 1, 2, 3, 4, 7, 8, 9, 255, 256, 4300, 65535,
          65536, 2**32 - 1, 2**32]


def widen_int(old, new):
    lo, hi = new.lo, new.hi
    if lo < old.lo:
        c = [t for t in THRESH if t <= lo]
        lo = max(c) if c else -INF
    if hi > old.hi:
        c = [t for t in THRESH if t >= hi]
        hi = min(c) if c else INF
    return IntF.make(lo, hi, new.excl)


class StrF:
    """cs: all possible code points; lo..hi: length; only: finite set of the
    possible strings, or None; excl: strings it cannot be; first/last: possible
    first/last code points when non-empty; enc: for each percent-encoder whose
    output can be part of it, the set of input code points that encoder
    replaced."""

    __slots__ = ("cs", "lo", "hi", "only", "excl", "first", "last", "enc")

    def __init__(self, cs, lo, hi, only, excl, first, last, enc):
        self.cs, self.lo, self.hi, self.only = cs, lo, hi, only
        self.excl, self.first, self.last, self.enc = excl, first, last, enc

    def key(self):
        return (self.cs, self.lo, self.hi, self.only, self.excl, self.first,
                self.last, self.enc)

    def __eq__(self, o):
        return isinstance(o, StrF) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.only is not None:
            s = "|".join(repr(x) for x in sorted(self.only)[:6])
            if len(self.only) > 6:
                s += "|..%d" % len(self.only)
        else:
            s = "str%r{%s..%s}" % (self.cs, self.lo, self.hi)
            if self.excl:
                s += "!%s" % sorted(self.excl)[:4]
            if self.first != self.cs:
                s += "^%r" % self.first
            if self.last != self.cs:
                s += "$%r" % self.last
        if self.enc:
            s += " enc%r" % (list(self.enc),)
        return s


NOENC = frozenset()


def mkstr(cs=C.ANY, lo=0, hi=INF, only=None, excl=frozenset(), first=None,
          last=None, enc=NOENC):
    if only is not None:
        o = set()
        for s in only:
            if not (lo <= len(s) <= hi) or s in excl:
                continue
            if s:
                if not (C.of(s) <= cs):
                    continue
                if first is not None and s[0] not in first:
                    continue
                if last is not None and s[-1] not in last:
                    continue
            o.add(s)
        if not o:
            return None
        cs = C.of("".join(sorted(o)))
        lo = min(len(s) for s in o)
        hi = max(len(s) for s in o)
        first = C.of("".join(s[:1] for s in o))
        last = C.of("".join(s[-1:] for s in o))
        return StrF(cs, lo, hi, frozenset(o), frozenset(), first, last, enc)
    first = cs if first is None else first & cs
    last = cs if last is None else last & cs
    if excl:
        if "" in excl and lo == 0:
            lo = 1
        if hi == 1:
            for e in excl:
                if len(e) == 1:
                    cs = cs - C.of(e)
        excl = frozenset(
            e for e in excl if e and lo <= len(e) <= hi and C.of(e) <= cs
            and e[0] in first and e[-1] in last
        )
    if hi == 1:
        cs = first = last = cs & first & last
        excl = frozenset(e for e in excl if len(e) > 1)
    if not cs or not first or not last:
        hi = 0
    if lo > hi:
        return None
    if hi == 0:
        return StrF(C.EMPTY, 0, 0, frozenset([""]), frozenset(), C.EMPTY,
                    C.EMPTY, enc)
    if hi == 1 and lo == 1 and cs.size() <= ONLY_MAX:
        o = frozenset(cs.chars())
        return StrF(cs, 1, 1, o, frozenset(), cs, cs, enc)
    return StrF(cs, lo, hi, None, excl, first, last, enc)


def sconst(s):
    return mkstr(only=[s])


def can_be(f, s):
    """Can a string described by f be exactly s?"""
    if f.only is not None:
        return s in f.only
    if not (f.lo <= len(s) <= f.hi) or s in f.excl:
        return False
    if s and (not (C.of(s) <= f.cs) or s[0] not in f.first
              or s[-1] not in f.last):
        return False
    return True


def sjoin(a, b):
    if a == b:
        return a
    enc = a.enc | b.enc
    if a.only is not None and b.only is not None:
        o = a.only | b.only
        if len(o) <= ONLY_MAX:
            return mkstr(only=o, enc=enc)
    ex = frozenset(
        e for e in a.excl | b.excl if not can_be(a, e) and not can_be(b, e)
    )
    # keep small knowledge: exclusions that one side has by being finite/short
    r = mkstr(a.cs | b.cs, min(a.lo, b.lo), max(a.hi, b.hi), None, ex,
              a.first | b.first, a.last | b.last, enc)
    return r


def smeet(a, b):
    if a == b:
        return a
    if a.only is not None or b.only is not None:
        o = a.only if a.only is not None else b.only
        o = [s for s in o if can_be(a, s) and can_be(b, s)]
        if not o:
            return None
        return mkstr(only=o, enc=a.enc & b.enc if a.enc and b.enc else a.enc | b.enc)
    return mkstr(a.cs & b.cs, max(a.lo, b.lo), min(a.hi, b.hi), None,
                 a.excl | b.excl, a.first & b.first, a.last & b.last,
                 a.enc & b.enc if a.enc and b.enc else a.enc | b.enc)


def scat(a, b):
    enc = a.enc | b.enc
    if a.only is not None and b.only is not None and (
        len(a.only) * len(b.only) <= ONLY_MAX
    ):
        return mkstr(only=[x + y for x in a.only for y in b.only], enc=enc)
    first = a.first if a.lo > 0 else a.first | b.first
    last = b.last if b.lo > 0 else b.last | a.last
    return mkstr(a.cs | b.cs, a.lo + b.lo, a.hi + b.hi, None, frozenset(),
                 first, last, enc)


def swiden(old, new):
    lo, hi = new.lo, new.hi
    if new.only is not None and old.only is not None and new.only != old.only \
            and len(new.only) > 12:
        return mkstr(new.cs, min(lo, 1), INF, None, frozenset(), new.first,
                     new.last, new.enc)
    if lo < old.lo:
        lo = 0 if lo == 0 else min(lo, 1)
    if hi > old.hi:
        hi = INF
    if (lo, hi) == (new.lo, new.hi):
        return new
    return mkstr(new.cs, lo, hi, None, new.excl, new.first, new.last, new.enc)


class TupF:
    """A tuple that is not an exact tuple term: either exact item facts, or an
    element fact with length bounds."""

    __slots__ = ("items", "elem", "lo", "hi")

    def __init__(self, items=None, elem=None, lo=0, hi=INF):
        self.items, self.elem, self.lo, self.hi = items, elem, lo, hi
        if items is not None:
            self.lo = self.hi = len(items)

    def __eq__(self, o):
        return isinstance(o, TupF) and (
            self.items, self.elem, self.lo, self.hi
        ) == (o.items, o.elem, o.lo, o.hi)

    def __hash__(self):
        return hash((self.items, self.elem, self.lo, self.hi))

    def element(self):
        if self.items is not None:
            f = BOT
            for i in self.items:
                f = f.join(i)
            return f
        return self.elem

    def join(self, o):
        if self == o:
            return self
        if self.items is not None and o.items is not None and len(
            self.items
        ) == len(o.items):
            return TupF(tuple(a.join(b) for a, b in zip(self.items, o.items)))
        return TupF(None, self.element().join(o.element()),
                    min(self.lo, o.lo), max(self.hi, o.hi))

    def meet(self, o):
        if self.items is not None and o.items is not None:
            if len(self.items) != len(o.items):
                return None
            it = tuple(a.meet(b) for a, b in zip(self.items, o.items))
            return None if any(f.is_bot() for f in it) else TupF(it)
        if self.items is not None:
            return self if o.lo <= self.lo and self.hi <= o.hi else None
        if o.items is not None:
            return o.meet(self)
        lo, hi = max(self.lo, o.lo), min(self.hi, o.hi)
        if lo > hi:
            return None
        return TupF(None, self.elem.meet(o.elem), lo, hi)

    def __repr__(self):
        if self.items is not None:
            return "tup%r" % (self.items,)
        return "tup(%r*%s..%s)" % (self.elem, self.lo, self.hi)


class Fact:
    """A union of type components.  x: possibly anything (imprecision)."""

    __slots__ = ("none", "b", "i", "s", "y", "t", "o", "x", "_h")

    def __init__(self, none=False, b=0, i=None, s=None, y=None, t=None,
                 o=frozenset(), x=False):
        self.none, self.b, self.i, self.s = none, b, i, s
        self.y, self.t, self.o, self.x = y, t, o, x
        self._h = None

    def key(self):
        return (self.none, self.b, self.i, self.s, self.y, self.t, self.o,
                self.x)

    def __eq__(self, o):
        return self is o or (isinstance(o, Fact) and self.key() == o.key())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def is_bot(self):
        return not (self.none or self.b or self.i or self.s or self.y
                    or self.t or self.o or self.x)

    def join(self, o):
        if self == o or o.is_bot():
            return self
        if self.is_bot():
            return o
        return Fact(
            self.none or o.none,
            self.b | o.b,
            _j(self.i, o.i, IntF.join),
            _j(self.s, o.s, sjoin),
            _j(self.y, o.y, sjoin),
            _j(self.t, o.t, TupF.join),
            self.o | o.o,
            self.x or o.x,
        )

    def meet(self, o):
        if self == o:
            return self
        if self.x and o.x:
            return self
        if self.x:
            return o
        if o.x:
            return self
        return Fact(
            self.none and o.none,
            self.b & o.b,
            _m(self.i, o.i, IntF.meet),
            _m(self.s, o.s, smeet),
            _m(self.y, o.y, smeet),
            _m(self.t, o.t, TupF.meet),
            self.o & o.o,
            False,
        )

    def widen(self, new):
        """self: old; new: join(old, ...)."""
        r = new
        if self.i and new.i and self.i != new.i:
            r = r.with_(i=widen_int(self.i, new.i))
        if self.s and new.s and self.s != new.s:
            r = r.with_(s=swiden(self.s, new.s))
        if self.y and new.y and self.y != new.y:
            r = r.with_(y=swiden(self.y, new.y))
        if self.t and new.t and self.t != new.t:
            if self.t.items is not None and new.t.items is not None:
                r = r.with_(t=TupF(tuple(
                    a.widen(b) for a, b in zip(self.t.items, new.t.items))))
            elif new.t.items is None:
                r = r.with_(t=TupF(None, new.t.elem, min(new.t.lo, 1), INF))
        return r

    def with_(self, **kw):
        d = dict(none=self.none, b=self.b, i=self.i, s=self.s, y=self.y,
                 t=self.t, o=self.o, x=self.x)
        d.update(kw)
        return Fact(**d)

    def ncomp(self):
        return (bool(self.none) + bool(self.b) + (self.i is not None)
                + (self.s is not None) + (self.y is not None)
                + (self.t is not None) + len(self.o) + bool(self.x))

    def __repr__(self):
        out = []
        if self.none:
            out.append("None")
        if self.b:
            out.append({1: "False", 2: "True", 3: "bool"}[self.b])
        for n in ("i", "s", "t"):
            v = getattr(self, n)
            if v is not None:
                out.append(repr(v))
        if self.y is not None:
            out.append("b" + repr(self.y))
        if self.o:
            out.append("obj%s" % sorted(self.o))
        if self.x:
            out.append("?")
        return "|".join(out) or "BOT"


def _j(a, b, f):
    if a is None:
        return b
    if b is None:
        return a
    return f(a, b)


def _m(a, b, f):
    if a is None or b is None:
        return None
    return f(a, b)


BOT = Fact()
UNKNOWN = Fact(x=True)
NONE = Fact(none=True)
BOOL = Fact(b=3)
TRUE = Fact(b=2)
FALSE = Fact(b=1)
INT = Fact(i=IntF(-INF, INF))
NAT = Fact(i=IntF(0, INF))


def fint(lo, hi):
    return Fact(i=IntF.make(lo, hi))


def fstr(*a, **k):
    s = mkstr(*a, **k)
    return Fact(s=s) if s is not None else BOT


STR = fstr()
BYTES = Fact(y=mkstr(C.BYTE))


def fbytes(cs=C.BYTE, lo=0, hi=INF, **k):
    return Fact(y=mkstr(cs, lo, hi, **k))
