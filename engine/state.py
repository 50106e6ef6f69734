"""Abstract states: frames, heap, facts on value terms, refinement."""

from . import charset as C
from . import domain as D
from . import terms as t_
from .domain import BOT, Fact, IntF, INF, TupF
from .terms import (EnumVal, FALSE, NONE, T, TRUE, add_const, const, cval,
                    is_const, lin_add, lin_parts, mk, tup_items)

SYMFACT = {}  # symbol name -> base Fact


def newsym(name, fact):
    SYMFACT[name] = fact
    return t_.sym(name)


class HObj:
    """A heap object (immutable; writes replace it).
    kind: inst | list | dict | set | tuple-less externals 'ext'
    cls: ClassInfo or external name;  f: field -> term;  segs: for list/set;
    items: for dict: tuple of (key term, value term); open: dict may hold
    other keys."""

    __slots__ = ("kind", "cls", "f", "segs", "items", "open", "_h",
                 "_o", "_s")

    def __init__(self, kind, cls=None, f=None, segs=(), items=(), open=False):
        self.kind, self.cls, self.f = kind, cls, f or {}
        self.segs, self.items, self.open = segs, items, open
        self._h = self._o = self._s = None

    def key(self):
        if self._h is None:
            self._h = (self.kind, self.cls, tuple(sorted(
                self.f.items(), key=lambda p: p[0])) if self.f else (),
                self.segs, self.items, self.open)
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, HObj) and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def setf(self, name, v):
        f = dict(self.f)
        f[name] = v
        return HObj(self.kind, self.cls, f, self.segs, self.items, self.open)

    def delf(self, name):
        f = dict(self.f)
        f.pop(name, None)
        return HObj(self.kind, self.cls, f, self.segs, self.items, self.open)

    def with_segs(self, segs):
        return HObj(self.kind, self.cls, self.f, tuple(segs), self.items,
                    self.open)

    def with_items(self, items, open=None):
        return HObj(self.kind, self.cls, self.f, self.segs, tuple(items),
                    self.open if open is None else open)

    def terms(self):
        for v in self.f.values():
            yield v
        for s in self.segs:
            yield from s[1:]
        for k, v in self.items:
            yield k
            yield v

    def objs(self):
        if self._o is None:
            r = set()
            for v in self.terms():
                r |= t_.objs(v)
            self._o = frozenset(r)
        return self._o

    def syms(self):
        if self._s is None:
            r = set()
            for v in self.terms():
                r |= v.syms
            self._s = frozenset(r)
        return self._s

    def map(self, fn):
        return HObj(
            self.kind, self.cls, {k: fn(v) for k, v in self.f.items()},
            tuple((s[0],) + tuple(fn(x) for x in s[1:]) for s in self.segs),
            tuple((fn(k), fn(v)) for k, v in self.items), self.open)

    def __repr__(self):
        if self.kind in ("list", "set"):
            return "%s%r" % (self.kind, self.segs)
        if self.kind == "dict":
            return "dict%r%s" % (self.items, "+?" if self.open else "")
        c = getattr(self.cls, "name", self.cls)
        return "%s%r" % (c, self.f)


class St:
    __slots__ = ("frames", "heap", "facts", "unk", "cache", "trace")

    def __init__(self, frames=None, heap=None, facts=None, unk=frozenset(),
                 trace=None):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.unk = unk
        self.cache = {}
        self.trace = trace

    def copy(self):
        s = St(self.frames.copy(), self.heap.copy(), self.facts.copy(),
               self.unk, self.trace)
        s.cache = self.cache
        return s

    # ---- frames
    def setvar(self, fid, name, v):
        e = self.frames.get(fid)
        e = dict(e) if e else {}
        e[name] = v
        self.frames[fid] = e

    def delvar(self, fid, name):
        e = dict(self.frames.get(fid, {}))
        e.pop(name, None)
        self.frames[fid] = e

    def mark(self, trace):
        """Remember a source position on the path (for reports)."""
        self.trace = (trace, self.trace)

    def path(self, limit=40):
        out, n = [], self.trace
        while n and len(out) < limit:
            out.append(n[0])
            n = n[1]
        return list(reversed(out))

    def taint(self, why):
        if why not in self.unk:
            self.unk = self.unk | {why}

    # ---- facts
    def fact(self, t):
        op = t.op
        if op == "const":
            return const_fact(cval(t))
        f = self.cache.get(t)
        if f is None:
            c = self.cache
            if op in ("slice", "lin"):
                # bounds may refer to one another in a circle
                c[t] = self.facts.get(t, D.UNKNOWN)
            f = self._fact(t)
            c[t] = f
        return f

    def _fact(self, t):
        s = self.structural(t)
        o = self.facts.get(t)
        if o is not None:
            s = s.meet(o)
        return s

    def structural(self, t):
        fn = FACTS.get(t.op)
        if fn is None:
            return D.UNKNOWN
        return fn(self, t)

    def put_fact(self, t, f):
        """facts[t] := f (already met); no back propagation."""
        self.facts[t] = f
        self.cache = {}

    def int_iv(self, t):
        f = self.fact(t)
        if f.i is not None:
            return f.i.lo, f.i.hi
        if f.b:
            return (0 if f.b & 1 else 1), (1 if f.b & 2 else 0)
        return -INF, INF

    def live_syms(self, extra=()):
        s = set()
        for e in self.frames.values():
            for v in e.values():
                s |= v.syms
        for h in self.heap.values():
            s |= h.syms()
        for v in extra:
            s |= v.syms
        return s

    def prune_facts(self, extra=()):
        ls = self.live_syms(extra)
        ch = False
        nf = {}
        for t, f in self.facts.items():
            if t.syms <= ls:
                nf[t] = f
            else:
                ch = True
        if ch:
            self.facts = nf

    def subst(self, m):
        """Apply a term substitution everywhere."""
        memo = {}

        names = None
        if all(k.op == "sym" for k in m):
            names = frozenset(k.a[0] for k in m)

        def fn(t):
            if names is not None and names.isdisjoint(t.syms):
                return t
            return t_.subst(t, m, memo)

        frames = {}
        for fid, e in self.frames.items():
            frames[fid] = {k: fn(v) for k, v in e.items()}
        heap = {}
        for oid, h in self.heap.items():
            if names is not None and names.isdisjoint(h.syms()):
                heap[oid] = h
            else:
                heap[oid] = h.map(fn)
        nf = {}
        for t, f in self.facts.items():
            t2 = fn(t)
            if t2.op == "const":
                continue
            if t2 in nf:
                f = nf[t2].meet(f)
            nf[t2] = f
        return St(frames, heap, nf, self.unk, self.trace)


_cf = {}


def const_fact(v):
    k = (type(v), v)
    try:
        r = _cf.get(k)
    except TypeError:
        return D.UNKNOWN
    if r is None:
        r = _const_fact(v)
        _cf[k] = r
    return r


def _const_fact(v):
    if v is None:
        return D.NONE
    if v is True:
        return D.TRUE
    if v is False:
        return D.FALSE
    if isinstance(v, EnumVal):
        if isinstance(v.value, int):
            return Fact(i=IntF(v.value, v.value))
        return D.UNKNOWN
    if isinstance(v, int):
        return Fact(i=IntF(v, v))
    if isinstance(v, str):
        return Fact(s=D.sconst(v))
    if isinstance(v, bytes):
        return Fact(y=D.sconst(v.decode("latin-1")))
    if isinstance(v, tuple):
        return Fact(t=TupF(tuple(const_fact(x) for x in v)))
    return Fact(o=frozenset(["const:" + type(v).__name__]))


FACTS = {}


def fact_for(*ops):
    def deco(fn):
        for o in ops:
            FACTS[o] = fn
        return fn

    return deco


@fact_for("sym")
def _f_sym(st, t):
    return SYMFACT.get(t.a[0], D.UNKNOWN)


@fact_for("hole")
def _f_hole(st, t):
    return D.UNKNOWN


@fact_for("idx")
def _f_idx(st, t):
    return D.NAT


@fact_for("obj")
def _f_obj(st, t):
    return Fact(o=frozenset([t.a[0]]))


@fact_for("ext")
def _f_ext(st, t):
    if t.a[0].rsplit(".", 1)[-1].startswith("UIDNA_"):
        return Fact(i=IntF(0, 1 << 31))
    return Fact(o=frozenset(["ext:" + t.a[0]]))


@fact_for("func", "class", "bound", "extm", "gen", "super", "iter",
          "bltn", "module", "excv", "partial", "rx", "match", "icu")
def _f_callable(st, t):
    return Fact(o=frozenset([t.op + ":" + str(t.a[0])]))


@fact_for("tuple")
def _f_tuple(st, t):
    return Fact(t=TupF(tuple(st.fact(x) for x in t.a[0])))


def iv_mul(a, b):
    vals = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                vals.append(0)
            else:
                vals.append(x * y)
    return min(vals), max(vals)


@fact_for("lin")
def _f_lin(st, t):
    lo, hi = lin_iv(st, t)
    return Fact(i=IntF(lo, hi))


def lin_iv(st, t, deep=True):
    k, parts = lin_parts(t)
    lo = hi = k
    for a, c in parts.items():
        l, h = st.int_iv(a)
        l, h = iv_mul((l, h), (c, c))
        lo += l
        hi += h
    if deep and len(parts) >= 2 and (lo == -INF or hi == INF or True):
        # one substitution step with the known relational facts
        ps = set(parts)
        for u, f in st.facts.items():
            if u.op != "lin" or f.i is None or u is t:
                continue
            n = 0
            for x, _ in u.a[1]:
                if x in ps:
                    n += 1
            if n < 2 and n < len(u.a[1]):
                continue
            up = dict(u.a[1])
            for sgn in (1, -1):
                # t = sgn*u + rest
                rest = dict(parts)
                for a, c in up.items():
                    rest[a] = rest.get(a, 0) - sgn * c
                rest = {a: c for a, c in rest.items() if c}
                if len(rest) >= len(parts):
                    continue
                rl = rh = k - sgn * u.a[0]
                for a, c in rest.items():
                    l, h = st.int_iv(a)
                    l, h = iv_mul((l, h), (c, c))
                    rl += l
                    rh += h
                ul, uh = f.i.lo, f.i.hi
                if sgn < 0:
                    ul, uh = -uh, -ul
                lo = max(lo, rl + ul)
                hi = min(hi, rh + uh)
    return lo, hi


@fact_for("cat")
def _f_cat(st, t):
    s = None
    byts = False
    for p in t.a[0]:
        f = st.fact(p)
        x = f.s
        if x is None:
            if f.y is not None:
                x = f.y
                byts = True
            else:
                x = D.mkstr()
        s = x if s is None else D.scat(s, x)
    if not byts and s is not None and s.only is None and s.lo <= 6:
        # the constant parts rule out some of the names of dot segments
        cs = [cval(p) for p in t.a[0] if is_const(p)]
        if cs:
            e = frozenset(x for x in ALL_DOTS if any(c not in x for c in cs))
            if e:
                s = D.mkstr(s.cs, s.lo, s.hi, None, s.excl | e, s.first,
                            s.last, s.enc) or s
    return Fact(y=s) if byts else Fact(s=s)


def str_of(st, t):
    f = st.fact(t)
    if f.s is not None:
        return f.s, "s"
    if f.y is not None:
        return f.y, "y"
    return D.mkstr(), "s"


@fact_for("at")
def _f_at(st, t):
    s, k = str_of(st, t.a[0])
    i = t.a[1]
    lo, hi = st.int_iv(i)
    cs = s.cs
    if hi == lo == 0:
        cs = s.first
    elif hi == lo == -1:
        cs = s.last
    l = 1 if (0 <= lo and hi < s.lo) or (lo < 0 and hi < 0 and -lo <= s.lo) else 0
    h = 1
    if lo >= s.hi:
        h = 0
    r = D.mkstr(cs, l, h)
    if r is None:
        r = D.sconst("")
    if s.only is not None and lo == hi:
        o = {x[lo:lo + 1] if lo != -1 else x[-1:] for x in s.only}
        r = D.mkstr(only=o)
    return Fact(s=r) if k == "s" else Fact(y=r)


@fact_for("slice")
def _f_slice(st, t):
    s, k = str_of(st, t.a[0])
    lo, hi = t.a[1], t.a[2]
    l0, l1 = st.int_iv(lo)
    first = s.first if (l0 == l1 == 0) else s.cs
    last = s.last if hi is NONE else s.cs
    if s.only is not None and is_const(lo) and is_const(hi):
        o = {x[cval(lo):cval(hi)] for x in s.only}
        r = D.mkstr(only=o)
        return Fact(s=r) if k == "s" else Fact(y=r)
    if l0 >= 0:
        nlo = max(0, s.lo - l1)
        nhi = max(0, s.hi - l0)
        if hi is not NONE:
            h0, h1 = st.int_iv(hi)
            if h0 >= 0:
                d = lin_add(hi, lo, -1)
                dl, dh = st.int_iv(d)
                nhi = min(nhi, max(0, dh))
                # at least min(s.lo, h0) - l1
                nlo = max(0, min(s.lo, h0) - l1)
            elif h1 < 0:
                nhi = max(0, s.hi + h1 - l0)
                nlo = max(0, s.lo + h0 - l1)
            else:
                nlo = 0
    else:
        nlo, nhi = 0, s.hi
        if l0 == l1 and hi is NONE:
            nhi = min(s.hi, -l0)
            nlo = min(s.lo, -l0)
    r = D.mkstr(s.cs, nlo, nhi, None, frozenset(), first, last, s.enc)
    if r is None:
        r = D.sconst("")
    return Fact(s=r) if k == "s" else Fact(y=r)


@fact_for("len")
def _f_len(st, t):
    x = t.a[0]
    f = st.fact(x)
    if f.s is not None or f.y is not None:
        s = f.s or f.y
        return Fact(i=IntF(s.lo, s.hi))
    if f.t is not None:
        return Fact(i=IntF(f.t.lo, f.t.hi))
    if x.op == "split":
        s, _ = str_of(st, x.a[0])
        ms = cval(x.a[2]) if is_const(x.a[2]) else -1
        hi = s.hi + 1 if ms in (-1, None) else ms + 1
        return Fact(i=IntF(1, hi))
    return D.NAT


def seq_elem(st, seq):
    """Fact of any element of a sequence term."""
    return st.fact(mk("elem", seq))


@fact_for("elem")
def _f_elem(st, t):
    x = t.a[0]
    if x.op == "split":
        s, k = str_of(st, x.a[0])
        sep = x.a[1]
        cs = s.cs
        if is_const(sep) and len(cval(sep)) == 1 and (
                x.a[2] is NONE or cval(x.a[2]) == -1):
            c = cval(sep)
            cs = cs - C.of(c.decode("latin-1") if isinstance(c, bytes) else c)
        r = D.mkstr(cs, 0, s.hi, enc=s.enc)
        return Fact(s=r) if k == "s" else Fact(y=r)
    if x.op == "gmap":
        return st.fact(x.a[0])
    if x.op in ("tupseq", "seqcat"):
        f = BOT
        for s in x.a[0]:
            f = f.join(seg_elem(st, s))
        return f
    if x.op in ("upd", "ins"):
        f = st.fact(x.a[2])
        for s in x.a[0]:
            f = f.join(seg_elem(st, s))
        return f
    if x.op == "del":
        f = BOT
        for s in x.a[0]:
            f = f.join(seg_elem(st, s))
        return f
    if x.op == "encparts":
        return D.BYTES
    if x.op == "rxiter":
        return Fact(o=frozenset(["match:%d" % x.id]))
    if x.op == "rxall":
        return D.STR
    if x.op == "ite":
        return st.fact(mk("elem", x.a[1])).join(st.fact(mk("elem", x.a[2])))
    if x.op == "lslice":
        return st.fact(mk("elem", x.a[0]))
    if x.op == "rev":
        return st.fact(mk("elem", x.a[0]))
    if x.op == "map":
        tm, src = x.a[0], x.a[1]
        it = mk("item", src, mk("idx"))
        return st.fact(t_.subst(tm, {mk("hole"): it}))
    if x.op == "seqcat":
        f = BOT
        for s in x.a[0]:
            f = f.join(seg_elem(st, s))
        return f
    f = st.fact(x)
    if f.t is not None:
        return f.t.element()
    if f.s is not None:
        return Fact(s=D.mkstr(f.s.cs, 1, 1))
    return D.UNKNOWN


def seg_elem(st, seg):
    if seg[0] == "i":
        return st.fact(seg[1])
    return st.fact(mk("elem", seg[1]))


@fact_for("item")
def _f_item(st, t):
    seq, i = t.a[0], t.a[1]
    f = st.fact(seq) if seq.op not in (
        "split", "lslice", "map", "seqcat", "rev", "gmap", "upd", "del",
        "ins", "tupseq") else None
    if seq.op == "split" and is_const(i) and cval(i) == 0:
        s, k = str_of(st, seq.a[0])
        sep = seq.a[1]
        if is_const(sep) and len(cval(sep)) == 1:
            c = cval(sep)
            c = c.decode("latin-1") if isinstance(c, bytes) else c
            r = D.mkstr(s.cs - C.of(c), 0, s.hi, None, frozenset(),
                        s.first, s.cs, s.enc)
            if r is None:
                r = D.sconst("")
            r = Fact(s=r) if k == "s" else Fact(y=r)
            e = r.meet(st.fact(mk("elem", seq)))
            return r if e.is_bot() else e
    if f is not None and f.t is not None and f.t.items is not None \
            and is_const(i) and isinstance(cval(i), int):
        n = len(f.t.items)
        if -n <= cval(i) < n:
            return f.t.items[cval(i)]
    r = st.fact(mk("elem", seq))
    if i is not None and seq.op == "lslice":
        l0 = seq.a[1]
        r = r.meet(st.fact(item(st, seq.a[0], lin_add(l0, i)))) if (
            st.int_iv(l0)[0] >= 0 and st.int_iv(i)[0] >= 0) else r
    return r


def item(st, seq, i):
    """The i-th element of a sequence term."""
    if seq.op == "map":
        src = item(st, seq.a[1], i)
        return t_.subst(seq.a[0], {mk("hole"): src})
    if seq.op == "gmap":
        return t_.subst(seq.a[0], {mk("idx"): i})
    if seq.op == "rxiter":
        return mk("match", seq, i)
    if seq.op == "seqcat" and len(seq.a[0]) == 1 and seq.a[0][0][0] == "m":
        return item(st, seq.a[0][0][1], i)
    its = tup_items(seq)
    if its is not None and is_const(i):
        return its[cval(i)]
    return mk("item", seq, i)


@fact_for("cmp", "not", "pred", "truth", "isinst", "allp")
def _f_bool(st, t):
    return D.BOOL


@fact_for("add", "sub", "mul", "mod", "floordiv", "pow", "bor", "band",
          "binv", "neg", "shl", "shr", "bxor")
def _f_arith(st, t):
    op = t.op
    if op in ("binv", "bxor", "shl", "shr"):
        if op == "shr":
            a = st.int_iv(t.a[0])
            b = t.a[1]
            if a[0] >= 0 and is_const(b):
                return Fact(i=IntF(a[0] >> cval(b), INF if a[1] == INF
                                   else a[1] >> cval(b)))
        if op == "shl":
            a = st.int_iv(t.a[0])
            b = t.a[1]
            if a[0] >= 0 and is_const(b):
                return Fact(i=IntF(a[0] << cval(b), INF if a[1] == INF
                                   else a[1] << cval(b)))
        return D.INT
    if op == "neg":
        a = st.int_iv(t.a[0])
        return Fact(i=IntF(-a[1], -a[0]))
    if op == "bor":
        r = [st.int_iv(x) for x in t.a[0]]
        return D.NAT if all(l >= 0 for l, h in r) else D.INT
    a, b = st.int_iv(t.a[0]), st.int_iv(t.a[1])
    if op == "mul":
        lo, hi = iv_mul(a, b)
        return Fact(i=IntF(lo, hi))
    if op == "mod":
        if b[0] > 0:
            hi = b[1] - 1
            if 0 <= a[0]:
                hi = min(hi, a[1])
            return Fact(i=IntF(0, hi))
        return D.INT
    if op == "floordiv":
        if b[0] == b[1] and b[0] > 0:
            lo = a[0] // b[0] if a[0] != -INF else -INF
            hi = a[1] // b[0] if a[1] != INF else INF
            return Fact(i=IntF(lo, hi))
        return D.INT
    if op == "pow":
        if b[0] == b[1] and b[0] >= 0 and a[0] >= 0 and b[0] < 4096:
            return Fact(i=IntF(a[0] ** b[0], INF if a[1] == INF
                               else a[1] ** b[0]))
        if a[0] == a[1] and a[0] > 0 and b[0] >= 0 and b[1] < 4096:
            return Fact(i=IntF(a[0] ** b[0], a[0] ** b[1]))
        return D.INT
    if op == "band":
        los = [x for x in (a, b) if x[0] >= 0]
        if los:
            return Fact(i=IntF(0, min(x[1] for x in los)))
        return D.INT
    return D.INT


@fact_for("int")
def _f_int(st, t):
    x = t.a[0]
    if x.op == "item" and x.a[1] is not mk("idx"):
        g = st.facts.get(mk("int", mk("item", x.a[0], mk("idx")), t.a[1]))
        if g is not None:
            r = _int_fact(st, t).meet(g)
            if not r.is_bot():
                return r
    return _int_fact(st, t)


DIGITS36 = "0123456789abcdefghijklmnopqrstuvwxyz"


def _int_fact(st, t):
    s, _ = str_of(st, t.a[0])
    r = cval(t.a[1]) if is_const(t.a[1]) else 10
    if s.cs <= C.ALNUM:
        hi = r ** s.hi - 1 if s.hi < 64 else INF
        x = t.a[0]
        if x.op == "cat" and isinstance(r, int) and r > 1:
            # digit by digit
            a = b = 0
            for p in x.a[0]:
                q, _ = str_of(st, p)
                if is_const(p) and isinstance(cval(p), str):
                    lo = hi2 = cval(p)
                elif q.lo == q.hi and q.lo <= 16 and q.cs.r:
                    ds = [int(chr(c), 36) for i, j in q.cs.r
                          for c in range(i, j + 1)]
                    if max(ds) >= r:
                        break
                    lo = DIGITS36[min(ds)] * q.lo
                    hi2 = DIGITS36[max(ds)] * q.lo
                else:
                    break
                if any(c not in DIGITS36 or DIGITS36.index(c) >= r
                       for c in (lo + hi2).lower()):
                    break
                a = a * r ** len(lo) + (int(lo, r) if lo else 0)
                b = b * r ** len(lo) + (int(hi2, r) if lo else 0)
            else:
                return Fact(i=IntF(a, b))
        return Fact(i=IntF(0, hi))
    return D.INT


@fact_for("ord")
def _f_ord(st, t):
    s, _ = str_of(st, t.a[0])
    if s.cs.r:
        return Fact(i=IntF(s.cs.r[0][0], s.cs.r[-1][1]))
    return D.fint(0, C.MAX)


@fact_for("chr")
def _f_chr(st, t):
    lo, hi = st.int_iv(t.a[0])
    return D.fstr(C.rng(max(0, lo), min(C.MAX, hi)), 1, 1)


@fact_for("find")
def _f_find(st, t):
    s, _ = str_of(st, t.a[0])
    return Fact(i=IntF(-1, max(-1, s.hi)))


@fact_for("count")
def _f_count(st, t):
    s, _ = str_of(st, t.a[0])
    return Fact(i=IntF(0, s.hi + 1))


@fact_for("str")
def _f_str(st, t):
    f = st.fact(t.a[0])
    if f.s is not None and f.ncomp() == 1:
        return f
    if f.i is not None and f.ncomp() == 1:
        if f.i.lo >= 0:
            hi = INF if f.i.hi == INF else len(str(f.i.hi))
            return D.fstr(C.DIGITS, 1, hi)
        return D.fstr(C.DIGITS | C.of("-"), 1)
    return D.STR


@fact_for("fmt")
def _f_fmt(st, t):
    spec = cval(t.a[1]) if is_const(t.a[1]) else ""
    lo, hi = st.int_iv(t.a[0])
    if spec == "x" and lo >= 0:
        n = INF if hi == INF else len("%x" % hi)
        return D.fstr(C.of("0123456789abcdef"), 1, n)
    if spec == "d" and lo >= 0:
        return D.fstr(C.DIGITS, 1, INF if hi == INF else len(str(hi)))
    return D.STR


@fact_for("repr", "strx")
def _f_repr(st, t):
    return D.STR


_lower = {}


def lower_cs(cs, fn):
    k = (cs, fn)
    r = _lower.get(k)
    if r is None:
        if cs <= C.ASCII:
            r = C.of("".join(getattr(c, fn)() for c in cs.chars()))
        else:
            a = cs & C.ASCII
            r = C.of("".join(getattr(c, fn)() for c in a.chars()))
            r = r | (C.ANY - C.ASCII) | (C.LOWER if fn == "lower" else C.UPPER)
            if fn == "lower":
                r = r - C.UPPER
            if not cs & C.SURR:
                r = r - C.SURR
        _lower[k] = r
    return r


@fact_for("lower", "upper")
def _f_lower(st, t):
    s, k = str_of(st, t.a[0])
    if s.only is not None:
        r = D.mkstr(only=[getattr(x, t.op)() for x in s.only])
    else:
        asc = s.cs <= C.ASCII
        r = D.mkstr(lower_cs(s.cs, t.op), s.lo, s.hi if asc else INF, None,
                    frozenset(), lower_cs(s.first, t.op),
                    lower_cs(s.last, t.op))
    return Fact(s=r) if k == "s" else Fact(y=r)


@fact_for("strip")
def _f_strip(st, t):
    # strip(s, chars|NONE, side)
    s, k = str_of(st, t.a[0])
    ch, side = t.a[1], cval(t.a[2])
    if ch is NONE:
        rem = C.by_pred("isspace")
        if k == "y":
            rem = C.of(" \t\n\r\x0b\f")
    elif is_const(ch):
        rem = C.of(cval(ch))
    else:
        rem = C.EMPTY
    first = s.cs - rem if side in ("l", "b") else s.first
    last = s.cs - rem if side in ("r", "b") else s.last
    lo = s.lo
    if (side in ("l", "b") and (s.first & rem)) or (
            side in ("r", "b") and (s.last & rem)):
        lo = 0
    if side == "r" and lo == 0 and s.lo > 0 and not (s.first & rem):
        lo = 1
    r = D.mkstr(s.cs, lo, s.hi, None, frozenset(), first, last, s.enc)
    return Fact(s=r) if k == "s" else Fact(y=r)


@fact_for("replace")
def _f_replace(st, t):
    s, k = str_of(st, t.a[0])
    old, new = t.a[1], t.a[2]
    cs = s.cs
    hi = s.hi
    if is_const(old) and is_const(new) and len(cval(old)) > 0:
        if len(cval(old)) == 1:
            if C.of(cval(old)) & cs:
                cs = (cs - C.of(cval(old))) | C.of(cval(new))
        else:
            cs = cs | C.of(cval(new))
        if len(cval(new)) > len(cval(old)):
            hi = INF
        lo = s.lo if len(cval(new)) >= len(cval(old)) else (
            0 if not cval(new) else (1 if s.lo else 0))
    else:
        cs, hi, lo = C.ANY if k == "s" else C.BYTE, INF, 0
    r = D.mkstr(cs, lo, hi, enc=s.enc)
    if r is None:
        r = D.sconst("")
    return Fact(s=r) if k == "s" else Fact(y=r)


@fact_for("usv")
def _f_usv(st, t):
    """Surrogate pairs combined, lone surrogates replaced by U+FFFD."""
    s, _ = str_of(st, t.a[0])
    cs = s.cs
    first, last = s.first, s.last
    if cs & C.SURR:
        add = C.of("\ufffd") | C.rng(0x10000, C.MAX)
        cs = (cs - C.SURR) | add
        if first & C.SURR:
            first = (first - C.SURR) | add
        if last & C.SURR:
            last = (last - C.SURR) | add
    r = D.mkstr(cs, min(s.lo, 1), s.hi, None, frozenset(
        e for e in s.excl if C.of(e) <= C.ASCII), first, last, s.enc)
    if s.hi <= 1:
        r = D.mkstr(cs, s.lo, s.hi, None, frozenset(), first, last, s.enc)
    return Fact(s=r)


@fact_for("u8enc")
def _f_u8enc(st, t):
    s, _ = str_of(st, t.a[0])

    def m(cs):
        return (cs & C.ASCII) | (C.rng(0x80, 0xF4) if cs - C.ASCII
                                 else C.EMPTY)

    r = D.mkstr(m(s.cs), s.lo, s.hi * 4 if s.cs - C.ASCII else s.hi, None,
                frozenset(), m(s.first), m(s.last), s.enc)
    return Fact(y=r)


@fact_for("u8dec")
def _f_u8dec(st, t):
    s, _ = str_of(st, t.a[0])
    cs = (s.cs & C.ASCII)
    if s.cs - C.ASCII:
        cs = cs | (C.SCALAR - C.ASCII)
    r = D.mkstr(cs, min(s.lo, 1), s.hi, enc=s.enc)
    return Fact(s=r)


@fact_for("bytesx")
def _f_bytesx(st, t):
    return D.BYTES


@fact_for("pctdec")
def _f_pctdec(st, t):
    s, _ = str_of(st, t.a[0])
    if "%" not in s.cs:
        return Fact(y=s)
    return Fact(y=D.mkstr(C.BYTE, min(s.lo, 1), s.hi))


@fact_for("resub")
def _f_resub(st, t):
    # resub(s, class, replacement): every member of class replaced
    s, k = str_of(st, t.a[0])
    cl, rep = cval(t.a[1]), cval(t.a[2])
    rep = rep.decode("latin-1") if isinstance(rep, bytes) else rep
    cs = s.cs - cl
    if rep:
        cs = cs | C.of(rep)
    r = D.mkstr(cs, s.lo if len(rep) >= 1 or not s.cs & cl else 0,
                s.hi * max(1, len(rep)), enc=s.enc)
    if r is None:
        r = D.sconst("")
    return Fact(s=r) if k == "s" else Fact(y=r)


PCT_DOTS = frozenset(a + b for a in ("", ".", "%2e", "%2E")
                     for b in (".", "%2e", "%2E") if "%" in a + b)
ALL_DOTS = PCT_DOTS | frozenset((".", ".."))
PCT_FIRST = frozenset(x for x in PCT_DOTS if x[0] == "%")


@fact_for("quote")
def _f_quote(st, t):
    """quote(s, safe, plus, encoding): percent-encoding with the urllib
    always-safe set already folded into safe."""
    s, _ = str_of(st, t.a[0])
    safe = C.of(cval(t.a[1])) if is_const(t.a[1]) else C.ASCII
    plus = cval(t.a[2])
    enc = cval(t.a[3]) if is_const(t.a[3]) else None
    # under an unknown or non-UTF-8 encoding every byte value can come out
    cs = s.cs
    if enc != "utf-8":
        cs = cs | C.BYTE if cs - C.ASCII else cs
    passed = cs & safe & C.ASCII
    replaced = cs - safe
    if plus:
        replaced = replaced - C.of(" ")
    out = passed
    first, last = s.first & safe & C.ASCII, s.last & safe & C.ASCII
    if enc != "utf-8" and s.cs - C.ASCII:
        first = last = passed
    hi = s.hi
    if plus and " " in cs:
        out = out | C.of("+")
        first = first | (C.of("+") if " " in s.first else C.EMPTY)
        last = last | (C.of("+") if " " in s.last else C.EMPTY)
    if replaced:
        out = out | C.of("%") | C.HEXUP
        first = first | C.of("%")
        last = last | C.HEXUP
        if enc != "utf-8" and cs - C.ASCII:
            out = out | C.of("&#;") | C.DIGITS if False else out
        hi = INF if s.hi == INF else s.hi * 12
    excl = frozenset(
        e for e in s.excl if C.of(e) <= safe and not (
            replaced and "%" in e)) if s.excl else frozenset()
    if enc == "utf-8" and "." not in replaced:
        # an escape of these can only come from a percent sign of the input
        if "%" not in passed:
            excl |= PCT_DOTS
        elif "%" not in s.first:
            excl |= PCT_FIRST
        excl |= ALL_DOTS & s.excl
    e = frozenset([(replaced, safe, bool(plus), enc)]) | s.enc
    if s.only is not None and not (C.of("".join(s.only)) - safe):
        return Fact(s=D.mkstr(only=s.only, enc=e))
    r = D.mkstr(out, s.lo, hi, None, excl, first, last, e)
    if r is None:
        r = D.mkstr(out, 0, hi, None, excl, first, last, e)
    return Fact(s=r)


@fact_for("sjoin")
def _f_sjoin(st, t):
    # sjoin(sep, seqterm)
    sep, _ = str_of(st, t.a[0])
    ef = st.fact(mk("elem", t.a[1]))
    if ef.s is None:
        return D.STR
    s = ef.s
    ln = st.int_iv(t.a[2])
    if sep.only is not None and ln[0] >= 2 and s.lo == 0:
        lo_ = min(len(o) for o in sep.only) * (ln[0] - 1)
    cs = s.cs | (sep.cs if ln[1] > 1 else C.EMPTY)
    lo = s.lo * max(0, ln[0]) if s.lo else 0
    first = s.first | (sep.first if s.lo == 0 else C.EMPTY)
    last = s.last | (sep.last if s.lo == 0 else C.EMPTY)
    if ln[1] == 0:
        return Fact(s=D.sconst(""))
    return D.fstr(cs, 0 if ln[0] == 0 else min(lo, 1), INF, None, frozenset(),
                  first, last, s.enc | sep.enc)


@fact_for("sfold")
def _f_sfold(st, t):
    # sfold(template over idx, n)
    f = st.fact(t.a[0])
    if f.s is None:
        return D.STR
    s = f.s
    lo, hi = st.int_iv(t.a[1])
    return D.fstr(s.cs, 0 if lo <= 0 else min(1, s.lo), INF, None, frozenset(),
                  s.first, s.last, s.enc)


@fact_for("attr", "call", "callm", "sub_", "excattr")
def _f_unknown(st, t):
    return D.UNKNOWN


@fact_for("ite")
def _f_ite(st, t):
    return st.fact(t.a[1]).join(st.fact(t.a[2]))


@fact_for("rec")
def _f_rec(st, t):
    return Fact(o=frozenset(["rec:" + t.a[0]]))


@fact_for("uni", "setop", "cset", "hash_", "supm")
def _f_obj2(st, t):
    return Fact(o=frozenset([t.op]))


@fact_for("hash", "id")
def _f_hash(st, t):
    return D.INT


@fact_for("boolint")
def _f_boolint(st, t):
    return D.fint(0, 1)


@fact_for("sum")
def _f_sum(st, t):
    return D.INT


@fact_for("u16len")
def _f_u16len(st, t):
    s, _ = str_of(st, t.a[0])
    return Fact(i=IntF(s.lo, s.hi * 2))


@fact_for("icuerr")
def _f_icuerr(st, t):
    return D.fint(0, (1 << 31) - 1)


@fact_for("toascii")
def _f_toascii(st, t):
    # ICU: any string when errors are recorded (refined by the error test)
    return Fact(s=D.mkstr(C.SCALAR))


@fact_for("tounicode")
def _f_tounicode(st, t):
    return Fact(s=D.mkstr(C.SCALAR))


@fact_for("tupseq")
def _f_tupseq(st, t):
    f = BOT
    lo = hi = 0
    for s in t.a[0]:
        f = f.join(seg_elem(st, s))
        if s[0] == "i":
            lo, hi = lo + 1, hi + 1
        else:
            a, b = st.int_iv(s[2])
            lo, hi = lo + max(0, a), hi + b
    return Fact(t=TupF(None, f, lo, hi))


@fact_for("gmap", "upd", "del", "ins", "seqcat")
def _f_seq(st, t):
    return Fact(t=TupF(None, st.fact(mk("elem", t)), 0, INF))


@fact_for("byteat")
def _f_byteat(st, t):
    s, _ = str_of(st, t.a[0])
    if s.cs.r:
        return Fact(i=IntF(s.cs.r[0][0], min(255, s.cs.r[-1][1])))
    return D.fint(0, 255)


@fact_for("repeat")
def _f_repeat(st, t):
    s, k = str_of(st, t.a[0])
    lo, hi = st.int_iv(t.a[1])
    r = D.mkstr(s.cs, s.lo * max(0, lo) if s.lo else 0, INF, enc=s.enc)
    return Fact(s=r) if k == "s" else Fact(y=r)


@fact_for("srev")
def _f_srev(st, t):
    s, k = str_of(st, t.a[0])
    r = D.mkstr(s.cs, s.lo, s.hi, None, frozenset(), s.last, s.first)
    return Fact(s=r) if k == "s" else Fact(y=r)


@fact_for("pairs", "decx", "codecname")
def _f_strany(st, t):
    return D.STR


@fact_for("u16enc")
def _f_u16enc(st, t):
    return D.BYTES


@fact_for("mgroup")
def _f_mgroup(st, t):
    m, i = t.a
    src = m.a[1] if isinstance(m.a[0], T) and m.a[0].op == "rx" else None
    rx = m.a[0] if src is not None else None
    if isinstance(m.a[0], T) and m.a[0].op == "rxiter":
        rx, src = m.a[0].a[0], m.a[0].a[1]
    if src is None:
        return D.STR
    s, k = str_of(st, src)
    lo = 0
    if is_const(i) and cval(i) == 0:
        try:
            try:
                import re._parser as sp
            except ImportError:
                import sre_parse as sp
            lo = sp.parse(rx.a[0], rx.a[1]).getwidth()[0]
        except Exception:
            lo = 0
        return Fact(**{k: D.mkstr(s.cs, min(lo, s.hi), s.hi)})
    return Fact(none=True, **{k: D.mkstr(s.cs, 0, s.hi)})


# ---- at-end ---------------------------------------------------------------


def end_off(st, s, i):
    """A lower bound of i - len(s)."""
    best = -INF
    parts = lin_parts(i)[1]
    for a, c in parts.items():
        if c == 1 and a.op == "len" and a.a[0].op == "slice":
            sl = a.a[0]
            if sl.a[0] is s and sl.a[2] is NONE:
                rest = lin_add(lin_add(i, a, -1), sl.a[1], -1)
                if st.int_iv(sl.a[1])[0] >= 0:
                    best = max(best, st.int_iv(rest)[0])
    if parts:
        for u in st.facts:
            if u.op == "atend" and u.a[0] is s:
                best = max(best, st.int_iv(lin_add(i, u.a[1], -1))[0])
    return max(best, st.int_iv(lin_add(i, mk("len", s), -1))[0])


def at_end(st, s, i):
    """Is i certainly >= len(s)?"""
    return end_off(st, s, i) >= 0


@fact_for("atend")
def _f_atend(st, t):
    return D.BOOL


def end_candidates(st, t):
    """[(string, k)]: t is known to be >= len(string) + k."""
    out = []
    k, parts = lin_parts(t)
    for a, c in parts.items():
        if c != 1:
            continue
        if a.op == "len":
            x = a.a[0]
            out.append(x.a[0] if x.op == "slice" else x)
        for u in st.facts:
            if u.op == "atend" and a in lin_parts(u.a[1])[1]:
                out.append(u.a[0])
    res = {}
    for s in out:
        if s not in res and s.op != "elem":
            k = end_off(st, s, t)
            if 0 <= k < INF:
                res[s] = int(k)
    return list(res.items())


# ---- refinement -------------------------------------------------------------


def refine(st, t, f):
    """Meet the fact of t with f in st (in place) and propagate; returns False
    when the state becomes infeasible."""
    if t.op == "const":
        return not const_fact(cval(t)).meet(f).is_bot()
    old = st.fact(t)
    new = old.meet(f)
    if new.is_bot():
        return False
    if new == old:
        return True
    st.put_fact(t, new)
    return propagate(st, t, new)


HARMLESS = {"UIDNA_ERROR_" + n for n in (
    "HYPHEN_3_4", "LEADING_HYPHEN", "TRAILING_HYPHEN", "EMPTY_LABEL",
    "LABEL_TOO_LONG", "DOMAIN_NAME_TOO_LONG")}


def icu_clean(st, t):
    """t == 0 is known: no IDNA error outside the masked ones.  Without
    errors other than length and hyphen placement, ToASCII returns lower-case
    ASCII (assumption on ICU, see DESIGN.md)."""
    if t.op == "icuerr":
        e, masked = t, set()
    else:
        e, m = t.a
        if e.op != "icuerr":
            e, m = m, e
        if e.op != "icuerr" or m.op != "binv":
            return True
        m = m.a[0]
        fl = m.a[0] if m.op == "bor" else (m,)
        if not all(x.op == "ext" for x in fl):
            return True
        masked = {x.a[0].rsplit(".", 1)[-1] for x in fl}
    if cval(e.a[0]) == "toascii" and masked <= HARMLESS:
        return refine(st, mk("toascii", e.a[1], e.a[2]),
                      D.fstr(C.ASCII - C.UPPER))
    return True


def propagate(st, t, f):
    if t.op in ("band", "icuerr") and f.i is not None and \
            f.i.lo == f.i.hi == 0:
        if not icu_clean(st, t):
            return False
    op = t.op
    if op == "len":
        x = t.a[0]
        if f.i is not None:
            xf = st.fact(x)
            if xf.s is not None:
                if not refine(st, x, xf.with_(s=_len_meet(xf.s, f.i))):
                    return False
            elif xf.y is not None:
                if not refine(st, x, xf.with_(y=_len_meet(xf.y, f.i))):
                    return False
            elif xf.t is not None and xf.t.items is None:
                lo, hi = max(xf.t.lo, f.i.lo), min(xf.t.hi, f.i.hi)
                if lo > hi:
                    return False
                if not refine(st, x, Fact(t=TupF(None, xf.t.elem, lo, hi))):
                    return False
            if x.op == "slice" and x.a[2] is NONE and f.i.lo >= 1 and (
                    st.int_iv(x.a[1])[0] >= 0):
                d = lin_add(mk("len", x.a[0]), x.a[1], -1)
                if d.op != "const" and not refine(
                        st, d, Fact(i=IntF(f.i.lo, INF))):
                    return False
        return True
    s = f.s if f.s is not None else f.y
    if op == "at":
        x, i = t.a
        if s is not None:
            xf = st.fact(x)
            comp = "s" if xf.s is not None else "y"
            xs = getattr(xf, comp)
            iv = st.int_iv(i)
            if xs is not None and xf.ncomp() == 1:
                if s.lo >= 1:
                    if iv[0] >= 0:
                        nl = max(xs.lo, iv[0] + 1)
                    else:
                        nl = max(xs.lo, 1)
                    first = xs.first
                    last = xs.last
                    if iv == (0, 0):
                        first = first & s.cs
                    if iv == (-1, -1):
                        last = last & s.cs
                    n = D.mkstr(xs.cs, nl, xs.hi, xs.only, xs.excl, first,
                                last, xs.enc)
                    if n is None:
                        return False
                    if not refine(st, x, Fact(**{comp: n})):
                        return False
                    if iv[0] >= 0:
                        d = lin_add(mk("len", x), i, -1)
                        if d.op != "const" and d.op != "len" and not refine(
                                st, d, Fact(i=IntF(1, INF))):
                            return False
                elif s.hi == 0:
                    if iv[0] >= 0:
                        n = D.mkstr(xs.cs, xs.lo, min(xs.hi, iv[1]), xs.only,
                                    xs.excl, xs.first, xs.last, xs.enc)
                        if n is None:
                            return False
                        if not refine(st, x, Fact(**{comp: n})):
                            return False
                        d = lin_add(i, mk("len", x), -1)
                        if d.op not in ("const", "len") and not refine(
                                st, d, Fact(i=IntF(0, INF))):
                            return False
                elif iv == (0, 0) and xs.only is None:
                    # first char restricted (or empty)
                    n = D.mkstr(xs.cs, xs.lo, xs.hi, None, xs.excl,
                                xs.first & s.cs, xs.last, xs.enc)
                    if n is None:
                        return False
                    if not refine(st, x, Fact(**{comp: n})):
                        return False
        return True
    if op == "slice" and s is not None:
        x, lo, hi = t.a
        xf = st.fact(x)
        comp = "s" if xf.s is not None else "y"
        xs = getattr(xf, comp)
        l0 = st.int_iv(lo)
        if xs is not None and xf.ncomp() == 1 and l0[0] >= 0:
            nl = xs.lo
            first = xs.first
            if s.lo >= 1:
                nl = max(nl, l0[0] + s.lo)
                if l0 == (0, 0):
                    first = first & s.first
            n = D.mkstr(xs.cs, nl, xs.hi, xs.only, xs.excl, first, xs.last,
                        xs.enc)
            if n is None:
                return False
            if not refine(st, x, Fact(**{comp: n})):
                return False
        return True
    if op == "lin" and f.i is not None:
        k, parts = lin_parts(t)
        if len(parts) == 1:
            (a, c), = parts.items()
            lo, hi = f.i.lo, f.i.hi
            lo = (lo - k) / c if abs(lo) == INF else lo - k
            hi = (hi - k) / c if abs(hi) == INF else hi - k
            if abs(lo) != INF:
                lo = -((-lo) // c) if c > 0 else lo // c
            if abs(hi) != INF:
                hi = hi // c if c > 0 else -((-hi) // c)
            if c < 0:
                lo, hi = hi, lo
            af = st.fact(a)
            ex = frozenset(
                (e - k) // c for e in f.i.excl if (e - k) % c == 0)
            if af.i is not None:
                n = IntF.make(lo, hi, ex)
                if n is None:
                    return False
                n = af.i.meet(n)
                if n is None:
                    return False
                return refine(st, a, af.with_(i=n))
        else:
            # tighten each atom by the others
            for a, c in parts.items():
                af = st.fact(a)
                if af.i is None:
                    continue
                rl = rh = k
                for b, d in parts.items():
                    if b is not a:
                        l, h = iv_mul(st.int_iv(b), (d, d))
                        rl += l
                        rh += h
                # c*a = f - rest
                lo, hi = f.i.lo - rh, f.i.hi - rl
                if c == 1:
                    pass
                elif c == -1:
                    lo, hi = -hi, -lo
                else:
                    continue
                if lo != lo or hi != hi:
                    continue
                if lo > af.i.lo or hi < af.i.hi:
                    n = af.i.meet(IntF(max(lo, -INF), hi))
                    if n is None:
                        return False
                    if not refine(st, a, af.with_(i=n)):
                        return False
        return True
    if op == "cat" and s is not None:
        # all pieces within the charset; empty => all empty
        for p in t.a[0]:
            if p.op == "const":
                continue
            pf = st.fact(p)
            if pf.s is None or pf.ncomp() != 1:
                continue
            n = D.mkstr(pf.s.cs & s.cs, pf.s.lo, min(pf.s.hi, s.hi),
                        pf.s.only, pf.s.excl, pf.s.first, pf.s.last, pf.s.enc)
            if n is None:
                return False
            if n != pf.s and not refine(st, p, Fact(s=n)):
                return False
        return True
    if op in ("quote", "usv", "u8enc", "u8dec") and s is not None:
        x = t.a[0]
        xf = st.fact(x)
        comp = "s" if xf.s is not None else "y"
        xs = getattr(xf, comp)
        if xs is not None and xf.ncomp() == 1:
            if s.hi == 0:
                return refine(st, x, Fact(**{comp: D.mkstr(hi=0, cs=xs.cs)}))
            if s.lo >= 1 and xs.lo == 0:
                return refine(st, x, Fact(**{comp: D.mkstr(
                    xs.cs, 1, xs.hi, xs.only, xs.excl, xs.first, xs.last,
                    xs.enc)}))
            if op == "usv" and not (xs.cs & C.SURR):
                return refine(st, x, Fact(s=s))
        return True
    if op == "lower" and s is not None:
        x = t.a[0]
        xf = st.fact(x)
        if xf.s is not None and xf.ncomp() == 1:
            if s.hi == 0:
                return refine(st, x, Fact(s=D.sconst("")))
            if s.lo >= 1 and xf.s.lo == 0:
                return refine(st, x, Fact(s=D.mkstr(
                    xf.s.cs, 1, xf.s.hi, xf.s.only, xf.s.excl, xf.s.first,
                    xf.s.last, xf.s.enc)))
        return True
    if op == "tuple" and f.t is not None and f.t.items is not None:
        for x, xf in zip(t.a[0], f.t.items):
            if not refine(st, x, xf):
                return False
        return True
    if op == "elem":
        return True
    return True


def _len_meet(s, i):
    n = D.mkstr(s.cs, max(s.lo, i.lo), min(s.hi, i.hi), s.only, s.excl,
                s.first, s.last, s.enc)
    if n is not None and n.only is not None and i.excl:
        n = D.mkstr(only=[x for x in n.only if len(x) not in i.excl],
                    enc=s.enc)
    elif n is not None and 0 in i.excl and n.lo == 0:
        n = D.mkstr(n.cs, 1, n.hi, n.only, n.excl, n.first, n.last, n.enc)
    return n
