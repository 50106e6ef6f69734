"""Models of the methods of str, bytes, list, dict, set and iterators."""

from . import charset as C
from . import domain as D
from . import terms as t_
from .domain import Fact, IntF, INF
from .loader import ClassInfo
from .logic import (const_members, contains, list_len, mkcmp, mknot, truth,
                    STRPRED)
from .models_coll import SETM
from .state import HObj, item, refine, seg_elem
from .terms import (EMPTYS, EnumVal, FALSE, NONE, T, TRUE, cat, cat_pieces,
                    const, cval, is_const, lin_add, mk, tup, tup_items)

UTF8 = {"utf-8", "utf8", "utf_8", "u8", "utf-8-sig"}
UTF16 = {"utf-16", "utf16", "utf_16", "utf-16-le", "utf-16le", "utf-16-be",
         "utf-16be"}
WS = " \t\n\r\x0b\x0c"


def norm_enc(t):
    """Canonical encoding name of a constant, else None."""
    if not is_const(t) or not isinstance(cval(t), str):
        return None
    e = cval(t).lower()
    if e in UTF8 - {"utf-8-sig"}:
        return "utf-8"
    if e in UTF16:
        return "utf-16" + (e[-3:].strip("-") if e[-2:] in ("le", "be")
                           else "")
    return e


class StrMixin:
    def call_method(self, o, name, args, kw, st, ctx, node):
        if any(a.op == "star" for a in args):
            st = st.copy()
            return [(st, self.unknown(st, "star call of ." + name, node,
                                      ctx))]
        if o.op == "obj":
            h = st.heap.get(o.a[0])
            if h is None:
                return [(st, self.unknown(st, "dangling object", node, ctx))]
            if h.kind in ("list", "dict", "set"):
                if h.kind == "set":
                    m = SETM.get(name)
                    if m is not None:
                        return m(self, o, h, args, kw, st, ctx, node)
                else:
                    m = getattr(self, "%s_%s" % (h.kind[0], name), None)
                if m is None:
                    st = st.copy()
                    return [(st, self.unknown(
                        st, "%s.%s" % (h.kind, name), node, ctx))]
                return m(o, h, args, kw, st, ctx, node)
            return self.inst_method(o, h, name, args, kw, st, ctx, node)
        if o.op in ("rx", "match", "icu", "iter", "gen", "extm", "class",
                    "bltn", "rec", "cset", "setop", "excv"):
            return self.ext_method(o, name, args, kw, st, ctx, node)
        if is_const(o) and isinstance(cval(o), (str, bytes, int, frozenset,
                                                tuple)):
            if all(is_const(a) and not isinstance(cval(a), EnumVal)
                   for a in args) and all(is_const(v) for v in kw.values()):
                return self.fold_method(o, name, args, kw, st, ctx, node)
        out = []
        for x, k in self.kinds(st, o):
            if k in ("s", "y"):
                m = getattr(self, "s_" + name, None)
                if name in STRPRED:
                    out.append((x, mk("pred", name, o)))
                elif m is None:
                    y = x.copy()
                    out.append((y, self.unknown(y, "str." + name, node, ctx)))
                else:
                    out += m(o, args, kw, x, ctx, node, k)
            elif k == "o" or k == "x" or k == "t" or k == "i":
                y = x.copy()
                out.append((y, self.unknown(y, "method " + name, node, ctx)))
            else:
                self.raise_(x, ctx, "AttributeError", node, name)
        return out

    def fold_method(self, o, name, args, kw, st, ctx, node):
        v = cval(o)
        if isinstance(v, EnumVal):
            return [(st, self.unknown(st, "enum method", node, ctx))]
        try:
            r = getattr(v, name)(*[cval(a) for a in args], **{
                k: cval(w) for k, w in kw.items()})
        except (TypeError, ValueError, AttributeError, IndexError,
                KeyError, LookupError) as e:
            self.raise_(st, ctx, type(e).__name__, node, str(e))
            return []
        return self.lift(r, st, ctx, node, name)

    def lift(self, r, st, ctx, node, name=""):
        """A python value computed by constant folding -> term."""
        if isinstance(r, list):
            st = st.copy()
            return [(st, self.new(st, ctx, node, HObj("list", segs=tuple(
                ("i", const(x)) for x in r))))]
        if isinstance(r, (str, bytes, int, tuple, frozenset)) or r is None:
            return [(st, const(r))]
        st = st.copy()
        return [(st, self.unknown(st, "folded " + name, node, ctx))]

    def arg(self, args, kw, i, name, default=None):
        if len(args) > i:
            return args[i]
        return kw.get(name, default)

    def need_same(self, a, k, st, ctx, node):
        """argument must have kind k; -> states"""
        out = []
        for x, ka in self.kinds(st, a):
            if ka == k or ka == "x":
                if ka == "x":
                    x.taint("argument of unknown type [%s]" % self.site(
                        ctx, node))
                out.append(x)
            elif ka == "t":
                out.append(x)
            else:
                self.raise_(x, ctx, "TypeError", node,
                            "expected %s, not %s" % (k, ka))
        return out

    # ---------------------------------------------------------- str / bytes
    def s_lower(self, o, args, kw, st, ctx, node, k):
        return [(st, mk("lower", o))]

    def s_casefold(self, o, args, kw, st, ctx, node, k):
        return [(st, mk("lower", o))]

    def s_upper(self, o, args, kw, st, ctx, node, k):
        return [(st, mk("upper", o))]

    def s_startswith(self, o, args, kw, st, ctx, node, k, nm="startswith"):
        out = []
        p = args[0]
        for x in self.need_same(p, k, st, ctx, node):
            s = o
            if len(args) > 1:
                lo = args[1]
                hi = args[2] if len(args) > 2 else NONE
                s = self.mk_slice(o, lo, hi, x)
            if nm == "startswith" and is_const(p) and isinstance(
                    cval(p), (str, bytes)):
                # turn into comparisons of positions
                n = len(cval(p))
                if n == 0:
                    out.append((x, TRUE))
                    continue
                cur = [x]
                for i in range(n):
                    c = cval(p)[i:i + 1]
                    nxt = []
                    for y in cur:
                        tr, fa = self.cmp_split("==", self.mk_at(
                            s, const(i), y), const(c), y, ctx, node)
                        nxt += tr
                        out += [(z, FALSE) for z in fa]
                    cur = nxt
                out += [(y, TRUE) for y in cur]
                continue
            out.append((x, mk("pred", nm, s, p)))
        return out

    def s_endswith(self, o, args, kw, st, ctx, node, k):
        p = args[0]
        if len(args) == 1 and is_const(p) and isinstance(
                cval(p), (str, bytes)) and len(cval(p)) == 1:
            tr, fa = self.cmp_split("==", self.mk_at(o, const(-1), st), p, st,
                                    ctx, node)
            return [(x, TRUE) for x in tr] + [(x, FALSE) for x in fa]
        return self.s_startswith(o, args, kw, st, ctx, node, k, "endswith")

    def s_strip(self, o, args, kw, st, ctx, node, k, side="b"):
        ch = args[0] if args else NONE
        if ch is NONE:
            if k == "y":
                ch = const(WS.encode())
            else:
                ch = const("".join(c for c in C.by_pred(
                    "isspace").chars()))
        if not is_const(ch):
            return [(st, self.unknown(st, "strip of unknown characters", node,
                                      ctx, D.STR if k == "s" else D.BYTES))]
        c = cval(ch)
        if isinstance(c, bytes):
            c = c.decode("latin-1")
        if not isinstance(c, str):
            self.raise_(st, ctx, "TypeError", node, "strip()")
            return []
        return [(st, self.mk_strip(o, const("".join(sorted(set(c)))),
                                   side, st))]

    def mk_strip(self, o, ch, side, st):
        if self.split_cat and o.op == "cat":
            ps, cs = list(o.a[0]), C.of(cval(ch))

            def clear(q, end):
                f = st.fact(q)
                s = f.s
                return not f.x and s is not None and s.lo >= 1 and not (
                    s.first if end == 0 else s.last) & cs
            ok = True
            for end, sd in ((0, "l"), (-1, "r")):
                if side not in (sd, "b"):
                    continue
                while ps and is_const(ps[end]):
                    v = cval(ps[end])
                    v = v.lstrip(cval(ch)) if sd == "l" else v.rstrip(
                        cval(ch))
                    if v:
                        ps[end] = const(v)
                        break
                    ps.pop(end)
                ok = ok and bool(ps) and clear(ps[end], end)
            if ok:
                return cat(ps)
        return mk("strip", o, ch, const(side))

    def s_lstrip(self, o, args, kw, st, ctx, node, k):
        return self.s_strip(o, args, kw, st, ctx, node, k, "l")

    def s_rstrip(self, o, args, kw, st, ctx, node, k):
        return self.s_strip(o, args, kw, st, ctx, node, k, "r")

    def s_replace(self, o, args, kw, st, ctx, node, k):
        if len(args) == 2 and not kw:
            out = []
            for x in self.need_same(args[0], k, st, ctx, node):
                for y in self.need_same(args[1], k, x, ctx, node):
                    f = y.fact(o)
                    s = f.s if k == "s" else f.y
                    a = args[0]
                    if is_const(a) and len(a.a[1]) == 1:
                        c = cval(a)
                        c = c.decode("latin-1") if k == "y" else c
                        if c not in s.cs:
                            out.append((y, o))
                            continue
                    out.append((y, mk("replace", o, args[0], args[1])))
            return out
        return [(st, self.unknown(st, "replace with count", node, ctx,
                                  D.STR if k == "s" else D.BYTES))]

    def known_split(self, st, o, sep, n=-1):
        """The pieces of a text between its separators, where all of them
        stand in known places; None otherwise."""
        if not is_const(sep) or len(cval(sep)) != 1:
            return None
        c = cval(sep)
        ch = c.decode("latin-1") if isinstance(c, bytes) else c
        parts = o.a[0] if o.op == "cat" else (o,)
        out, cur = [], []
        for p in parts:
            if is_const(p):
                bits = cval(p).split(c)
                cur.append(const(bits[0]))
                for b in bits[1:]:
                    if len(out) == n:
                        cur.append(const(c + b))
                        continue
                    out.append(cat(cur))
                    cur = [const(b)]
                continue
            f = st.fact(p)
            s = f.y if isinstance(c, bytes) else f.s
            if len(out) != n and (f.x or f.ncomp() != 1 or s is None or
                                  ch in s.cs):
                return None
            cur.append(p)
        return out + [cat(cur)]

    def s_split(self, o, args, kw, st, ctx, node, k):
        sep = self.arg(args, kw, 0, "sep", NONE)
        ms = self.arg(args, kw, 1, "maxsplit", const(-1))
        if sep is NONE or not is_const(ms):
            st = st.copy()
            q = self.unknown(st, "split on whitespace", node, ctx)
            return [(st, self.new(st, ctx, node, HObj("list", segs=(
                ("m", q, mk("len", q)),))))]
        out = []
        for x in self.need_same(sep, k, st, ctx, node):
            x = x.copy()
            n = cval(ms)
            f = x.fact(o)
            s = f.s if k == "s" else f.y
            known = self.known_split(x, o, sep, n)
            if known is not None and not is_const(o):
                out.append((x, self.new(x, ctx, node, HObj("list", segs=tuple(
                    ("i", t) for t in known)))))
                continue
            if n == 0:
                segs = (("i", o),)
                out.append((x, self.new(x, ctx, node, HObj("list",
                                                           segs=segs))))
                continue
            if n == 1:
                # absent / present
                for y, b in self.has_sub(o, sep, x, ctx, node):
                    y = y.copy()
                    if b:
                        hd = mk("item", mk("split", o, sep, ms), const(0))
                        tl = mk("item", mk("split", o, sep, ms), const(1))
                        segs = (("i", hd), ("i", tl))
                    else:
                        segs = (("i", o),)
                    out.append((y, self.new(y, ctx, node, HObj(
                        "list", segs=segs))))
                continue
            q = mk("split", o, sep, ms)
            out.append((x, self.new(x, ctx, node, HObj("list", segs=(
                ("m", q, mk("len", q)),)))))
        return out

    def has_sub(self, o, sep, st, ctx, node):
        tr, fa = self.cmp_split("in", sep, o, st, ctx, node)
        return [(x, True) for x in tr] + [(x, False) for x in fa]

    def s_rsplit(self, o, args, kw, st, ctx, node, k):
        sep = self.arg(args, kw, 0, "sep", NONE)
        ms = self.arg(args, kw, 1, "maxsplit", const(-1))
        if is_const(ms) and cval(ms) < 0:
            return self.s_split(o, args, kw, st, ctx, node, k)
        st = st.copy()
        q = self.unknown(st, "rsplit", node, ctx, Fact(t=D.TupF(
            None, D.STR if k == "s" else D.BYTES, 1, INF)))
        return [(st, self.new(st, ctx, node, HObj("list", segs=(
            ("m", q, mk("len", q)),))))]

    def s_partition(self, o, args, kw, st, ctx, node, k):
        sep = args[0]
        out = []
        e = const("" if k == "s" else b"")
        for x in self.need_same(sep, k, st, ctx, node):
            known = self.known_split(x, o, sep, 1)
            if known is not None and not is_const(o):
                out.append((x, tup([known[0], sep if len(known) > 1 else e,
                                    known[1] if len(known) > 1 else e])))
                continue
            for y, b in self.has_sub(o, sep, x, ctx, node):
                if b:
                    q = mk("split", o, sep, const(1))
                    out.append((y, tup([mk("item", q, const(0)), sep,
                                        mk("item", q, const(1))])))
                else:
                    out.append((y, tup([o, e, e])))
        return out

    def s_rpartition(self, o, args, kw, st, ctx, node, k):
        out = []
        e = const("" if k == "s" else b"")
        for x in self.need_same(args[0], k, st, ctx, node):
            for y, b in self.has_sub(o, args[0], x, ctx, node):
                y = y.copy()
                if b:
                    f = y.fact(o)
                    s = f.s if k == "s" else f.y
                    part = Fact(**{k: D.mkstr(s.cs, 0, s.hi)})
                    a = self.fresh(y, "rpl:" + self.site(ctx, node), part)
                    c = self.fresh(y, "rpr:" + self.site(ctx, node), part)
                    out.append((y, tup([a, args[0], c])))
                else:
                    out.append((y, tup([e, e, o])))
        return out

    def s_find(self, o, args, kw, st, ctx, node, k, nm="find"):
        out = []
        if len(args) > 1:
            st = st.copy()
            return [(st, self.unknown(st, "find with bounds", node, ctx,
                                      D.fint(-1, INF)))]
        for x in self.need_same(args[0], k, st, ctx, node):
            known = self.known_split(x, o, args[0], 1)
            if nm in ("find", "index") and known is not None and \
                    len(known) > 1 and not is_const(o):
                out.append((x, self.mk_len(known[0], x)))
                continue
            for y, b in self.has_sub(o, args[0], x, ctx, node):
                if not b:
                    if nm.endswith("index"):
                        self.raise_(y, ctx, "ValueError", node,
                                    "substring not found")
                    else:
                        out.append((y, const(-1)))
                    continue
                y = y.copy()
                t = mk("find" if not nm.startswith("r") else "rfind", o,
                       args[0])
                f = y.fact(o)
                s = f.s if k == "s" else f.y
                if not refine(y, t, Fact(i=IntF(0, s.hi))):
                    continue
                refine(y, lin_add(mk("len", o), t, -1), Fact(i=IntF(
                    1 if is_const(args[0]) and cval(args[0]) else 0, INF)))
                out.append((y, t))
        return out

    def s_index(self, o, args, kw, st, ctx, node, k):
        return self.s_find(o, args, kw, st, ctx, node, k, "index")

    def s_rfind(self, o, args, kw, st, ctx, node, k):
        return self.s_find(o, args, kw, st, ctx, node, k, "rfind")

    def s_rindex(self, o, args, kw, st, ctx, node, k):
        return self.s_find(o, args, kw, st, ctx, node, k, "rindex")

    def s_count(self, o, args, kw, st, ctx, node, k):
        return [(st, mk("count", o, args[0]))]

    def s_removeprefix(self, o, args, kw, st, ctx, node, k):
        p = args[0]
        if not is_const(p):
            return [(st, self.unknown(st, "removeprefix", node, ctx, D.STR))]
        out = []
        for x, b in self.s_startswith(o, [p], {}, st, ctx, node, k):
            tr, fa = truth(x, b)
            out += [(y, self.mk_slice(o, const(len(cval(p))), NONE, y))
                    for y in tr]
            out += [(y, o) for y in fa]
        return out

    def s_removesuffix(self, o, args, kw, st, ctx, node, k):
        p = args[0]
        if not is_const(p):
            return [(st, self.unknown(st, "removesuffix", node, ctx, D.STR))]
        out = []
        for x, b in self.s_endswith(o, [p], {}, st, ctx, node, k):
            tr, fa = self.truthv(b, x, ctx, node)
            out += [(y, self.mk_slice(o, const(0), const(-len(cval(p))), y)
                     if cval(p) else o) for y in tr]
            out += [(y, o) for y in fa]
        return out

    def s_join(self, o, args, kw, st, ctx, node, k):
        out = []
        for x, segs in self.to_segs(args[0], st, ctx, node):
            bad = None
            y = x
            for s in segs:
                f = seg_elem(y, s)
                if f.x:
                    y = y.copy()
                    y.taint("join of unknown values [%s]" % self.site(
                        ctx, node))
                elif not f.is_bot() and (
                        getattr(f, k) is None or f.ncomp() > 1):
                    bad = f
            if bad is not None:
                self.raise_(y.copy(), ctx, "TypeError", node,
                            "sequence item: expected %s, found %r" % (k, bad))
                if getattr(bad, k) is None:
                    continue
            out += self.join_segs_str(o, segs, y, ctx, node, k)
        return out

    def join_segs_str(self, sep, segs, st, ctx, node, k):
        """sep.join(segs)"""
        e = const("" if k == "s" else b"")
        segs = list(segs)
        if not segs:
            return [(st, e)]
        if all(s[0] == "i" for s in segs):
            ps = []
            for i, s in enumerate(segs):
                if i:
                    ps.append(sep)
                ps.append(s[1])
            return [(st, cat(ps) if ps else e)]
        if sep is EMPTYS or cval(sep) == b"" if is_const(sep) else False:
            ps = [s[1] if s[0] == "i" else self.mk_sjoin(sep, s[1], s[2], st)
                  for s in segs]
            return [(st, cat(ps))]
        # symbolic parts: "/" + "/".join(x) == fold of "/" + item
        cur = [(st, [], True)]
        for s in segs:
            nxt = []
            for x, ps, empty in cur:
                if s[0] == "i":
                    nxt.append((x, ps + ([] if empty else [sep]) + [s[1]],
                                False))
                    continue
                if not empty:
                    nxt.append((x, ps + [self.fold_sep(sep, s[1], s[2], x)],
                                False))
                    continue
                tr, fa = self.cmp_split("==", s[2], const(0), x, ctx, node)
                for y in tr:
                    nxt.append((y, ps, True))
                for y in fa:
                    nxt.append((y, ps + [self.mk_sjoin(sep, s[1], s[2], y)],
                                False))
            cur = nxt
        return [(x, cat(ps) if ps else e) for x, ps, _ in cur]

    def mk_sjoin(self, sep, seq, n, st):
        if is_const(n) and cval(n) == 0:
            return EMPTYS
        if is_const(n) and cval(n) == 1:
            return item(st, seq, const(0))
        f = st.fact(seq)
        if sep is EMPTYS and f.s is not None and f.ncomp() == 1:
            return seq
        return mk("sjoin", sep, seq, n)

    def fold_sep(self, sep, seq, n, st):
        from .loops import fold_str, IDX
        return fold_str(cat([sep, item(st, seq, IDX)]), n)

    def s_encode(self, o, args, kw, st, ctx, node, k):
        enc = self.arg(args, kw, 0, "encoding", const("utf-8"))
        err = self.arg(args, kw, 1, "errors", const("strict"))
        return self.encode(o, enc, err, st, ctx, node)

    def encode(self, o, enc, err, st, ctx, node):
        e = norm_enc(enc)
        m = cval(err) if is_const(err) else None
        cs = st.fact(o).s.cs if st.fact(o).s is not None else C.ANY
        if e == "utf-8":
            if cs & C.SURR and m == "strict":
                y = st.copy()
                f = y.fact(o)
                self.raise_(y, ctx, "UnicodeEncodeError", node,
                            "surrogate in strict utf-8 encoding")
                st = st.copy()
                s = f.s
                n = D.mkstr(s.cs - C.SURR, s.lo, s.hi, s.only, s.excl,
                            s.first, s.last, s.enc)
                if n is None or not refine(st, o, Fact(s=n)):
                    return []
                return [(st, self.mk_u8enc(o, st))]
            if cs & C.SURR:
                return [(st, mk("bytesx", o, enc, err))]
            return [(st, self.mk_u8enc(o, st))]
        if e is not None and e.startswith("utf-16"):
            if m == "surrogatepass" or not cs & C.SURR:
                return [(st, mk("u16enc", o, const(e)))]
            if m == "strict":
                self.raise_(st.copy(), ctx, "UnicodeEncodeError", node,
                            "surrogate in strict utf-16 encoding")
            return [(st, mk("bytesx", o, enc, err))]
        if e in ("ascii", "latin-1", "iso-8859-1", "idna", "punycode") or \
                e is None or True:
            lim = {"ascii": C.ASCII, "latin-1": C.BYTE,
                   "iso-8859-1": C.BYTE}.get(e, C.ASCII)
            if e == "idna" or e == "punycode":
                self.raise_(st.copy(), ctx, "UnicodeError", node, e)
            elif not cs <= lim and m in ("strict", None):
                self.raise_(st.copy(), ctx, "UnicodeEncodeError", node,
                            "%s encoding" % e)
            if e is None:
                f = st.fact(enc)
                if f.s is not None and f.s.only is None:
                    y = st.copy()
                    y.taint("encoding parameter")
                    self.raise_(y, ctx, "LookupError", node,
                                "unknown encoding")
            return [(st, mk("bytesx", o, enc, err))]

    def mk_u8enc(self, o, st):
        if is_const(o):
            return const(cval(o).encode("utf-8"))
        if o.op == "u8dec":
            b = o.a[0]
            f = st.fact(b)
            if f.y is not None and f.y.cs <= C.ASCII:
                return b
        return mk("u8enc", o)

    def s_decode(self, o, args, kw, st, ctx, node, k):
        enc = self.arg(args, kw, 0, "encoding", const("utf-8"))
        err = self.arg(args, kw, 1, "errors", const("strict"))
        e = norm_enc(enc)
        m = cval(err) if is_const(err) else None
        f = st.fact(o)
        cs = f.y.cs if f.y is not None else C.BYTE
        if o.op == "u16enc":
            if e == cval(o.a[1]):
                s = o.a[0]
                scs = st.fact(s).s.cs if st.fact(s).s is not None else C.ANY
                if m in ("replace", "surrogatepass") or not scs & C.SURR:
                    if m == "surrogatepass":
                        # pairs are combined, lone surrogates stay
                        return [(st, mk("pairs", s) if scs & C.SURR else s)]
                    return [(st, self.mk_usv(s, st))]
                if m == "strict":
                    self.raise_(st.copy(), ctx, "UnicodeDecodeError", node,
                                "lone surrogate")
                    return [(st, self.mk_usv(s, st))]
            return [(st, self.unknown(st, "decode with other errors", node,
                                      ctx, D.STR))]
        if e == "utf-8":
            if o.op == "u8enc":
                return [(st, o.a[0])]
            if not cs <= C.ASCII and m == "strict":
                self.raise_(st.copy(), ctx, "UnicodeDecodeError", node,
                            "strict utf-8 decoding")
            if m not in ("strict", "replace") and not cs <= C.ASCII:
                return [(st, mk("decx", o, enc, err))]
            return [(st, self.mk_u8dec(o, st))]
        lim = {"ascii": C.ASCII, "latin-1": C.BYTE, "iso-8859-1": C.BYTE}.get(
            e, C.EMPTY)
        if not cs <= lim and m in ("strict", None):
            self.raise_(st.copy(), ctx, "UnicodeDecodeError", node,
                        "%s decoding" % e)
        if cs <= C.ASCII and e == "ascii":
            return [(st, self.mk_u8dec(o, st))]
        return [(st, mk("decx", o, enc, err))]

    def mk_usv(self, s, st):
        if is_const(s):
            v = cval(s).encode("utf-16", "surrogatepass").decode(
                "utf-16", "replace")
            return const(v)
        f = st.fact(s)
        if f.s is not None and not f.s.cs & C.SURR:
            return s
        if s.op == "usv":
            return s
        return mk("usv", s)

    def mk_u8dec(self, b, st):
        if is_const(b):
            return const(cval(b).decode("utf-8", "replace"))
        if b.op == "u8enc":
            return b.a[0]
        if b.op == "pctdec":
            x = b.a[0]
            f = st.fact(x)
            if x.op == "u8enc":
                g = st.fact(x.a[0])
                if g.s is not None and "%" not in g.s.cs:
                    return x.a[0]
        return mk("u8dec", b)

    def s_format(self, o, args, kw, st, ctx, node, k):
        if not is_const(o):
            return [(st, self.unknown(st, "format", node, ctx, D.STR))]
        import string
        try:
            parts = list(string.Formatter().parse(cval(o)))
        except ValueError as e:
            self.raise_(st, ctx, "ValueError", node, str(e))
            return []
        cur = [(st, [])]
        auto = 0
        for lit, fld, spec, conv in parts:
            if lit:
                cur = [(x, ps + [const(lit)]) for x, ps in cur]
            if fld is None:
                continue
            if fld == "":
                idx = auto
                auto += 1
            elif fld.isdigit():
                idx = int(fld)
            else:
                idx = fld
            v = None
            if isinstance(idx, int):
                if idx < len(args):
                    v = args[idx]
                else:
                    self.raise_(st, ctx, "IndexError", node, "format()")
                    return []
            else:
                v = kw.get(idx)
                if v is None:
                    if idx.isidentifier():
                        self.raise_(st, ctx, "KeyError", node, "format()")
                        return []
                    st = st.copy()
                    return [(st, self.unknown(st, "format field", node, ctx,
                                              D.STR))]
            nxt = []
            for x, ps in cur:
                for y, s in self.fmt_value(v, ord(conv) if conv else -1,
                                           const(spec) if spec else None, x,
                                           ctx, node):
                    nxt.append((y, ps + [s]))
            cur = nxt
        return [(x, cat(ps)) for x, ps in cur]

    def s_zfill(self, o, args, kw, st, ctx, node, k):
        return [(st, self.unknown(st, "zfill", node, ctx, D.STR))]

    def s_translate(self, o, args, kw, st, ctx, node, k):
        st = st.copy()
        return [(st, self.unknown(st, "translate", node, ctx, D.STR))]

    # ------------------------------------------------------------ formatting
    def percent(self, a, b, st, ctx, node):
        """printf formatting a % b"""
        if not is_const(a):
            self.event(ctx, "format-nonconst", node, a, st)
            f = st.fact(a)
            cs = f.s.cs if f.s is not None else C.ANY
            if "%" in cs:
                y = st.copy()
                self.raise_(y, ctx, "TypeError", node,
                            "formatting with a non-constant format")
            return [(st, mk("strx", a))]
        fmt = cval(a)
        its = tup_items(b)
        if its is None:
            f = st.fact(b)
            if b.op == "obj" or f.t is None and not f.x:
                its = [b]
            elif f.t is not None and f.ncomp() == 1 and f.t.lo == f.t.hi:
                its = [item(st, b, const(i)) for i in range(int(f.t.lo))]
        specs = fmt_specs(fmt)
        if specs is None or its is None:
            st = st.copy()
            return [(st, self.unknown(st, "printf formatting", node, ctx,
                                      D.STR))]
        n = sum(1 for s in specs if s[0] == "v")
        if n != len(its):
            self.raise_(st, ctx, "TypeError", node,
                        "format %r takes %d values, given %d" % (
                            fmt, n, len(its)))
            return []
        cur = [(st, [])]
        i = 0
        for s in specs:
            if s[0] == "l":
                cur = [(x, ps + [const(s[1])]) for x, ps in cur]
                continue
            v = its[i]
            i += 1
            nxt = []
            for x, ps in cur:
                if s[1] == "s" and s[2] == "":
                    for y, t in self.str_(v, x, ctx, node):
                        nxt.append((y, ps + [t]))
                elif s[1] in "ra":
                    nxt.append((x, ps + [self.repr_(v, x)]))
                elif s[1] in "diouxX":
                    for y, k in self.kinds(x, v):
                        if k in ("i", "b"):
                            nxt.append((y, ps + [mk("fmt", v, const(
                                s[2] + s[1]))]))
                        elif k == "x":
                            nxt.append((y, ps + [mk("strx", v)]))
                        else:
                            self.raise_(y, ctx, "TypeError", node,
                                        "%%%s format of %s" % (s[1], k))
                else:
                    nxt.append((x, ps + [mk("strx", v)]))
            cur = nxt
        return [(x, cat(ps)) for x, ps in cur]


def fmt_specs(fmt):
    import re
    if isinstance(fmt, bytes):
        return None
    out, p = [], 0
    for m in re.finditer(
            r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)", fmt,
            re.S):
        if m.start() > p:
            out.append(("l", fmt[p:m.start()]))
        p = m.end()
        if m.group(1) or m.group(3) == "*":
            return None
        c = m.group(5)
        if c == "%":
            out.append(("l", "%"))
            continue
        if c not in "sdiouxXeEfFgGcra":
            return None
        out.append(("v", c, (m.group(2) or "") + (m.group(3) or "")
                    + ("." + m.group(4) if m.group(4) else "")))
    rest = fmt[p:]
    if "%" in rest:
        return None
    if rest:
        out.append(("l", rest))
    return out
