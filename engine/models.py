"""Models of the builtins."""

import ast
import builtins

from . import charset as C
from . import domain as D
from . import terms as t_
from .calls import CallMixin
from .domain import Fact, IntF, INF
from .loader import ClassInfo
from .logic import const_members, list_len, mknot, truth
from .models_coll import CollMixin
from .models_ext import ExtMixin
from .models_str import StrMixin
from .state import HObj, St, item, newsym, refine
from .terms import (EMPTYS, EnumVal, FALSE, NONE, T, TRUE, cat, const, cval,
                    is_const, lin_add, mk, tup, tup_items)

FOLD = {"len", "str", "int", "ord", "chr", "hex", "bool", "abs", "min", "max",
        "repr", "bytes", "tuple", "frozenset", "set", "sum", "oct", "bin",
        "round", "divmod", "ascii", "float", "pow"}
RADIX = {2: "01", 8: "01234567", 10: "0123456789",
         16: "0123456789abcdefABCDEF"}


def plain(t):
    """A python constant (enum members excluded)."""
    return is_const(t) and not isinstance(cval(t), EnumVal)


class ModelMixin(StrMixin, CollMixin, ExtMixin, CallMixin):
    def call_bltn(self, name, args, kw, st, ctx, node):
        if any(a.op == "star" for a in args):
            st = st.copy()
            return [(st, self.unknown(st, "star call of " + name, node, ctx))]
        if name in FOLD and args and all(plain(a) for a in args) and all(
                plain(v) for v in kw.values()):
            try:
                r = getattr(builtins, name)(
                    *[cval(a) for a in args],
                    **{k: cval(v) for k, v in kw.items()})
                if isinstance(r, set):
                    r = frozenset(r)
                if not isinstance(r, float):
                    return [(st, const(r))]
            except (TypeError, ValueError) as e:
                self.raise_(st, ctx, type(e).__name__, node, str(e))
                return []
        m = getattr(self, "b_" + name, None)
        if m is not None:
            return m(args, kw, st, ctx, node)
        v = getattr(builtins, name, None)
        if isinstance(v, type) and issubclass(v, BaseException):
            st = st.copy()
            o = self.new(st, ctx, node, HObj("inst", "exc." + name, {
                "args": tup(args)}), ":" + name)
            return [(st, o)]
        st = st.copy()
        return [(st, self.unknown(st, "builtin " + name, node, ctx))]

    def arity(self, args, kw, lo, hi, st, ctx, node):
        if not lo <= len(args) <= hi:
            self.raise_(st, ctx, "TypeError", node, "argument count")
            return False
        return True

    def b_len(self, args, kw, st, ctx, node):
        if not self.arity(args, kw, 1, 1, st, ctx, node):
            return []
        v = args[0]
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None:
                if h.kind == "list":
                    return [(st, list_len(h))]
                if h.kind == "set":
                    if const_members(st, v) is not None:
                        return [(st, const(len(set(const_members(st, v)))))]
                    return [(st, self.fresh(st, "setlen:" + self.site(
                        ctx, node), D.NAT))]
                if h.kind == "dict":
                    if not h.open:
                        return [(st, const(len(h.items)))]
                    if h.f.get("\0keys") is not None:
                        return [(st, mk("len", h.f["\0keys"]))]
                    return [(st, self.fresh(st, "dictlen:" + self.site(
                        ctx, node), D.NAT))]
                if h.kind == "inst" and isinstance(h.cls, ClassInfo):
                    if h.cls.lookup("__len__")[1] is not None:
                        return self.callm(v, "__len__", [], {}, st, ctx, node)
                    if h.cls.namedtuple:
                        return [(st, const(len(h.cls.fields)))]
                    self.raise_(st, ctx, "TypeError", node, "no len()")
                    return []
            return [(st, self.unknown(st, "len", node, ctx, D.NAT))]
        if v.op in ("tupseq",):
            return [(st, list_len(HObj("list", segs=v.a[0])))]
        if v.op in ("setop", "cset"):
            return [(st, mk("len", v))]
        out = []
        for x, k in self.kinds(st, v):
            if k in ("s", "y", "t"):
                out.append((x, self.mk_len(v, x)))
            elif k in ("none", "b", "i"):
                self.raise_(x, ctx, "TypeError", node,
                            "object of type %s has no len()" % k)
            else:
                out.append((x, self.unknown(x, "len of an unknown value",
                                            node, ctx, D.NAT)))
        return out

    def b_str(self, args, kw, st, ctx, node):
        if not args:
            return [(st, EMPTYS)]
        if len(args) > 1 or kw:
            return self.call_method(args[0], "decode", args[1:], kw, st, ctx,
                                    node)
        return self.str_(args[0], st, ctx, node)

    def b_repr(self, args, kw, st, ctx, node):
        v = args[0]
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo) and h.cls.lookup("__repr__")[1]:
                return self.callm(v, "__repr__", [], {}, st, ctx, node)
        return [(st, self.repr_(v, st))]

    b_ascii = b_repr

    def b_int(self, args, kw, st, ctx, node):
        if not args:
            return [(st, const(0))]
        v = args[0]
        base = args[1] if len(args) > 1 else kw.get("base", const(10))
        out = []
        for x, k in self.kinds(st, v):
            if k == "i":
                if len(args) > 1:
                    self.raise_(x, ctx, "TypeError", node,
                                "int() can't convert non-string")
                    continue
                out.append((x, const(int(_iv(v))) if is_const(v) else v))
            elif k == "b":
                f = x.fact(v)
                r = const(int(cval(v))) if is_const(v) else mk(
                    "boolint", v)
                out.append((x, r))
            elif k in ("s", "y"):
                out += self.int_str(v, base, x, ctx, node, k)
            elif k in ("none", "t"):
                self.raise_(x, ctx, "TypeError", node, "int() of " + k)
            else:
                y = x.copy()
                y.taint("int of an unknown value [%s]" % self.site(ctx, node))
                self.raise_(y, ctx, "ValueError", node, "int()")
                out.append((x, self.unknown(x, "int of an unknown value",
                                            node, ctx, D.INT)))
        return out

    def int_str(self, v, base, st, ctx, node, k):
        out = []
        bases = []
        if is_const(base):
            bases = [(st, cval(base))]
        else:
            f = st.fact(base)
            lo, hi = st.int_iv(base)
            if hi - lo > 40:
                bases = [(st, None)]
            else:
                for b in range(int(lo), int(hi) + 1):
                    if f.i.has(b):
                        x = st.copy()
                        if refine(x, base, Fact(i=IntF(b, b))):
                            bases.append((x, b))
        for x, b in bases:
            if b is not None and b not in RADIX:
                if b != 0 and not 2 <= b <= 36:
                    self.raise_(x, ctx, "ValueError", node, "int() base")
                    continue
                b = None
            f = x.fact(v)
            s = f.s if k == "s" else f.y
            ok = C.of(RADIX[b]) if b else C.EMPTY
            t = mk("int", v, const(b) if b else base)
            strict = s.cs <= ok and s.lo >= 1
            # length limit of int() for bases that are not powers of two
            if not strict or (b in (10, None) and s.hi > 4300):
                y = x.copy()
                why = "int() of a string that may hold other characters"
                good = True
                if strict:
                    why = "int() of more than 4300 digits"
                    good = refine(y, mk("len", v), Fact(i=IntF(4301, INF)))
                if good:
                    self.raise_(y, ctx, "ValueError", node, why)
            if not strict:
                lenient = C.of("_+- \t\n\x0b\x0c\r\x1c\x1d\x1e\x1f\x85\xa0")
                lenient = lenient | (C.by_pred("isspace")) | (
                    C.by_pred("isdecimal") - C.DIGITS)
                if b == 16:
                    lenient = lenient | C.of("xX")
                if b == 8:
                    lenient = lenient | C.of("oO")
                if b is None:
                    lenient = lenient | C.ALNUM
                bad = (s.cs - ok) & lenient
                good = s.cs & (ok | lenient | (C.ALNUM if b is None
                                               else C.EMPTY))
                n = D.mkstr(good, max(1, s.lo), s.hi, s.only, s.excl,
                            s.first & good, s.last & good, s.enc)
                if n is None:
                    continue
                x = x.copy()
                if not refine(x, v, Fact(**{k: n})):
                    continue
                self.event(ctx, "int", node, (
                    v, b, bool(bad), repr(bad)), x)
            else:
                self.event(ctx, "int", node, (v, b, False, ""), x)
            if b in (10, None) and s.hi > 4300:
                x = x.copy()
                if not refine(x, mk("len", v), Fact(i=IntF(1, 4300))):
                    continue
            out.append((x, t))
        return out

    def b_bool(self, args, kw, st, ctx, node):
        if not args:
            return [(st, FALSE)]
        tr, fa = self.truthv(args[0], st, ctx, node)
        return [(x, TRUE) for x in tr] + [(x, FALSE) for x in fa]

    def b_any(self, args, kw, st, ctx, node, want=True):
        out = []
        for x, segs in self.to_segs(args[0], st, ctx, node):
            cur = [x]
            res = []
            for s in segs:
                nxt = []
                for y in cur:
                    if s[0] != "i":
                        z = y.copy()
                        z.taint("any/all of a symbolic sequence [%s]"
                                % self.site(ctx, node))
                        res.append(z)
                        w = y.copy()
                        w.unk = z.unk
                        nxt.append(w)
                        continue
                    tr, fa = self.truthv(s[1], y, ctx, node)
                    hit, miss = (tr, fa) if want else (fa, tr)
                    res += hit
                    nxt += miss
                cur = nxt
            out += [(y, const(want)) for y in res]
            out += [(y, const(not want)) for y in cur]
        return out

    def b_all(self, args, kw, st, ctx, node):
        return self.b_any(args, kw, st, ctx, node, False)

    def b_isinstance(self, args, kw, st, ctx, node):
        tr, fa = self.isinstance_(args[0], args[1], st, ctx, node)
        return [(x, TRUE) for x in tr] + [(x, FALSE) for x in fa]

    def b_range(self, args, kw, st, ctx, node):
        for a in args:
            f = st.fact(a)
            if f.s is not None and f.ncomp() == 1 or f.none and \
                    f.ncomp() == 1:
                self.raise_(st, ctx, "TypeError", node, "range()")
                return []
        lo, hi, step = const(0), None, const(1)
        if len(args) == 1:
            hi = args[0]
        elif len(args) == 2:
            lo, hi = args
        else:
            lo, hi, step = args
        return [(st, mk("iter", "range", lo, hi, step))]

    def b_enumerate(self, args, kw, st, ctx, node):
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        return [(st, mk("iter", "enumerate", args[0], start))]

    def b_reversed(self, args, kw, st, ctx, node):
        return [(st, mk("iter", "reversed", args[0]))]

    def b_zip(self, args, kw, st, ctx, node):
        return [(st, mk("iter", "zip", tuple(args)))]

    def b_map(self, args, kw, st, ctx, node):
        if len(args) != 2:
            return [(st, self.unknown(st, "map", node, ctx))]
        return [(st, mk("iter", "map", args[0], args[1]))]

    def b_iter(self, args, kw, st, ctx, node):
        v = args[0]
        if v.op in ("iter", "gen"):
            return [(st, v)]
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo) and h.cls.lookup("__iter__")[1]:
                return self.callm(v, "__iter__", [], {}, st, ctx, node)
        return [(st, mk("iter", "obj", v))]

    def map_segs(self, v, st, ctx, node):
        """Elements of map(f, x)."""
        f, src = v.a[1], v.a[2]
        out = []
        for x, segs in self.to_segs(src, st, ctx, node):
            cur = [(x, ())]
            for s in segs:
                nxt = []
                for y, acc in cur:
                    if s[0] == "i":
                        for z, r in self.call(f, [s[1]], {}, y, ctx, node):
                            nxt.append((z, acc + (("i", r),)))
                        continue
                    from .loops import gmap, IDX
                    y = y.copy()
                    e = item(y, s[1], IDX)
                    rs = self.call(f, [e], {}, y, ctx, node)
                    if len(rs) == 1:
                        z, r = rs[0]
                        nxt.append((z, acc + (("m", gmap(r, s[2]), s[2]),)))
                    else:
                        for z, r in rs:
                            z = z.copy()
                            q = self.unknown(z, "map with several outcomes",
                                             node, ctx)
                            nxt.append((z, acc + (("m", q, s[2]),)))
                            break
                cur = nxt
            out += cur
        return out

    def b_sorted(self, args, kw, st, ctx, node):
        v = args[0]
        mem = None
        if is_const(v) and isinstance(cval(v), (str, tuple, frozenset, bytes)):
            mem = list(cval(v))
        elif v.op == "obj":
            mem = const_members(st, v)
        rev = kw.get("reverse")
        if mem is not None and "key" not in kw and (
                rev is None or is_const(rev)):
            try:
                mem = sorted(mem, reverse=bool(rev and cval(rev)))
                st = st.copy()
                return [(st, self.new(st, ctx, node, HObj("list", segs=tuple(
                    ("i", const(c)) for c in mem))))]
            except TypeError as e:
                self.raise_(st, ctx, "TypeError", node, str(e))
                return []
        out = []
        for x, segs in self.to_segs(v, st, ctx, node):
            x = x.copy()
            self.sort_keys(segs, kw.get("key"), rev, x, ctx, node)
            x, segs = self.permuted(segs, kw.get("key"), x, ctx, node)
            out.append((x, self.new(x, ctx, node, HObj("list", segs=segs))))
        return out

    def permuted(self, segs, key, st, ctx, node):
        """Some permutation of a sequence."""
        if len(segs) == 0 or len(segs) == 1 and segs[0][0] == "i":
            return st, tuple(segs)
        from .state import seg_elem
        ef = D.BOT
        for s in segs:
            ef = ef.join(seg_elem(st, s))
        ln = list_len(HObj("list", segs=tuple(segs)))
        lo, hi = st.int_iv(ln)
        q = self.fresh(st, "perm:" + self.site(ctx, node),
                       Fact(t=D.TupF(None, ef, max(lo, 0), hi)))
        if ef.t is not None:
            st.put_fact(mk("elem", q), ef)
        return st, (("m", q, ln),)

    def b_set(self, args, kw, st, ctx, node):
        st = st.copy()
        if not args:
            return [(st, self.new(st, ctx, node, HObj("set")))]
        v = args[0]
        if v.op == "obj":
            m = const_members(st, v)
            if m is not None:
                return [(st, const(frozenset(m)))]
        f = st.fact(v)
        if f.s is not None and f.ncomp() == 1:
            return [(st, mk("cset", v))]
        out = []
        for x, segs in self.to_segs(v, st, ctx, node):
            x = x.copy()
            if all(s[0] == "i" and plain(s[1]) for s in segs):
                out.append((x, const(frozenset(cval(s[1]) for s in segs))))
                continue
            out.append((x, self.new(x, ctx, node, HObj("set", segs=segs))))
        return out

    def b_frozenset(self, args, kw, st, ctx, node):
        if not args:
            return [(st, const(frozenset()))]
        return self.b_set(args, kw, st, ctx, node)

    def b_list(self, args, kw, st, ctx, node):
        if not args:
            st = st.copy()
            return [(st, self.new(st, ctx, node, HObj("list")))]
        out = []
        for x, segs in self.to_segs(args[0], st, ctx, node):
            x = x.copy()
            out.append((x, self.new(x, ctx, node, HObj(
                "list", segs=tuple(segs)))))
        return out

    def b_tuple(self, args, kw, st, ctx, node):
        if not args:
            return [(st, const(()))]
        f = st.fact(args[0])
        if args[0].op in ("tuple", "tupseq") or f.t is not None and \
                f.ncomp() == 1:
            return [(st, args[0])]
        out = []
        for x, segs in self.to_segs(args[0], st, ctx, node):
            out.append((x, self.segs_to_tuple(tuple(segs), x, ctx, node)))
        return out

    def b_dict(self, args, kw, st, ctx, node):
        st = st.copy()
        items = []
        open_ = False
        if args:
            v = args[0]
            h = st.heap.get(v.a[0]) if v.op == "obj" else None
            if h is not None and h.kind == "dict":
                items, open_ = list(h.items), h.open
            else:
                open_ = True
                st.taint("dict() of an iterable [%s]" % self.site(ctx, node))
        for k, w in kw.items():
            items = [p for p in items if p[0] is not const(k)]
            items.append((const(k), w))
        return [(st, self.new(st, ctx, node, HObj(
            "dict", items=tuple(items), open=open_)))]

    def b_ord(self, args, kw, st, ctx, node):
        v = args[0]
        out = []
        for x, k in self.kinds(st, v):
            if k not in ("s", "y", "x"):
                self.raise_(x, ctx, "TypeError", node, "ord() of " + k)
                continue
            if k == "x":
                out.append((x, self.unknown(x, "ord", node, ctx,
                                            D.fint(0, C.MAX))))
                continue
            f = x.fact(v)
            s = f.s if k == "s" else f.y
            if s.lo != 1 or s.hi != 1:
                y = x.copy()
                self.raise_(y, ctx, "TypeError", node,
                            "ord() expected a character")
                x = x.copy()
                n = D.mkstr(s.cs, 1, 1, s.only, s.excl, s.first, s.last,
                            s.enc)
                if n is None or not refine(x, v, Fact(**{k: n})):
                    continue
            out.append((x, mk("ord", v)))
        return out

    def b_chr(self, args, kw, st, ctx, node):
        lo, hi = st.int_iv(args[0])
        if lo < 0 or hi > C.MAX:
            self.raise_(st.copy(), ctx, "ValueError", node, "chr()")
        return [(st, mk("chr", args[0]))]

    def b_hex(self, args, kw, st, ctx, node):
        out = []
        for x, k in self.kinds(st, args[0]):
            if k in ("i", "b"):
                out.append((x, cat([const("0x"), mk(
                    "fmt", args[0], const("x"))])))
            elif k == "x":
                out.append((x, self.unknown(x, "hex", node, ctx, D.STR)))
            else:
                self.raise_(x, ctx, "TypeError", node, "hex()")
        return out

    def b_sum(self, args, kw, st, ctx, node):
        out = []
        for x, segs in self.to_segs(args[0], st, ctx, node):
            acc = args[1] if len(args) > 1 else const(0)
            lo, hi = 0, 0
            sym = False
            for s in segs:
                if s[0] == "i" and not sym:
                    acc = lin_add(acc, s[1])
                else:
                    sym = True
            if sym:
                from .state import seg_elem
                neg = any((seg_elem(x, s).i is None or seg_elem(
                    x, s).i.lo < 0) for s in segs)
                acc = mk("sum", *[q for s in segs for q in s[1:]])
                refine(x, acc, D.INT if neg else D.NAT)
            out.append((x, acc))
        return out

    def minmax(self, name, args, kw, st, ctx, node):
        vals = args
        if "key" in kw or (len(args) == 1):
            if len(args) == 1 and "key" not in kw:
                out = []
                for x, segs in self.to_segs(args[0], st, ctx, node):
                    if all(s[0] == "i" for s in segs) and segs:
                        out += self.minmax(name, [s[1] for s in segs], {}, x,
                                           ctx, node)
                    else:
                        from .state import seg_elem
                        ef = D.BOT
                        for s in segs:
                            ef = ef.join(seg_elem(x, s))
                        lo, _ = x.int_iv(list_len(HObj("list", segs=segs)))
                        if lo <= 0 and "default" not in kw:
                            self.raise_(x.copy(), ctx, "ValueError", node,
                                        name + "() of an empty sequence")
                        if "default" in kw:
                            ef = ef.join(x.fact(kw["default"]))
                        x = x.copy()
                        out.append((x, self.fresh(x, "%s:%s" % (
                            name, self.site(ctx, node)), ef)))
                return out
            return [(st, self.unknown(st, name, node, ctx))]
        cur = [(st, vals[0])]
        op = "<" if name == "min" else ">"
        for v in vals[1:]:
            nxt = []
            for x, a in cur:
                p, q = self.cmp_split(op, v, a, x, ctx, node)
                nxt += [(y, v) for y in p] + [(y, a) for y in q]
            cur = nxt
        return cur

    def b_min(self, args, kw, st, ctx, node):
        return self.minmax("min", args, kw, st, ctx, node)

    def b_max(self, args, kw, st, ctx, node):
        return self.minmax("max", args, kw, st, ctx, node)

    def b_abs(self, args, kw, st, ctx, node):
        lo, hi = st.int_iv(args[0])
        if lo >= 0:
            return [(st, args[0])]
        return [(st, self.fresh(st, "abs:" + self.site(ctx, node), D.NAT))]

    def b_hasattr(self, args, kw, st, ctx, node):
        o, n = args
        if not is_const(n):
            return [(st, self.unknown(st, "hasattr", node, ctx, D.BOOL))]
        from .interp import Sink
        s2 = Sink()
        c2 = ctx.but(sink=s2)
        if o.op == "obj":
            h = st.heap.get(o.a[0])
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo):
                if h.cls.find_property(cval(n)) is not None or cval(n) in h.f:
                    return [(st, TRUE)]
                if cval(n) in ("__module__", "__class__", "__doc__",
                               "__dict__"):
                    return [(st, TRUE)]
                if cval(n) in ("__name__", "__qualname__"):
                    return [(st, FALSE)]
        if o.op in ("class", "func") and cval(n) in (
                "__name__", "__module__", "__qualname__", "__class__"):
            return [(st, TRUE)]
        if is_const(o):
            return [(st, const(hasattr(cval(o), cval(n))))]
        r = self.getattr(o, cval(n), st, c2, node)
        return [(x, TRUE) for x, _ in r] + [
            (x, FALSE) for x, e in s2.raises if e.name == "AttributeError"]

    def b_getattr(self, args, kw, st, ctx, node):
        if not is_const(args[1]):
            return [(st, self.unknown(st, "getattr", node, ctx))]
        if len(args) == 2:
            return self.getattr(args[0], cval(args[1]), st, ctx, node)
        out = []
        for x, b in self.b_hasattr(args[:2], {}, st, ctx, node):
            tr, fa = truth(x, b)
            for y in tr:
                out += self.getattr(args[0], cval(args[1]), y, ctx, node)
            out += [(y, args[2]) for y in fa]
        return out

    def b_setattr(self, args, kw, st, ctx, node):
        if not is_const(args[1]):
            return [(st, self.unknown(st, "setattr", node, ctx))]
        return [(x, NONE) for x in self.setattr(
            args[0], cval(args[1]), args[2], st, ctx, node)]

    def b_type(self, args, kw, st, ctx, node):
        v = args[0]
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None:
                if h.kind == "inst" and isinstance(h.cls, ClassInfo):
                    return [(st, mk("class", h.cls.qualname))]
                if h.kind in ("list", "dict", "set"):
                    return [(st, mk("bltn", h.kind))]
        out = []
        for x, k in self.kinds(st, v):
            n = {"b": "bool", "i": "int", "s": "str", "y": "bytes",
                 "t": "tuple"}.get(k)
            if k == "none":
                out.append((x, mk("ext", "types.NoneType")))
            elif n is None:
                out.append((x, mk("ext", "type:?")))
            else:
                out.append((x, mk("bltn", n)))
        return out

    def b_next(self, args, kw, st, ctx, node):
        v = args[0]
        segs = self.to_segs(v, st, ctx, node) if v.op == "gen" or \
            v.op == "iter" else [(st, None)]
        out = []
        for x, sg in segs:
            if sg is None:
                out.append((x, self.unknown(x, "next()", node, ctx)))
                continue
            # only sound for a fresh iterator; it is a value term here
            x = x.copy()
            if sg and sg[0][0] == "i":
                out.append((x, sg[0][1]))
                continue
            x.taint("next() on an iterator [%s]" % self.site(ctx, node))
            if len(args) > 1:
                out.append((x, args[1]))
            else:
                self.raise_(x, ctx, "StopIteration", node)
            if sg:
                y = x.copy()
                out.append((y, item(y, sg[0][1], const(0))))
        return out

    def b_print(self, args, kw, st, ctx, node):
        self.event(ctx, "io", node, "print", st)
        return [(st, NONE)]

    def b_open(self, args, kw, st, ctx, node):
        self.event(ctx, "io", node, "open", st)
        return [(st, self.unknown(st, "open()", node, ctx))]

    def b_id(self, args, kw, st, ctx, node):
        return [(st, mk("id", args[0]))]

    def b_hash(self, args, kw, st, ctx, node):
        v = args[0]
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo) and h.cls.lookup("__hash__")[1]:
                return self.callm(v, "__hash__", [], {}, st, ctx, node)
            if h is not None and h.kind in ("list", "dict", "set"):
                self.raise_(st, ctx, "TypeError", node, "unhashable")
                return []
        return [(st, mk("hash", v))]

    def b_callable(self, args, kw, st, ctx, node):
        return [(st, const(args[0].op in ("func", "class", "bound", "bltn",
                                          "ext", "extm")))]

    def b_bytes(self, args, kw, st, ctx, node):
        if not args:
            return [(st, const(b""))]
        if len(args) > 1 or kw:
            return self.call_method(args[0], "encode", args[1:], kw, st, ctx,
                                    node)
        f = st.fact(args[0])
        if f.y is not None and f.ncomp() == 1:
            return [(st, args[0])]
        return [(st, self.unknown(st, "bytes()", node, ctx, D.BYTES))]

    b_bytearray = b_bytes

    def b_float(self, args, kw, st, ctx, node):
        return [(st, self.unknown(st, "float()", node, ctx))]

    def b_format(self, args, kw, st, ctx, node):
        spec = args[1] if len(args) > 1 else EMPTYS
        return self.fmt_value(args[0], -1, spec, st, ctx, node)

    def b_object(self, args, kw, st, ctx, node):
        st = st.copy()
        return [(st, self.new(st, ctx, node, HObj("inst", "object")))]

    def b_super(self, args, kw, st, ctx, node):
        if len(args) == 2 and args[0].op == "class":
            return [(st, mk("super", args[0].a[0], args[1]))]
        return [(st, self.unknown(st, "super()", node, ctx))]

    def b_filter(self, args, kw, st, ctx, node):
        return [(st, self.unknown(st, "filter()", node, ctx))]

    def nt_eq(self, a, b, st):
        ha = st.heap.get(a.a[0]) if a.op == "obj" else None
        hb = st.heap.get(b.a[0]) if b.op == "obj" else None
        if ha is None or hb is None:
            return mk("cmp", "==", a, b)
        parts = []
        for f, _ in ha.cls.fields:
            if f not in hb.f:
                return FALSE
            parts.append(mk("cmp", "==", ha.f[f], hb.f[f]))
        return mk("and", tuple(parts))


def _iv(t):
    v = cval(t)
    return v.value if isinstance(v, EnumVal) else v
