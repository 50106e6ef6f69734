"""Expression evaluation."""

import ast
import builtins

from . import charset as C
from . import domain as D
from . import terms as t_
from .domain import Fact, IntF, INF
from .loader import ClassInfo, FuncInfo
from .logic import compare, list_len, mkcmp, mknot, truth
from .state import HObj, St, at_end, item, newsym, refine
from .terms import (EMPTYS, EnumVal, FALSE, NONE, T, TRUE, cat, const, cval,
                    is_const, lin_add, lin_mul, mk, tup, tup_items)

BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Mod: "%",
    ast.FloorDiv: "//", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&",
    ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.Div: "/",
    ast.MatMult: "@",
}
CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
    ast.NotIn: "not in",
}

KINDS = ("none", "b", "i", "s", "y", "t", "o", "x")


def kinds_of(f):
    out = []
    if f.none:
        out.append("none")
    if f.b:
        out.append("b")
    for k in ("i", "s", "y", "t"):
        if getattr(f, k) is not None:
            out.append(k)
    if f.o:
        out.append("o")
    if f.x:
        out.append("x")
    return out


def only_kind(f, k):
    if k == "none":
        return D.NONE
    if k == "b":
        return Fact(b=f.b)
    if k == "o":
        return Fact(o=f.o)
    if k == "x":
        return D.UNKNOWN
    return Fact(**{k: getattr(f, k)})


class SliceV:
    """Index value of a slice expression."""

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ValueMixin:
    # --------------------------------------------------------------- helpers
    def kinds(self, st, t):
        """Split st by the type of t -> [(st, kind)]"""
        if t.op == "obj":
            return [(st, "o")]
        f = st.fact(t)
        ks = kinds_of(f)
        if len(ks) == 1:
            return [(st, ks[0])]
        out = []
        for k in ks:
            n = st.copy()
            if refine(n, t, only_kind(f, k)):
                out.append((n, k))
        return out

    def evs(self, exprs, st, ctx):
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for x, vs in cur:
                for y, v in self.ev(e, x, ctx):
                    nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def ev(self, e, st, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, self.unknown(st, "expression %s" % type(e).__name__,
                                      e, ctx))]
        return m(e, st, ctx)

    # ------------------------------------------------------------ conditions
    def ev_test(self, e, st, ctx):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.ev_test(e.operand, st, ctx)
            return b, a
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, done = [st], []
            for v in e.values:
                nxt = []
                for x in cur:
                    tr, fa = self.ev_test(v, x, ctx)
                    if isand:
                        nxt += tr
                        done += fa
                    else:
                        nxt += fa
                        done += tr
                cur = nxt
                if len(cur) > 1:
                    cur = self.merge(cur)
                if not cur:
                    break
            if len(done) > 3:
                done = self.merge(done)
            return (cur, done) if isand else (done, cur)
        if isinstance(e, ast.Constant):
            return ([st], []) if e.value else ([], [st])
        if isinstance(e, ast.Compare):
            # chains: a < b < c
            tr, fa = [], []
            if len(e.ops) == 1:
                for x, (a, b) in self.evs(
                        [e.left, e.comparators[0]], st, ctx):
                    p, q = self.cmp_split(CMP[type(e.ops[0])], a, b, x, ctx, e)
                    tr += p
                    fa += q
                return tr, fa
            for x, a in self.ev(e.left, st, ctx):
                cur = [(x, a)]
                for o, c in zip(e.ops, e.comparators):
                    nxt = []
                    for y, l in cur:
                        for z, r in self.ev(c, y, ctx):
                            p, q = self.cmp_split(CMP[type(o)], l, r, z, ctx, e)
                            fa += q
                            nxt += [(w, r) for w in p]
                    cur = nxt
                tr += [y for y, _ in cur]
            return tr, fa
        if isinstance(e, ast.NamedExpr):
            tr, fa = [], []
            for x, v in self.ev(e, st, ctx):
                p, q = self.truthv(v, x, ctx, e)
                tr += p
                fa += q
            return tr, fa
        tr, fa = [], []
        for x, v in self.ev(e, st, ctx):
            p, q = self.truthv(v, x, ctx, e)
            tr += p
            fa += q
        return tr, fa

    def truthv(self, v, st, ctx, node):
        """truth() plus user-defined __bool__/__len__."""
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo):
                for m in ("__bool__", "__len__"):
                    if h.cls.lookup(m)[1] is not None:
                        tr, fa = [], []
                        for x, r in self.callm(v, m, [], {}, st, ctx, node):
                            p, q = truth(x, r)
                            tr += p
                            fa += q
                        return tr, fa
        if v.op == "cmp":
            return self.cmp_split(v.a[0], v.a[1], v.a[2], st, ctx, node)
        if v.op == "pred" and v.a[0] == "recls":
            return self.re_truth(v, st, ctx, node)
        if v.op == "allp":
            return self.allp_truth(v, st, ctx, node)
        if v.op == "not":
            a, b = self.truthv(v.a[0], st, ctx, node)
            return b, a
        f = st.fact(v)
        if f.x and v.op not in ("pred", "truth"):
            st.taint("truth of an unknown value [%s]" % self.site(ctx, node))
        return truth(st, v)

    def cmp_split(self, op, a, b, st, ctx, node):
        # user-defined __eq__ / __contains__
        if op in ("==", "!="):
            for l, r in ((a, b), (b, a)):
                if l.op == "obj":
                    h = st.heap.get(l.a[0])
                    if h is not None and h.kind == "inst" and isinstance(
                            h.cls, ClassInfo) and h.cls.lookup(
                            "__eq__")[1] is not None:
                        tr, fa = [], []
                        for x, v in self.callm(l, "__eq__", [r], {}, st, ctx,
                                               node):
                            p, q = self.truthv(v, x, ctx, node)
                            tr += p
                            fa += q
                        return (tr, fa) if op == "==" else (fa, tr)
        if op in ("in", "not in"):
            if b.op == "obj":
                h = st.heap.get(b.a[0])
                if h is not None and h.kind == "inst" and isinstance(
                        h.cls, ClassInfo) and h.cls.lookup(
                        "__contains__")[1] is not None:
                    tr, fa = [], []
                    for x, v in self.callm(b, "__contains__", [a], {}, st,
                                           ctx, node):
                        p, q = self.truthv(v, x, ctx, node)
                        tr += p
                        fa += q
                    return (tr, fa) if op == "in" else (fa, tr)
            tr, fa = [], []
            for x, kb in self.kinds(st, b):
                if kb in ("none", "b", "i"):
                    self.raise_(x, ctx, "TypeError", node,
                                "argument is not iterable")
                    continue
                if kb in ("s", "y"):
                    for y, ka in self.kinds(x, a):
                        if ka != kb and ka != "x" and not (
                                kb == "y" and ka == "i"):
                            self.raise_(y, ctx, "TypeError", node,
                                        "'in <string>' requires string")
                            continue
                        p, q = compare(y, op, a, b)
                        tr += p
                        fa += q
                    continue
                p, q = compare(x, op, a, b)
                tr += p
                fa += q
            return tr, fa
        if op in ("<", "<=", ">", ">="):
            tr, fa = [], []
            for x, ka in self.kinds(st, a):
                for y, kb in self.kinds(x, b):
                    na = "i" if ka == "b" else ka
                    nb = "i" if kb == "b" else kb
                    if na == "x" or nb == "x":
                        p, q = [y.copy()], [y.copy()]
                        for z in p + q:
                            z.taint("comparison of unknown values [%s]"
                                    % self.site(ctx, node))
                    elif na != nb or na in ("none",):
                        self.raise_(y, ctx, "TypeError", node,
                                    "ordering of %s and %s" % (na, nb))
                        continue
                    else:
                        p, q = compare(y, op, a, b)
                    tr += p
                    fa += q
            return tr, fa
        return compare(st, op, a, b)

    def isinstance_(self, v, c, st, ctx, node):
        """-> (true states, false states)"""
        cls = tup_items(c) if tup_items(c) is not None else [c]
        flat = []
        for x in cls:
            if x.op == "bor":
                flat += list(x.a[0])
            elif x.op == "uni":
                flat += list(x.a[0])
            else:
                flat.append(x)
        tr, fa = [], []
        for x, k in self.kinds(st, v):
            r = self.kind_isa(x, v, k, flat)
            if r is True:
                tr.append(x)
            elif r is False:
                fa.append(x)
            else:
                y = x.copy()
                x.taint("isinstance of an unknown value [%s]"
                        % self.site(ctx, node))
                y.taint("isinstance of an unknown value [%s]"
                        % self.site(ctx, node))
                tr.append(x)
                fa.append(y)
        return tr, fa

    def kind_isa(self, st, v, k, classes):
        names = set()
        infos = []
        for c in classes:
            if c.op == "class":
                infos.append(self.classes[c.a[0]])
            elif c.op in ("bltn", "ext"):
                names.add(c.a[0].rsplit(".", 1)[-1])
            elif c is NONE:
                names.add("NoneType")
            else:
                return None
        if "object" in names:
            return True
        if k == "none":
            return "NoneType" in names
        if k == "b":
            return bool(names & {"bool", "int"})
        if k == "i":
            if is_const(v) and isinstance(cval(v), EnumVal):
                if any(i.name == cval(v).cls for i in infos):
                    return True
            return bool(names & {"int"})
        if k == "s":
            return bool(names & {"str", "Sequence", "Collection", "Iterable",
                                 "Container", "Sized", "Hashable"})
        if k == "y":
            return bool(names & {"bytes", "Sequence", "Collection",
                                 "Iterable", "ByteString"})
        if k == "t":
            return bool(names & {"tuple", "Sequence", "Collection",
                                 "Iterable"})
        if k == "o":
            if v.op == "obj":
                h = st.heap.get(v.a[0])
                if h is not None:
                    if h.kind == "inst":
                        if isinstance(h.cls, ClassInfo):
                            mro = h.cls.mro()
                            if any(i in mro for i in infos):
                                return True
                            ext = [str(e).rsplit(".", 1)[-1]
                                   for e in h.cls.ext_bases()]
                            if names & set(ext):
                                return True
                            if h.cls.namedtuple and names & {
                                    "tuple", "Sequence"}:
                                return True
                            return False
                        return None
                    if h.kind == "list":
                        return bool(names & {
                            "list", "Sequence", "MutableSequence",
                            "Collection", "Iterable"})
                    if h.kind == "dict":
                        return bool(names & {"dict", "Mapping",
                                             "MutableMapping", "Collection",
                                             "Iterable"})
                    if h.kind == "set":
                        return bool(names & {"set", "Set", "Collection",
                                             "Iterable"})
            if is_const(v):
                return bool(names & {type(cval(v)).__name__})
            if v.op in ("func", "class", "bltn", "bound", "gen", "iter",
                        "match", "rx", "icu", "excv", "ext", "module"):
                return None if infos or v.op in ("iter", "gen", "ext",
                                                 "excv") else False
            return None
        return None

    # ------------------------------------------------------------ simple exprs
    def e_Constant(self, e, st, ctx):
        v = e.value
        if v is Ellipsis:
            return [(st, mk("ext", "Ellipsis"))]
        if isinstance(v, float):
            return [(st, self.unknown(st, "float constant", e, ctx))]
        return [(st, const(v))]

    def e_Name(self, e, st, ctx):
        nm = e.id
        if ctx.func is not None or ctx.fid in st.frames:
            env = st.frames.get(ctx.fid)
            if env is not None and nm in env:
                return [(st, env[nm])]
        if ctx.func is not None:
            cl = ctx.func.closure
            seen = 0
            f = ctx.func
            while cl is not None and seen < 8:
                env = st.frames.get(cl)
                if env is not None and nm in env:
                    return [(st, env[nm])]
                f = getattr(f, "outer", None)
                cl = f.closure if f is not None else None
                seen += 1
            if nm in ctx.func.localnames:
                self.raise_(st, ctx, "UnboundLocalError", e, nm)
                return []
        env = st.frames.get("mod:" + ctx.module.name)
        if env is not None and nm in env:
            return [(st, env[nm])]
        if hasattr(builtins, nm):
            return [(st, mk("bltn", nm))]
        if nm in ("__name__",):
            return [(st, const(ctx.module.name))]
        if nm == "__file__":
            return [(st, newsym("__file__", D.STR))]
        if ctx.base:
            return [(st, mk("bltn", nm))]
        self.raise_(st, ctx, "NameError", e, nm)
        return []

    def e_NamedExpr(self, e, st, ctx):
        out = []
        for x, v in self.ev(e.value, st, ctx):
            x = x.copy()
            x.setvar(ctx.fid, e.target.id, v)
            out.append((x, v))
        return out

    def e_Tuple(self, e, st, ctx):
        return self.seq_lit(e, st, ctx, "tuple")

    def seq_lit(self, e, st, ctx, kind):
        if not any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x, vs in self.evs(e.elts, st, ctx):
                if kind == "tuple":
                    out.append((x, tup(vs)))
                else:
                    x = x.copy()
                    out.append((x, self.new(x, ctx, e, HObj(kind, segs=tuple(
                        ("i", v) for v in vs)))))
            return out
        cur = [(st, ())]
        for el in e.elts:
            nxt = []
            for x, segs in cur:
                if isinstance(el, ast.Starred):
                    for y, v in self.ev(el.value, x, ctx):
                        for z, sg in self.to_segs(v, y, ctx, el):
                            nxt.append((z, segs + tuple(sg)))
                else:
                    for y, v in self.ev(el, x, ctx):
                        nxt.append((y, segs + (("i", v),)))
            cur = nxt
        out = []
        for x, segs in cur:
            if kind == "tuple":
                out.append((x, self.segs_to_tuple(segs, x, ctx, e)))
            else:
                x = x.copy()
                out.append((x, self.new(x, ctx, e, HObj(kind, segs=segs))))
        return out

    def segs_to_tuple(self, segs, st, ctx, node):
        if all(s[0] == "i" for s in segs):
            return tup([s[1] for s in segs])
        ef = D.BOT
        for s in segs:
            ef = ef.join(st.fact(s[1]) if s[0] == "i"
                         else st.fact(mk("elem", s[1])))
        ln = list_len(HObj("list", segs=tuple(segs)))
        lo, hi = st.int_iv(ln)
        t = mk("tupseq", tuple(segs))
        return t

    def e_List(self, e, st, ctx):
        return self.seq_lit(e, st, ctx, "list")

    def e_Set(self, e, st, ctx):
        return self.seq_lit(e, st, ctx, "set")

    def e_Dict(self, e, st, ctx):
        cur = [(st, [], False)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for x, items, op in cur:
                if k is None:
                    for y, d in self.ev(v, x, ctx):
                        h = y.heap.get(d.a[0]) if d.op == "obj" else None
                        if h is None or h.kind != "dict":
                            self.unknown(y, "dict unpacking", e, ctx)
                            nxt.append((y, items, True))
                        else:
                            it = list(items)
                            for kk, vv in h.items:
                                it = [p for p in it if p[0] is not kk] + [
                                    (kk, vv)]
                            nxt.append((y, it, op or h.open))
                else:
                    for y, (kk, vv) in self.evs([k, v], x, ctx):
                        it = [p for p in items if p[0] is not kk] + [(kk, vv)]
                        nxt.append((y, it, op))
            cur = nxt
        out = []
        for x, items, op in cur:
            x = x.copy()
            out.append((x, self.new(x, ctx, e, HObj(
                "dict", items=tuple(items), open=op))))
        return out

    def e_JoinedStr(self, e, st, ctx):
        cur = [(st, [])]
        for v in e.values:
            nxt = []
            for x, ps in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((x, ps + [const(v.value)]))
                    continue
                for y, t in self.ev(v.value, x, ctx):
                    spec = None
                    if v.format_spec is not None:
                        r = self.ev(v.format_spec, y, ctx)
                        if len(r) != 1:
                            nxt.append((y, ps + [mk("strx", t)]))
                            continue
                        y, spec = r[0]
                    for z, s in self.fmt_value(t, v.conversion, spec, y, ctx,
                                               v):
                        nxt.append((z, ps + [s]))
            cur = nxt
        return [(x, cat(ps)) for x, ps in cur]

    def fmt_value(self, t, conv, spec, st, ctx, node):
        if conv == 114 or conv == 97:  # !r
            return [(st, self.repr_(t, st))]
        if spec is not None and spec is not EMPTYS:
            out = []
            for x, k in self.kinds(st, t):
                sp = cval(spec) if is_const(spec) else None
                if k in ("i", "b"):
                    if is_const(t) and sp is not None and isinstance(
                            cval(t), int):
                        out.append((x, const(format(cval(t), sp))))
                    else:
                        out.append((x, mk("fmt", t, spec)))
                elif k == "s" and sp is not None and sp[-1:] in "xXdob":
                    self.raise_(x, ctx, "ValueError", node, "format spec")
                elif k == "none":
                    self.raise_(x, ctx, "TypeError", node, "format spec")
                else:
                    out.append((x, mk("fmt", t, spec)))
            return out
        return self.str_(t, st, ctx, node)

    def repr_(self, t, st):
        if is_const(t) and not isinstance(cval(t), EnumVal):
            return const(repr(cval(t)))
        return mk("repr", t)

    def str_(self, t, st, ctx, node):
        """str(t) -> [(st, term)]"""
        if is_const(t):
            v = cval(t)
            if isinstance(v, EnumVal):
                return [(st, mk("strx", t))]
            return [(st, const(str(v)))]
        if t.op == "obj":
            h = st.heap.get(t.a[0])
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo):
                for m in ("__str__", "__repr__"):
                    if h.cls.lookup(m)[1] is not None:
                        return self.callm(t, m, [], {}, st, ctx, node)
            if h is not None and h.kind == "inst" and \
                    h.cls == "icu.UnicodeString":
                return [(st, h.f["v"])]
            return [(st, mk("repr", t))]
        if t.op == "icu":
            return self.icu_str(t, st, ctx, node)
        out = []
        for x, k in self.kinds(st, t):
            if k == "s":
                out.append((x, t))
            elif k == "none":
                out.append((x, const("None")))
            elif k == "i":
                out.append((x, mk("str", t)))
            else:
                out.append((x, mk("strx", t)))
        return out

    def e_FormattedValue(self, e, st, ctx):
        return [(x, v) for y, t in self.ev(e.value, st, ctx)
                for x, v in self.str_(t, y, ctx, e)]

    def e_IfExp(self, e, st, ctx):
        tr, fa = self.ev_test(e.test, st, ctx)
        out = []
        for x in tr:
            out += self.ev(e.body, x.copy(), ctx)
        for x in fa:
            out += self.ev(e.orelse, x.copy(), ctx)
        return out

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for k, v in enumerate(e.values):
            nxt = []
            for x in cur:
                for y, t in self.ev(v, x, ctx):
                    if k == len(e.values) - 1:
                        out.append((y, t))
                        continue
                    tr, fa = self.truthv(t, y, ctx, v)
                    go, stop = (tr, fa) if isand else (fa, tr)
                    nxt += go
                    for z in stop:
                        out.append((z, self.concretize(t, z, not isand)))
            cur = nxt
        return out

    def concretize(self, t, st, val):
        """A term known to be true/false in st: constants where possible."""
        if t.op in ("cmp", "not", "pred", "allp", "truth"):
            return TRUE if val else FALSE
        if not val:
            f = st.fact(t)
            if f.ncomp() == 1:
                if f.none:
                    return NONE
                if f.b:
                    return FALSE
                if f.s is not None and f.s.hi == 0:
                    return EMPTYS
        else:
            f = st.fact(t)
            if f.ncomp() == 1 and f.b == 2:
                return TRUE
        return t

    def e_UnaryOp(self, e, st, ctx):
        out = []
        if isinstance(e.op, ast.Not):
            for x, v in self.ev(e.operand, st, ctx):
                if v.op in ("cmp", "pred", "not", "allp"):
                    tr, fa = self.truthv(v, x, ctx, e)
                    if not tr:
                        out += [(y, TRUE) for y in fa]
                    elif not fa:
                        out += [(y, FALSE) for y in tr]
                    else:
                        out.append((x, mknot(v)))
                    continue
                tr, fa = self.truthv(v, x, ctx, e)
                out += [(y, FALSE) for y in tr] + [(y, TRUE) for y in fa]
            return out
        for x, v in self.ev(e.operand, st, ctx):
            if isinstance(e.op, ast.USub):
                if is_const(v):
                    out.append((x, const(-cval(v))))
                else:
                    out.append((x, lin_mul(v, -1)))
            elif isinstance(e.op, ast.Invert):
                if is_const(v) and isinstance(cval(v), int):
                    out.append((x, const(~cval(v))))
                else:
                    out.append((x, mk("binv", v)))
            else:
                out.append((x, v))
        return out

    def e_Compare(self, e, st, ctx):
        """As a value: a symbolic comparison when it is undecided."""
        if len(e.ops) == 1:
            out = []
            op = CMP[type(e.ops[0])]
            for x, (a, b) in self.evs([e.left, e.comparators[0]], st, ctx):
                y = x.copy()
                tr, fa = self.cmp_split(op, a, b, y, ctx, e)
                if not fa:
                    out += [(z, TRUE) for z in tr]
                elif not tr:
                    out += [(z, FALSE) for z in fa]
                elif self.opaque_cmp(op, a, b, x):
                    out += [(z, TRUE) for z in tr] + [(z, FALSE) for z in fa]
                else:
                    out.append((x, mkcmp(op, a, b)))
            return out
        tr, fa = self.ev_test(e, st, ctx)
        return [(x, TRUE) for x in tr] + [(x, FALSE) for x in fa]

    def opaque_cmp(self, op, a, b, st):
        """Comparisons whose outcome is not a function of the terms alone."""
        for t in (a, b):
            if t.op == "obj":
                h = st.heap.get(t.a[0])
                if h is not None and h.kind == "inst" and isinstance(
                        h.cls, ClassInfo):
                    return True
        f, g = st.fact(a), st.fact(b)
        return f.ncomp() > 1 or g.ncomp() > 1

    def e_Attribute(self, e, st, ctx):
        out = []
        for x, o in self.ev(e.value, st, ctx):
            out += self.getattr(o, e.attr, x, ctx, e)
        return out

    def e_Lambda(self, e, st, ctx):
        qn = "%s.<lambda>%d:%d" % (
            ctx.func.qualname if ctx.func else ctx.module.name, e.lineno,
            e.col_offset)
        fi = FuncInfo(ctx.module, e, qn, None,
                      ctx.fid if ctx.func is not None else None)
        fi.defaults, fi.deft = {}, {}
        fi.outer = ctx.func
        a = e.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            fi.defaults[p.arg] = d
        self.eval_defaults(fi, st, ctx)
        self.funcs[qn] = fi
        return [(st, mk("func", qn))]

    def e_Starred(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_Await(self, e, st, ctx):
        return [(st, self.unknown(st, "await", e, ctx))]

    def e_Yield(self, e, st, ctx):
        out = []
        for o in self.do_yield(e, st, ctx):
            if o[0] == "n":
                out.append((o[1], NONE))
            else:
                self.unknown(o[1], "yield as an expression", e, ctx)
        return out

    # ------------------------------------------------------------ binary ops
    def e_BinOp(self, e, st, ctx):
        out = []
        for x, (a, b) in self.evs([e.left, e.right], st, ctx):
            out += self.binop(BIN[type(e.op)], a, b, x, ctx, e)
        return out

    def binop(self, op, a, b, st, ctx, node):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            x = x.value if isinstance(x, EnumVal) else x
            y = y.value if isinstance(y, EnumVal) else y
            if op == "%" and isinstance(x, (str, bytes)):
                return self.percent(a, b, st, ctx, node)
            if op in ("*", "**", "<<") and not (
                    isinstance(x, int) and isinstance(y, int)
                    and abs(x) < 1 << 70 and abs(y) < 4096):
                if not (isinstance(y, int) and abs(y) <= 4096 or isinstance(
                        x, int) and abs(x) <= 4096):
                    return [(st, self.unknown(st, "big constant", node, ctx))]
            try:
                import operator as o
                fn = {"+": o.add, "-": o.sub, "*": o.mul, "%": o.mod,
                      "//": o.floordiv, "**": o.pow, "|": o.or_, "&": o.and_,
                      "^": o.xor, "<<": o.lshift, ">>": o.rshift,
                      "/": o.truediv}[op]
                r = fn(x, y)
                if isinstance(r, float):
                    return [(st, self.unknown(st, "float", node, ctx))]
                return [(st, const(r))]
            except (TypeError, ZeroDivisionError, ValueError) as ex:
                self.raise_(st, ctx, type(ex).__name__, node, str(ex))
                return []
        for t in (a, b):
            if t.op == "obj":
                return self.binop_obj(op, a, b, st, ctx, node)
        if a.op in ("ext", "class", "bltn", "uni", "attr") or b.op in (
                "ext", "class", "bltn", "uni"):
            if op == "|":
                return [(st, bor([a, b]))]
            if op == "&":
                return [(st, mk("band", a, b))]
        out = []
        for x, ka in self.kinds(st, a):
            for y, kb in self.kinds(x, b):
                out += self.binop_k(op, a, ka, b, kb, y, ctx, node)
        return out

    def binop_obj(self, op, a, b, st, ctx, node):
        ha = st.heap.get(a.a[0]) if a.op == "obj" else None
        hb = st.heap.get(b.a[0]) if b.op == "obj" else None
        from .interp import OMETH
        for h, s, o, k in ((ha, a, b, 0), (hb, b, a, 1)):
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo):
                if op in OMETH and h.cls.lookup(OMETH[op][k])[1] is not None:
                    out = []
                    for x, v in self.callm(s, OMETH[op][k], [o], {}, st, ctx,
                                           node):
                        if v.op == "bltn" and v.a[0] == "NotImplemented":
                            self.raise_(x, ctx, "TypeError", node, op)
                        else:
                            out.append((x, v))
                    return out
                if k == 0 and not (hb is not None and hb.kind == "inst"):
                    self.raise_(st, ctx, "TypeError", node, op)
                    return []
        if ha is not None and hb is not None and ha.kind == hb.kind == "list" \
                and op == "+":
            x = st.copy()
            return [(x, self.new(x, ctx, node, HObj(
                "list", segs=ha.segs + hb.segs)))]
        if ha is not None and ha.kind == "list" and op == "*" and is_const(b) \
                and isinstance(cval(b), int) and cval(b) * max(
                    1, len(ha.segs)) <= 64:
            x = st.copy()
            return [(x, self.new(x, ctx, node, HObj(
                "list", segs=ha.segs * max(0, cval(b)))))]
        if op in ("|", "&", "-", "^"):
            ma = self.set_members(a, st)
            mb = self.set_members(b, st)
            if ma is not None and mb is not None:
                fa, fb = frozenset(ma), frozenset(mb)
                r = {"|": fa | fb, "&": fa & fb, "-": fa - fb,
                     "^": fa ^ fb}[op]
                return [(st, const(r))]
            # sets of the characters of strings: set(host) & set(CONST)
            sa, sb = self.charset_of(a, st), self.charset_of(b, st)
            if sa is not None and sb is not None:
                return [(st, mk("setop", op, a, b))]
        if (ha is not None and ha.kind in ("list", "dict", "set")) != (
                hb is not None and hb.kind in ("list", "dict", "set")):
            other = b if ha is not None else a
            f = st.fact(other)
            if op == "%" and a.op != "obj":
                return self.percent(a, b, st, ctx, node)
            if not f.x and other.op != "obj":
                if op == "+" or op in ("-", "|", "&"):
                    self.raise_(st, ctx, "TypeError", node, op)
                    return []
        return [(st, self.unknown(st, "operator %s on objects" % op, node,
                                  ctx))]

    def set_members(self, t, st):
        from .logic import const_members
        if is_const(t) and isinstance(cval(t), frozenset):
            return list(cval(t))
        if t.op == "obj" and st.heap[t.a[0]].kind == "set":
            return const_members(st, t)
        return None

    def charset_of(self, t, st):
        if t.op == "cset":
            return t
        if is_const(t) and isinstance(cval(t), frozenset):
            return t
        return None

    def binop_k(self, op, a, ka, b, kb, st, ctx, node):
        if ka == "x" or kb == "x":
            st.taint("operator %s on an unknown value [%s]" % (
                op, self.site(ctx, node)))
            f = D.UNKNOWN
            if op == "+" and (ka == "s" or kb == "s"):
                f = D.STR
            return [(st, self.fresh(st, "unk:%s" % self.site(ctx, node), f))]
        na = "i" if ka == "b" else ka
        nb = "i" if kb == "b" else kb
        if na == "i" and nb == "i":
            return self.arith(op, a, b, st, ctx, node)
        if op == "+" and na == nb and na in ("s", "y"):
            return [(st, cat([a, b]))]
        if op == "+" and na == nb == "t":
            ia, ib = tup_items(a), tup_items(b)
            if ia is not None and ib is not None:
                return [(st, tup(ia + ib))]
            return [(st, self.segs_to_tuple(
                self.tuple_segs(a, st) + self.tuple_segs(b, st), st, ctx,
                node))]
        if op == "%" and na in ("s", "y"):
            return self.percent(a, b, st, ctx, node)
        if op == "*" and {na, nb} in ({"s", "i"}, {"y", "i"}):
            s, n = (a, b) if na != "i" else (b, a)
            return [(st, mk("repeat", s, n))]
        if op == "*" and {na, nb} == {"t", "i"}:
            s, n = (a, b) if na == "t" else (b, a)
            it = tup_items(s)
            if it is not None and is_const(n) and len(it) * cval(n) <= 64:
                return [(st, tup(it * cval(n)))]
            return [(st, self.unknown(st, "tuple repeat", node, ctx))]
        if na == "o" or nb == "o":
            return [(st, self.unknown(st, "operator %s" % op, node, ctx))]
        self.raise_(st, ctx, "TypeError", node, "%s %s %s" % (na, op, nb))
        return []

    def tuple_segs(self, t, st):
        it = tup_items(t)
        if it is not None:
            return tuple(("i", x) for x in it)
        if t.op == "tupseq":
            return t.a[0]
        return (("m", t, mk("len", t)),)

    def arith(self, op, a, b, st, ctx, node):
        if op == "+":
            return [(st, lin_add(a, b))]
        if op == "-":
            return [(st, lin_add(a, b, -1))]
        if op == "*":
            if is_const(b):
                return [(st, lin_mul(a, int(_ival(b))))]
            if is_const(a):
                return [(st, lin_mul(b, int(_ival(a))))]
            return [(st, mk("mul", a, b))]
        if op == "**":
            if not is_const(b):
                lo, hi = st.int_iv(b)
                if hi - lo <= 8:
                    out = []
                    for k in range(int(lo), int(hi) + 1):
                        x = st.copy()
                        if refine(x, b, D.fint(k, k)):
                            out += self.arith(op, a, const(k), x, ctx, node)
                    return out
            if is_const(a) and is_const(b):
                return self.binop(op, a, b, st, ctx, node)
            return [(st, mk("pow", a, b))]
        if op in ("%", "//"):
            lo, hi = st.int_iv(b)
            if lo <= 0 <= hi:
                x = st.copy()
                if refine(x, b, D.fint(0, 0)):
                    self.raise_(x, ctx, "ZeroDivisionError", node)
                if not refine(st, b, Fact(i=IntF.make(lo, hi,
                                                      frozenset([0])))):
                    return []
            return [(st, mk("mod" if op == "%" else "floordiv", a, b))]
        if op == "|":
            return [(st, bor([a, b]))]
        if op == "&":
            return [(st, mk("band", *sorted((a, b), key=lambda t: t.id)))]
        if op == "^":
            return [(st, mk("bxor", a, b))]
        if op == "<<":
            if is_const(b) and 0 <= _ival(b) < 256:
                return [(st, lin_mul(a, 1 << _ival(b)))]
            return [(st, mk("shl", a, b))]
        if op == ">>":
            return [(st, mk("shr", a, b))]
        return [(st, self.unknown(st, "operator %s" % op, node, ctx))]

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st, ctx, node):
        op = o.op
        if op == "obj":
            h = st.heap.get(o.a[0])
            if h is None:
                return [(st, self.unknown(st, "dangling object", node, ctx))]
            if h.kind == "inst":
                cls = h.cls
                if isinstance(cls, ClassInfo):
                    p = cls.find_property(name)
                    if p is not None and "get" in p:
                        if p.get("cached"):
                            if name in h.f:
                                return [(st, h.f[name])]
                            out = []
                            for x, v in self.call_func(
                                    p["get"], [o], {}, st, ctx, node):
                                x = x.copy()
                                x.heap[o.a[0]] = x.heap[o.a[0]].setf(name, v)
                                out.append((x, v))
                            return out
                        return self.call_func(p["get"], [o], {}, st, ctx,
                                              node)
                    if name in h.f:
                        return [(st, h.f[name])]
                    c, v = cls.lookup(name)
                    if v is not None:
                        return [(st, self.bind(v, o, cls, st))]
                    if name == "__class__":
                        return [(st, mk("class", cls.qualname))]
                    if name == "__dict__":
                        return [(st, self.unknown(st, "__dict__", node, ctx))]
                    if cls.namedtuple and name in ("_replace", "_asdict",
                                                   "_fields"):
                        return [(st, mk("extm", o, name))]
                    if cls.ext_bases() or name.startswith("__"):
                        return [(st, mk("extm", o, name))]
                    if cls.lookup("__getattr__")[1] is not None:
                        return self.callm(o, "__getattr__", [const(name)], {},
                                          st, ctx, node)
                    self.raise_(st, ctx, "AttributeError", node, name)
                    return []
                return [(st, mk("extm", o, name))]
            if name in METHODS.get(h.kind, ()):
                return [(st, mk("extm", o, name))]
            self.raise_(st, ctx, "AttributeError", node,
                        "%s.%s" % (h.kind, name))
            return []
        if op == "class":
            ci = self.classes[o.a[0]]
            if name == "__name__":
                return [(st, const(ci.name))]
            if name == "__qualname__":
                return [(st, const(ci.name))]
            if name == "__module__":
                return [(st, const(ci.module.name))]
            if name == "__members__":
                return [(st, mk("extm", o, name))]
            if name == "__dict__":
                return [(st, self.unknown(st, "class __dict__", node, ctx))]
            over = st.heap.get("M:cls:" + ci.qualname)
            if over is not None and name in over.f:
                return [(st, self.bind_cls(over.f[name], o, ci, st))]
            c, v = ci.lookup(name)
            if v is not None:
                return [(st, self.bind_cls(v, o, ci, st))]
            p = ci.find_property(name)
            if p is not None:
                return [(st, mk("func", p["get"].qualname))]
            if ci.ext_bases() or name.startswith("__") or ci.enum:
                return [(st, mk("extm", o, name))]
            self.raise_(st, ctx, "AttributeError", node, name)
            return []
        if op == "module":
            env = st.frames.get("mod:" + o.a[0])
            if env is None:
                env = self.base.frames.get("mod:" + o.a[0], {})
            if name in env:
                return [(st, env[name])]
            sub = o.a[0] + "." + name
            if sub in self.modules:
                return [(st, self.import_name(sub))]
            self.raise_(st, ctx, "AttributeError", node, name)
            return []
        if op == "ext":
            return [(st, self.ext_attr(o.a[0] + "." + name))]
        if op == "super":
            return self.super_attr(o, name, st, ctx, node)
        if op in ("func", "bound"):
            fi = self.funcs.get(o.a[0] if op == "func" else o.a[1].a[0])
            if name == "__name__" and fi is not None:
                return [(st, const(fi.name))]
            if name == "__module__" and fi is not None:
                return [(st, const(fi.module.name))]
            return [(st, self.unknown(st, "function attribute " + name, node,
                                      ctx))]
        if op in ("bltn", "match", "rx", "icu", "excv", "gen", "iter",
                  "extm", "cset", "setop"):
            if op == "excv":
                return [(st, mk("excattr", o, name))]
            if op == "bltn" and name == "__name__":
                return [(st, const(o.a[0]))]
            return [(st, mk("extm", o, name))]
        if op == "rec":
            fields = o.a[1]
            for f, v in fields:
                if f == name:
                    return [(st, v)]
            return [(st, mk("extm", o, name))]
        if is_const(o):
            v = cval(o)
            if isinstance(v, EnumVal):
                if name == "name":
                    return [(st, const(v.name))]
                if name == "value":
                    return [(st, const(v.value))]
                return [(st, mk("extm", o, name))]
            if hasattr(v, name):
                return [(st, mk("extm", o, name))]
            self.raise_(st, ctx, "AttributeError", node,
                        "%s.%s" % (type(v).__name__, name))
            return []
        out = []
        for x, k in self.kinds(st, o):
            if k == "x":
                x.taint("attribute %s of an unknown value [%s]" % (
                    name, self.site(ctx, node)))
                out.append((x, mk("extm", o, name)))
                continue
            ty = {"none": type(None), "b": bool, "i": int, "s": str,
                  "y": bytes, "t": tuple}.get(k)
            if ty is None:
                out.append((x, mk("extm", o, name)))
            elif hasattr(ty, name):
                out.append((x, mk("extm", o, name)))
            else:
                self.raise_(x, ctx, "AttributeError", node,
                            "%s.%s" % (ty.__name__, name))
        return out

    def bind(self, v, o, cls, st):
        if v.op == "func":
            fi = self.funcs[v.a[0]]
            if fi.kind == "staticmethod":
                return v
            if fi.kind == "classmethod":
                return mk("bound", mk("class", cls.qualname), v)
            return mk("bound", o, v)
        return v

    def bind_cls(self, v, o, ci, st):
        if v.op == "func":
            fi = self.funcs[v.a[0]]
            if fi.kind == "classmethod":
                return mk("bound", o, v)
        return v

    def super_attr(self, o, name, st, ctx, node):
        cls = self.classes[o.a[0]]
        selft = o.a[1]
        for c in cls.mro()[1:]:
            if name in c.attrs:
                v = c.attrs[name]
                if v.op == "func":
                    fi = self.funcs[v.a[0]]
                    if fi.kind == "staticmethod":
                        return [(st, v)]
                    return [(st, mk("bound", selft, v))]
                return [(st, v)]
            if name in c.properties:
                return self.call_func(c.properties[name]["get"], [selft], {},
                                      st, ctx, node)
        return [(st, mk("supm", o, name))]

    def setattr(self, o, name, v, st, ctx, node):
        if o.op == "obj":
            h = st.heap.get(o.a[0])
            if h is not None and h.kind == "inst":
                if isinstance(h.cls, ClassInfo):
                    p = h.cls.find_property(name)
                    if p is not None:
                        if "set" not in p:
                            self.raise_(st, ctx, "AttributeError", node,
                                        "no setter for " + name)
                            return []
                        return [x for x, _ in self.call_func(
                            p["set"], [o, v], {}, st, ctx, node)]
                    if h.cls.lookup("__setattr__")[1] is not None:
                        return [x for x, _ in self.callm(
                            o, "__setattr__", [const(name), v], {}, st, ctx,
                            node)]
                    if h.cls.namedtuple or (
                            h.cls.dataclass or {}).get("frozen"):
                        self.raise_(st, ctx, "AttributeError", node,
                                    "read-only " + name)
                        return []
                st = st.copy()
                st.heap[o.a[0]] = h.setf(name, v)
                if o.a[0].startswith("M:"):
                    self.event(ctx, "global-write", node, (
                        "attr", "%s.%s" % (o.a[0], name), None, v), st)
                return [st]
            if h is not None:
                self.raise_(st, ctx, "AttributeError", node, name)
                return []
        if o.op == "class":
            ci = self.classes[o.a[0]]
            st = st.copy()
            k = "M:cls:" + ci.qualname
            st.heap[k] = st.heap.get(k, HObj("inst", "classattrs")).setf(
                name, v)
            self.event(ctx, "global-write", node, (
                "attr", "%s.%s" % (ci.name, name), None, v), st)
            return [st]
        if o.op in ("module", "ext", "func"):
            self.event(ctx, "global-write", node, (
                "attr", "%s.%s" % (o.a[0], name), None, v), st)
            return [st]
        if o.op in ("icu", "extm"):
            return [st]
        out = []
        for x, k in self.kinds(st, o):
            if k == "x":
                x.taint("attribute write on an unknown value [%s]"
                        % self.site(ctx, node))
                out.append(x)
            else:
                self.raise_(x, ctx, "AttributeError", node, name)
        return out

    # ------------------------------------------------------------ subscripts
    def ev_index(self, s, st, ctx):
        if isinstance(s, ast.Slice):
            parts = [p if p is not None else ast.Constant(value=None)
                     for p in (s.lower, s.upper, s.step)]
            return [(x, SliceV(*vs)) for x, vs in self.evs(parts, st, ctx)]
        return self.ev(s, st, ctx)

    def e_Slice(self, e, st, ctx):
        return [(st, self.unknown(st, "slice object", e, ctx))]

    def e_Subscript(self, e, st, ctx):
        out = []
        for x, o in self.ev(e.value, st, ctx):
            for y, i in self.ev_index(e.slice, x, ctx):
                out += self.getitem(o, i, y, ctx, e)
        return out

    def getitem(self, o, i, st, ctx, node):
        if isinstance(i, SliceV):
            return self.getslice(o, i, st, ctx, node)
        if o.op == "obj":
            h = st.heap.get(o.a[0])
            if h is not None:
                if h.kind == "list":
                    return self.list_index(o, h, i, st, ctx, node)
                if h.kind == "dict":
                    return self.dict_get(o, h, i, st, ctx, node)
                if h.kind == "inst" and isinstance(h.cls, ClassInfo):
                    if h.cls.lookup("__getitem__")[1] is not None:
                        return self.callm(o, "__getitem__", [i], {}, st, ctx,
                                          node)
                    if h.cls.namedtuple and is_const(i):
                        n = [f for f, _ in h.cls.fields]
                        if -len(n) <= cval(i) < len(n):
                            return [(st, h.f[n[cval(i)]])]
                        self.raise_(st, ctx, "IndexError", node)
                        return []
                if h.kind == "set":
                    self.raise_(st, ctx, "TypeError", node, "set index")
                    return []
        if o.op in ("class", "bltn", "ext"):
            if o.op == "class" and self.classes[o.a[0]].enum and is_const(i):
                m = self.classes[o.a[0]].members.get(cval(i))
                if m is not None:
                    return [(st, const(m))]
                self.raise_(st, ctx, "KeyError", node)
                return []
            return [(st, o)]  # generic alias
        if o.op == "match":
            return self.match_group(o, i, st, ctx, node)
        if o.op == "rec" and is_const(i) and isinstance(cval(i), int):
            if -len(o.a[1]) <= cval(i) < len(o.a[1]):
                return [(st, o.a[1][cval(i)][1])]
        if o.op == "excattr":
            return [(st, mk("excattr", o, "[]"))]
        its = tup_items(o)
        if its is not None and not is_const(i):
            out = []
            lo, hi = st.int_iv(i)
            n = len(its)
            for k in range(n):
                for kk in (k, k - n):
                    if lo <= kk <= hi:
                        x = st.copy()
                        if refine(x, i, D.fint(kk, kk)):
                            out.append((x, its[k]))
            x = st.copy()
            if hi >= n and refine(x, i, D.fint(n, INF)):
                self.raise_(x, ctx, "IndexError", node, "tuple index")
            return out
        out = []
        for x, k in self.kinds(st, o):
            if k in ("s", "y"):
                out += self.str_index(o, i, x, ctx, node, k)
            elif k == "t":
                out += self.tuple_index(o, i, x, ctx, node)
            elif k in ("none", "b", "i"):
                self.raise_(x, ctx, "TypeError", node, "not subscriptable")
            else:
                out.append((x, self.unknown(x, "subscript", node, ctx)))
        return out

    def str_index(self, s, i, st, ctx, node, k):
        out = []
        for x, ki in self.kinds(st, i):
            if ki not in ("i", "b", "x"):
                self.raise_(x, ctx, "TypeError", node, "string index")
                continue
            if k == "y":
                out.append((x, mk("byteat", s, i)))
                continue
            lo, hi = x.int_iv(i)
            if lo >= 0:
                a = self.mk_at(s, i, x)
                ok, bad = x.copy(), x.copy()
                f = x.fact(a)
                if refine(bad, a, Fact(s=D.sconst(""))):
                    self.raise_(bad, ctx, "IndexError", node,
                                "string index out of range")
                if f.s is None or refine(
                        ok, a, Fact(s=D.mkstr(lo=1, hi=1))):
                    out.append((ok, a))
            elif is_const(i):
                n = -cval(i)
                tr, fa = compare(x, "<=", const(n), self.mk_len(s, x))
                for y in fa:
                    self.raise_(y, ctx, "IndexError", node,
                                "string index out of range")
                for y in tr:
                    if n == 1:
                        a = self.mk_at(s, i, y)
                        y = y.copy()
                        if refine(y, a, Fact(s=D.mkstr(lo=1, hi=1))):
                            out.append((y, a))
                    else:
                        a = mk("at", s, lin_add(self.mk_len(s, y), i))
                        y = y.copy()
                        if refine(y, a, Fact(s=D.mkstr(lo=1, hi=1))):
                            out.append((y, a))
            else:
                bad = x.copy()
                self.raise_(bad, ctx, "IndexError", node,
                            "string index out of range")
                a = mk("at", s, i)
                if refine(x, a, Fact(s=D.mkstr(lo=1, hi=1))):
                    out.append((x, a))
        return out

    def mk_len(self, s, st):
        if is_const(s):
            return const(len(cval(s)))
        if s.op == "cat":
            n = const(0)
            for p in s.a[0]:
                n = lin_add(n, self.mk_len(p, st))
            return n
        f = st.fact(s)
        for x in (f.s, f.y):
            if x is not None and f.ncomp() == 1 and x.lo == x.hi:
                return const(int(x.lo))
        if f.t is not None and f.ncomp() == 1 and f.t.lo == f.t.hi:
            return const(int(f.t.lo))
        if s.op == "tupseq":
            return list_len(HObj("list", segs=s.a[0]))
        if s.op == "tuple":
            return const(len(s.a[0]))
        return mk("len", s)

    def mk_at(self, s, i, st):
        if is_const(s) and is_const(i):
            v, k = cval(s), cval(i)
            return const(v[k:k + 1] if k != -1 else v[-1:])
        if s.op == "slice" and s.a[2] is NONE and st.int_iv(s.a[1])[0] >= 0 \
                and st.int_iv(i)[0] >= 0:
            return self.mk_at(s.a[0], lin_add(s.a[1], i), st)
        f = st.fact(s)
        x = f.s if f.s is not None else f.y
        if x is not None and x.hi <= 1 and i is const(0):
            return s
        if st.int_iv(i)[0] >= 0 and at_end(st, s, i):
            return EMPTYS if f.y is None else const(b"")
        if self.split_cat and s.op == "cat" and not is_const(i) and \
                st.int_iv(i)[0] >= 0:
            k = lin_add(i, self.mk_len(s.a[0][0], st), -1)
            if st.int_iv(k)[0] >= 0:
                return self.mk_at(cat(s.a[0][1:]), k, st)
            if st.int_iv(k)[1] < 0:
                return self.mk_at(s.a[0][0], i, st)
        if s.op == "cat" and is_const(i) and cval(i) >= 0:
            k = cval(i)
            for p in s.a[0]:
                if is_const(p):
                    if k < len(cval(p)):
                        return const(cval(p)[k:k + 1])
                    k -= len(cval(p))
                else:
                    pf = st.fact(p).s
                    if pf is not None and k < pf.lo:
                        return self.mk_at(p, const(k), st)
                    if pf is not None and pf.lo == pf.hi:
                        k -= pf.lo
                        continue
                    break
        if s.op == "cat" and not is_const(i) and is_const(s.a[0][0]) and \
                st.int_iv(i)[0] >= len(cval(s.a[0][0])):
            return self.mk_at(cat(s.a[0][1:]), lin_add(
                i, const(-len(cval(s.a[0][0])))), st)
        if s.op == "cat" and is_const(i) and cval(i) == -1:
            p = s.a[0][-1]
            pf = st.fact(p).s
            if is_const(p) or (pf is not None and pf.lo >= 1):
                return self.mk_at(p, i, st)
        return mk("at", s, i)

    def mk_slice(self, s, lo, hi, st):
        if lo is NONE:
            lo = const(0)
        if is_const(s) and is_const(lo) and is_const(hi):
            return const(cval(s)[cval(lo):cval(hi)])
        if lo is const(0) and hi is NONE:
            return s
        l0 = st.int_iv(lo)
        f = st.fact(s)
        empty = EMPTYS if f.y is None else const(b"")
        if hi is not NONE and st.int_iv(hi) == (0, 0):
            return empty
        if s.op == "slice" and l0[0] >= 0 and st.int_iv(s.a[1])[0] >= 0:
            if s.a[2] is NONE and (hi is NONE or st.int_iv(hi)[0] >= 0):
                return self.mk_slice(
                    s.a[0], lin_add(s.a[1], lo),
                    NONE if hi is NONE else lin_add(s.a[1], hi), st)
        if l0[0] >= 0:
            if at_end(st, s, lo):
                return empty
            if hi is not NONE and st.int_iv(hi)[0] >= 0:
                d = lin_add(hi, lo, -1)
                if is_const(d) and cval(d) == 1:
                    return self.mk_at(s, lo, st)
                if is_const(d) and cval(d) <= 0:
                    return empty
                if l0 == (0, 0) and at_end(st, s, hi):
                    return s
        if s.op == "cat" and is_const(s.a[0][0]) and l0[0] >= len(
                cval(s.a[0][0])) and (hi is NONE or st.int_iv(hi)[0] >= len(
                cval(s.a[0][0]))):
            k = const(-len(cval(s.a[0][0])))
            return self.mk_slice(
                cat(s.a[0][1:]), lin_add(lo, k),
                NONE if hi is NONE else lin_add(hi, k), st)
        if self.split_cat and s.op == "cat" and l0[0] >= 0 and (
                hi is NONE or st.int_iv(hi)[0] >= 0):
            p, rest = s.a[0][0], s.a[0][1:]
            k = lin_add(const(0), self.mk_len(p, st), -1)
            if st.int_iv(lin_add(lo, k))[0] >= 0 and (
                    hi is NONE or st.int_iv(lin_add(hi, k))[0] >= 0):
                return self.mk_slice(cat(rest), lin_add(lo, k), NONE if hi
                                     is NONE else lin_add(hi, k), st)
            if hi is not NONE and st.int_iv(lin_add(hi, k))[1] <= 0:
                return self.mk_slice(p, lo, hi, st)
            if lo is const(0) and hi is not NONE and st.int_iv(
                    lin_add(hi, k))[0] >= 0:
                return cat([p, self.mk_slice(cat(rest), lo, lin_add(hi, k),
                                             st)])
        if s.op == "cat" and is_const(lo) and cval(lo) >= 0 and hi is NONE:
            k = cval(lo)
            ps = list(s.a[0])
            while ps and k > 0:
                p = ps[0]
                if is_const(p):
                    n = len(cval(p))
                    if n <= k:
                        k -= n
                        ps.pop(0)
                        continue
                    ps[0] = const(cval(p)[k:])
                    k = 0
                else:
                    pf = st.fact(p).s
                    if pf is not None and pf.lo == pf.hi and pf.lo <= k:
                        k -= int(pf.lo)
                        ps.pop(0)
                        continue
                    if pf is not None and pf.lo >= k:
                        ps[0] = self.mk_slice(p, const(k), NONE, st)
                        k = 0
                    break
            if k == 0:
                return cat(ps)
        return mk("slice", s, lo, hi)

    def getslice(self, o, i, st, ctx, node):
        if i.step is not NONE and not (is_const(i.step) and cval(
                i.step) in (None, 1)):
            f = st.fact(o)
            if f.s is not None and f.ncomp() == 1:
                if is_const(i.step) and cval(i.step) == -1 and i.lo is NONE \
                        and i.hi is NONE:
                    return [(st, mk("srev", o))]
            return [(st, self.unknown(st, "slice step", node, ctx))]
        out = []
        if o.op == "obj":
            h = st.heap.get(o.a[0])
            if h is not None and h.kind == "list":
                return self.list_slice(h, i, st, ctx, node)
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo) and h.cls.lookup(
                    "__getitem__")[1] is not None:
                return [(st, self.unknown(st, "slice of instance", node, ctx))]
        its = tup_items(o)
        if its is not None and is_const(i.lo) and is_const(i.hi):
            return [(st, tup(its[cval(i.lo):cval(i.hi)]))]
        for x, k in self.kinds(st, o):
            if k in ("s", "y"):
                # clamp symbolic negative bounds only when the sign is known
                out.append((x, self.mk_slice(o, i.lo, i.hi, x)))
            elif k == "t":
                out.append((x, mk("lslice", o, i.lo, i.hi)
                            if False else self.unknown(
                                x, "tuple slice", node, ctx)))
            elif k == "x":
                out.append((x, self.unknown(x, "slice of unknown", node,
                                            ctx)))
            else:
                self.raise_(x, ctx, "TypeError", node, "slice")
        return out

    def tuple_index(self, o, i, st, ctx, node):
        its = tup_items(o)
        if its is not None and is_const(i):
            if -len(its) <= cval(i) < len(its):
                return [(st, its[cval(i)])]
            self.raise_(st, ctx, "IndexError", node, "tuple index")
            return []
        if o.op == "tupseq":
            return self.list_index(o, HObj("list", segs=o.a[0]), i, st, ctx,
                                   node)
        f = st.fact(o)
        n = mk("len", o)
        if is_const(i):
            k = cval(i)
            tr, fa = compare(st, "<=", const(k + 1 if k >= 0 else -k), n)
            for x in fa:
                self.raise_(x, ctx, "IndexError", node, "tuple index")
            return [(x, item(x, o, i)) for x in tr]
        tr, fa = compare(st, "<", i, n)
        for x in fa:
            self.raise_(x, ctx, "IndexError", node, "tuple index")
        return [(x, item(x, o, i)) for x in tr]

    # ------------------------------------------------------------ lists
    def explode(self, segs, st, ctx, limit=4):
        """Split st by the lengths of short symbolic segments; their items
        become explicit."""
        for k, s in enumerate(segs):
            if s[0] != "m":
                continue
            lo, hi = st.int_iv(s[2])
            if hi - lo < limit and hi <= 16:
                out = []
                for n in range(int(max(lo, 0)), int(hi) + 1):
                    x = st.copy()
                    if not is_const(s[2]) and not refine(
                            x, s[2], D.fint(n, n)):
                        continue
                    seq = s[1]
                    if n == 1 and seq.op == "split" and s[2] is mk(
                            "len", seq) and is_const(seq.a[1]):
                        sf = x.fact(seq.a[0])
                        comp = "s" if sf.s is not None else "y"
                        q = getattr(sf, comp)
                        sep = cval(seq.a[1])
                        sep = sep.decode("latin-1") if isinstance(
                            sep, bytes) else sep
                        if q is not None and len(sep) == 1:
                            m = D.mkstr(q.cs - C.of(sep), q.lo, q.hi, q.only
                                        and [z for z in q.only
                                             if sep not in z],
                                        q.excl, q.first, q.last, q.enc)
                            if m is None or not refine(
                                    x, seq.a[0], Fact(**{comp: m})):
                                continue
                        its = [seq.a[0]]
                    else:
                        its = [item(x, seq, const(j)) for j in range(n)]
                    ns = tuple(segs[:k]) + tuple(("i", v) for v in its) + \
                        tuple(segs[k + 1:])
                    out += self.explode(ns, x, ctx, limit)
                return out
        return [(st, tuple(segs))]

    def list_get(self, segs, i, st):
        """Element term at a valid constant index (>= 0) of segs."""
        if is_const(i):
            k = cval(i)
            if k >= 0:
                for s in segs:
                    if s[0] == "i":
                        if k == 0:
                            return s[1]
                        k -= 1
                    else:
                        if len(segs) == 1 or k < st.int_iv(s[2])[0]:
                            return item(st, s[1], const(k))
                        break
            else:
                k = -k - 1
                for s in reversed(segs):
                    if s[0] == "i":
                        if k == 0:
                            return s[1]
                        k -= 1
                    else:
                        if len(segs) == 1 or k < st.int_iv(s[2])[0]:
                            return item(st, s[1], lin_add(
                                s[2], const(-1 - k)))
                        break
        if len(segs) == 1 and segs[0][0] == "m":
            lo, hi = st.int_iv(i)
            if lo >= 0:
                return item(st, segs[0][1], i)
        return mk("item", mk("seqcat", tuple(segs)), i)

    def list_index(self, o, h, i, st, ctx, node):
        out = []
        for x, ki in self.kinds(st, i):
            if ki not in ("i", "b", "x"):
                self.raise_(x, ctx, "TypeError", node, "list index")
                continue
            ln = list_len(h)
            if is_const(i):
                k = _ival(i)
                need = k + 1 if k >= 0 else -k
                tr, fa = compare(x, "<=", const(need), ln)
                for y in fa:
                    self.raise_(y, ctx, "IndexError", node,
                                "list index out of range")
                for y in tr:
                    for z, segs in self.explode_if_needed(h.segs, i, y, ctx):
                        out.append((z, self.list_get(segs, const(k), z)))
                continue
            lo, hi = x.int_iv(i)
            tr, fa = compare(x, "<", i, ln)
            for y in fa:
                self.raise_(y, ctx, "IndexError", node,
                            "list index out of range")
            for y in tr:
                lo, hi = y.int_iv(i)
                if lo < 0:
                    m = lin_add(ln, i)
                    t2, f2 = compare(y, "<=", const(0), m)
                    for z in f2:
                        self.raise_(z, ctx, "IndexError", node,
                                    "list index out of range")
                    for z in t2:
                        out.append((z, mk("item", mk("seqcat", h.segs), i)))
                else:
                    out.append((y, self.list_get(h.segs, i, y)))
        return out

    def explode_if_needed(self, segs, i, st, ctx):
        if all(s[0] == "i" for s in segs) or len(segs) == 1:
            return [(st, segs)]
        return self.explode(segs, st, ctx)

    def list_slice(self, h, i, st, ctx, node):
        lo = const(0) if i.lo is NONE else i.lo
        hi = i.hi
        out = []
        if lo is const(0) and hi is NONE:
            x = st.copy()
            return [(x, self.new(x, ctx, node, HObj("list", segs=h.segs)))]
        segs = h.segs
        cases = [(st, segs)]
        if not all(s[0] == "i" for s in segs) and len(segs) > 1:
            cases = self.explode(segs, st, ctx)
        for x, segs in cases:
            if all(s[0] == "i" for s in segs) and is_const(lo) and is_const(
                    hi):
                x = x.copy()
                out.append((x, self.new(x, ctx, node, HObj(
                    "list", segs=segs[cval(lo):cval(hi)]))))
                continue
            if lo is const(0) and is_const(hi) and cval(hi) == -1:
                ln = list_len(HObj("list", segs=segs))
                tr, fa = compare(x, "<=", const(1), ln)
                for y in fa:
                    y = y.copy()
                    out.append((y, self.new(y, ctx, node, HObj("list"))))
                for y in tr:
                    y = y.copy()
                    ns = self.drop_last(segs, y)
                    if len(ns) == 1 and ns[0][0] == "m":
                        ns = (("m", mk("lslice", ns[0][1], const(0), hi),
                               ns[0][2]),)
                    out.append((y, self.new(y, ctx, node, HObj(
                        "list", segs=ns))))
                continue
            if is_const(lo) and cval(lo) >= 0 and hi is NONE:
                k = cval(lo)
                ns = list(segs)
                while ns and ns[0][0] == "i" and k > 0:
                    ns.pop(0)
                    k -= 1
                if k and ns and ns[0][0] == "m":
                    ln = lin_add(ns[0][2], const(-k))
                    l0, h0 = x.int_iv(ln)
                    if l0 >= 0:
                        ns[0] = ("m", mk("lslice", ns[0][1], const(k), NONE),
                                 ln)
                        k = 0
                if k == 0 or not ns:
                    x = x.copy()
                    out.append((x, self.new(x, ctx, node, HObj(
                        "list", segs=tuple(ns)))))
                    continue
            # anything else: elements of the same kind, unknown number
            x = x.copy()
            seq = mk("lslice", mk("seqcat", tuple(segs)) if len(segs) != 1
                     or segs[0][0] == "i" else segs[0][1],
                     lo if isinstance(lo, T) else NONE, hi)
            ln = mk("len", seq)
            refine(x, lin_add(list_len(HObj("list", segs=tuple(segs))), ln,
                              -1), D.NAT)
            out.append((x, self.new(x, ctx, node, HObj(
                "list", segs=(("m", seq, ln),)))))
        return out

    def drop_last(self, segs, st):
        s = segs[-1]
        if s[0] == "i":
            return segs[:-1]
        n = lin_add(s[2], const(-1))
        if st.int_iv(n)[0] < 0 and len(segs) > 1:
            return (("m", mk("seqcat", segs), lin_add(
                list_len(HObj("list", segs=segs)), const(-1))),)
        if is_const(n) and cval(n) == 0:
            return segs[:-1]
        return segs[:-1] + (("m", s[1], n),)

    def setitem(self, o, i, v, st, ctx, node):
        if o.op == "obj":
            oid = o.a[0]
            h = st.heap.get(oid)
            if h is not None and oid.startswith("M:"):
                self.event(ctx, "global-write", node, (
                    "item" if h.kind == "dict" else "mutate", oid, i, v), st)
            if h is not None and h.kind == "dict":
                st = st.copy()
                its = [p for p in h.items if p[0] is not i]
                opn = h.open
                if not is_const(i) and h.items:
                    # may overwrite another key
                    f = st.fact(i)
                    keep = []
                    for k, w in its:
                        tr, fa = compare(st, "==", k, i)
                        keep.append((k, w) if not tr else (
                            k, mk("ite", mkcmp("==", k, i), v, w)))
                    its = keep
                st.heap[oid] = h.with_items(tuple(its) + ((i, v),), opn)
                return [st]
            if h is not None and h.kind == "list":
                if isinstance(i, SliceV):
                    if (i.lo is NONE or i.lo is const(0)) and i.hi is NONE:
                        out = []
                        for x, segs in self.to_segs(v, st, ctx, node):
                            x = x.copy()
                            x.heap[oid] = x.heap[oid].with_segs(segs)
                            out.append(x)
                        return out
                    self.unknown(st, "slice assignment", node, ctx)
                    return [st]
                ln = list_len(h)
                out = []
                if is_const(i):
                    k = _ival(i)
                    need = k + 1 if k >= 0 else -k
                    tr, fa = compare(st, "<=", const(need), ln)
                    for y in fa:
                        self.raise_(y, ctx, "IndexError", node,
                                    "list assignment index out of range")
                    for y in tr:
                        for z, segs in self.explode_if_needed(
                                h.segs, i, y, ctx):
                            z = z.copy()
                            if all(s[0] == "i" for s in segs):
                                ns = list(segs)
                                ns[k] = ("i", v)
                                z.heap[oid] = h.with_segs(ns)
                            else:
                                z.heap[oid] = h.with_segs(self.weak_segs(
                                    segs, v, i, z))
                            out.append(z)
                    return out
                tr, fa = compare(st, "<", i, ln)
                for y in fa:
                    self.raise_(y, ctx, "IndexError", node,
                                "list assignment index out of range")
                for y in tr:
                    if y.int_iv(i)[0] < 0:
                        t2, f2 = compare(y, "<=", const(0), lin_add(ln, i))
                        for z in f2:
                            self.raise_(z, ctx, "IndexError", node,
                                        "list assignment index out of range")
                    else:
                        t2 = [y]
                    for z in t2:
                        z = z.copy()
                        if all(s[0] == "i" for s in h.segs):
                            ns = []
                            for k, s in enumerate(h.segs):
                                a, b = compare(z, "==", i, const(k))
                                ns.append(("i", mk("ite", mkcmp(
                                    "==", i, const(k)), v, s[1]))
                                    if a else s)
                            z.heap[oid] = h.with_segs(ns)
                        else:
                            z.heap[oid] = h.with_segs(self.weak_segs(
                                h.segs, v, i, z))
                        out.append(z)
                return out
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo) and h.cls.lookup(
                    "__setitem__")[1] is not None:
                return [x for x, _ in self.callm(
                    o, "__setitem__", [i, v], {}, st, ctx, node)]
        f = st.fact(o)
        if o.op != "obj" and not f.x and not f.o:
            self.raise_(st, ctx, "TypeError", node, "item assignment")
            return []
        self.unknown(st, "item assignment", node, ctx)
        return [st]

    def weak_segs(self, segs, v, i, st):
        seq = mk("upd", tuple(segs), i, v)
        return (("m", seq, list_len(HObj("list", segs=tuple(segs)))),)

    def delitem(self, o, i, st, ctx, node):
        if o.op == "obj":
            oid = o.a[0]
            h = st.heap.get(oid)
            if h is not None and oid.startswith("M:"):
                self.event(ctx, "global-write", node, (
                    "mutate", oid, i, None), st)
            if h is not None and h.kind == "list":
                if isinstance(i, SliceV):
                    if (i.lo is NONE or i.lo is const(0)) and i.hi is NONE:
                        st = st.copy()
                        st.heap[oid] = h.with_segs(())
                        return [st]
                    if is_const(i.lo) and cval(i.lo) == -1 and i.hi is NONE:
                        tr, fa = compare(st, "<=", const(1), list_len(h))
                        out = list(fa)
                        for y in tr:
                            y = y.copy()
                            y.heap[oid] = h.with_segs(self.drop_last(
                                h.segs, y))
                            out.append(y)
                        return out
                    self.unknown(st, "slice deletion", node, ctx)
                    return [st]
                return [x for x, _ in self.list_pop(o, h, i, st, ctx, node)]
            if h is not None and h.kind == "dict":
                for k, w in h.items:
                    if k is i:
                        st = st.copy()
                        st.heap[oid] = h.with_items(
                            [p for p in h.items if p[0] is not i])
                        return [st]
                if not h.open and is_const(i) and all(
                        is_const(k) for k, w in h.items):
                    self.raise_(st, ctx, "KeyError", node)
                    return []
        self.unknown(st, "item deletion", node, ctx)
        return [st]

    def list_pop(self, o, h, i, st, ctx, node):
        """-> [(st, removed element)]"""
        oid = o.a[0]
        ln = list_len(h)
        out = []
        if is_const(i):
            k = _ival(i)
            need = k + 1 if k >= 0 else -k
            tr, fa = compare(st, "<=", const(need), ln)
            for y in fa:
                self.raise_(y, ctx, "IndexError", node,
                            "pop/del index out of range")
            for y in tr:
                for z, segs in self.explode_if_needed(h.segs, i, y, ctx):
                    z = z.copy()
                    v = self.list_get(segs, const(k), z)
                    if k == -1:
                        z.heap[oid] = h.with_segs(self.drop_last(segs, z))
                    elif all(s[0] == "i" for s in segs):
                        ns = list(segs)
                        del ns[k]
                        z.heap[oid] = h.with_segs(ns)
                    elif k == 0 and segs[0][0] == "i":
                        z.heap[oid] = h.with_segs(segs[1:])
                    elif k == 0:
                        s = segs[0]
                        if z.int_iv(s[2])[0] >= 1:
                            z.heap[oid] = h.with_segs((
                                ("m", mk("lslice", s[1], const(1), NONE),
                                 lin_add(s[2], const(-1))),) + segs[1:])
                        else:
                            z.heap[oid] = h.with_segs(self.del_any(segs, i))
                    else:
                        z.heap[oid] = h.with_segs(self.del_any(segs, i))
                    out.append((z, v))
            return out
        tr, fa = compare(st, "<", i, ln)
        for y in fa:
            self.raise_(y, ctx, "IndexError", node,
                        "pop/del index out of range")
        for y in tr:
            if y.int_iv(i)[0] < 0:
                self.raise_(y.copy(), ctx, "IndexError", node,
                            "pop/del index out of range")
            y = y.copy()
            v = self.list_get(h.segs, i, y)
            y.heap[oid] = h.with_segs(self.del_any(h.segs, i))
            out.append((y, v))
        return out

    def del_any(self, segs, i):
        n = lin_add(list_len(HObj("list", segs=tuple(segs))), const(-1))
        return (("m", mk("del", tuple(segs), i), n),)

    def list_extend(self, o, v, st, ctx, node):
        out = []
        for x, segs in self.to_segs(v, st, ctx, node):
            x = x.copy()
            h = x.heap[o.a[0]]
            if o.a[0].startswith("M:"):
                self.event(ctx, "global-write", node, (
                    "mutate", o.a[0], None, v), x)
            x.heap[o.a[0]] = h.with_segs(tuple(h.segs) + tuple(segs))
            out.append(x)
        return out

    def to_segs(self, v, st, ctx, node):
        """Elements of an iterable value as list segments."""
        its = tup_items(v)
        if its is not None:
            return [(st, tuple(("i", x) for x in its))]
        if is_const(v) and isinstance(cval(v), (str,)):
            return [(st, tuple(("i", const(c)) for c in cval(v)))]
        if is_const(v) and isinstance(cval(v), frozenset):
            return [(st, tuple(("i", const(c)) for c in sorted(
                cval(v), key=repr)))]
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.kind in ("list", "set"):
                return [(st, h.segs)]
            if h is not None and h.kind == "dict" and not h.open:
                return [(st, tuple(("i", k) for k, _ in h.items))]
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo):
                if h.cls.lookup("__iter__")[1] is not None:
                    out = []
                    for x, r in self.callm(v, "__iter__", [], {}, st, ctx,
                                           node):
                        out += self.to_segs(r, x, ctx, node)
                    return out
                if h.cls.namedtuple:
                    return [(st, tuple(("i", h.f[f])
                                       for f, _ in h.cls.fields))]
        if v.op == "tupseq":
            return [(st, v.a[0])]
        if v.op == "iter" or v.op == "gen":
            return self.iter_segs(v, st, ctx, node)
        out = []
        for x, k in self.kinds(st, v):
            if k in ("s", "t"):
                ln = self.mk_len(v, x)
                if is_const(ln) and cval(ln) == 0:
                    out.append((x, ()))
                    continue
                if k == "t" and is_const(ln) and cval(ln) <= 16:
                    out.append((x, tuple(("i", item(x, v, const(j)))
                                         for j in range(cval(ln)))))
                    continue
                out.append((x, (("m", v, ln),)))
            elif k in ("none", "b", "i"):
                self.raise_(x, ctx, "TypeError", node, "not iterable")
            else:
                s = self.unknown(x, "iteration over an unknown value", node,
                                 ctx)
                out.append((x, (("m", s, mk("len", s)),)))
        return out


def _ival(t):
    v = cval(t)
    return v.value if isinstance(v, EnumVal) else int(v)


def bor(ts):
    """Bitwise or as a set of operands."""
    s = set()
    k = 0
    for t in ts:
        if t.op == "bor":
            s |= set(t.a[0])
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    return mk("bor", tuple(sorted(s, key=lambda x: x.id)))


METHODS = {
    "list": set(dir(list)),
    "dict": set(dir(dict)),
    "set": set(dir(set)),
}
