"""Abstract interpreter over the syntax trees of the package (path-sensitive
dataflow: sets of abstract states, joined at loop heads)."""

import ast
import builtins
import os

from . import charset as C
from . import domain as D
from . import terms as t_
from .domain import Fact, IntF, INF
from .loader import AnalysisBroken, ClassInfo, FuncInfo, load_package, own_nodes
from .logic import (compare, const_members, list_len, mkcmp, mknot, truth)
from .state import HObj, St, at_end, const_fact, item, newsym, refine
from .terms import (EMPTYS, EnumVal, FALSE, NONE, T, TRUE, cat, const, cval,
                    is_const, lin_add, lin_mul, mk, sym, tup, tup_items)

BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Mod: "%",
    ast.FloorDiv: "//", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&",
    ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.Div: "/",
    ast.MatMult: "@",
}
CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
    ast.NotIn: "not in",
}
IMETH = {"+": "__iadd__", "-": "__isub__", "|": "__ior__", "&": "__iand__"}
OMETH = {"+": ("__add__", "__radd__"), "|": ("__or__", "__ror__")}


class Exc:
    """An abstract exception value."""

    __slots__ = ("cls", "site", "msg", "args", "explicit")

    def __init__(self, cls, site, msg="", args=(), explicit=False):
        self.cls, self.site, self.msg, self.args = cls, site, msg, args
        self.explicit = explicit

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return "%s at %s%s" % (self.name, self.site,
                               " (%s)" % self.msg if self.msg else "")


class Sink:
    __slots__ = ("raises", "events")

    def __init__(self):
        self.raises, self.events = [], []

    def add(self, o):
        self.raises += o.raises
        self.events += o.events


class Ctx:
    __slots__ = ("fid", "top", "func", "cid", "sink", "cls", "selft", "yh",
                 "stack", "module", "locals_", "base", "genloop")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))

    def but(self, **k):
        c = Ctx(**{n: getattr(self, n) for n in self.__slots__})
        for n, v in k.items():
            setattr(c, n, v)
        return c


from .values import ValueMixin  # noqa: E402
from .loops import Budget, LoopMixin  # noqa: E402
from .models import ModelMixin  # noqa: E402


class Interp(ValueMixin, LoopMixin, ModelMixin):
    MAX_STATES = 160
    MAX_DEPTH = 40

    def __init__(self, root="/repo", package="urlstd"):
        self.root = root
        self.stubs = {}
        self.modules = load_package(root, package)
        self.package = package
        self.funcs = {}  # qualname -> FuncInfo
        self.classes = {}  # qualname -> ClassInfo
        self.logger_class = None
        self.split_cat = False  # iterate the pieces of a text in turn
        self.unroll_while = 0   # iterations of while loops kept apart
        self.split_cat = False  # iterate the parts of a text in turn
        self.ghost = None       # (object, its blurred content)
        self.ghost_bad = None   # the content never blurred
        self.apart = False      # never join states with different facts
        self.nsteps = 0
        self.max_steps = 6_000_000
        self.notes = {}
        self.analysed = set()  # functions analysed
        self.calls_seen = set()
        self.init_state = St()
        self.init_state.frames = {}
        self.nalloc = 0
        for m in sorted(self.modules):
            self.exec_module(self.modules[m])
        self.base = self.init_state

    # ------------------------------------------------------------------ notes
    def note(self, why):
        self.notes[why] = self.notes.get(why, 0) + 1

    def unknown(self, st, why, node=None, ctx=None, fact=D.UNKNOWN):
        """A value about which nothing is known; taints the state."""
        s = ""
        if ctx is not None and node is not None:
            s = self.site(ctx, node)
        why = "%s [%s]" % (why, s)
        self.note(why)
        st.taint(why)
        return self.fresh(st, "unk:%s" % s, fact)

    def fresh(self, st, name, fact):
        """A symbol not used in st."""
        used = st.live_syms()
        for t in st.facts:
            if name in t.syms:
                used |= t.syms
        while name in used:
            name += "~"
        st.facts = {t: f for t, f in st.facts.items() if name not in t.syms}
        st.cache = {}
        return newsym(name, fact)

    def site(self, ctx, node):
        return "%s:%s:%s" % (ctx.module.relpath, getattr(node, "lineno", "?"),
                             ctx.func.qualname if ctx.func else "<module>")

    def raise_(self, st, ctx, cls, node, msg="", explicit=False, args=()):
        ctx.sink.raises.append(
            (st, Exc(cls, self.site(ctx, node), msg, args, explicit)))

    def event(self, ctx, kind, node, detail, st):
        ctx.sink.events.append(
            (kind, self.site(ctx, node), detail, bool(st.unk)))

    # ---------------------------------------------------------------- modules
    def exec_module(self, mod):
        if mod.executed:
            return
        mod.executed = True
        sink = Sink()
        ctx = Ctx(fid="mod:" + mod.name, top=-1, func=None,
                  cid="", sink=sink, module=mod, stack=(),
                  locals_=None, base=True)
        st = self.init_state
        st.frames[ctx.fid] = {}
        mod.fid = ctx.fid
        for s in mod.tree.body:
            try:
                sink.raises.clear()
                outs = self.exec_stmt(s, st, ctx)
                outs = [o for o in outs if o[0] == "n"]
                if len(outs) == 1:
                    st = outs[0][1]
                elif outs:
                    st = outs[0][1]
                    self.note("module-level branch in %s:%d" % (
                        mod.relpath, s.lineno))
                else:
                    self.module_fallback(s, st, ctx)
            except AnalysisBroken:
                raise
            except Exception as e:  # unsupported construct at module level
                self.note("module-level %s:%d: %s" % (
                    mod.relpath, s.lineno, e))
                self.module_fallback(s, st, ctx)
            self.init_state = st
        st.facts = {}
        st.unk = frozenset()
        st.trace = None

    def module_fallback(self, s, st, ctx):
        """Bind the names a module-level statement assigns to unknown values
        (typed by annotation where there is one)."""
        for n in ast.walk(s):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                st.setvar(ctx.fid, n.target.id, self.from_annotation(
                    st, ctx, n.target.id, n.annotation))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                if n.id not in st.frames[ctx.fid]:
                    st.setvar(ctx.fid, n.id, newsym(
                        "glob:%s.%s" % (ctx.module.name, n.id), D.UNKNOWN))

    def from_annotation(self, st, ctx, name, ann):
        txt = ast.unparse(ann).replace(" ", "")
        nm = "glob:%s.%s" % (ctx.module.name, name)
        if txt in ("list[str]", "List[str]"):
            seq = newsym(nm, D.UNKNOWN)
            st.put_fact(mk("elem", seq), D.STR)
            from .state import SYMFACT
            SYMFACT[nm] = Fact(t=D.TupF(None, D.STR, 0, INF))
            return self.alloc(st, "M:" + nm, HObj(
                "list", segs=(("m", seq, mk("len", seq)),)))
        if txt == "str":
            return newsym(nm, D.STR)
        return newsym(nm, D.UNKNOWN)

    def alloc(self, st, oid, h):
        o = oid
        while o in st.heap:
            o += "'"
        st.heap[o] = h
        return t_.obj(o)

    def new(self, st, ctx, node, h, tag=""):
        if ctx.base:
            oid = "M:%s:%s:%s%s" % (ctx.module.name, node.lineno,
                                    node.col_offset, tag)
        else:
            oid = "A:%s:%s:%s%s%s" % (ctx.module.name, node.lineno,
                                      node.col_offset, tag, ctx.cid)
        return self.alloc(st, oid, h)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, st, ctx):
        """-> list of (kind, st, value); kind n/r/b/c/gb/gr"""
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            if isinstance(s, ast.While):
                cur = [cur]
            for x in cur:
                self.nsteps += 1
                if self.nsteps > self.max_steps:
                    raise Budget("step budget exhausted")
                for o in self.exec_stmt(s, x, ctx):
                    if o[0] == "n":
                        nxt.append(o[1])
                    else:
                        out.append(o)
            if not nxt:
                return out
            live = None
            if ctx.func is not None and not isinstance(
                    ctx.func.node, ast.Lambda):
                live = ctx.func.live.get(s)
            if live is not None:
                for x in nxt:
                    self.prune_env(x, ctx.fid, live)
            if len(nxt) > 1:
                nxt = self.merge(nxt)
            cur = nxt
        return out + [("n", x, None) for x in cur]

    def prune_env(self, st, fid, live):
        e = st.frames.get(fid)
        if e and any(k not in live and k[0] != "\0" for k in e):
            st.frames[fid] = {k: v for k, v in e.items()
                              if k in live or k[0] == "\0"}

    def exec_stmt(self, s, st, ctx):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unknown(st, "statement %s" % type(s).__name__, s, ctx)
            return [("n", st, None)]
        return m(s, st, ctx)

    def x_Pass(self, s, st, ctx):
        return [("n", st, None)]

    def x_Global(self, s, st, ctx):
        return [("n", st, None)]

    x_Nonlocal = x_Global

    def x_Break(self, s, st, ctx):
        return [("b", st, None)]

    def x_Continue(self, s, st, ctx):
        return [("c", st, None)]

    def x_Expr(self, s, st, ctx):
        v = s.value
        if isinstance(v, ast.Constant):
            return [("n", st, None)]
        if isinstance(v, ast.Yield):
            return self.do_yield(v, st, ctx)
        if isinstance(v, ast.YieldFrom):
            f = ast.For(target=ast.Name(id="\0yf", ctx=ast.Store()),
                        iter=v.value, body=[ast.Expr(value=ast.Yield(
                            value=ast.Name(id="\0yf", ctx=ast.Load())))],
                        orelse=[])
            ast.copy_location(f, s)
            ast.fix_missing_locations(f)
            return self.x_For(f, st, ctx)
        return [("n", x, None) for x, _ in self.ev(v, st, ctx)]

    def do_yield(self, v, st, ctx):
        out = []
        vals = self.ev(v.value, st, ctx) if v.value is not None else [
            (st, NONE)]
        for x, t in vals:
            if ctx.yh is None:
                self.unknown(x, "yield outside a modelled loop", v, ctx)
                out.append(("n", x, None))
            else:
                out += ctx.yh(x, t, ctx.sink)
        return out

    def x_Return(self, s, st, ctx):
        if s.value is None:
            return [("r", st, NONE)]
        return [("r", x, v) for x, v in self.ev(s.value, st, ctx)]

    def x_Assign(self, s, st, ctx):
        out = []
        for x, v in self.ev(s.value, st, ctx):
            cur = [x]
            for tg in s.targets:
                cur = [z for y in cur for z in self.assign(tg, v, y, ctx)]
            out += [("n", y, None) for y in cur]
        return out

    def x_AnnAssign(self, s, st, ctx):
        if s.value is None:
            return [("n", st, None)]
        out = []
        for x, v in self.ev(s.value, st, ctx):
            out += [("n", y, None) for y in self.assign(s.target, v, x, ctx)]
        return out

    def x_AugAssign(self, s, st, ctx):
        out = []
        op = BIN[type(s.op)]
        ld = _as_load(s.target)
        if isinstance(s.target, ast.Name):
            for x, a in self.ev(ld, st, ctx):
                for y, b in self.ev(s.value, x, ctx):
                    for z, r in self.inplace(op, a, b, y, ctx, s):
                        out += [("n", w, None) for w in self.assign(
                            s.target, r, z, ctx)]
        elif isinstance(s.target, ast.Attribute):
            for x, o in self.ev(s.target.value, st, ctx):
                for y, a in self.getattr(o, s.target.attr, x, ctx, s.target):
                    for z, b in self.ev(s.value, y, ctx):
                        for w, r in self.inplace(op, a, b, z, ctx, s):
                            out += [("n", q, None) for q in self.setattr(
                                o, s.target.attr, r, w, ctx, s.target)]
        elif isinstance(s.target, ast.Subscript):
            for x, o in self.ev(s.target.value, st, ctx):
                for y, i in self.ev_index(s.target.slice, x, ctx):
                    for z, a in self.getitem(o, i, y, ctx, s.target):
                        for w, b in self.ev(s.value, z, ctx):
                            for q, r in self.inplace(op, a, b, w, ctx, s):
                                out += [("n", k, None) for k in self.setitem(
                                    o, i, r, q, ctx, s.target)]
        else:
            self.unknown(st, "augmented assignment", s, ctx)
            out = [("n", st, None)]
        return out

    def inplace(self, op, a, b, st, ctx, node):
        if a.op == "obj":
            h = st.heap.get(a.a[0])
            if h is not None:
                if h.kind == "list" and op == "+":
                    return [(x, a) for x in self.list_extend(
                        a, b, st, ctx, node)]
                if h.kind == "list" and op == "*":
                    out = []
                    for x, r in self.binop(op, a, b, st, ctx, node):
                        if r.op == "obj":
                            x.heap[a.a[0]] = x.heap[r.a[0]]
                        out.append((x, a))
                    return out
                if h.kind in ("set", "dict") and op in ("|", "&", "-"):
                    self.unknown(st, "in-place set operation", node, ctx)
                    return [(st, a)]
                if h.kind == "inst" and op in IMETH and hasattr(
                        h.cls, "lookup") and h.cls.lookup(
                        IMETH[op])[1] is not None:
                    return self.callm(a, IMETH[op], [b], {}, st, ctx, node)
        return self.binop(op, a, b, st, ctx, node)

    def x_Delete(self, s, st, ctx):
        cur = [st]
        for tg in s.targets:
            tgs = tg.elts if isinstance(tg, (ast.Tuple, ast.List)) else [tg]
            for g in tgs:
                nxt = []
                for x in cur:
                    if isinstance(g, ast.Name):
                        x.delvar(ctx.fid, g.id)
                        nxt.append(x)
                    elif isinstance(g, ast.Subscript):
                        for y, o in self.ev(g.value, x, ctx):
                            for z, i in self.ev_index(g.slice, y, ctx):
                                nxt += self.delitem(o, i, z, ctx, g)
                    elif isinstance(g, ast.Attribute):
                        for y, o in self.ev(g.value, x, ctx):
                            if o.op == "obj" and y.heap[
                                    o.a[0]].kind == "inst":
                                y.heap[o.a[0]] = y.heap[o.a[0]].delf(g.attr)
                            nxt.append(y)
                cur = nxt
        return [("n", x, None) for x in cur]

    def x_If(self, s, st, ctx):
        tr, fa = self.ev_test(s.test, st, ctx)
        # keep a few disjuncts apart: a later test may depend on the same
        # values
        if len(tr) > 3:
            tr = self.merge(tr)
        if len(fa) > 3:
            fa = self.merge(fa)
        out = []
        for x in tr:
            if fa or len(tr) > 1:
                x = x.copy()
            x.mark("%d+" % s.lineno)
            out += self.exec_block(s.body, x, ctx)
        for x in fa:
            x = x.copy()
            x.mark("%d-" % s.lineno)
            if s.orelse:
                out += self.exec_block(s.orelse, x, ctx)
            else:
                out.append(("n", x, None))
        return out

    def x_Assert(self, s, st, ctx):
        tr, fa = self.ev_test(s.test, st, ctx)
        for x in fa:
            self.raise_(x, ctx, "AssertionError", s)
        return [("n", x, None) for x in tr]

    def x_Raise(self, s, st, ctx):
        if s.exc is None:
            cur = st.frames.get(ctx.fid, {}).get("\0exc")
            e = self.excvals.get(cur) if cur is not None else None
            if e is None:
                self.raise_(st, ctx, "RuntimeError", s)
            else:
                ctx.sink.raises.append((st, e))
            return []
        out = []
        for x, v in self.ev(s.exc, st, ctx):
            if s.cause is not None:
                for y, _ in self.ev(s.cause, x, ctx):
                    self.raise_value(v, y, ctx, s)
            else:
                self.raise_value(v, x, ctx, s)
        return out

    def raise_value(self, v, st, ctx, node):
        if v.op == "class":
            res = self.call(v, [], {}, st, ctx, node)
            for x, o in res:
                self.raise_value(o, x, ctx, node)
            return
        if v.op == "obj" and st.heap[v.a[0]].kind == "inst":
            h = st.heap[v.a[0]]
            self.raise_(st, ctx, h.cls, node, explicit=True, args=(v,))
            return
        if v.op == "excv":
            e = self.excvals.get(v)
            if e is not None:
                ctx.sink.raises.append((st, Exc(e.cls, self.site(ctx, node),
                                                e.msg, e.args, True)))
                return
        if v.op == "bltn":
            self.raise_(st, ctx, v.a[0], node, explicit=True)
            return
        if v.op == "call" and isinstance(v.a[0], str) and _is_exc(v.a[0]):
            self.raise_(st, ctx, v.a[0], node, explicit=True)
            return
        st.taint("raise of an unknown value [%s]" % self.site(ctx, node))
        self.raise_(st, ctx, "Exception", node, explicit=True)

    excvals = {}

    def x_Try(self, s, st, ctx):
        inner = Sink()
        c2 = ctx.but(sink=inner)
        outs = self.exec_block(s.body, st.copy(), c2)
        fin_in = []
        if s.orelse:
            res = []
            for o in outs:
                if o[0] == "n":
                    # exceptions of the else block are not handled here
                    k = Sink()
                    res += self.exec_block(s.orelse, o[1], ctx.but(sink=k))
                    fin_in += k.raises
                    ctx.sink.events += k.events
                else:
                    res.append(o)
            outs = res
        ctx.sink.events += inner.events
        for x, e in inner.raises:
            x = self.drop_frames(x, ctx)
            handled = False
            for h in s.handlers:
                m = self.exc_matches(h, e, x, ctx)
                if m == "no":
                    continue
                y = x.copy() if m == "maybe" else x
                if m == "maybe":
                    y.taint("exception class of a handler is unknown")
                self.nexc = getattr(self, "nexc", 0)
                ev = mk("excv", "%s@%s" % (e.name, e.site))
                self.excvals[ev] = e
                if h.name:
                    y.setvar(ctx.fid, h.name, ev)
                y.setvar(ctx.fid, "\0exc", ev)
                y.mark("%d!%s" % (h.lineno, e.name))
                k = Sink()
                for o in self.exec_block(h.body, y, ctx.but(sink=k)):
                    o[1].delvar(ctx.fid, "\0exc")
                    if h.name:
                        o[1].delvar(ctx.fid, h.name)
                    outs.append(o)
                ctx.sink.events += k.events
                fin_in += k.raises
                if m == "yes":
                    handled = True
                    break
            if not handled:
                fin_in.append((x, e))
        if not s.finalbody:
            ctx.sink.raises += fin_in
            ns = [o for o in outs if o[0] == "n"]
            rest = [o for o in outs if o[0] != "n"]
            if len(ns) > 1:
                ns = [("n", x, None) for x in self.merge(
                    [o[1] for o in ns])]
            return ns + rest
        res = []
        for o in outs:
            for p in self.exec_block(s.finalbody, o[1], ctx):
                res.append((o[0], p[1], o[2]) if p[0] == "n" else p)
        for x, e in fin_in:
            for p in self.exec_block(s.finalbody, x, ctx):
                if p[0] == "n":
                    ctx.sink.raises.append((p[1], e))
                else:
                    res.append(p)
        return res

    def drop_frames(self, st, ctx):
        if any(isinstance(f, int) and f > ctx.top for f in st.frames):
            st = st.copy()
            st.frames = {f: e for f, e in st.frames.items()
                         if not isinstance(f, int) or f <= ctx.top}
        return st

    def exc_matches(self, h, e, st, ctx):
        if h.type is None:
            return "yes"
        tys = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        res = "no"
        for ty in tys:
            vals = self.ev(ty, st.copy(), ctx)
            for _, v in vals:
                items = tup_items(v) or [v]
                for w in items:
                    r = self.exc_isa(e.cls, w)
                    if r == "yes":
                        return "yes"
                    if r == "maybe":
                        res = "maybe"
        return res

    def exc_isa(self, c, w):
        """Is exception class c (ClassInfo|name) a subclass of class term w?"""
        if w.op == "class":
            tgt = self.classes[w.a[0]]
            if isinstance(c, ClassInfo):
                if tgt in c.mro():
                    return "yes"
            return "no"
        if w.op in ("bltn", "ext"):
            nm = w.a[0].rsplit(".", 1)[-1] if w.op == "ext" else w.a[0]
            names = [c] if isinstance(c, str) else c.ext_bases()
            for n in names:
                n = str(n).rsplit(".", 1)[-1]
                if n == nm:
                    return "yes"
                k1, k2 = getattr(builtins, n, None), getattr(
                    builtins, nm, None)
                if isinstance(k1, type) and isinstance(k2, type) and \
                        issubclass(k1, k2):
                    return "yes"
                if n == "ICUError" and nm in ("Exception", "BaseException",
                                              "RuntimeError"):
                    return "yes" if nm != "RuntimeError" else "no"
            return "no"
        return "maybe"

    def x_With(self, s, st, ctx):
        cur = [st]
        for it in s.items:
            nxt = []
            for x in cur:
                for y, v in self.ev(it.context_expr, x, ctx):
                    if v.op == "obj" and y.heap[v.a[0]].kind == "inst":
                        res = self.callm(v, "__enter__", [], {}, y, ctx, s)
                    else:
                        y.taint("context manager [%s]" % self.site(ctx, s))
                        res = [(y, self.unknown(y, "with", s, ctx))]
                    for z, w in res:
                        if it.optional_vars is not None:
                            nxt += self.assign(it.optional_vars, w, z, ctx)
                        else:
                            nxt.append(z)
            cur = nxt
        out = []
        for x in cur:
            out += self.exec_block(s.body, x, ctx)
        return out

    def x_FunctionDef(self, s, st, ctx):
        fi = self.make_func(s, ctx)
        v = mk("func", fi.qualname)
        return [("n", x, None) for x in self.bind_def(s, fi, v, st, ctx)]

    def make_func(self, s, ctx, cls=None):
        if cls is not None:
            qn = cls.qualname + "." + s.name
        elif ctx.func is not None:
            qn = ctx.func.qualname + ".<locals>." + s.name
        else:
            qn = ctx.module.name + "." + s.name
        if qn in self.funcs and self.funcs[qn].node is not s:
            n = 2
            while "%s#%d" % (qn, n) in self.funcs and self.funcs[
                    "%s#%d" % (qn, n)].node is not s:
                n += 1
            qn = "%s#%d" % (qn, n)
        fi = FuncInfo(ctx.module, s, qn, cls,
                      ctx.fid if ctx.func is not None else None)
        self.funcs[qn] = fi
        # defaults are evaluated once, at definition
        fi.defaults = {}
        a = s.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
                (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)
                if d is not None]:
            fi.defaults[p.arg] = d
        fi.deft = {}
        return fi

    def bind_def(self, s, fi, v, st, ctx):
        self.eval_defaults(fi, st, ctx)
        for d in reversed(s.decorator_list):
            n = ast.unparse(d)
            fi.decorators.append(n)
            if n == "staticmethod":
                fi.kind = "staticmethod"
            elif n == "classmethod":
                fi.kind = "classmethod"
            elif n in ("overload", "typing.overload", "functools.wraps",
                       "abstractmethod"):
                pass
            else:
                self.note("decorator %s on %s" % (n, fi.qualname))
                fi.kind = "unknown:" + n
        st.setvar(ctx.fid, s.name, v)
        return [st]

    def eval_defaults(self, fi, st, ctx):
        for p, d in fi.defaults.items():
            try:
                r = self.ev(d, st, ctx)
                fi.deft[p] = r[0][1]
            except Exception as e:
                self.note("default of %s: %s" % (fi.qualname, e))

    def x_ClassDef(self, s, st, ctx):
        qn = (ctx.module.name if ctx.func is None
              else ctx.func.qualname) + "." + s.name
        ci = ClassInfo(ctx.module, s, qn)
        self.classes[qn] = ci
        for b in s.bases:
            try:
                (x, v), = self.ev(b, st, ctx)
                if v.op == "class":
                    ci.bases.append(self.classes[v.a[0]])
                else:
                    ci.bases.append(str(v.a[0]) if v.a else ast.unparse(b))
            except Exception:
                ci.bases.append(ast.unparse(b))
        ext = [str(e).rsplit(".", 1)[-1] for e in ci.ext_bases()]
        ci.enum = any(e in ("IntEnum", "Enum", "IntFlag", "Flag", "StrEnum")
                      for e in ext)
        ci.namedtuple = "NamedTuple" in ext
        for d in s.decorator_list:
            n = ast.unparse(d)
            if n.split("(")[0] in ("dataclass", "dataclasses.dataclass"):
                kw = {}
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        try:
                            kw[k.arg] = ast.literal_eval(k.value)
                        except Exception:
                            pass
                ci.dataclass = kw
            else:
                self.note("class decorator %s on %s" % (n, qn))
        fid = "cls:" + qn
        c2 = ctx.but(fid=fid)
        st.frames[fid] = {}
        prev = 0
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self.make_func(b, ctx, ci)
                self.eval_defaults(fi, st, c2)
                handled = False
                for d in b.decorator_list:
                    n = ast.unparse(d)
                    fi.decorators.append(n)
                    if n in ("property", "functools.cached_property",
                             "cached_property"):
                        ci.properties[b.name] = {"get": fi}
                        if n != "property":
                            self.note("cached property " + fi.qualname)
                            ci.properties[b.name]["cached"] = True
                        handled = True
                    elif n.endswith(".setter"):
                        ci.properties.setdefault(n[:-7], {})
                        ci.properties[n[:-7]] = dict(ci.properties[n[:-7]],
                                                     set=fi)
                        handled = True
                    elif n.endswith((".getter", ".deleter")):
                        handled = True
                    elif n == "classmethod":
                        fi.kind = "classmethod"
                    elif n == "staticmethod":
                        fi.kind = "staticmethod"
                    elif n in ("overload", "typing.overload",
                               "abstractmethod"):
                        pass
                    else:
                        fi.kind = "unknown:" + n
                        self.note("decorator %s on %s" % (n, fi.qualname))
                if not handled:
                    if b.name in ci.properties:
                        del ci.properties[b.name]
                    ci.attrs[b.name] = mk("func", fi.qualname)
                continue
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                ann = ast.unparse(b.annotation)
                if (ci.dataclass is not None or ci.namedtuple) and \
                        "ClassVar" not in ann:
                    ci.fields.append((b.target.id, b.value))
                    if b.value is not None and not _is_field(b.value):
                        (x, v), = self.ev(b.value, st, c2)
                        ci.attrs[b.target.id] = v
                    continue
                if b.value is None:
                    continue
            if ci.enum and isinstance(b, ast.Assign) and isinstance(
                    b.targets[0], ast.Name):
                nm = b.targets[0].id
                src = ast.unparse(b.value)
                if src in ("enum.auto()", "auto()"):
                    val = prev + 1
                else:
                    (x, v), = self.ev(b.value, st, c2)
                    val = cval(v) if is_const(v) else None
                if isinstance(val, int):
                    prev = val
                ev = EnumVal(ci.name, nm, val)
                for o in ci.members.values():
                    if o.value == val:
                        ev = o
                ci.members[nm] = ev
                ci.attrs[nm] = const(ev)
                st.setvar(fid, nm, const(val))
                continue
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            try:
                outs = self.exec_stmt(b, st, c2)
                if not outs:
                    raise ValueError("no normal outcome")
                st2 = outs[0][1]
                if st2 is not st:
                    st.frames, st.heap = st2.frames, st2.heap
            except Exception as e:
                self.note("class body %s:%d %s" % (qn, b.lineno, e))
                for n in ast.walk(b):
                    if isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Store):
                        st.setvar(fid, n.id, newsym(
                            "glob:%s.%s" % (qn, n.id), D.UNKNOWN))
            for k, v in st.frames[fid].items():
                ci.attrs[k] = v
        del st.frames[fid]
        st.setvar(ctx.fid, s.name, mk("class", qn))
        return [("n", st, None)]

    def x_Import(self, s, st, ctx):
        for al in s.names:
            nm = al.asname or al.name.split(".")[0]
            tgt = al.name if al.asname else al.name.split(".")[0]
            st.setvar(ctx.fid, nm, self.import_name(tgt))
        return [("n", st, None)]

    def import_name(self, dotted):
        if dotted in self.modules:
            self.exec_module(self.modules[dotted])
            return mk("module", dotted)
        return mk("ext", dotted)

    def x_ImportFrom(self, s, st, ctx):
        mod = s.module or ""
        if s.level:
            base = ctx.module.name.split(".")
            is_pkg = ctx.module.path.endswith("__init__.py")
            up = s.level - (1 if is_pkg else 0)
            base = base[: len(base) - up] if up else base
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return [("n", st, None)]
        for al in s.names:
            if mod in self.modules:
                m = self.modules[mod]
                saved = self.init_state
                self.exec_module(m)
                st2 = self.init_state
                # module execution extends the same state object chain
                for f, e in st2.frames.items():
                    if f not in st.frames:
                        st.frames[f] = e
                for o, h in st2.heap.items():
                    st.heap.setdefault(o, h)
                self.init_state = st if ctx.base else saved
                if al.name == "*":
                    for k, v in st.frames["mod:" + mod].items():
                        if not k.startswith("_"):
                            st.setvar(ctx.fid, k, v)
                    continue
                sub = mod + "." + al.name
                if al.name in st.frames["mod:" + mod]:
                    v = st.frames["mod:" + mod][al.name]
                elif sub in self.modules:
                    v = self.import_name(sub)
                else:
                    v = mk("ext", sub)
                st.setvar(ctx.fid, al.asname or al.name, v)
            else:
                st.setvar(ctx.fid, al.asname or al.name,
                          mk("ext", mod + "." + al.name))
        return [("n", st, None)]

    def x_Match(self, s, st, ctx):
        out = []
        for x, v in self.ev(s.subject, st, ctx):
            rest = [x]
            for c in s.cases:
                nrest = []
                for y in rest:
                    for z, ok in self.match_pat(c.pattern, v, y, ctx):
                        if not ok:
                            nrest.append(z)
                            continue
                        if c.guard is not None:
                            tr, fa = self.ev_test(c.guard, z, ctx)
                            nrest += fa
                        else:
                            tr = [z]
                        for w in tr:
                            out += self.exec_block(c.body, w.copy(), ctx)
                rest = nrest
            out += [("n", y, None) for y in rest]
        return out

    def match_pat(self, p, v, st, ctx):
        """-> [(st, matched?)]"""
        if isinstance(p, ast.MatchValue):
            out = []
            for x, w in self.ev(p.value, st, ctx):
                tr, fa = compare(x, "==", v, w)
                out += [(y, True) for y in tr] + [(y, False) for y in fa]
            return out
        if isinstance(p, ast.MatchSingleton):
            tr, fa = compare(st, "is", v, const(p.value))
            return [(y, True) for y in tr] + [(y, False) for y in fa]
        if isinstance(p, ast.MatchOr):
            out, rest = [], [st]
            for q in p.patterns:
                nr = []
                for x in rest:
                    for y, ok in self.match_pat(q, v, x, ctx):
                        (out if ok else nr).append((y, True) if ok else y)
                rest = nr
            return out + [(x, False) for x in rest]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st = st.copy()
                    st.setvar(ctx.fid, p.name, v)
                return [(st, True)]
            out = []
            for y, ok in self.match_pat(p.pattern, v, st, ctx):
                if ok and p.name:
                    y = y.copy()
                    y.setvar(ctx.fid, p.name, v)
                out.append((y, ok))
            return out
        if isinstance(p, ast.MatchClass) and not p.patterns and \
                not p.kwd_patterns:
            out = []
            for x, c in self.ev(p.cls, st, ctx):
                tr, fa = self.isinstance_(v, c, x, ctx, p)
                out += [(y, True) for y in tr] + [(y, False) for y in fa]
            return out
        a, b = st.copy(), st.copy()
        self.unknown(a, "match pattern", p, ctx)
        self.unknown(b, "match pattern", p, ctx)
        return [(a, True), (b, False)]

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, st, ctx):
        if isinstance(tg, ast.Name):
            nm = tg.id
            fid = ctx.fid
            if ctx.func is not None:
                ln = ctx.func.localnames
                if nm not in ln and nm in getattr(
                        ctx.func, "globalnames", ()):
                    fid = self.scope_of(nm, st, ctx)
                    if isinstance(fid, str):
                        self.event(ctx, "global-write", tg, (
                            "name", nm, None, v), st)
            st = st.copy()
            st.setvar(fid, nm, v)
            return [st]
        if isinstance(tg, (ast.Tuple, ast.List)):
            return self.unpack(tg, v, st, ctx)
        if isinstance(tg, ast.Attribute):
            out = []
            for x, o in self.ev(tg.value, st, ctx):
                out += self.setattr(o, tg.attr, v, x, ctx, tg)
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for x, o in self.ev(tg.value, st, ctx):
                for y, i in self.ev_index(tg.slice, x, ctx):
                    out += self.setitem(o, i, v, y, ctx, tg)
            return out
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, v, st, ctx)
        self.unknown(st, "assignment target", tg, ctx)
        return [st]

    def unpack(self, tg, v, st, ctx):
        n = len(tg.elts)
        star = [k for k, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
        out = []
        for x, items in self.unpack_items(v, n, st, ctx, tg, bool(star)):
            if star:
                k = star[0]
                after = n - k - 1
                if len(items) < n - 1:
                    self.raise_(x, ctx, "ValueError", tg, "unpack")
                    continue
                mid = items[k: len(items) - after]
                lst = self.new(x, ctx, tg, HObj("list", segs=tuple(
                    ("i", m) for m in mid)), "*")
                items = items[:k] + [lst] + items[len(items) - after:]
            elif len(items) != n:
                self.raise_(x, ctx, "ValueError", tg,
                            "unpack %d into %d" % (len(items), n))
                continue
            cur = [x]
            for e, w in zip(tg.elts, items):
                cur = [z for y in cur for z in self.assign(e, w, y, ctx)]
            out += cur
        return out

    def unpack_items(self, v, n, st, ctx, node, star=False):
        its = tup_items(v)
        if its is not None:
            return [(st, its)]
        if is_const(v) and isinstance(cval(v), str):
            return [(st, [const(c) for c in cval(v)])]
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.kind in ("list", "set"):
                out = []
                for x, segs in self.explode(h.segs, st, ctx, limit=8):
                    if all(s[0] == "i" for s in segs):
                        out.append((x, [s[1] for s in segs]))
                    else:
                        # unknown length: either n or an error
                        ln = list_len(HObj("list", segs=segs))
                        tr, fa = compare(x, "==", ln, const(n))
                        for y in fa:
                            self.raise_(y, ctx, "ValueError", node, "unpack")
                        for y in tr:
                            out.append((y, [self.list_get(
                                segs, const(k), y) for k in range(n)]))
                return out
            if h is not None and h.kind == "inst" and getattr(
                    h.cls, "namedtuple", False):
                return [(st, [h.f[f] for f, _ in h.cls.fields])]
        f = st.fact(v)
        if f.t is not None and f.ncomp() == 1:
            if f.t.items is not None:
                return [(st, [item(st, v, const(k))
                              for k in range(len(f.t.items))])]
            if f.t.lo == f.t.hi and f.t.lo <= 16:
                return [(st, [item(st, v, const(k))
                              for k in range(int(f.t.lo))])]
            if star:
                return [(st, [self.unknown(st, "starred unpack", node, ctx)
                              for _ in range(n)])]
            tr, fa = compare(st, "==", mk("len", v), const(n))
            for y in fa:
                self.raise_(y, ctx, "ValueError", node, "unpack")
            return [(y, [item(y, v, const(k)) for k in range(n)]) for y in tr]
        if v.op == "iter":
            return self.unpack_iter(v, n, st, ctx, node)
        return [(st, [self.unknown(st, "unpacking", node, ctx)
                      for _ in range(n)])]

    def unpack_iter(self, v, n, st, ctx, node):
        d = self.iter_desc(v, st, ctx, node)
        out = []
        for x, dd in d:
            if all(c[0] == "x" for c in dd):
                its = [t for c in dd for t in c[1]]
                if len(its) == n:
                    out.append((x, its))
                else:
                    self.raise_(x, ctx, "ValueError", node, "unpack")
            else:
                out.append((x, [self.unknown(x, "unpack iterator", node, ctx)
                                for _ in range(n)]))
        return out

    # ------------------------------------------------------------ merging
    def merge(self, states, extra=None):
        """Merge states with identical environment and heap (facts joined)."""
        if len(states) < 2:
            return states
        if self.ghost is not None:
            self.blur(states, extra)
        groups = {}
        order = []
        for k, s in enumerate(states):
            self.gc(s, (extra[k],) if extra else ())
            key = (self.env_key(s), s.unk, extra[k] if extra else None,
                   frozenset(s.facts.items()) if self.apart else None)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(s)
        out, oex = [], []
        for key in order:
            g = groups[key]
            if len(g) > 1:
                sub = {}
                for s in g:
                    sub.setdefault(self.sig(s), []).append(s)
                res = []
                for ss in sub.values():
                    r = ss[0]
                    for s in ss[1:]:
                        r = self.join_facts(r, s)
                    res.append(r)
                g = res
            out += g
            if extra is not None:
                oex += [key[2]] * len(g)
        if extra is not None:
            return out, oex
        return out

    def blur(self, states, extra):
        """Forget the ghost object where states differ in nothing else."""
        oid, top = self.ghost
        seen = {}
        for k, s in enumerate(states):
            h = s.heap.get(oid)
            if h is None:
                continue
            env = tuple((f, frozenset(e.items())) for f, e in sorted(
                s.frames.items(), key=lambda p: str(p[0]))
                if isinstance(f, int))
            rest = frozenset(p for p in s.heap.items() if p[0] != oid)
            seen.setdefault((env, rest, extra[k] if extra else None),
                            []).append(s)
        for ss in seen.values():
            if len({s.heap[oid] for s in ss}) > 1:
                for s in ss:
                    s.heap[oid] = top
                    s.cache = {}

    def env_key(self, s):
        return (tuple((f, frozenset(e.items())) for f, e in sorted(
            s.frames.items(), key=lambda p: str(p[0]))
            if isinstance(f, int)),
            frozenset(s.heap.items()))

    def join_facts(self, a, b):
        r = St(dict(a.frames), dict(a.heap), {}, a.unk | b.unk, a.trace)
        for t in set(a.facts) | set(b.facts):
            f = a.fact(t).join(b.fact(t))
            if f != r.structural(t):
                r.facts[t] = f
        r.cache = {}
        return r

    def gc(self, st, extra=()):
        """Drop unreachable allocated objects."""
        fresh = [o for o in st.heap if o[:2] in ("A:", "H:")]
        if not fresh:
            return
        seen = set()
        for e in st.frames.values():
            for v in e.values():
                if v.op not in ("const", "func", "class", "sym"):
                    seen |= t_.objs(v)
        for v in extra:
            if v is not None:
                seen |= t_.objs(v)
        seen.update(o for o in st.heap if o[:2] not in ("A:", "H:"))
        work = list(seen)
        while work:
            h = st.heap.get(work.pop())
            if h is not None:
                new = h.objs() - seen
                if new:
                    seen |= new
                    work += new
        dead = [o for o in fresh if o not in seen]
        for o in dead:
            del st.heap[o]

    def scope_of(self, nm, st, ctx):
        if ctx.func is not None and ctx.func.closure is not None:
            f = ctx.func.closure
            if f in st.frames and nm in st.frames[f]:
                return f
        return "mod:" + ctx.module.name


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    return t


def _is_exc(n):
    k = getattr(builtins, n, None)
    return isinstance(k, type) and issubclass(k, BaseException)


def _is_field(v):
    return isinstance(v, ast.Call) and ast.unparse(v.func) in (
        "field", "dataclasses.field")
