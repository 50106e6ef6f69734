"""Calls: argument binding, inlining, instantiation."""

import ast

from . import domain as D
from . import terms as t_
from .domain import Fact, IntF, INF
from .loader import ClassInfo
from .logic import truth
from .state import HObj, St, item, newsym, refine
from .terms import (EMPTYS, EnumVal, FALSE, NONE, T, TRUE, cat, const, cval,
                    is_const, lin_add, mk, tup, tup_items)


class CallMixin:
    def e_Call(self, e, st, ctx):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id in ("any", "all") and \
                len(e.args) == 1 and not e.keywords and isinstance(
                e.args[0], (ast.GeneratorExp, ast.ListComp)):
            fv = self.ev(fn, st, ctx)
            if len(fv) == 1 and fv[0][1].op == "bltn":
                r = self.any_all(e.args[0], fn.id == "any", fv[0][0], ctx)
                if r is not None:
                    return r
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            fv = self.ev(fn, st, ctx)
            if fv and fv[0][1].op == "bltn" and ctx.cls is not None:
                return [(st, mk("super", ctx.cls.qualname, ctx.selft))]
        out = []
        for x, f in self.ev(fn, st, ctx):
            cur = [(x, [], {})]
            for a in e.args:
                nxt = []
                for y, ps, kw in cur:
                    if isinstance(a, ast.Starred):
                        for z, v in self.ev(a.value, y, ctx):
                            for w, segs in self.to_segs(v, z, ctx, a):
                                if all(s[0] == "i" for s in segs):
                                    nxt.append((w, ps + [s[1] for s in segs],
                                                kw))
                                else:
                                    nxt.append((w, ps + [mk(
                                        "star", self.segs_to_tuple(
                                            segs, w, ctx, a))], kw))
                    else:
                        pin = self.pin_args(y, ps, a, ctx, e)
                        for z, v in self.ev(a, pin, ctx):
                            nxt.append((z, ps + [v], kw))
                cur = nxt
            cur = [(self.unpin(y, ctx, e), ps, kw) for y, ps, kw in cur]
            for k in e.keywords:
                nxt = []
                for y, ps, kw in cur:
                    for z, v in self.ev(k.value, y, ctx):
                        if k.arg is not None:
                            if k.arg in kw:
                                self.raise_(z, ctx, "TypeError", e,
                                            "multiple values for " + k.arg)
                                continue
                            nxt.append((z, ps, dict(kw, **{k.arg: v})))
                            continue
                        h = z.heap.get(v.a[0]) if v.op == "obj" else None
                        if h is None or h.kind != "dict":
                            z.taint("** of a non-dict [%s]" % self.site(
                                ctx, e))
                            nxt.append((z, ps, kw))
                            continue
                        if h.open:
                            z.taint("** of an unknown dict [%s]" % self.site(
                                ctx, e))
                        d = dict(kw)
                        bad = False
                        for kk, vv in h.items:
                            n = cval(kk) if is_const(kk) else None
                            if n in d:
                                bad = True
                                break
                            d[n] = vv
                        if bad:
                            self.raise_(z, ctx, "TypeError", e,
                                        "multiple values for keyword")
                            continue
                        nxt.append((z, ps, d))
                cur = nxt
            for y, ps, kw in cur:
                out += self.call(f, ps, kw, y, ctx, e)
        return out

    def pin_args(self, st, ps, a, ctx, e):
        """Keep objects already evaluated alive during the next argument."""
        if isinstance(a, (ast.Name, ast.Constant, ast.Attribute)) or \
                ctx.fid not in st.frames:
            return st
        new = {"\0arg%d:%d:%d" % (e.lineno, e.col_offset, k): v for k, v in enumerate(ps)
               if isinstance(v, T) and t_.objs(v)}
        if not new:
            return st
        st = st.copy()
        st.frames[ctx.fid] = dict(st.frames[ctx.fid], **new)
        return st

    def unpin(self, st, ctx, e):
        fr = st.frames.get(ctx.fid)
        pre = "\0arg%d:%d:" % (e.lineno, e.col_offset)
        if fr is None or not any(isinstance(k, str) and k.startswith(pre)
                                 for k in fr):
            return st
        st = st.copy()
        st.frames[ctx.fid] = {k: v for k, v in fr.items() if not (
            isinstance(k, str) and k.startswith(pre))}
        return st

    def call(self, f, args, kw, st, ctx, node):
        op = f.op
        if op == "func":
            return self.call_func(self.funcs[f.a[0]], args, kw, st, ctx, node)
        if op == "bound":
            return self.call_func(self.funcs[f.a[1].a[0]], [f.a[0]] + args,
                                  kw, st, ctx, node)
        if op == "class":
            return self.instantiate(self.classes[f.a[0]], f, args, kw, st,
                                    ctx, node)
        if op == "bltn":
            return self.call_bltn(f.a[0], args, kw, st, ctx, node)
        if op == "ext":
            return self.call_ext(f.a[0], args, kw, st, ctx, node)
        if op == "extm":
            return self.call_method(f.a[0], f.a[1], args, kw, st, ctx, node)
        if op == "supm":
            return self.call_super(f.a[0], f.a[1], args, kw, st, ctx, node)
        if op == "partial":
            return self.call(f.a[0], list(f.a[1]) + args,
                             dict(f.a[2], **kw), st, ctx, node)
        if op == "obj":
            h = st.heap.get(f.a[0])
            if h is not None and h.kind == "inst":
                return self.callm(f, "__call__", args, kw, st, ctx, node)
            self.raise_(st, ctx, "TypeError", node, "not callable")
            return []
        if op == "ite":
            c, a, b = f.a
            tr, fa = self.truthv(c, st, ctx, node)
            out = []
            for x in tr:
                out += self.call(a, args, kw, x, ctx, node)
            for x in fa:
                out += self.call(b, args, kw, x, ctx, node)
            return out
        if op == "const":
            self.raise_(st, ctx, "TypeError", node, "not callable")
            return []
        st = st.copy()
        return [(st, self.unknown(st, "call of an unknown value", node, ctx))]

    def callm(self, o, name, args, kw, st, ctx, node):
        out = []
        for x, f in self.getattr(o, name, st, ctx, node):
            out += self.call(f, args, kw, x, ctx, node)
        return out

    # ------------------------------------------------------------- inlining
    def bind_args(self, fi, args, kw, st, ctx, node):
        """-> env or None (TypeError raised)"""
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        npos_only = len(a.posonlyargs)
        env = {}
        rest = []
        for k, v in enumerate(args):
            if v.op == "star":
                st.taint("star argument of unknown length [%s]" % self.site(
                    ctx, node))
                rest.append(v)
                continue
            if k < len(pos):
                env[pos[k]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            self.raise_(st, ctx, "TypeError", node,
                        "too many arguments for %s" % fi.qualname)
            return None
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = []
        for n, v in kw.items():
            if (n in pos[npos_only:] or n in kwonly):
                if n in env:
                    self.raise_(st, ctx, "TypeError", node,
                                "multiple values for %s of %s" % (
                                    n, fi.qualname))
                    return None
                env[n] = v
            elif a.kwarg is not None:
                extra.append((const(n), v))
            else:
                self.raise_(st, ctx, "TypeError", node,
                            "unexpected keyword %s of %s" % (n, fi.qualname))
                return None
        for p in pos + kwonly:
            if p not in env:
                if p in fi.defaults:
                    env[p] = fi.deft.get(p)
                    if env[p] is None:
                        env[p] = self.unknown(st, "default of " + p, node,
                                              ctx)
                else:
                    self.raise_(st, ctx, "TypeError", node,
                                "missing argument %s of %s" % (
                                    p, fi.qualname))
                    return None
        if a.vararg is not None:
            if any(v.op == "star" for v in rest):
                segs = []
                for v in rest:
                    if v.op == "star":
                        segs += list(self.tuple_segs(v.a[0], st))
                    else:
                        segs.append(("i", v))
                env[a.vararg.arg] = mk("tupseq", tuple(segs))
            else:
                env[a.vararg.arg] = tup(rest)
        if a.kwarg is not None:
            env[a.kwarg.arg] = ("kw", tuple(extra))
        return env

    def call_func(self, fi, args, kw, st, ctx, node):
        memo = False
        stub = self.stubs.get(fi.qualname)
        if stub is not None:
            env = self.bind_args(fi, args, kw, st, ctx, node)
            return [] if env is None else stub(env, st, ctx, node)
        if fi.kind.startswith("unknown:"):
            deco = fi.kind[8:]
            if deco.split("(")[0] in ("functools.lru_cache", "lru_cache",
                                      "functools.cache", "cache"):
                self.event(ctx, "memo", node, fi.qualname, st)
                memo = True
            else:
                st.taint("decorator %s of %s" % (deco, fi.qualname))
        st = st.copy()
        env = self.bind_args(fi, args, kw, st, ctx, node)
        if env is None:
            return []
        if fi.is_gen:
            for k, v in list(env.items()):
                if isinstance(v, tuple):
                    env[k] = self.new(st, ctx, fi.node, HObj(
                        "dict", items=v[1]), "kw")
            return [(st, mk("gen", fi.qualname, tuple(sorted(env.items()))))]
        depth = sum(1 for q in ctx.stack if q == fi.qualname)
        if depth >= 2 or len(ctx.stack) > self.MAX_DEPTH:
            return [(st, self.unknown(st, "recursion in " + fi.qualname, node,
                                      ctx))]
        fid = ctx.top + 1
        fr = {}
        for k, v in env.items():
            if isinstance(v, tuple):
                v = self.new(st, ctx, fi.node, HObj("dict", items=v[1]), "kw")
            fr[k] = v
        st.frames[fid] = fr
        self.analysed.add(fi.qualname)
        selft = args[0] if args and fi.cls is not None else None
        if isinstance(fi.closure, int) and fi.closure not in st.frames:
            st.taint("closure of %s is gone" % fi.qualname)
        c2 = ctx.but(fid=fid, top=fid, func=fi, module=fi.module,
                     cls=fi.cls, selft=selft, yh=None, base=False,
                     stack=ctx.stack + (fi.qualname,))
        res = []
        if isinstance(fi.node, ast.Lambda):
            res = [(x, v) for x, v in self.ev(fi.node.body, st, c2)]
        else:
            for k, x, v in self.exec_block(fi.node.body, st, c2):
                if k == "r":
                    res.append((x, v))
                elif k == "n":
                    res.append((x, NONE))
                else:
                    self.note("flow %s out of %s" % (k, fi.qualname))
        out = []
        for x, v in res:
            x = x.copy()
            x.frames.pop(fid, None)
            if len(x.facts) > 24:
                x.prune_facts((v,))
            if memo and v.op == "obj" and v.a[0][:2] == "A:" and \
                    v.a[0] in x.heap:
                # every later call returns this very object
                h = x.heap.pop(v.a[0])
                v = self.alloc(x, "M:memo:" + v.a[0][2:], h)
            out.append((x, v))
        if len(out) > 1:
            ss, vs = self.merge([x for x, _ in out], [v for _, v in out])
            out = list(zip(ss, vs))
        if len(out) > 4 * self.MAX_STATES:
            from .interp import Budget
            raise Budget("%d outcomes of %s" % (len(out), fi.qualname))
        return out

    # --------------------------------------------------------- instantiation
    def instantiate(self, ci, ct, args, kw, st, ctx, node):
        if ci.enum:
            if len(args) == 1 and is_const(args[0]):
                for m in ci.members.values():
                    v = cval(args[0])
                    if m.value == (v.value if isinstance(v, EnumVal) else v):
                        return [(st, const(m))]
                self.raise_(st, ctx, "ValueError", node, ci.name)
                return []
            st = st.copy()
            return [(st, self.unknown(st, "enum lookup", node, ctx))]
        st = st.copy()
        c, init = ci.lookup("__init__")
        o = self.new(st, ctx, node, HObj("inst", ci), ":" + ci.name)
        if ci.lookup("__new__")[1] is not None:
            st.taint("__new__ of %s" % ci.name)
        if ci.namedtuple or (ci.dataclass is not None and init is None):
            flds = []
            for k in reversed(ci.mro()):
                for f in k.fields:
                    flds = [g for g in flds if g[0] != f[0]] + [f]
            vals = {}
            if len(args) > len(flds):
                self.raise_(st, ctx, "TypeError", node, ci.name)
                return []
            for f, v in zip(flds, args):
                vals[f[0]] = v
            for n, v in kw.items():
                if n in vals or n not in [f[0] for f in flds]:
                    self.raise_(st, ctx, "TypeError", node,
                                "argument %s of %s" % (n, ci.name))
                    return []
                vals[n] = v
            cur = [st]
            for n, d in flds:
                if n in vals:
                    for x in cur:
                        x.heap[o.a[0]] = x.heap[o.a[0]].setf(n, vals[n])
                    continue
                if d is None:
                    for x in cur:
                        self.raise_(x, ctx, "TypeError", node,
                                    "missing %s of %s" % (n, ci.name))
                    return []
                nxt = []
                for x in cur:
                    for y, v in self.field_default(ci, n, d, x, ctx, node):
                        y = y.copy()
                        y.heap[o.a[0]] = y.heap[o.a[0]].setf(n, v)
                        nxt.append(y)
                cur = nxt
            if ci.lookup("__post_init__")[1] is not None:
                nxt = []
                for x in cur:
                    nxt += [y for y, _ in self.callm(
                        o, "__post_init__", [], {}, x, ctx, node)]
                cur = nxt
            return [(x, o) for x in cur]
        if init is not None:
            # the frame keeps the object alive while it is initialised
            pin = "\0new:%s" % o.a[0]
            if ctx.fid in st.frames:
                st.frames[ctx.fid] = dict(st.frames[ctx.fid], **{pin: o})
            res = self.call_func(self.funcs[init.a[0]], [o] + args, kw, st,
                                 ctx, node)
            out = []
            for x, _ in res:
                if pin in x.frames.get(ctx.fid, ()):
                    x = x.copy()
                    x.frames[ctx.fid] = {
                        k: v for k, v in x.frames[ctx.fid].items()
                        if k != pin}
                out.append((x, o))
            return out
        exts = [str(e).rsplit(".", 1)[-1] for e in ci.ext_bases()]
        if any(x.endswith(("Error", "Exception")) for x in exts) or any(
                x in ("BaseException",) for x in exts):
            st.heap[o.a[0]] = st.heap[o.a[0]].setf("args", tup(args))
            return [(st, o)]
        if args or kw:
            if not exts or exts == ["object"]:
                self.raise_(st, ctx, "TypeError", node,
                            "%s takes no arguments" % ci.name)
                return []
            st.taint("constructor of %s" % ci.name)
        return [(st, o)]

    def field_default(self, ci, n, d, st, ctx, node):
        if isinstance(d, ast.Call) and ast.unparse(d.func) in (
                "field", "dataclasses.field"):
            kws = {k.arg: k.value for k in d.keywords}
            c2 = ctx.but(module=ci.module, func=None,
                         fid="mod:" + ci.module.name)
            if "default_factory" in kws:
                out = []
                for x, f in self.ev(kws["default_factory"], st, c2):
                    out += self.call(f, [], {}, x, ctx, d)
                return out
            if "default" in kws:
                return self.ev(kws["default"], st, c2)
        v = ci.attrs.get(n)
        if v is not None:
            return [(st, v)]
        return [(st, self.unknown(st, "field default " + n, node, ctx))]

    def call_super(self, sup, name, args, kw, st, ctx, node):
        """Method of an external base class."""
        ci = self.classes[sup.a[0]]
        selft = sup.a[1]
        exts = [str(e).rsplit(".", 1)[-1] for e in ci.ext_bases()]
        isexc = any(e.endswith(("Error", "Exception")) for e in exts)
        st = st.copy()
        if name == "__init__":
            if isexc and selft.op == "obj":
                st.heap[selft.a[0]] = st.heap[selft.a[0]].setf(
                    "args", tup(args))
            return [(st, NONE)]
        if self.is_logger(ci) and name in (
                "debug", "info", "warning", "error", "exception", "critical",
                "log"):
            return self.log_call(name, args, kw, st, ctx, node)
        if name == "__str__" and isexc:
            return [(st, self.fresh(st, "excstr", D.STR))]
        if name == "__eq__":
            if ci.namedtuple:
                return [(st, self.nt_eq(selft, args[0], st))]
        return [(st, self.unknown(st, "super().%s" % name, node, ctx))]

    def is_logger(self, ci):
        for c in ci.mro():
            for b in c.bases:
                if not isinstance(b, ClassInfo) and (
                        "logging" in str(b) or "Logger" in str(b)):
                    return True
        return False
