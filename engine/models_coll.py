"""Models of the methods of list, dict and set."""

from . import charset as C
from . import domain as D
from .domain import Fact, IntF, INF
from .loader import ClassInfo
from .logic import const_members, list_len, truth
from .state import HObj, item, refine, seg_elem
from .terms import (EMPTYS, EnumVal, FALSE, NONE, TRUE, cat, const, cval,
                    is_const, lin_add, mk, tup, tup_items)


class CollMixin:
    def touch(self, o, st, ctx, node):
        if o.a[0].startswith("M:") and not ctx.base:
            self.event(ctx, "global-write", node, (
                "mutate", o.a[0], None, None), st)

    # ------------------------------------------------------------------ list
    def l_append(self, o, h, args, kw, st, ctx, node):
        if not self.arity(args, kw, 1, 1, st, ctx, node):
            return []
        st = st.copy()
        self.touch(o, st, ctx, node)
        st.heap[o.a[0]] = h.with_segs(h.segs + (("i", args[0]),))
        return [(st, NONE)]

    def l_extend(self, o, h, args, kw, st, ctx, node):
        return [(x, NONE) for x in self.list_extend(o, args[0], st, ctx,
                                                    node)]

    def l_insert(self, o, h, args, kw, st, ctx, node):
        i, v = args
        st = st.copy()
        self.touch(o, st, ctx, node)
        if is_const(i) and cval(i) == 0:
            st.heap[o.a[0]] = h.with_segs((("i", v),) + h.segs)
        elif is_const(i) and all(s[0] == "i" for s in h.segs):
            ns = list(h.segs)
            ns.insert(cval(i), ("i", v))
            st.heap[o.a[0]] = h.with_segs(ns)
        elif i is list_len(h):
            st.heap[o.a[0]] = h.with_segs(h.segs + (("i", v),))
        else:
            n = lin_add(list_len(h), const(1))
            st.heap[o.a[0]] = h.with_segs((("m", mk(
                "ins", tuple(h.segs), i, v), n),))
        return [(st, NONE)]

    def l_pop(self, o, h, args, kw, st, ctx, node):
        self.touch(o, st, ctx, node)
        return self.list_pop(o, h, args[0] if args else const(-1), st, ctx,
                             node)

    def l_clear(self, o, h, args, kw, st, ctx, node):
        st = st.copy()
        self.touch(o, st, ctx, node)
        st.heap[o.a[0]] = h.with_segs(())
        return [(st, NONE)]

    def l_copy(self, o, h, args, kw, st, ctx, node):
        st = st.copy()
        return [(st, self.new(st, ctx, node, HObj("list", segs=h.segs)))]

    def l_remove(self, o, h, args, kw, st, ctx, node):
        self.touch(o, st, ctx, node)
        v = args[0]
        out = []
        if all(s[0] == "i" for s in h.segs):
            cur = [st]
            for k, s in enumerate(h.segs):
                nxt = []
                for x in cur:
                    tr, fa = self.cmp_split("==", s[1], v, x, ctx, node)
                    for y in tr:
                        y = y.copy()
                        y.heap[o.a[0]] = h.with_segs(
                            h.segs[:k] + h.segs[k + 1:])
                        out.append((y, NONE))
                    nxt += fa
                cur = nxt
            for x in cur:
                self.raise_(x, ctx, "ValueError", node, "list.remove")
            return out
        y = st.copy()
        if not ctx.base:
            self.raise_(y, ctx, "ValueError", node, "list.remove")
        st = st.copy()
        st.heap[o.a[0]] = h.with_segs(self.del_any(h.segs, mk(
            "where", v)))
        return [(st, NONE)]

    def l_reverse(self, o, h, args, kw, st, ctx, node):
        st = st.copy()
        self.touch(o, st, ctx, node)
        if all(s[0] == "i" for s in h.segs):
            st.heap[o.a[0]] = h.with_segs(tuple(reversed(h.segs)))
        else:
            st, segs = self.permuted(h.segs, None, st, ctx, node)
            st.heap[o.a[0]] = h.with_segs(segs)
        return [(st, NONE)]

    def l_sort(self, o, h, args, kw, st, ctx, node):
        self.touch(o, st, ctx, node)
        key = kw.get("key")
        self.sort_keys(h.segs, key, kw.get("reverse"), st, ctx, node)
        self.event(ctx, "sort", node, (o, key), st)
        st = st.copy()
        st, segs = self.permuted(h.segs, key, st, ctx, node)
        st.heap[o.a[0]] = h.with_segs(segs)
        return [(st, NONE)]

    def sort_keys(self, segs, key, rev, st, ctx, node):
        """Evaluate the key on arbitrary elements (it may raise)."""
        keys = []
        for s in segs:
            if s[0] == "i":
                e = s[1]
            else:
                tr, fa = self.cmp_split("<", const(0), s[2], st, ctx, node)
                if not tr:
                    continue
                from .loops import IDX
                e = item(st, s[1], IDX)
            if key is None or key is NONE:
                keys.append((e, e))
                continue
            for x, k in self.call(key, [e], {}, st.copy(), ctx, node):
                h = x.heap.get(k.a[0]) if k.op == "obj" else None
                if h is not None and h.cls == "icu.UnicodeString":
                    k = mk("ustr", h.f["v"], h.f.get("n", NONE))
                keys.append((e, k))
        self.event(ctx, "sortkey", node, (tuple(keys), rev), st)

    def l_index(self, o, h, args, kw, st, ctx, node):
        ln = list_len(h)
        y = st.copy()
        self.raise_(y, ctx, "ValueError", node, "list.index")
        lo, hi = st.int_iv(ln)
        st = st.copy()
        return [(st, self.fresh(st, "lidx:" + self.site(ctx, node), Fact(
            i=IntF(0, hi))))]

    def l_count(self, o, h, args, kw, st, ctx, node):
        st = st.copy()
        return [(st, self.fresh(st, "lcount:" + self.site(ctx, node),
                                D.NAT))]

    # ------------------------------------------------------------------ dict
    def dict_find(self, h, key, st, ctx, node):
        """-> [(st, value term or None)]"""
        out = []
        cur = [st]
        for k, v in h.items:
            nxt = []
            for x in cur:
                if k is key:
                    out.append((x, v))
                    continue
                if self.flagset(k) is not None and self.flagset(
                        key) is not None:
                    if self.flagset(k) != self.flagset(key):
                        nxt.append(x)
                    else:
                        out.append((x, v))
                    continue
                tr, fa = self.cmp_split("==", k, key, x, ctx, node)
                out += [(y, v) for y in tr]
                nxt += fa
            cur = nxt
            if not cur:
                break
        for x in cur:
            out.append((x, None))
            if h.open:
                y = x.copy()
                if h.f.get("\0vals") is not None:
                    from .loops import IDX
                    out.append((y, self.fresh(y, "dval:" + self.site(
                        ctx, node), seg_elem(y, ("m", h.f["\0vals"], None)))))
                else:
                    out.append((y, self.unknown(
                        y, "value of an open dict", node, ctx)))
        return out

    def flagset(self, k):
        """A set of external flag constants joined by |."""
        if k.op == "ext":
            return frozenset([k])
        if k.op == "bor" and all(x.op in ("ext", "const") for x in k.a[0]):
            return frozenset(k.a[0])
        return None

    def dict_get(self, o, h, i, st, ctx, node):
        out = []
        for x, v in self.dict_find(h, i, st, ctx, node):
            if v is None:
                self.raise_(x, ctx, "KeyError", node, "dict key")
            else:
                out.append((x, v))
        return out

    def d_get(self, o, h, args, kw, st, ctx, node):
        d = args[1] if len(args) > 1 else NONE
        return [(x, d if v is None else v) for x, v in self.dict_find(
            h, args[0], st, ctx, node)]

    def dict_set(self, o, h, k, v, st, ctx, node):
        """-> states"""
        out = []
        if o.a[0].startswith("M:") and not ctx.base:
            self.event(ctx, "global-write", node, (
                "item", o.a[0], k, v), st)
        for x, old in self.dict_find(h, k, st, ctx, node):
            x = x.copy()
            h2 = x.heap[o.a[0]]
            items = []
            done = False
            for kk, vv in h2.items:
                if kk is k or old is not None and vv is old and not done:
                    items.append((kk, v))
                    done = True
                else:
                    items.append((kk, vv))
            if not done:
                items.append((k, v))
            x.heap[o.a[0]] = h2.with_items(items)
            out.append(x)
        return out

    def d_setdefault(self, o, h, args, kw, st, ctx, node):
        d = args[1] if len(args) > 1 else NONE
        out = []
        for x, v in self.dict_find(h, args[0], st, ctx, node):
            if v is not None:
                out.append((x, v))
                continue
            if o.a[0].startswith("M:") and not ctx.base:
                self.event(ctx, "global-write", node, (
                    "item", o.a[0], args[0], d), x)
            x = x.copy()
            x.heap[o.a[0]] = h.with_items(h.items + ((args[0], d),))
            out.append((x, d))
        return out

    def d_pop(self, o, h, args, kw, st, ctx, node):
        self.touch(o, st, ctx, node)
        out = []
        for x, v in self.dict_find(h, args[0], st, ctx, node):
            if v is None:
                if len(args) > 1:
                    out.append((x, args[1]))
                else:
                    self.raise_(x, ctx, "KeyError", node, "dict.pop")
                continue
            x = x.copy()
            x.heap[o.a[0]] = h.with_items(
                [p for p in h.items if p[1] is not v or p[0] is not args[0]])
            out.append((x, v))
        return out

    def d_items(self, o, h, args, kw, st, ctx, node):
        return [(st, mk("iter", "items", o))]

    def d_keys(self, o, h, args, kw, st, ctx, node):
        return [(st, mk("iter", "keys", o))]

    def d_values(self, o, h, args, kw, st, ctx, node):
        return [(st, mk("iter", "values", o))]

    def d_copy(self, o, h, args, kw, st, ctx, node):
        st = st.copy()
        return [(st, self.new(st, ctx, node, HObj(
            "dict", f=dict(h.f), items=h.items, open=h.open)))]

    def d_clear(self, o, h, args, kw, st, ctx, node):
        self.touch(o, st, ctx, node)
        st = st.copy()
        st.heap[o.a[0]] = HObj("dict")
        return [(st, NONE)]

    def d_update(self, o, h, args, kw, st, ctx, node):
        self.touch(o, st, ctx, node)
        st = st.copy()
        items = list(h.items)
        open_ = h.open
        if args:
            v = args[0]
            g = st.heap.get(v.a[0]) if v.op == "obj" else None
            if g is not None and g.kind == "dict":
                for k, w in g.items:
                    items = [p for p in items if p[0] is not k] + [(k, w)]
                open_ = open_ or g.open
            else:
                open_ = True
                st.taint("dict.update [%s]" % self.site(ctx, node))
        for k, w in kw.items():
            items = [p for p in items if p[0] is not const(k)] + [
                (const(k), w)]
        st.heap[o.a[0]] = HObj("dict", items=tuple(items), open=open_)
        return [(st, NONE)]

    # ------------------------------------------------------------------- set
    def s__upd(self, o, h, segs, st, ctx, node):
        self.touch(o, st, ctx, node)
        st = st.copy()
        st.heap[o.a[0]] = h.with_segs(segs)
        return [(st, NONE)]


def _set_add(self, o, h, args, kw, st, ctx, node):
    if any(s[0] == "i" and s[1] is args[0] for s in h.segs):
        return [(st, NONE)]
    return self.s__upd(o, h, h.segs + (("i", args[0]),), st, ctx, node)


SETM = {"add": _set_add}
