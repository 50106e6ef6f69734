"""Loops: fixpoints over partitioned heads, iteration, comprehensions,
generators."""

import ast

from . import charset as C
from . import domain as D
from . import terms as t_
from .domain import Fact, IntF, INF
from .loader import ClassInfo
from .logic import compare, list_len
from .state import (HObj, St, SYMFACT, at_end, end_candidates, item, newsym,
                    refine)
from .terms import (lin_parts, EMPTYS, EnumVal, FALSE, NONE, T, TRUE, cat, cat_pieces,
                    const, cval, is_const, lin_add, lin_diff_const, lin_mul,
                    mk, sym, tup, tup_items)

IDX = mk("idx")
UNROLL = 4
TRACE = False


class Demote(Exception):
    pass


class Head:
    __slots__ = ("st", "visits", "exits", "sink", "key", "kid", "ef", "phis")

    def __init__(self, st, key, kid):
        self.st, self.key, self.kid = st, key, kid
        self.visits = 0
        self.exits, self.sink, self.ef = [], None, D.BOT


def locs(st):
    """All mutable locations: (loc, term-or-segs)."""
    for f, e in st.frames.items():
        if isinstance(f, int):
            for n, v in e.items():
                yield (0, f, n), v


def fold_str(tmpl, n):
    """'' + tmpl(0) + ... + tmpl(n-1), tmpl a term over idx."""
    if is_const(n) and cval(n) == 0:
        return EMPTYS
    if tmpl.op == "at" and IDX in set(t_.walk(tmpl)):
        s, i = tmpl.a
        d = lin_add(i, IDX, -1)
        if IDX not in set(t_.walk(d)) and IDX not in set(t_.walk(s)):
            return mk("slice", s, d, lin_add(d, n))
    return mk("sfold", tmpl, n)


def gmap(tmpl, n):
    return mk("gmap", tmpl)


def exact_len(st, n):
    """A symbolic length the state pins to one small number."""
    if is_const(n) or any(
            x.op == "sym" and (x.a[0][:2] == "K:" or x.a[0][:2] == "P:" and
                               x.a[0].rstrip("^~").endswith(".#"))
            for x in lin_parts(n)[1]):
        return None
    lo, hi = st.int_iv(n)
    return int(lo) if lo == hi and hi <= 8 else None


def leaves(b):
    if b.op != "bundle":
        return [b]
    return [x for a in b.a for x in leaves(a)]


def rebuild(b, env, pre):
    n = iter(range(99))

    def go(b):
        if b.op != "bundle":
            return env[pre + str(next(n))]
        return mk("bundle", *[go(a) for a in b.a])
    return go(b)


class LoopMixin:
    interest = None

    # ------------------------------------------------------------- signature
    def init_interest(self):
        """Strings the source compares against; two of them are in one class
        when the source never tells them apart."""
        import re
        grp = {}

        def strs(els):
            return frozenset(
                k.value for k in els if isinstance(k, ast.Constant) and
                isinstance(k.value, str) and re.fullmatch("[a-z]{2,12}",
                                                          k.value))
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Dict, ast.Set, ast.Tuple, ast.List)):
                    g = strs(n.keys if isinstance(n, ast.Dict) else n.elts)
                    if g:
                        grp[g] = len(grp)
                elif isinstance(n, ast.Compare):
                    for k in [n.left] + n.comparators:
                        g = strs([k])
                        if g:
                            grp[g] = len(grp)
        self.interest = frozenset(v for g in grp for v in g)
        if self.fine == "coarse":
            self.iclass = {v: v if frozenset([v]) in grp else "*"
                           for v in self.interest}
        else:
            self.iclass = {v: v if self.fine else frozenset(
                grp[g] for g in grp if v in g) for v in self.interest}

    fine = False

    def classify(self, st, t):
        op = t.op
        if op == "const":
            v = cval(t)
            if v is None or isinstance(v, (bool, EnumVal)):
                return v
            if isinstance(v, str):
                if v in self.interest:
                    return ("s", frozenset([self.iclass[v]]), None)
                return ("s",)
            if isinstance(v, int):
                return ("i",)
            if isinstance(v, tuple):
                return ("t",)
            return type(v).__name__
        if op == "obj":
            return ("o", t.a[0])
        if op in ("func", "class", "ext", "bltn", "module", "bound", "extm"):
            return t
        f = st.fact(t)
        k = []
        if f.none:
            k.append("N")
        if f.b:
            k.append("b%d" % f.b)
        if f.i is not None:
            k.append("i")
            if op in ("lin", "len", "sym") and end_candidates(st, t):
                k.append("E")
        if f.s is not None:
            k.append("s")
            o = f.s.only
            if o is not None and o <= self.interest:
                return tuple(k) + (frozenset(self.iclass[v] for v in o), None)
            e = f.s.excl & self.interest if f.s.excl else ()
            if len(e) > 1:
                return tuple(k) + (None, e)
        if f.y is not None:
            k.append("y")
        if f.t is not None:
            k.append("t")
        if f.o:
            k.append(f.o)
        if f.x:
            k.append("x")
        return tuple(k)

    def sig(self, st):
        if self.interest is None:
            self.init_interest()
        out = []
        coarse = self.fine == "coarse"
        for f in sorted(x for x in st.frames if isinstance(x, int)):
            e = st.frames[f]
            for n in sorted(e):
                out.append((f, n, self.classify(st, e[n])))
        for o in sorted(st.heap):
            if o[:2] == "M:":
                continue
            h = st.heap[o]
            out.append((o, h.kind))
            for n in sorted(h.f):
                c = self.classify(st, h.f[n])
                if coarse and isinstance(c, tuple) and c and c[0] in (
                        "i", "s", "t") and len(c) == 1:
                    c = "v"
                out.append((n, c))
            if h.kind == "list" and all(
                    s[0] == "i" and s[1].op == "obj" for s in h.segs) and \
                    len(h.segs) <= 4:
                out.append(tuple(s[1] for s in h.segs))
            elif h.kind == "list":
                n = exact_len(st, list_len(h))
                if n is not None:
                    out.append(("len", n))
            if h.kind == "dict":
                out.append((tuple(k for k, v in h.items), h.open))
        return tuple(out)

    # ------------------------------------------------------------- fixpoint
    def fix(self, name, entries, step, ctx, live, fid):
        """step(st, sink) -> (backs, exits, elemfact).  Returns exits."""
        kn = "K:" + name
        SYMFACT[kn] = D.NAT
        K = sym(kn)
        ents = []
        for e in entries:
            e = self.rename_loop(e, name)
            if live is not None:
                self.prune_env(e, fid, live)
            self.gc(e)
            e.prune_facts()
            ents.append(e)
        old = set()
        for e in ents:
            old |= set(e.heap)
        if self.ghost is not None:
            oid, top = self.ghost
            if len({e.heap.get(oid) for e in ents}) > 1 or any(
                    e.heap.get(oid) not in (None, self.ghost_bad)
                    for e in ents):
                for e in ents:
                    e.heap[oid] = top
                    e.cache = {}
        banned, cands = set(), None
        for attempt in range(12):
            try:
                return self.fix_once(name, K, ents, step, ctx, live, fid,
                                     cands, banned, old)
            except Restart as r:
                if TRACE:
                    print("RESTART", name, attempt, {l: str(c)[:60] for l, c in r.cands.items()}, flush=True)
                cands = {l: c for l, c in r.cands.items() if l not in banned}
                if not cands:
                    return self.fix_once(name, K, ents, step, ctx, live, fid,
                                         {}, None, old)
        banned |= set(cands or ())
        return self.fix_once(name, K, ents, step, ctx, live, fid, {}, None,
                             old)

    def rename_loop(self, st, name):
        pre = ("K:" + name, "P:" + name + ":", "E:" + name + ":")
        hit = {}
        used = st.live_syms()
        fs = set()
        for t in st.facts:
            fs |= t.syms
        for s in used | fs:
            if s.startswith(pre) and (s[:2] != "K:" or s.rstrip("~") ==
                                      "K:" + name):
                hit[s] = s
        if not hit:
            return st.copy()
        m = {}
        # longest (oldest) first so that renamed names never clash
        for s in hit:
            n = s + "~"
            SYMFACT[n] = SYMFACT.get(s, D.UNKNOWN)
            m[sym(s)] = sym(n)
        return st.subst(m)

    def fix_once(self, name, K, ents, step, ctx, live, fid, cands, banned,
                 old):
        heads = {}
        groups = {}
        for e in ents:
            groups.setdefault(self.sig(e), []).append(e)
        work = []
        for key, g in groups.items():
            kid = len(heads)
            st = g[0].copy()
            for x in g[1:]:
                st, _ = self.join_st(st, x, "E:%s:%d:" % (name, kid), None,
                                     False)
            if cands:
                st = self.apply_cands(st, cands, K)
            h = Head(st, key, kid)
            heads[key] = h
            work.append(key)
        probe = cands is None
        pend = []
        succ = {}
        n = 0
        while work or pend:
            if probe and not work:
                probe = False
                cands = self.find_cands(pend, K)
                if cands:
                    raise Restart(cands)
                cands = {}
                for org, b, key in pend:
                    succ.setdefault(key, set()).add(
                        self.flow_in(name, K, heads, org, b, cands, banned,
                                     work, old, live, fid))
                pend = []
                continue
            key = self.pick(work, heads, succ)
            h = heads[key]
            h.visits += 1
            n += 1
            if n > 4000:
                raise Budget("loop %s does not stabilise" % name)
            sink = self.new_sink()
            backs, exits, ef = step(h.st.copy(), sink)
            h.exits, h.sink, h.ef = exits, sink, ef
            org = h.st
            for b in backs:
                if live is not None:
                    self.prune_env(b, fid, live)
            if self.ghost is not None and org.heap.get(
                    self.ghost[0]) == self.ghost[1]:
                for b in backs:
                    b.heap[self.ghost[0]] = self.ghost[1]
                    b.cache = {}
            if len(backs) > 1:
                backs = self.merge(backs)
            for b in backs:
                if probe:
                    pend.append((org, b, key))
                else:
                    succ.setdefault(key, set()).add(
                        self.flow_in(name, K, heads, org, b, cands, banned,
                                     work, old, live, fid))
        exits = []
        ef = D.BOT
        for h in heads.values():
            ctx.sink.raises += h.sink.raises
            ctx.sink.events += h.sink.events
            exits += h.exits
            ef = ef.join(h.ef)
        return exits, ef

    def pick(self, work, heads, succ):
        """The pending head that comes first in reverse postorder."""
        if len(work) == 1 or len(heads) < 6:
            return work.pop(0)
        seen, post = set(), []
        for root in heads:
            if root in seen:
                continue
            seen.add(root)
            stk = [(root, iter(sorted(succ.get(root, ()),
                                      key=lambda k: -heads[k].kid)))]
            while stk:
                k, i = stk[-1]
                for c in i:
                    if c not in seen:
                        seen.add(c)
                        stk.append((c, iter(sorted(
                            succ.get(c, ()),
                            key=lambda k: -heads[k].kid))))
                        break
                else:
                    post.append(k)
                    stk.pop()
        w = set(work)
        for k in reversed(post):
            if k in w:
                work.remove(k)
                return k
        return work.pop(0)

    def new_sink(self):
        from .interp import Sink
        return Sink()

    # -- candidates
    def loc_values(self, st):
        out = {}
        for f, e in st.frames.items():
            if isinstance(f, int):
                for n, v in e.items():
                    out[(f, n)] = v
        for o, h in st.heap.items():
            if o[:2] == "M:":
                continue
            for n, v in h.f.items():
                out[(o, n)] = v
            if h.kind == "list":
                out[(o, "\0segs")] = h.segs
        return out

    def set_loc(self, st, loc, v):
        if isinstance(loc[0], int):
            st.setvar(loc[0], loc[1], v)
        elif loc[1] == "\0segs":
            st.heap[loc[0]] = st.heap[loc[0]].with_segs(v)
        else:
            st.heap[loc[0]] = st.heap[loc[0]].setf(loc[1], v)

    def cand_of(self, st, v0, v1, K):
        """How v1 extends v0 in one iteration, or None."""
        sub = {K: IDX}
        if isinstance(v0, tuple):
            if len(v1) > len(v0) and v1[:len(v0)] == v0 and len(
                    v1) - len(v0) <= 1 and v1[-1][0] == "i":
                x = v1[-1][1]
                if any(u.op in ("obj", "idx") for u in t_.walk(x)):
                    return None
                return ("l", t_.subst(x, sub))
            return None
        if v0 is v1:
            return None
        f = st.fact(v1)
        if f.i is not None and f.ncomp() == 1:
            f0 = st.fact(v0)
            if f0.i is None or f0.ncomp() != 1:
                return None
            d = lin_diff_const(v1, v0)
            if d:
                return ("i", d)
            return None
        if f.s is not None and f.ncomp() == 1:
            p0, p1 = cat_pieces(v0), cat_pieces(v1)
            # "x" + c may have been fused with a constant prefix
            if len(p1) > len(p0) and p1[:len(p0)] == p0:
                x = cat(p1[len(p0):])
                if any(u.op in ("obj", "idx") for u in t_.walk(x)):
                    return None
                return ("s", t_.subst(x, sub))
            if p0 and is_const(p0[-1]) and len(p1) >= len(p0) and p1[
                    :len(p0) - 1] == p0[:-1] and is_const(p1[
                    len(p0) - 1]) and isinstance(cval(p0[-1]), str):
                a, b = cval(p0[-1]), cval(p1[len(p0) - 1])
                if b.startswith(a) and (b != a or len(p1) > len(p0)):
                    x = cat([const(b[len(a):])] + p1[len(p0):])
                    if any(u.op in ("obj", "idx") for u in t_.walk(x)):
                        return None
                    return ("s", t_.subst(x, sub))
        return None

    def find_cands(self, edges, K):
        res = {}
        dead = set()
        for org, b, _ in edges:
            va, vb = self.loc_values(org), self.loc_values(b)
            for l, v0 in va.items():
                if l in dead:
                    continue
                v1 = vb.get(l)
                c = None
                if v1 is not None:
                    c = self.cand_of(b, v0, v1, K)
                    if isinstance(v0, tuple) and len(v1) == len(v0) + 1 and \
                            v1[:len(v0)] == v0 and v1[-1][0] == "i" and (
                            c is None or l in res and res[l] != c):
                        # one element per iteration, of varying shape
                        c = ("L",)
                        res[l] = c
                if c is None or (l in res and res[l] != c):
                    dead.add(l)
                    res.pop(l, None)
                else:
                    res[l] = c
        return res

    def lphi(self, l, K):
        n = "P:%s:L:%s" % (K.a[0][2:], l[0])
        SYMFACT[n] = D.UNKNOWN
        return sym(n)

    def form(self, v0, c, K, l=None):
        if c[0] == "L":
            return tuple(v0) + (("m", self.lphi(l, K), K),)
        if c[0] == "i":
            return lin_add(v0, lin_mul(K, c[1]))
        if c[0] == "s":
            return cat([v0, fold_str(c[1], K)])
        return tuple(v0) + (("m", gmap(c[1], K), K),)

    def stepped(self, v, c, K):
        if c[0] == "i":
            return lin_add(v, const(c[1]))
        x = t_.subst(c[1], {IDX: K})
        if c[0] == "s":
            return cat([v, x])
        return tuple(v) + (("i", x),)

    def apply_cands(self, st, cands, K):
        vals = self.loc_values(st)
        for l, c in cands.items():
            if l in vals:
                v = self.form(vals[l], c, K, l)
                if c[0] == "s" and not is_const(v):
                    st.facts[v] = st.fact(vals[l])
                self.set_loc(st, l, v)
                if c[0] == "L":
                    st.facts[mk("elem", self.lphi(l, K))] = D.BOT
        st.cache = {}
        return st

    # -- flow into heads
    def flow_in(self, name, K, heads, org, b, cands, banned, work, old, live,
                fid):
        b = b.copy()
        fix, add = {}, {}
        if cands:
            va, vb = self.loc_values(org), self.loc_values(b)
            for l, c in cands.items():
                if l not in va or l not in vb:
                    continue
                if c[0] == "L" and vb[l][:-1] == va[l] and \
                        vb[l][-1][0] == "i" and vb[l][-1][1].op != "obj":
                    fix[l] = va[l]
                    E = mk("elem", self.lphi(l, K))
                    add[E] = org.facts.get(E, D.UNKNOWN).join(
                        b.fact(vb[l][-1][1]))
                elif c[0] != "L" and vb[l] == self.stepped(va[l], c, K):
                    fix[l] = va[l]
                    if c[0] == "s":
                        f = b.fact(vb[l])
                        g, k = b.fact(va[l]), b.fact(
                            t_.subst(c[1], {IDX: K}))
                        if g.s is not None and k.s is not None and \
                                g.ncomp() == k.ncomp() == 1:
                            f = f.meet(Fact(s=D.scat(g.s, k.s)))
                        add[va[l]] = f
                else:
                    if banned is not None:
                        banned.add(l)
                    nc = dict(cands)
                    nc.pop(l)
                    if len(heads) > 6:
                        banned |= set(nc)
                        nc = {}
                    raise Restart(nc)
        # shift
        ls = b.live_syms()
        for t in b.facts:
            ls |= t.syms
        m = {K: lin_add(K, const(-1))}
        pre = "P:" + name + ":"
        for s in ls:
            if s.startswith(pre) and not s.endswith(("^", "~")):
                o = s + "^"
                SYMFACT[o] = SYMFACT.get(s, D.UNKNOWN)
                m[sym(s)] = sym(o)
        b = b.subst(m)
        for l, v in fix.items():
            self.set_loc(b, l, v)
        b.facts.update(add)
        b.cache = {}
        # at a back edge at least one iteration is over
        refine(b, K, Fact(i=IntF(1, INF)))
        b = self.canon_objs(b, name, old)
        self.gc(b)
        key = self.sig(b)
        h = heads.get(key)
        if h is None:
            kid = len(heads)
            pn = "P:%s:%d:" % (name, kid)
            st = self.abstract_new(b, pn, K)
            heads[key] = Head(st, key, kid)
            work.append(key)
            return key
        pn = "P:%s:%d:" % (name, h.kid)
        st, ch = self.join_st(h.st, b, pn, K, h.visits > 2)
        if ch:
            h.st = st
            if key not in work:
                work.append(key)
        return key

    def canon_objs(self, st, name, old):
        """Objects allocated inside the loop get names by access path."""
        new = [o for o in st.heap if o not in old and o[:2] in ("A:", "H:")]
        if not new:
            return st
        new = set(new)
        ren = {}

        def visit(t, path):
            for u in t_.walk(t):
                if u.op == "obj" and u.a[0] in new and u.a[0] not in ren:
                    ren[u.a[0]] = "H:%s:%s" % (name, path)
                    queue.append((u.a[0], path))

        queue = []
        for f in sorted(x for x in st.frames if isinstance(x, int)):
            for n in sorted(st.frames[f]):
                visit(st.frames[f][n], "%d.%s" % (f, n))
        for o in sorted(st.heap):
            if o not in new:
                h = st.heap[o]
                for k, v in enumerate(h.terms()):
                    visit(v, "%s.%d" % (o, k))
        while queue:
            o, path = queue.pop(0)
            h = st.heap[o]
            for n in sorted(h.f):
                visit(h.f[n], path + "." + n)
            for k, s in enumerate(h.segs):
                for v in s[1:]:
                    visit(v, "%s[%d]" % (path, k))
            for k, v in h.items:
                visit(k, path + "{k")
                visit(v, path + "{v")
        ren = {a: b for a, b in ren.items() if a != b}
        if not ren:
            return st
        m = {t_.obj(a): t_.obj(b) for a, b in ren.items()}
        memo = {}
        dead = new - set(ren)
        heap = {}
        for o, h in st.heap.items():
            heap[ren.get(o, o)] = h
        st.heap = heap
        fr = {}
        for f, e in st.frames.items():
            if isinstance(f, int):
                e = {k: self.subst_obj(v, m, memo) for k, v in e.items()}
            fr[f] = e
        st.frames = fr
        st.heap = {o: h.map(lambda t: self.subst_obj(t, m, memo))
                   for o, h in st.heap.items()}
        st.facts = {self.subst_obj(t, m, memo): self.ren_fact(f, ren)
                    for t, f in st.facts.items()}
        st.cache = {}
        return st

    def subst_obj(self, t, m, memo):
        if t.op == "obj":
            return m.get(t, t)
        if t.op in ("const", "sym"):
            return t
        return t_.subst(t, m, memo)

    def ren_fact(self, f, ren):
        if f.o and any(x in ren for x in f.o):
            return f.with_(o=frozenset(ren.get(x, x) for x in f.o))
        return f

    # -- joins
    def abstract_new(self, b, pn, K):
        """First state at a head reached by a back edge: values of the
        previous iteration's symbols become symbols of this head."""
        vals = self.loc_values(b)
        m = {}
        st = b.copy()
        pre = pn.rsplit(":", 2)[0]
        for l, v in vals.items():
            if isinstance(v, tuple):
                if any(has_old(x) for s in v for x in s[1:]):
                    st.heap[l[0]] = st.heap[l[0]].with_segs(
                        self.join_segs(b, v, b, v, pn, l, st, m, False))
            elif has_old(v):
                P = self.phi(pn, l)
                m[P] = (v, v)
                st.facts[P] = b.fact(v)
                self.set_loc(st, l, P)
        for o, h in b.heap.items():
            if h.kind in ("dict", "set") and any(
                    has_old(x) for x in h.terms()):
                st.heap[o] = self.join_coll(h, h, b, b, pn, o, st, m)
        self.seed_facts(st, b, b, m, K)
        st.facts = {t: f for t, f in st.facts.items() if not has_old(t)}
        st.cache = {}
        return st

    def phi(self, pn, l):
        n = pn + "%s.%s" % l
        SYMFACT[n] = D.UNKNOWN
        return sym(n)

    def seed_facts(self, st, a, b, m, K):
        """Relational facts worth keeping about new loop symbols."""
        for P, (va, vb) in m.items():
            f = st.facts.get(P)
            if f is None:
                continue
            if f.i is not None and f.ncomp() == 1:
                ea = end_candidates(a, va)
                eb = end_candidates(b, vb)
                eb = dict(eb)
                for s, k in ea:
                    if s in eb and not has_old(s):
                        st.facts[mk("atend", s, lin_add(P, const(-min(
                            k, eb[s]))))] = D.TRUE
            if K is None:
                continue
            if f.s is not None and f.ncomp() == 1:
                la, lb = self.mk_len(va, a), self.mk_len(vb, b)
                ia = a.int_iv(lin_add(K, la, -1))
                ib = b.int_iv(lin_add(K, lb, -1))
                lo, hi = min(ia[0], ib[0]), max(ia[1], ib[1])
                if lo >= 0:
                    st.facts[lin_add(K, mk("len", P), -1)] = Fact(
                        i=IntF(0, INF))

    def join_st(self, a, b, pn, K, widen):
        """Join state b into head state a -> (state, changed)."""
        st = a.copy()
        va, vb = self.loc_values(a), self.loc_values(b)
        ch = False
        m = {}
        wid = {}
        for l, x in va.items():
            y = vb.get(l)
            if y is None:
                continue
            if isinstance(x, tuple):
                if x == y and not any(has_old(z) for s in x for z in s[1:]):
                    continue
                ns = self.join_segs(a, x, b, y, pn, l, st, m, widen)
                if ns != x:
                    ch = True
                    st.heap[l[0]] = st.heap[l[0]].with_segs(ns)
                continue
            if x is y and not has_old(x):
                continue
            P = self.phi(pn, l)
            m[P] = (x, y)
            f = a.fact(x).join(b.fact(y))
            if x is P:
                of = a.fact(P)
                if f != of:
                    if widen:
                        f = of.widen(f)
                    st.facts[P] = f
                    ch = True
            else:
                st.facts[P] = f
                self.set_loc(st, l, P)
                ch = True
        for o, h in a.heap.items():
            g = b.heap.get(o)
            if g is None or h is g or h == g or h.kind not in (
                    "dict", "set") or o[:2] == "M:":
                continue
            n = self.join_coll(h, g, a, b, pn, o, st, m)
            if n != h:
                st.heap[o] = n
                ch = True
        for o, h in a.heap.items():
            if o[:2] == "M:" and b.heap.get(o) is not None and \
                    b.heap[o] != h:
                n = self.join_glob(h, b.heap[o], a, b, pn, o, st, m)
                if n != h:
                    st.heap[o] = n
                    ch = True
        for o, h in b.heap.items():
            if o[:2] == "M:" and o not in a.heap:
                st.heap[o] = h
                ch = True
        # facts about the other terms
        sub = {P: v[1] for P, v in m.items()}
        memo = {}
        bfacts = {}
        for t in a.facts:
            if t in m:
                continue
            if t.op == "atend":
                u = t_.subst(t, sub, memo)
                if not at_end(b, u.a[0], u.a[1]):
                    st.facts.pop(t, None)
                    ch = True
                continue
            u = t_.subst(t, sub, memo) if sub else t
            if u is not t and u.op == "lin":
                u = self.norm_len(u, b)
            fa = a.fact(t)
            fb = b.fact(u)
            f = fa.join(fb)
            if f != fa:
                if widen:
                    f = fa.widen(f)
                ch = True
                if f == D.UNKNOWN:
                    st.facts.pop(t, None)
                else:
                    st.facts[t] = f
        self.seed_new(st, a, b, m, K)
        if b.unk - a.unk:
            st.unk = a.unk | b.unk
            ch = True
        st.facts = {t: f for t, f in st.facts.items() if not has_old(t)}
        st.cache = {}
        if st.facts == a.facts and st.unk == a.unk and \
                st.heap == a.heap and st.frames == a.frames:
            return a, False
        return st, True

    def norm_len(self, u, b):
        acc = const(u.a[0])
        for x, c in u.a[1]:
            if x.op == "len":
                x = self.mk_len(x.a[0], b)
            acc = lin_add(acc, lin_mul(x, c))
        return acc

    def seed_new(self, st, a, b, m, K):
        n = {P: v for P, v in m.items() if v[0] is not P}
        if n:
            self.seed_facts(st, a, b, n, K)

    def join_segs(self, a, x, b, y, pn, l, st, m, widen):
        if x == y and len(x) <= 8 and all(s[0] == "i" for s in x) or (
                len(x) == len(y) and 0 < len(x) <= 8 and all(
                    s[0] == "i" for s in x) and all(
                    s[0] == "i" for s in y)):
            out = []
            for k, (p, q) in enumerate(zip(x, y)):
                p, q = p[1], q[1]
                if p is q and not has_old(p):
                    out.append(("i", p))
                    continue
                P = self.phi(pn, (l[0], "[%d]" % k))
                m[P] = (p, q)
                f = a.fact(p).join(b.fact(q))
                if p is P and widen and f != a.fact(P):
                    f = a.fact(P).widen(f)
                st.facts[P] = f
                out.append(("i", P))
            return tuple(out)
        if exact_len(a, list_len(HObj("list", segs=tuple(x)))) == 0 and \
                exact_len(b, list_len(HObj("list", segs=tuple(y)))) == 0:
            return ()
        S = self.phi(pn, (l[0], "*"))
        E = mk("elem", S)
        ef = D.BOT
        for s0, segs in ((a, x), (b, y)):
            for s in segs:
                if s[0] == "i":
                    ef = ef.join(s0.fact(s[1]))
                elif s[1] is S and s0 is a and E in a.facts:
                    ef = ef.join(a.facts[E])    # facts of a head only grow
                elif s0.int_iv(s[2])[1] > 0:
                    ef = ef.join(s0.fact(mk("elem", s[1])))
        if widen and E in a.facts:
            ef = a.facts[E].widen(ef)
        if ef.is_bot():
            st.facts.pop(E, None)
            st.facts[E] = D.BOT
        else:
            st.facts[E] = ef
        la = list_len(HObj("list", segs=tuple(x)))
        lb = list_len(HObj("list", segs=tuple(y)))
        if la is lb and not has_old(la):
            ln = la
        else:
            L = self.phi(pn, (l[0], "#"))
            m[L] = (la, lb)
            f = D.fint(*a.int_iv(la)).join(D.fint(*b.int_iv(lb)))
            if la is L and widen and f != a.fact(L):
                f = a.fact(L).widen(f)
            st.facts[L] = f.meet(D.NAT)
            ln = L
        m[S] = (S if (len(x) == 1 and x[0][0] == "m" and x[0][1] is S)
                else mk("seqcat", tuple(x)), mk("seqcat", tuple(y)))
        return (("m", S, ln),)

    def join_coll(self, h, g, a, b, pn, o, st, m):
        if h.kind == "set":
            ns = self.join_segs(a, h.segs, b, g.segs, pn, (o, "set"), st, m,
                                False)
            return h.with_segs(ns)
        hk = dict(h.items)
        gk = dict(g.items)
        items = []
        opn = h.open or g.open
        for k, v in h.items:
            if k not in gk:
                opn = True
                continue
            w = gk[k]
            if v is w and not has_old(v):
                items.append((k, v))
                continue
            P = self.phi(pn, (o, "{%s}" % t_.show(k, 2)))
            m[P] = (v, w)
            f = a.fact(v).join(b.fact(w))
            if v is P and f != a.fact(P):
                f = a.fact(P).widen(f)
            st.facts[P] = f
            items.append((k, P))
        if set(gk) - set(hk):
            opn = True
        items = [(k, v) for k, v in items if not has_old(k)]
        if len(items) < len(hk):
            opn = True
        return h.with_items(items, opn)

    def join_glob(self, h, g, a, b, pn, o, st, m):
        """Joins of module-level objects (caches)."""
        if h.kind == "dict":
            return self.join_coll(h, g, a, b, pn, o, st, m)
        if h.kind == "inst":
            r = h
            for n, v in g.f.items():
                if h.f.get(n) is not v:
                    P = self.phi(pn, (o, n))
                    w = h.f.get(n)
                    st.facts[P] = b.fact(v).join(
                        a.fact(w) if w is not None else D.BOT)
                    r = r.setf(n, P)
            return r
        return h

    # ------------------------------------------------------------- iteration
    def loopname(self, node, ctx):
        return "%s:%d:%d" % (ctx.func.qualname if ctx.func else "mod",
                             node.lineno, node.col_offset)

    def iter_desc(self, v, st, ctx, node):
        """-> [(st, chunks)]; chunk: ('x', [terms]) | ('s', seqterm, len,
        elem_fn, base)"""
        its = tup_items(v)
        if its is not None:
            return [(st, self.exact_chunks(its, v))]
        if is_const(v):
            c = cval(v)
            if isinstance(c, str):
                return [(st, self.exact_chunks([const(x) for x in c], v))]
            if isinstance(c, bytes):
                return [(st, self.exact_chunks([const(x) for x in c], v))]
            if isinstance(c, frozenset):
                return [(st, [("x", [const(x) for x in sorted(
                    c, key=repr)])])]
        if v.op == "obj":
            h = st.heap.get(v.a[0])
            if h is not None and h.kind in ("list", "set"):
                return [(st, self.seg_chunks(h.segs, st))]
            if h is not None and h.kind == "dict":
                if not h.open:
                    return [(st, self.exact_chunks([k for k, _ in h.items],
                                                   None))]
                return self.unknown_iter(v, st, ctx, node)
            if h is not None and h.kind == "inst" and isinstance(
                    h.cls, ClassInfo):
                if h.cls.lookup("__iter__")[1] is not None:
                    out = []
                    for x, r in self.callm(v, "__iter__", [], {}, st, ctx,
                                           node):
                        out += self.iter_desc(r, x, ctx, node)
                    return out
                if h.cls.namedtuple:
                    return [(st, [("x", [h.f[f] for f, _ in
                                         h.cls.fields])])]
                if h.cls.lookup("__getitem__")[1] is not None:
                    return self.unknown_iter(v, st, ctx, node)
        if v.op == "tupseq":
            return [(st, self.seg_chunks(v.a[0], st))]
        if v.op == "class" and self.classes[v.a[0]].enum:
            ms = []
            for x in self.classes[v.a[0]].members.values():
                if x not in ms:
                    ms.append(x)
            return [(st, [("x", [const(x) for x in ms])])]
        if v.op == "iter":
            return self.iter_desc_iter(v, st, ctx, node)
        out = []
        for x, k in self.kinds(st, v):
            if k in ("s", "t"):
                ln = self.mk_len(v, x)
                if is_const(ln) and cval(ln) <= (16 if self.apart else UNROLL):
                    if k == "s":
                        out.append((x, [("x", [self.mk_at(v, const(j), x)
                                               for j in range(cval(ln))])]))
                    else:
                        out.append((x, [("x", [item(x, v, const(j))
                                               for j in range(cval(ln))])]))
                elif k == "s" and v.op == "cat" and self.split_cat and \
                        all(len(cval(q)) <= 16 if is_const(q) else
                            x.fact(q).ncomp() == 1 and x.fact(q).s is not None
                            for q in v.a[0]):
                    # piece after piece
                    out.append((x, [("x", [const(c) for c in cval(q)])
                                    if is_const(q) else
                                    ("x", [self.mk_at(q, const(j), x)
                                           for j in range(cval(
                                               self.mk_len(q, x)))])
                                    if is_const(self.mk_len(q, x)) and
                                    cval(self.mk_len(q, x)) <= 16 else
                                    ("s", q, self.mk_len(q, x),
                                     lambda s, i, v: self.mk_at(v, i, s), q)
                                    for q in v.a[0]]))
                elif k == "s" and v.op == "cat" and is_const(
                        v.a[0][0]) and len(cval(v.a[0][0])) <= 16:
                    # a known prefix is iterated character by character
                    for y, cs in self.iter_desc(cat(v.a[0][1:]), x, ctx,
                                                node):
                        out.append((y, [("x", [
                            const(q) for q in cval(v.a[0][0])])] + cs))
                elif k == "s":
                    out.append((x, [("s", v, ln,
                                     lambda s, i, v: self.mk_at(v, i, s),
                                     v)]))
                else:
                    out.append((x, [("s", v, ln,
                                     lambda s, i, v: item(s, v, i), v)]))
            elif k == "y":
                out.append((x, [("s", v, self.mk_len(v, x),
                                 lambda s, i, v: mk("byteat", v, i), v)]))
            elif k in ("none", "b", "i"):
                self.raise_(x, ctx, "TypeError", node, "not iterable")
            else:
                out += self.unknown_iter(v, x, ctx, node)
        return out

    def exact_chunks(self, its, v):
        if len(its) > (16 if self.apart else UNROLL) and v is not None and not all(
                is_const(x) or x.op in ("func", "class", "obj")
                for x in its):
            t = mk("tuple", tuple(its))
            return [("s", t, const(len(its)),
                     lambda s, i, v: item(s, v, i), t)]
        return [("x", list(its))]

    def seg_chunks(self, segs, st):
        if all(s[0] == "i" for s in segs):
            return self.exact_chunks([s[1] for s in segs], True)
        out = []
        for s in segs:
            n = exact_len(st, s[2]) if s[0] == "m" else None
            if s[0] == "i":
                out.append(("x", [s[1]]))
            elif n is not None and n <= (16 if self.apart else UNROLL):
                out.append(("x", [item(st, s[1], const(j))
                                  for j in range(n)]))
            else:
                out.append(("s", s[1], s[2],
                            lambda x, i, v: item(x, v, i), s[1]))
        return out

    def unknown_iter(self, v, st, ctx, node):
        s = self.unknown(st, "iteration over an unknown value", node, ctx)
        return [(st, [("s", s, mk("len", s),
                       lambda x, i, v: mk("item", v, i), s)])]

    def iter_desc_iter(self, v, st, ctx, node):
        kind = v.a[0]
        if kind in ("obj", "list"):
            return self.iter_desc(v.a[1], st, ctx, node)
        if kind == "enumerate":
            start = v.a[2]
            out = []
            for x, ch in self.iter_desc(v.a[1], st, ctx, node):
                nch = []
                pos = start
                for c in ch:
                    if c[0] == "x":
                        its = []
                        for e in c[1]:
                            its.append(tup([pos, e]))
                            pos = lin_add(pos, const(1))
                        nch.append(("x", its))
                    else:
                        nch.append((
                            "s", None, c[2],
                            lambda s, i, b, fn=c[3]: tup(
                                [lin_add(b.a[0], i), fn(s, i, b.a[1])]),
                            mk("bundle", pos, c[4])))
                        pos = lin_add(pos, c[2])
                out.append((x, nch))
            return out
        if kind == "reversed":
            out = []
            for x, ch in self.iter_desc(v.a[1], st, ctx, node):
                nch = []
                for c in reversed(ch):
                    if c[0] == "x":
                        nch.append(("x", list(reversed(c[1]))))
                    else:
                        nch.append((
                            "s", None, c[2],
                            lambda s, i, b, fn=c[3]: fn(
                                s, lin_add(lin_add(b.a[0], const(-1)), i,
                                           -1), b.a[1]),
                            mk("bundle", c[2], c[4])))
                out.append((x, nch))
            return out
        if kind == "range":
            lo, hi, stp = v.a[1:]
            if is_const(lo) and is_const(hi) and is_const(stp):
                r = list(range(cval(lo), cval(hi), cval(stp)))
                if len(r) <= 300:
                    return [(st, [("x", [const(k) for k in r])])]
            if is_const(stp) and cval(stp) == 1:
                n = lin_add(hi, lo, -1)
                out = []
                tr, fa = compare(st, "<=", const(0), n)
                for x in tr:
                    out.append((x, [("s", None, n,
                                     lambda s, i, b: lin_add(b.a[0], i),
                                     mk("bundle", lo, NONE))]))
                for x in fa:
                    out.append((x, []))
                return out
            if is_const(stp) and cval(stp) == -1:
                n = lin_add(lo, hi, -1)
                out = []
                tr, fa = compare(st, "<=", const(0), n)
                for x in tr:
                    out.append((x, [("s", None, n,
                                     lambda s, i, b: lin_add(b.a[0], i, -1),
                                     mk("bundle", lo, NONE))]))
                for x in fa:
                    out.append((x, []))
                return out
            return self.unknown_iter(v, st, ctx, node)
        if kind == "zip":
            out = []
            cur = [(st, [])]
            for a in v.a[1]:
                cur = [(y, cs + [ch]) for x, cs in cur
                       for y, ch in self.iter_desc(a, x, ctx, node)]
            for x, cs in cur:
                if all(all(c[0] == "x" for c in ch) for ch in cs):
                    ls = [[e for c in ch for e in c[1]] for ch in cs]
                    out.append((x, [("x", [tup(p) for p in zip(*ls)])]))
                elif all(len(ch) == 1 and ch[0][0] == "s" for ch in cs):
                    fns = [ch[0][3] for ch in cs]
                    n = cs[0][0][2]
                    if any(ch[0][2] is not n for ch in cs):
                        n = self.fresh(x, "zip:%s" % self.loopname(
                            node, ctx), D.NAT)
                        for ch in cs:
                            refine(x, lin_add(ch[0][2], n, -1),
                                   Fact(i=IntF(0, INF)))
                    out.append((x, [("s", None, n, lambda s, i, b, f=fns: tup(
                        [g(s, i, q) for g, q in zip(f, b.a)]),
                        mk("bundle", *[ch[0][4] for ch in cs]))]))
                else:
                    out += self.unknown_iter(v, x, ctx, node)
            return out
        if kind in ("items", "values", "keys"):
            o = v.a[1]
            h = st.heap.get(o.a[0]) if o.op == "obj" else None
            if h is not None and h.kind == "dict":
                if not h.open:
                    if kind == "items":
                        its = [tup([k, w]) for k, w in h.items]
                    elif kind == "keys":
                        its = [k for k, w in h.items]
                    else:
                        its = [w for k, w in h.items]
                    return [(st, self.exact_chunks(its, None))]
                if h.f.get("\0keys") is not None:
                    ks, vs = h.f["\0keys"], h.f["\0vals"]
                    fn = {"items": lambda s, i, b: tup([item(s, b.a[0], i),
                                                        item(s, b.a[1], i)]),
                          "keys": lambda s, i, b: item(s, b.a[0], i),
                          "values": lambda s, i, b: item(s, b.a[1], i)}[kind]
                    return [(st, [("s", None, mk("len", ks), fn,
                                   mk("bundle", ks, vs))])]
            return self.unknown_iter(v, st, ctx, node)
        if kind == "map":
            out = []
            for x, segs in self.map_segs(v, st, ctx, node):
                out.append((x, self.seg_chunks(segs, x)))
            return out
        if kind == "seq":
            s = v.a[1]
            return [(st, [("s", s, mk("len", s),
                           lambda x, i, v: item(x, v, i), s)])]
        return self.unknown_iter(v, st, ctx, node)

    def iterate(self, v, st, ctx, node, body, live):
        """Run body(st, elem, sink) -> flows for every element.
        Returns flows; exhaustion is ('end', st, None)."""
        if v.op == "gen":
            return self.iterate_gen(v, st, ctx, node, body, live)
        out = []
        name = self.loopname(node, ctx)
        for x, chunks in self.iter_desc(v, st, ctx, node):
            cur = [x]
            for ci, ch in enumerate(chunks):
                if ch[0] == "x":
                    for ei, el in enumerate(ch[1]):
                        if len(cur) > 8 and len(ch[1]) - ei > UNROLL \
                                and not self.apart:
                            # too many cases: the rest as one abstract loop
                            t = mk("tuple", tuple(ch[1][ei:]))
                            rest = ("s", t, const(len(ch[1]) - ei),
                                    lambda s, i, v: item(s, v, i), t)
                            nxt = []
                            for o in self.run_sym(name + ".r", rest, cur, ctx,
                                                  body, live):
                                if o[0] == "end":
                                    nxt.append(o[1])
                                else:
                                    out.append(o)
                            cur = self.merge(nxt) if len(nxt) > 1 else nxt
                            break
                        nxt = []
                        for y in cur:
                            for o in body(y, el, ctx.sink):
                                if o[0] in ("n", "c"):
                                    if live is not None:
                                        self.prune_env(o[1], ctx.fid, live)
                                    nxt.append(o[1])
                                else:
                                    out.append(o)
                        cur = self.merge(nxt) if len(nxt) > 1 else nxt
                        if len(cur) > self.MAX_STATES:
                            raise Budget("unrolled loop %s" % name)
                        if not cur:
                            break
                else:
                    nxt = []
                    ents = []
                    for y in cur:
                        ents.append(y)
                    if not ents:
                        break
                    nm = name if ci == 0 else "%s.%d" % (name, ci)
                    for o in self.run_sym(nm, ch, ents, ctx, body, live):
                        if o[0] == "end":
                            nxt.append(o[1])
                        else:
                            out.append(o)
                    cur = self.merge(nxt) if len(nxt) > 1 else nxt
                if not cur:
                    break
            out += [("end", y, None) for y in cur]
        return out

    def run_sym(self, name, ch, ents, ctx, body, live):
        K = sym("K:" + name)
        _, seq, ln, fn, base = ch

        # keep the iterated sequence in the state: its terms are renamed with
        # everything else
        holder = "\0it:" + name
        for y in ents:
            y.setvar(ctx.fid, holder, ln)
            for j, q in enumerate(leaves(base)):
                y.setvar(ctx.fid, "%sb%d" % (holder, j), q)

        def step(st, sink):
            e = st.frames[ctx.fid]
            n = e[holder]
            backs, exits = [], []
            ef = D.BOT
            a = st.copy()
            d = lin_add(n, K, -1)
            if is_const(d):
                ok = cval(d) >= 1
            else:
                ok = refine(a, d, Fact(i=IntF(1, INF)))
            if ok:
                el = fn(a, K, rebuild(base, e, holder + "b"))
                if el.op == "at" and a.fact(el).s is not None and \
                        not refine(a, el, Fact(s=D.mkstr(C.ANY, 1, 1))):
                    el = None
                for o in body(a, el, sink) if el is not None else ():
                    if o[0] in ("n", "c"):
                        ef = ef.join(o[1].fact(el) if el.op != "tuple"
                                     else Fact(t=D.TupF(tuple(
                                         o[1].fact(q) for q in el.a[0]))))
                        backs.append(o[1])
                    else:
                        exits.append(o)
            z = st.copy()
            if is_const(d):
                ok = cval(d) == 0
            else:
                ok = refine(z, d, D.fint(0, 0))
            if ok:
                exits.append(("end", z, None))
            return backs, exits, ef

        exits, ef = self.fix(name, ents, step, ctx, live, ctx.fid)
        out = []
        for k, z, v in exits:
            e = z.frames.get(ctx.fid, {})
            n = e.get(holder)
            b2 = None if n is None else rebuild(base, e, holder + "b")
            z.delvar(ctx.fid, holder)
            for j in range(len(leaves(base))):
                z.delvar(ctx.fid, "%sb%d" % (holder, j))
            if k == "end":
                if n is not None and K.a[0] in z_syms(z):
                    z = z.subst({K: n})
                if self.split_cat and b2 is not None and \
                        n is mk("len", b2):
                    z = z.subst({mk("slice", b2, const(0), n): b2})
                if b2 is not None and not self.refine_all(z, b2, ef):
                    continue
            out.append((k, z, v))
        return out

    def refine_all(self, z, base, ef):
        """Every element of base satisfies ef."""
        if base.op == "bundle":
            return True
        f = z.fact(base)
        if f.s is not None and f.ncomp() == 1:
            if ef.s is None:
                return refine(z, base, Fact(s=D.sconst("")))
            n = D.mkstr(f.s.cs & ef.s.cs, f.s.lo, f.s.hi, f.s.only, f.s.excl,
                        f.s.first, f.s.last, f.s.enc)
            return n is not None and refine(z, base, Fact(s=n))
        if f.y is not None:
            return True
        if ef.is_bot() or ef.x:
            return True
        if base.op in ("tuple", "const"):
            return True
        if ef.t is not None and f.t is None and base.op not in (
                "sym", "split"):
            return True
        E = mk("elem", base)
        g = z.fact(E).meet(ef)
        if g.is_bot():
            return True
        if g != z.fact(E):
            z.put_fact(E, g)
        return True

    def live_head(self, s, ctx):
        if ctx.func is None or isinstance(ctx.func.node, ast.Lambda):
            return None
        if not getattr(s, "body", None):
            return None
        return ctx.func.live.get(s.body[-1])

    def x_For(self, s, st, ctx):
        out = []
        live = self.live_head(s, ctx)
        for x, v in self.ev(s.iter, st, ctx):
            def body(y, el, sink):
                c2 = ctx.but(sink=sink) if sink is not ctx.sink else ctx
                res = []
                for z in self.assign(s.target, el, y, c2):
                    res += self.exec_block(s.body, z, c2)
                return res

            flows = self.iterate(v, x, ctx, s, body, live)
            ends = [o[1] for o in flows if o[0] == "end"]
            brk = [o[1] for o in flows if o[0] == "b"]
            out += [o for o in flows if o[0] not in ("end", "b")]
            if len(ends) > 1:
                ends = self.merge(ends)
            for y in ends:
                if s.orelse:
                    out += self.exec_block(s.orelse, y, ctx)
                else:
                    out.append(("n", y, None))
            out += [("n", y, None) for y in brk]
        return out

    def x_While(self, s, st, ctx):
        live = self.live_head(s, ctx)
        name = self.loopname(s, ctx)

        def step(x, sink):
            c2 = ctx.but(sink=sink)
            tr, fa = self.ev_test(s.test, x, c2)
            if len(tr) > 1:
                tr = self.merge(tr)
            backs = []
            exits = [("end", y, None) for y in (
                self.merge(fa) if len(fa) > 1 else fa)]
            for y in tr:
                for o in self.exec_block(s.body, y.copy(), c2):
                    if o[0] in ("n", "c"):
                        backs.append(o[1])
                    else:
                        exits.append(o)
            return backs, exits, D.BOT

        ents = st if isinstance(st, list) else [st]
        exits = []
        for _ in range(self.unroll_while):
            nxt = []
            for x in ents:
                b, e, _f = step(x, ctx.sink)
                nxt += b
                exits += e
            ents = nxt
            if not ents:
                break
        if ents:
            more, _ = self.fix(name, ents, step, ctx, live, ctx.fid)
            exits += more
        out = []
        ends = [o[1] for o in exits if o[0] == "end"]
        if len(ends) > 1:
            ends = self.merge(ends)
        for y in ends:
            if s.orelse:
                out += self.exec_block(s.orelse, y, ctx)
            else:
                out.append(("n", y, None))
        for o in exits:
            if o[0] == "b":
                out.append(("n", o[1], None))
            elif o[0] != "end":
                out.append(o)
        return out

    # ------------------------------------------------------------- generators
    def iterate_gen(self, v, st, ctx, node, body, live):
        fi = self.funcs[v.a[0]]
        gfid = ctx.top + 1
        st = st.copy()
        st.frames[gfid] = dict(v.a[1])
        self.analysed.add(fi.qualname)

        def handler(y, val, sink):
            c2 = ctx.but(sink=sink, top=gfid)
            if live is not None:
                self.prune_env(y, ctx.fid, live)
            saved = ctx.top
            ctx.top = gfid
            try:
                flows = body(y, val, sink)
            finally:
                ctx.top = saved
            res = []
            for k, z, w in flows:
                if k in ("n", "c"):
                    if live is not None:
                        self.prune_env(z, ctx.fid, live)
                    res.append(("n", z, None))
                elif isinstance(k, tuple):
                    res.append((k, z, w))
                else:
                    res.append((("g", gfid, k), z, w))
            return res

        gctx = ctx.but(fid=gfid, top=gfid, func=fi, module=fi.module,
                       yh=handler, cls=fi.cls, selft=None, base=False)
        out = []
        for k, z, w in self.exec_block(fi.node.body, st, gctx):
            z = z.copy()
            z.frames.pop(gfid, None)
            if k in ("n", "r"):
                out.append(("end", z, None))
            elif isinstance(k, tuple) and k[1] == gfid:
                out.append((k[2], z, w))
            else:
                out.append((k, z, w))
        return out

    def iter_segs(self, v, st, ctx, node):
        """Elements of an iterator as list segments."""
        if v.op == "iter":
            out = []
            for x, chunks in self.iter_desc(v, st, ctx, node):
                segs = []
                for ch in chunks:
                    if ch[0] == "x":
                        segs += [("i", e) for e in ch[1]]
                    elif ch[1] is not None:
                        segs.append(("m", ch[1], ch[2]))
                    else:
                        el = ch[3](x, IDX, ch[4])
                        segs.append(("m", mk("gmap", el), ch[2]))
                out.append((x, tuple(segs)))
            return out
        acc = "\0acc%d" % len([k for k in st.frames.get(ctx.fid, ())
                               if k.startswith("\0acc")])
        st = st.copy()
        o = self.new(st, ctx, node, HObj("list"), "g")
        st.setvar(ctx.fid, acc, o)

        def body(y, el, sink):
            y = y.copy()
            oid = y.frames[ctx.fid][acc].a[0]
            h = y.heap[oid]
            y.heap[oid] = h.with_segs(tuple(h.segs) + (("i", el),))
            return [("n", y, None)]

        out = []
        for k, z, w in self.iterate(v, st, ctx, node, body, None):
            if k == "end":
                oid = z.frames[ctx.fid][acc].a[0]
                segs = z.heap[oid].segs
                z.delvar(ctx.fid, acc)
                out.append((z, segs))
        return out

    # --------------------------------------------------------- comprehensions
    def e_ListComp(self, e, st, ctx):
        return self.comp(e, st, ctx, "list")

    def e_SetComp(self, e, st, ctx):
        return self.comp(e, st, ctx, "set")

    def e_GeneratorExp(self, e, st, ctx):
        return [(x, mk("iter", "obj", v)) for x, v in self.comp(
            e, st, ctx, "list")]

    def e_DictComp(self, e, st, ctx):
        out = []
        for x, v in self.comp(e, st, ctx, "dict"):
            x = x.copy()
            segs = x.heap[v.a[0]].segs
            if all(s[0] == "i" and tup_items(s[1]) is not None
                   for s in segs):
                items = {}
                for s in segs:
                    k, w = tup_items(s[1])
                    items[k] = w
                x.heap[v.a[0]] = HObj("dict", items=tuple(items.items()))
            else:
                x.heap[v.a[0]] = HObj("dict", open=True)
            out.append((x, v))
        return out

    def comp_names(self, e):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        return names

    def scope_in(self, st, ctx, names):
        env = st.frames.get(ctx.fid, {})
        saved = {}
        d = len([k for k in env if k.startswith("\0sv")])
        for n in names:
            if n in env:
                st.setvar(ctx.fid, "\0sv%d:%s" % (d, n), env[n])
                saved[n] = "\0sv%d:%s" % (d, n)
        return saved

    def scope_out(self, st, ctx, names, saved):
        env = dict(st.frames.get(ctx.fid, {}))
        for n in names:
            env.pop(n, None)
            if n in saved:
                env[n] = env.pop(saved[n])
        st.frames[ctx.fid] = env

    def comp(self, e, st, ctx, kind):
        st = st.copy()
        names = self.comp_names(e)
        saved = self.scope_in(st, ctx, names)
        acc = "\0comp%d:%d" % (e.lineno, e.col_offset)
        st.setvar(ctx.fid, acc, self.new(st, ctx, e, HObj(
            "list" if kind == "dict" else kind), "c"))

        def leaf(y, sink):
            c2 = ctx.but(sink=sink)
            out = []
            if kind == "dict":
                vals = [(z, tup(p)) for z, p in self.evs(
                    [e.key, e.value], y, c2)]
            else:
                vals = self.ev(e.elt, y, c2)
            for z, v in vals:
                z = z.copy()
                oid = z.frames[ctx.fid][acc].a[0]
                h = z.heap[oid]
                z.heap[oid] = h.with_segs(tuple(h.segs) + (("i", v),))
                out.append(("n", z, None))
            return out

        states = self.comp_gen(e.generators, 0, st, ctx, leaf)
        out = []
        for z in states:
            z = z.copy()
            v = z.frames[ctx.fid][acc]
            z.delvar(ctx.fid, acc)
            self.scope_out(z, ctx, names, saved)
            out.append((z, v))
        if len(out) > 1:
            ss, vs = self.merge([x for x, _ in out], [v for _, v in out])
            out = list(zip(ss, vs))
        return out

    def comp_gen(self, gens, i, st, ctx, leaf):
        g = gens[i]
        out = []
        for x, v in self.ev(g.iter, st, ctx):
            def body(y, el, sink):
                c2 = ctx.but(sink=sink)
                res = []
                cur = self.assign(g.target, el, y.copy(), c2)
                for cond in g.ifs:
                    nxt = []
                    for z in cur:
                        tr, fa = self.ev_test(cond, z, c2)
                        nxt += tr
                        res += [("n", w, None) for w in fa]
                    cur = nxt
                for z in cur:
                    if i + 1 < len(gens):
                        res += [("n", w, None) for w in self.comp_gen(
                            gens, i + 1, z, c2, leaf)]
                    else:
                        res += leaf(z, sink)
                return res

            node = g.iter
            for k, z, w in self.iterate(v, x, ctx, node, body, None):
                if k == "end":
                    out.append(z)
        return out

    # --------------------------------------------------------- any / all
    def any_all(self, e, want, st, ctx):
        """any (want=True) / all (want=False) over a comprehension
        expression with one generator -> [(st, TRUE|FALSE)] or None."""
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        st = st.copy()
        names = self.comp_names(e)
        saved = self.scope_in(st, ctx, names)
        hit, miss = [], []
        lazy = isinstance(e, ast.GeneratorExp)

        def test(y, el, c2):
            """-> (states deciding, states going on)"""
            cur = self.assign(g.target, el, y, c2)
            go = []
            for cond in g.ifs:
                nxt = []
                for z in cur:
                    tr, fa = self.ev_test(cond, z, c2)
                    nxt += tr
                    go += fa
                cur = nxt
            dec = []
            for z in cur:
                tr, fa = self.ev_test(e.elt, z, c2)
                if not want:
                    tr, fa = fa, tr
                dec += tr
                go += fa
            return dec, go

        res = []
        for x, v in self.ev(g.iter, st, ctx):
            if v.op == "gen":
                descs = [(y, self.seg_chunks(sg, y))
                         for y, sg in self.iter_segs(v, x, ctx, e)]
            else:
                descs = self.iter_desc(v, x, ctx, e)
            for y, chunks in descs:
                cur = [y]
                for ch in chunks:
                    nxt = []
                    for z in cur:
                        if ch[0] == "x":
                            c = [z]
                            for el in ch[1]:
                                n2 = []
                                for w in c:
                                    d, go = test(w.copy(), el, ctx)
                                    hit += d
                                    n2 += go
                                c = self.merge(n2) if len(n2) > 1 else n2
                            nxt += c
                            continue
                        d, go = self.any_sym(z, ch, test, ctx, e)
                        hit += d
                        nxt += go
                    cur = nxt
                miss += cur
        for z in hit:
            z = z.copy()
            self.scope_out(z, ctx, names, saved)
            res.append((z, const(want)))
        for z in miss:
            z = z.copy()
            self.scope_out(z, ctx, names, saved)
            res.append((z, const(not want)))
        if len(res) > 1:
            ss, vs = self.merge([x for x, _ in res], [v for _, v in res])
            res = list(zip(ss, vs))
        return res

    def any_sym(self, st, ch, test, ctx, e):
        _, seq, ln, fn, base = ch
        hits, out = [], []
        w = st.copy()
        W = self.fresh(w, "W:%s" % self.loopname(e, ctx), D.NAT)
        d = lin_add(ln, W, -1)
        fa = []
        el = None
        if refine(w, d, Fact(i=IntF(1, INF))):
            el = fn(w, W, base)
            heap0 = dict(w.heap)
            hits, fa = test(w.copy(), el, ctx)
            if any(s.heap != heap0 for s in hits + fa):
                self.gc_all(hits + fa)
        z = st.copy()
        ef = D.BOT
        for s in fa:
            ef = ef.join(s.fact(el))
        unk = frozenset()
        for s in fa:
            unk |= s.unk
        if not fa:
            if is_const(ln):
                ok = cval(ln) == 0
            else:
                ok = refine(z, ln, D.fint(0, 0))
            return hits, [z] if ok else []
        z.unk = z.unk | unk
        ok = True
        if base is not None:
            ok = self.refine_all(z, base, ef)
            # facts on terms of the generic element
            if ok:
                W_ = W.a[0]
                for t in set().union(*[set(s.facts) for s in fa]):
                    if W_ in t.syms and t.op == "int":
                        f = D.BOT
                        for s in fa:
                            f = f.join(s.fact(t))
                        z.facts[t_.subst(t, {W: IDX})] = f
                        z.cache = {}
                    elif W_ in t.syms and t.op == "item" and base.op in (
                            "sym", "split"):
                        pass
        return hits, [z] if ok else []

    def gc_all(self, sts):
        for s in sts:
            self.gc(s)

    def allp_truth(self, v, st, ctx, node):
        a, b = st.copy(), st.copy()
        return [a], [b]


class Budget(Exception):
    pass


class Restart(Exception):
    def __init__(self, cands):
        self.cands = cands




def has_old(t):
    for s in t.syms:
        if s[-1] == "^":
            return True
    return False


def z_syms(st):
    s = st.live_syms()
    for t in st.facts:
        s |= t.syms
    return s
