"""C08: the query of a URL and its search parameters stay in step."""

from jobs_obj import *
from engine.run import Outcome
from engine.state import HObj

QSL = "urlstd.parse.parse_qsl"


def qsl_stub(sc):
    """parse_qsl as an uninterpreted function of its argument (its own
    behaviour is the subject of C21)."""
    it = sc.it

    def stub(env, st, ctx, node):
        t = next(iter(env.values()))
        st = st.copy()
        f = st.fact(t)
        if f.ncomp() == 1 and (f.y or f.s) and (f.y or f.s).hi == 0:
            segs = ()
        else:
            P = mk("qsl", t)
            st.facts[mk("elem", P)] = PAIR
            segs = (("m", P, mk("len", P)),)
        return [(st, it.new(st, ctx, node, HObj("list", segs=segs)))]

    if QSL in it.funcs:
        it.stubs[QSL] = stub


def list_segs(sc, st, par):
    h = st.heap.get(par.a[0])
    t = h.f.get(sc.url_fields["list"]) if h is not None else None
    if t is None or t.op != "obj" or t.a[0] not in st.heap:
        return None
    return st.heap[t.a[0]].segs


def no_items(st, segs):
    return st.int_iv(list_len(HObj("list", segs=tuple(segs))))[1] == 0


def fresh_lists(sc, st, rec):
    """Parameter lists a new URLSearchParams(record) gets: [(st, segs)]."""
    ctx = ctx0(sc.it)
    st = st.copy()
    out = []
    for x, v in sc.it.call(glob(sc.it, "URLSearchParams"), [rec], {}, st,
                           ctx, NODE):
        out.append((x, list_segs(sc, x, v)))
    return out, ctx.sink.raises


def list_rule(rep, sc, o, rec, par, ent, R):
    """The list is what parsing the record's query gives."""
    new, bad = fresh_lists(sc, o.st, rec)
    for x, want in new:
        got = list_segs(sc, x, par)
        q = x.heap[rec.a[0]].f["query"]
        if want is None or got is None:
            rep.check(None, R, ent, "no list", x)
            continue
        if tuple(got) == tuple(want) or no_items(x, got) and no_items(
                x, want):
            rep.check(True, R, ent, str(got)[:120], x)
            continue
        opq = [s for s in tuple(got) + tuple(want) if s[0] != "m" or
               s[1].op not in ("qsl", "sym")]
        rep.check(None if opq else False, R, ent,
                  "parameters are %s, the query %s has %s" % (
                      str(got)[:120], str(q)[:80], str(want)[:120]), x)


def query_rule(rep, sc, o, rec, par, ent, R):
    """The record's query is the serialised list, None when that is empty."""
    ctx = ctx0(sc.it)
    st = o.st.copy()
    for x, v in sc.it.callm(par, "__str__", [], {}, st, ctx, NODE):
        q = x.heap[rec.a[0]].f["query"]
        fv, fq = x.fact(v), x.fact(q)
        empty = fv.s is not None and fv.s.hi == 0
        if q is v and fv.s is not None and fv.s.lo >= 1:
            rep.check(True, R, ent, str(q)[:120], x)
        elif empty:
            rep.check(isnone(fq), R, ent,
                      "the query is %s for no parameters" % str(fq)[:80], x)
        elif isnone(fq):
            rep.check(False, R, ent, "no query for %s" % str(v)[:100], x)
        elif q.syms == v.syms and q is not v:
            rep.check(None, R, ent, "cannot compare %s and %s" % (
                str(q)[:100], str(v)[:100]), x)
        elif q is v:
            rep.check(None, R, ent, "may be empty", x)
        else:
            rep.check(False, R, ent, "the query %s is not %s" % (
                str(q)[:140], str(v)[:140]), x)
    for x, e in ctx.sink.raises:
        rep.check(None, R, ent, "serialising raises %s" % e.name, x)


def url_parts(sc, o, name="u"):
    h = o.st.heap["B:" + name] if isinstance(name, str) else \
        o.st.heap[name.a[0]]
    return h.f[sc.url_fields["rec"]], h.f[sc.url_fields["params"]]


A1 = "changes of the query show in the parameters"
A2 = "changes of the parameters show in the query"
A3 = "the parameters stay linked to the URL's record"


def j_sync_set(rep, kind, attr, pre=None):
    sc = Scene(fine="coarse")
    qsl_stub(sc)
    u = sc.u = sc.url("u", kind)
    rec0, par0 = url_parts(sc, Outcome("return", sc.st))
    q0 = sc.st.heap[rec0.a[0]].f["query"]
    l0 = list_segs(sc, sc.st, par0)
    v = sym("v", ANYSTR) if pre is None else cat(
        [const(pre), sym("v", CLEAN)])
    outs, ev = sc.set(u, attr, v)
    rep.count("abstract outcomes", len(outs))
    seen = set()
    for o in outs:
        ent = "URL.%s = %s" % (attr, "v" if o.kind == "return" else
                               "rejected")
        rec, par = url_parts(sc, o)
        if rec.op != "obj" or par.op != "obj":
            rep.check(None, A1, ent, "no record", o.st)
            continue
        if rec is rec0 and o.st.heap[rec.a[0]].f["query"] is q0 and \
                list_segs(sc, o.st, par) == l0 and par is par0:
            rep.check(True, A1, ent, "untouched", o.st)
        else:
            list_rule(rep, sc, o, rec, par, ent, A1)
        rep.check(par is par0, "the parameters handed out stay the URL's own",
                  "URL.%s setter" % attr, "another parameter object", o.st)
        back = [t for k, t in sorted(o.st.heap[par.a[0]].f.items())
                if k != sc.url_fields["list"]]
        sig = (rec, par, tuple(back))
        if sig in seen:
            continue
        seen.add(sig)
        link(rep, sc, o.st, rec, par, ent)


def link(rep, sc, st, rec, par, ent):
    st = st.copy()
    st.setvar("drv", "rec", rec)
    st.setvar("drv", "par", par)
    ctx = ctx0(sc.it)
    for x, v in sc.it.callm(par, "append", [const("n"), const("v")], {},
                            st.copy(), ctx, NODE):
        query_rule(rep, sc, Outcome("return", x), rec, par, ent, A3)


def mutators(sc):
    """Public methods of the parameter list, with their arguments."""
    ci = sc.it.classes["urlstd.parse.URLSearchParams"]
    out = []
    for n, t in sorted(ci.attrs.items()):
        if n[0] == "_" or n == "attach" or t.op != "func":
            continue
        fi = sc.it.funcs[t.a[0]]
        if fi.kind not in ("", "method", "function", "plain", None):
            pass
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args][1:]
        need = [p for p in pos if p not in fi.defaults]
        out.append((n, len(need)))
        if len(pos) > len(need):
            out.append((n, len(pos)))
    return out


def j_sync_mut(rep, kind, part):
    sc0 = Scene(fine=True)
    ms = mutators(sc0)
    if not ms:
        raise AnalysisBroken("URLSearchParams has no methods")
    for n, k in ms[part::3]:
        sc = Scene(fine=True)
        u = sc.url("u", kind)
        rec0, par0 = url_parts(sc, Outcome("return", sc.st))
        q0 = sc.st.heap[rec0.a[0]].f["query"]
        l0 = list_segs(sc, sc.st, par0)
        outs, ev = sc.callm(par0, n, [sym("a%d" % j, ANYSTR)
                                      for j in range(k)])
        rep.count("abstract outcomes", len(outs))
        for o in outs:
            ent = "URLSearchParams.%s" % n
            rec, par = url_parts(sc, o)
            if rec is not rec0 or par is not par0:
                rep.check(False, A3, ent, "replaces the record or the list",
                          o.st)
                continue
            if list_segs(sc, o.st, par) == l0:
                rep.check(o.st.heap[rec.a[0]].f["query"] is q0 or None, A2,
                          ent, "list untouched", o.st)
                if o.st.heap[rec.a[0]].f["query"] is q0:
                    continue
            if o.kind == "raise":
                rep.check(None, A2, ent, "raises %s midway" % o.exc.name,
                          o.st)
                continue
            query_rule(rep, sc, o, rec, par, ent, A2)


def j_sync_new(rep, part):
    """URL(s): a fresh URL and its parameters; search_params is the list."""
    sc = Scene(fine="coarse")
    qsl_stub(sc)
    sc.url("u", "opaque")          # finds the field names
    if part == "get":
        for o in sc.get(obj("B:u"), "search_params")[0]:
            rep.check(o.kind == "return" and o.v is url_parts(sc, o)[1] or
                      (None if o.kind == "return" and o.v.op != "obj"
                       else False), A3, "URL.search_params",
                      "is %s" % (o.v and str(o.v)[:60]), o.st)
        return
    pre = {"opaque": "x:y", "http": "http:", "path": "x:/"}[part]
    s = cat([const(pre), sym("s", CLEAN)])
    outs, ev = sc.call(glob(sc.it, "URL"), [s])
    rep.count("abstract outcomes", len(outs))
    seen = set()
    for o in outs:
        if o.kind != "return" or o.v.op != "obj":
            continue
        rec, par = url_parts(sc, o, o.v)
        o.st.setvar("drv", "url", o.v)
        list_rule(rep, sc, o, rec, par, "URL()", A1)
        g = o.st.heap[par.a[0]]
        sig = (rec, par, tuple(g.f[k] for k in sorted(g.f)
                               if k != sc.url_fields["list"]))
        if sig not in seen:
            seen.add(sig)
            link(rep, sc, o.st, rec, par, "URL()")


def j_sync_attach(rep, kind, how):
    """attach() moves the link; a copy has none."""
    sc = Scene(fine=True)
    qsl_stub(sc)
    u = sc.url("u", kind)
    st = sc.st
    r2 = sc.rec_kind("r2", "special")
    rec0, par0 = url_parts(sc, Outcome("return", sc.st))
    if how == "attach":
        ent = "URLSearchParams.attach"
        outs, ev = sc.callm(par0, "attach", [r2])
        for o in outs:
            if o.kind != "return":
                rep.check(None, A1, ent, "raises %s" % o.exc.name, o.st)
                continue
            list_rule(rep, sc, o, r2, par0, ent, A1)
            link(rep, sc, o.st, r2, par0, ent)
        return
    ent = "URLSearchParams(params)"
    outs, ev = sc.call(glob(sc.it, "URLSearchParams"), [par0])
    for o in outs:
        if o.kind != "return" or o.v.op != "obj":
            rep.check(None, A3, ent, "raises", o.st)
            continue
        st = o.st.copy()
        st.frames["drv"]["copy"] = o.v
        ctx = ctx0(sc.it)
        for x, v in sc.it.callm(o.v, "append", [const("n"), const("v")], {},
                                st, ctx, NODE):
            same = [k for k in ("B:u.rec", "B:u.params", "B:u.list")
                    if x.heap.get(k) != sc.st.heap.get(k)]
            rep.check(not same, "a copy of the parameters is independent",
                      ent, "append to the copy changes %s" % same, x)
