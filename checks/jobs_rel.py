"""C20: what a relative reference takes over from its base."""

from jobs_obj import *
import jobs_total as T

AUTH = ("username", "password", "host", "port")
# characters only the components of the base hold, one per component
MARK = {"username": C.of("\ue001"), "password": C.of("\ue002"),
        "host": C.of("\ue003"), "path": C.of("\ue004"),
        "query": C.of("\ue005"), "fragment": C.of("\ue006")}
MARKS = C.CharSet(((0xE001, 0xE006),))
REST = NOTAB - MARKS
END = REST - C0SP


def text(cs, lo=0, first=None):
    kw = {} if first is None else {"first": first - MARKS}
    return Fact(s=D.mkstr(cs, lo, D.INF, last=END, **kw))


SEP = C.of("/?#\\")
FORMS = {
    # name: (prefix, rest, what it takes over, opaque base allowed)
    "empty": ("", None, "path query"),
    "fragment": ("#", text(REST), "path query"),
    "query": ("?", text(REST), "path"),
    "path": ("/", text(REST, 1, REST - C.of("/\\")), ""),
    "slash": ("/", None, ""),
    "relative": ("", text(REST, 1, END - SEP - ALPHA), "some"),
    "word": ("", text(REST - C.of(":"), 1, ALPHA), "some"),
    "authority": ("//", text(REST), "none"),
    "simple": ("", Fact(s=D.mkstr(LOWER, 1, D.INF)), "exact"),
    "absolute": ("gopher:", text(REST), "nothing"),
    "samescheme": ("http:", text(REST, 1, END - C.of("/\\?#")), "some"),
    "backslash": ("\\", text(REST, 1, REST - C.of("/\\")), ""),
    "backslashes": ("\\/", text(REST), "none"),
}


# unusual components of the base: a test for truth would confuse them
VARIANTS = {
    "nouser": dict(username=const("")),
    "nopass": dict(password=const("")),
    "emptyquery": dict(query=const("")),
    "noquery": dict(query=NONE),
    "port0": dict(port=const(0)),
    "noport": dict(port=NONE),
    "v4zero": dict(host=const(0)),
}


def marked_base(sc, kind, variant=None):
    m = {k: Fact(s=D.mkstr(cs, 1, D.INF)) for k, cs in MARK.items()}
    over = dict(query=m["query"], fragment=m["fragment"])
    if kind in ("special", "list"):
        over.update(username=m["username"], password=m["password"],
                    host=m["host"], port=D.fint(0, 65535))
    elif kind == "file":
        over.update(host=m["host"])
    if kind == "opaque":
        over.update(path=m["path"])
    else:
        over.update(path=("list", m["path"], 1))
    if kind == "special":
        over["scheme"] = const("http")
    over.update(VARIANTS.get(variant, {}))
    return sc.rec_kind("base", kind, **over)


def marks_in(o, h, f):
    """May the field hold text of the base?  -> components"""
    t = h.f[f]
    if t.op == "obj":
        g = o.st.heap.get(t.a[0])
        if g is None or g.kind != "list":
            return None
        ts = []
        for s in g.segs:
            if s[0] == "i":
                ts.append(s[1])
            else:
                e = o.st.fact(mk("elem", s[1]))
                if e.x or e.ncomp() == 0 and len(g.segs) > 1:
                    return None
                ts.append(e)
    else:
        ts = [t]
    out = set()
    for t in ts:
        k = t if isinstance(t, Fact) else o.st.fact(t)
        if k.x:
            return None
        if k.s is None:
            continue
        for c, cs in MARK.items():
            if k.s.cs & cs:
                out.add(c)
    return out


def same_field(o, sc, h, f):
    """True/False/None: the field is that of the base."""
    b0 = sc.h0["B:base"].f[f]
    t = h.f[f]
    if t is b0:
        return True
    if t.op == "obj" and b0.op == "obj":
        g, g0 = o.st.heap.get(t.a[0]), sc.h0.get(b0.a[0])
        if g is not None and g.segs == g0.segs:
            return True
        if g is not None and g.kind == "list" and (not any(
                s[0] == "m" for s in g.segs) or longer(g0.segs, g.segs)):
            return False
        m = marks_in(o, h, f)
        return False if m is not None and f not in m else None
    a, b = o.st.fact(t), o.st.fact(b0)
    if a.meet(b).ncomp() == 0:
        return False
    if b0.op == "const" and a == b:
        return True
    if f in MARK and a.s is not None and not a.x:
        m = marks_in(o, h, f)
        if m is not None and f not in m:
            return False
    return None


def longer(a, b):
    """b is provably a with something added or cut off."""
    if len(a) != 1 or not b or b[0][0] != "m" or b[0][1] is not a[0][1]:
        return False
    if b[0] == a[0]:
        return any(s[0] == "i" for s in b[1:])
    from engine.terms import lin_parts
    k, p = lin_parts(b[0][2])
    k0, p0 = lin_parts(a[0][2])
    return len(b) == 1 and p == p0 and k != k0


def j_relative(rep, kind, form, variant=None):
    pre, rest, take = FORMS[form]
    sc = Scene(fine=form == "empty")
    b = marked_base(sc, kind, variant)
    sc.h0 = {o: h for o, h in sc.st.heap.items() if o[:2] == "B:"}
    s = const(pre) if rest is None else (cat([const(pre), sym("r", rest)])
                                         if pre else sym("r", rest))
    outs, ev = sc.call(glob(sc.it, "parse_url"), [s, b])
    rep.count("abstract outcomes", len(outs))
    ent = "parse_url(%s, base=%s)" % (form, kind)
    if variant:
        ent = "parse_url(%s, base=%s %s)" % (form, kind, variant)
    if kind == "opaque" and form not in ("fragment", "absolute"):
        for o in outs:
            rep.check(o.kind != "return", "only fragments resolve against "
                      "an opaque path", ent, "", o.st)
        rep.check(bool(outs), "only fragments resolve against an opaque "
                  "path", ent, "no outcome")
        return
    n = 0
    for o in outs:
        if o.kind != "return":
            if take in ("none", "nothing"):
                continue
            rep.check(False, "a reference without authority resolves", ent,
                      "%s in %s" % (o.exc.name, site_func(o.exc)), o.st)
            continue
        n += 1
        h = result_rec(o)
        if h is None:
            rep.check(None, "result is a record", ent, "", o.st)
            continue
        if take == "nothing":
            keep, drop = (), ("username", "password", "host", "path",
                              "query", "fragment")
        elif take == "none":
            keep = ("scheme",)
            drop = ("username", "password", "host", "path", "query",
                    "fragment")
        else:
            keep = ("scheme",) + AUTH
            drop = {"path query": (), "path": ("query",)}.get(
                take, ("query", "path") if take == "" else ("query",))
            drop += ("fragment",)
        if kind == "opaque" and form == "fragment":
            keep += ("path", "query")
        elif take.startswith("path"):
            keep += tuple(take.split())
        for f in keep:
            rep.check(same_field(o, sc, h, f), "taken over from the base: "
                      + f, ent, str(h.f[f])[:120], o.st)
        for f in drop:
            m = marks_in(o, h, f)
            rep.check(None if m is None else not m, "not taken from the "
                      "base: " + f, ent, "%s may hold %s of the base" % (
                          str(h.f[f])[:80], sorted(m or ())), o.st)
        if take == "exact":
            simple_path(rep, sc, o, h, ent)
        if form == "empty":
            rep.check(is_none(o, h.f["fragment"]), "no fragment in, none "
                      "out", ent, str(h.f["fragment"])[:80], o.st)
        for f, c in (("query", "query"), ("fragment", "fragment")):
            if form == f:
                k = o.st.fact(h.f[f])
                rep.check(None if k.x else not k.none, "the %s given is "
                          "there" % f, ent, str(h.f[f])[:80], o.st)
    rep.check(n > 0, "the reference resolves", ent, "never")


def is_none(o, t):
    k = o.st.fact(t)
    return True if k == D.NONE else None if k.x else bool(
        k.none and k.ncomp() > 1) and None


def simple_path(rep, sc, o, h, ent):
    """r (plain letters) against a path: all but the last segment, then r."""
    R = "the path is that of the base without its last segment, and r"
    g = o.st.heap.get(h.f["path"].a[0]) if h.f["path"].op == "obj" else None
    if g is None or g.kind != "list":
        rep.check(None, R, ent, str(h.f["path"])[:80], o.st)
        return
    g0 = sc.h0[sc.h0["B:base"].f["path"].a[0]]
    P = g0.segs[0][1]
    segs = list(g.segs)
    if not segs or segs[-1][0] != "i":
        rep.check(None, R, ent, str(segs)[:160], o.st)
        return
    last = o.st.fact(segs[-1][1])
    if last.s is not None and not last.x and not (
            not last.s.cs & MARKS):
        rep.check(False, R, ent, str(segs)[:160], o.st)
        return
    from engine.terms import lin_add
    want = lin_add(mk("len", P), const(-1))
    n = None
    if len(segs) == 1:
        n = const(0)
    elif len(segs) == 2 and segs[0][0] == "m" and segs[0][1] is P:
        n = segs[0][2]
    if n is None:
        rep.check(None, R, ent, str(segs)[:160], o.st)
        return
    if n is want or n == want:
        ok = True
    else:
        a, b = o.st.fact(n), o.st.fact(want)
        ok = True if a == b and a.i is not None and a.i.lo == a.i.hi else \
            False if n is mk("len", P) or a.meet(b).ncomp() == 0 or \
            len(segs) == 1 else None
    r = [x for x in segs[-1][1].syms if x == "in:r"]
    rep.check(ok and bool(r) if ok else ok, R, ent, "%s" % (
        str(segs)[:200],), o.st)


def j_drive(rep, form):
    """file: references keep the drive letter of the base."""
    sc = Scene()
    lst = sc.lst("base.path", Fact(s=D.mkstr(MARK["path"], 1, D.INF)), 1)
    h = sc.st.heap[lst.a[0]]
    sc.st.heap[lst.a[0]] = h.with_segs((("i", const("C:")),) + h.segs)
    b = sc.rec_kind("base", "file", path=lst, host=const(""))
    R = "the drive letter of the base stays"
    pre = {"path": "/", "relative": "", "up": "../"}[form]
    s = cat([const(pre), sym("r", Fact(s=D.mkstr(LOWER, 3, D.INF)))])
    outs, ev = sc.call(glob(sc.it, "parse_url"), [s, b])
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        h = result_rec(o)
        g = o.st.heap.get(h.f["path"].a[0])
        s0 = g.segs[0] if g.segs else None
        ok = None
        if s0 is None:
            ok = False
        elif s0[0] == "i":
            f = o.st.fact(s0[1])
            ok = True if s0[1] is const("C:") else False if \
                f.meet(o.st.fact(const("C:"))).ncomp() == 0 else None
        rep.check(ok, R, "parse_url(%s)" % form, str(g.segs)[:160], o.st)
    rep.check(n > 0, R, form, "never resolves")


def j_base_arg(rep, how):
    """URL(s, base) and parse_url(s, base string) parse the base first."""
    sc = Scene()
    s = sc.root("s", sym("s", ANYSTR))
    u = sc.url("b", "special")
    T.parse_stub(sc)
    R = "the string is parsed against the base given"
    if how in ("url", "urlstr", "urlnone"):
        b = u if how == "url" else sc.root("b2", sym("b2", ANYSTR))
        args = [s] + ([b] if how != "urlnone" else [])
        outs, ev = sc.call(glob(sc.it, "URL"), args)
        ent = "URL(s, base)"
    else:
        b = sc.root("b", sym("b", ANYSTR))
        outs, ev = sc.call(glob(sc.it, "parse_url"), [s, b])
        ent = "parse_url(s, base)"
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        r = o.v
        if how != "str":
            h = o.st.heap[o.v.a[0]]
            recs = [t for t in h.f.values() if t.op == "obj" and getattr(
                o.st.heap[t.a[0]].cls, "name", None) == "URLRecord"]
            r = recs[0] if len(recs) == 1 else None
        if how == "url":
            want = mk("pred", "parses", s, sc.st.heap["B:b"].f[
                sc.url_fields["rec"]])
        elif how == "urlnone":
            want = mk("pred", "parses", s, NONE)
        else:
            p = mk("pred", "parses", b, NONE)
            want = mk("pred", "parses", s, obj("B:parsed%d" % p.id))
        rep.check(r is obj("B:parsed%d" % want.id), R, "%s %s" % (ent, how),
                  str(r)[:120], o.st)
    rep.check(n > 0, R, how, "never returns")
