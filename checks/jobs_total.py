"""C02: validity queries are total and agree with the parser."""

from jobs_obj import *
from engine.run import Outcome

PARSE = "urlstd.parse.BasicURLParser.parse"


def error_classes(sc):
    root = glob(sc.it, "URLParseError")
    return [ci for q, ci in sorted(sc.it.classes.items())
            if sc.it.exc_isa(ci, root) == "yes"]


def any_record(sc, st, oid):
    """A record about which nothing is known."""
    f = {k: newsym("in:%s.%s" % (oid, k), D.UNKNOWN) for k in FIELDS}
    f["scheme"] = newsym("in:%s.scheme" % oid, any_scheme())
    f["username"] = newsym("in:%s.username" % oid, D.STR)
    f["password"] = newsym("in:%s.password" % oid, D.STR)
    f["path"] = newsym("in:%s.path" % oid, D.STR)
    for k in ("query", "fragment"):
        f[k] = newsym("in:%s.%s" % (oid, k), D.STR.join(D.NONE))
    h = sc.tmpl
    for k, t in f.items():
        h = h.setf(k, t)
    st.heap[oid] = h


def parse_stub(sc):
    """The parser as an unknown predicate of (string, base): whichever way
    it decides, it decides the same way every time."""
    if PARSE not in sc.it.funcs:
        raise AnalysisBroken("BasicURLParser.parse is gone")
    r = sc.rec_kind("tmpl", "opaque")
    sc.tmpl = sc.st.heap.pop(r.a[0])
    sc.st.frames["drv"].pop("tmpl", None)
    errs = error_classes(sc)
    sc.asked = []

    def stub(env, st, ctx, node):
        s = env.get("urlstring")
        b = env.get("base", NONE)
        p = mk("pred", "parses", s, b)
        sc.asked.append(p)
        f = st.fact(p)
        out = []
        if f != D.FALSE:
            x = st.copy()
            x.facts[p] = D.TRUE
            x.cache = {}
            oid = "B:parsed%d" % p.id
            if oid not in x.heap:
                any_record(sc, x, oid)
            out.append((x, obj(oid)))
        if f != D.TRUE:
            x = st.copy()
            x.facts[p] = D.FALSE
            x.cache = {}
            for ci in errs:
                sc.it.raise_(x.copy(), ctx, ci, node, explicit=True)
        return out

    sc.it.stubs[PARSE] = stub


def truth_of(o):
    if o.kind != "return":
        return None
    f = o.st.fact(o.v)
    return True if f == D.TRUE else False if f == D.FALSE else None


def j_agree(rep, what, base, validity):
    """can_parse / is_valid against parse_url with the same arguments."""
    sc = Scene(fine=True)
    s = sc.root("s", sym("s", ANYSTR))
    b, bref = None, None
    if base == "str":
        b = bref = sc.root("b", sym("b", ANYSTR))
    elif base == "url":
        b = sc.url("b", "special")
        bref = sc.st.heap[b.a[0]].f[sc.url_fields["rec"]]
    elif base == "record":
        b = bref = sc.rec_kind("b", "special")
    parse_stub(sc)
    cls, name = what.split(".")
    fn = sc.method(cls, name)
    kw = {}
    if validity:
        kw["validity"] = sc.root("val", sc.make("ValidityState"))
    args = [s] + ([b] if b is not None else [])
    outs, ev = sc.call(fn, args, kw)
    R = "the answer agrees with the parser"
    n = 0
    for o in outs:
        if o.kind != "return":
            rep.check(False, "never raises", "%s <- %s" % (
                what, o.exc.name), o.exc.msg, o.st)
            continue
        v = truth_of(o)
        if v is None and o.st.fact(o.v).b is False:
            rep.check(False, "returns a truth value", what, str(o.v)[:80],
                      o.st)
            continue
        n += 1
        ref, ev = call(sc.it, glob(sc.it, "parse_url"), [s] + (
            [bref] if bref is not None else []), {}, o.st.copy())
        for q in ref:
            good = q.kind == "return"
            if what == "URL.can_parse":
                rep.check(None if v is None else v == good or settle(
                    sc, s, bref, o, v), R, what,
                    "%s although parse_url(url, base) %s" % (
                        v, "succeeds" if good else "raises"), q.st)
            elif not good:
                rep.check(v is False or settle(sc, s, bref, o, v), R, what,
                          "%s although parse_url(url, base) raises" % v,
                          q.st)
    rep.check(n > 0, R, what, "never returns")


def settle(sc, s, b, o, v):
    """The real parser on the path of an answer given without asking it."""
    dep = {x for t in o.st.facts if t.op != "pred" or t.a[0] != "parses"
           for x in t.syms}
    if not ("in:s" in dep or "in:b" in dep):
        return False
    stubs, sc.it.stubs = sc.it.stubs, {}
    try:
        ref, ev = call(sc.it, glob(sc.it, "parse_url"), [s] + (
            [b] if b is not None else []), {}, o.st.copy())
    finally:
        sc.it.stubs = stubs
    ks = {q.kind == "return" for q in ref}
    if ks == {v}:
        return True
    return False if ks == {not v} else None


def j_total(rep, cls, name, validity, fine):
    sc = Scene(fine=fine)
    s = sc.root("s", sym("s", ANYSTR))
    kw = {}
    if validity:
        kw["validity"] = sc.root("val", sc.make("ValidityState"))
    outs, ev = sc.call(sc.method(cls, name), [s], kw)
    rep.count("abstract outcomes", len(outs))
    ent = "%s.%s" % (cls, name)
    for o in outs:
        if o.kind != "return":
            rep.check(False, "never raises", "%s <- %s in %s" % (
                ent, o.exc.name, site_func(o.exc)), o.exc.msg, o.st)
            continue
        f = o.st.fact(o.v)
        rep.check(f.b is True and f.ncomp() == 1 or f in (D.TRUE, D.FALSE)
                  or bool(f.b) and f.ncomp() == 1, "returns a truth value",
                  ent, "%s" % f, o.st)


def validators():
    sc = Scene()
    out = []
    for c in ("HostValidator", "URLValidator"):
        ci = sc.it.classes.get("urlstd.parse." + c)
        if ci is None:
            raise AnalysisBroken("%s is gone" % c)
        out += [(c, n) for n in sorted(ci.attrs)
                if n.startswith("is_valid") and (c, n) != (
                    "URLValidator", "is_valid")]
    return out
