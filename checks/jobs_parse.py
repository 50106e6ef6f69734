"""Jobs over whole parses and over setters."""

from scen import *
from engine.domain import INF
from engine.loops import list_len
from engine.terms import cat, cat_pieces, cval, is_const, EnumVal

SETTERS = ("hash", "host", "hostname", "href", "password", "pathname", "port",
           "protocol", "search", "username")

NOTAB = C.ANY - C.of("\t\n\r")
CLEAN = Fact(s=D.mkstr(NOTAB, last=NOTAB - C.CharSet(((0, 0x20),))))


def site_func(e):
    s = str(e.site)
    return s.rsplit(":", 1)[-1].replace("urlstd.parse.", "")


def isa(sc, exc, name="URLParseError"):
    return sc.it.exc_isa(exc.cls, glob(sc.it, name)) == "yes"


ALPHA = C.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
C0SP = C.CharSet(((0, 0x20),))
# no scheme: the first character is no letter / there is no colon
NOALPHA = Fact(s=D.mkstr(NOTAB, first=NOTAB - C0SP - ALPHA,
                         last=NOTAB - C0SP))
NOCOLON = Fact(s=D.mkstr(NOTAB - C.of(":"),
                         first=NOTAB - C0SP - C.of(":"),
                         last=NOTAB - C0SP - C.of(":")))


def parse_run(kind, form="any", fine="coarse", kw=None, rep=None, **over):
    """parse_url(<string of the form>, base of the kind).

    form: any (every string), rel (no letter first), nocolon, same (the
    scheme of the base and a colon first), or ':' + a prefix.  All but "any"
    are without tabs, newlines and surrounding C0 controls and spaces, which
    are removed before anything else; "any" covers those."""
    sc = Scene(fine=fine)
    if form == "same":
        form = ":file:" if kind == "file" else ":http:"
        over.setdefault("scheme", const(form[1:-1]))
    b = [] if kind == "none" else [sc.rec_kind("base", kind, **over)]
    sc.h0 = {o: h for o, h in sc.st.heap.items() if o[:2] == "B:"}
    sc.s = sym("s", {"any": ANYSTR, "rel": NOALPHA,
                     "nocolon": NOCOLON}.get(form, CLEAN))
    s = sc.s if form[0] != ":" else cat([const(form[1:]), sc.s])
    outs, ev = sc.call(glob(sc.it, "parse_url"), [s] + b, kw or {})
    if rep is not None:
        rep.count("abstract outcomes", len(outs))
        rep.count("code paths with imprecision",
                  sum(1 for o in outs if o.st.unk))
    return sc, outs, ev


def set_run(kind, attr, fine="coarse", rep=None, value=None, **over):
    sc = Scene(fine=fine)
    sc.u = sc.url("u", kind, **over)
    sc.h0 = {o: h for o, h in sc.st.heap.items() if o[:2] == "B:"}
    sc.s = sym("v", ANYSTR)
    outs, ev = sc.set(sc.u, attr, value or sc.s)
    if rep is not None:
        rep.count("abstract outcomes", len(outs))
    return sc, outs, ev


def rec_after(sc, o):
    t = o.st.heap["B:u"].f.get(sc.url_fields["rec"])
    if t is None or t.op != "obj":
        return None, None
    return t.a[0], o.st.heap.get(t.a[0])


def result_rec(o):
    if o.v is None or o.v.op != "obj":
        return None
    h = o.st.heap.get(o.v.a[0])
    return h if h is not None and getattr(h.cls, "name", "") == "URLRecord" \
        else None


def scheme_class(o, h):
    """'net' | 'file' | 'other' | None"""
    f = o.st.fact(h.f["scheme"])
    s = f.s
    if s is None or f.ncomp() != 1:
        return None
    if s.only is not None:
        if s.only <= {"file"}:
            return "file"
        if s.only <= NET:
            return "net"
        if not s.only & set(SPECIAL):
            return "other"
        return None
    if all(not D.can_be(s, x) for x in SPECIAL):
        return "other"
    return None


def path_segs(o, h):
    """[(fact, exact)] of the segments, or None when the path is no list."""
    t = h.f["path"]
    if t.op != "obj":
        return None
    g = o.st.heap.get(t.a[0])
    if g is None or g.kind != "list":
        return None
    out = []
    for s in g.segs:
        if s[0] == "i":
            out.append(o.st.fact(s[1]))
        elif o.st.int_iv(s[2])[1] > 0:
            out.append(o.st.fact(mk("elem", s[1])))
    return out


def path_len(o, h):
    g = o.st.heap[h.f["path"].a[0]]
    return o.st.int_iv(list_len(g))


# ------------------------------------------------------------------ C01 / C03


def j_exc_parse(rep, kind, form):
    sc, outs, ev = parse_run(kind, form, rep=rep)
    exc_rule(rep, sc, outs, "parse_url")


def exc_rule(rep, sc, outs, entry):
    for o in outs:
        if o.kind == "return":
            rep.check(True, "returns or raises URLParseError", entry,
                      "returns", o.st)
            continue
        rep.check(isa(sc, o.exc), "only URLParseError escapes",
                  "%s <- %s in %s" % (entry, o.exc.name, site_func(o.exc)),
                  "%s: %s" % (o.exc.name, o.exc.msg), o.st)


def j_exc_set(rep, kind, attr):
    sc, outs, ev = set_run(kind, attr, rep=rep)
    exc_rule(rep, sc, outs, "URL.%s setter" % attr)


def j_exc_override(rep, kind, state):
    sc = Scene(fine="coarse")
    u = sc.rec_kind("u", kind)
    st = enum_state(sc, state)
    f = sc.method("BasicURLParser", "parse")
    outs, ev = sc.call(f, [sym("s", ANYSTR)],
                       {"url": u, "state_override": st})
    rep.count("abstract outcomes", len(outs))
    exc_rule(rep, sc, outs, "BasicURLParser.parse[%s]" % state)


def enum_state(sc, state):
    r = sc.it.getattr(glob(sc.it, "URLParserState"), state, sc.st, sc.ctx,
                      NODE)
    if not r:
        raise AnalysisBroken("URLParserState.%s is gone" % state)
    return r[0][1]


def j_total_getters(rep, kind):
    sc = Scene(fine="coarse")
    u = sc.url("u", kind)
    for a in SETTERS + ("search_params",):
        outs, ev = sc.get(u, a)
        total_rule(rep, outs, "URL.%s" % a)
    for m in ("__str__", "__repr__"):
        outs, ev = sc.callm(u, m)
        total_rule(rep, outs, "URL.%s" % m)
    r = sc.st.frames["drv"]["u.rec"]
    for m in ("__str__", "__repr__", "serialize_url", "serialize_path",
              "serialize_host", "is_special", "is_not_special",
              "has_opaque_path", "includes_credentials",
              "cannot_have_username_password_port"):
        outs, ev = sc.callm(r, m)
        total_rule(rep, outs, "URLRecord.%s" % m)


def total_rule(rep, outs, entry):
    for o in outs:
        if o.kind == "return":
            rep.check(True, "never raises", entry, "returns", o.st)
        else:
            rep.check(False, "never raises", "%s <- %s in %s" % (
                entry, o.exc.name, site_func(o.exc)), o.exc.msg, o.st)


def j_base_untouched(rep, kind, form):
    sc, outs, ev = parse_run(kind, form, rep=rep)
    for o in outs:
        bad = [x for x, h in sc.h0.items() if o.st.heap.get(x) != h]
        rep.check(not bad, "base URL object unchanged by a parse",
                  "parse_url(base=%s)" % kind, "changed: %s" % bad, o.st)
        if o.kind == "return":
            h = result_rec(o)
            if h is None:
                rep.check(None, "result is a record", "parse_url", "", o.st)
                continue
            al = o.v.a[0] in sc.h0 or any(
                t.op == "obj" and t.a[0] in sc.h0 for t in h.f.values())
            rep.check(not al, "result shares no mutable part with the base",
                      "parse_url(base=%s)" % kind,
                      "aliased: %s" % {k: str(t)[:60] for k, t in
                                       h.f.items() if t.op == "obj"}, o.st)


# -------------------------------------------------------------- C05 / 06 / 07

MAY = {"hash": {"fragment"}, "host": {"host", "port"}, "hostname": {"host"},
       "password": {"password"}, "pathname": {"path"}, "port": {"port"},
       "protocol": {"scheme", "port"}, "search": {"query"},
       "username": {"username"}}


def changed(sc, o, h):
    """Fields whose value is not provably the old one."""
    r0 = sc.h0["B:u.rec"]
    ch = set()
    for f in FIELDS:
        t, t0 = h.f.get(f), r0.f[f]
        if t is None:
            ch.add(f)
            continue
        if t.op == "obj" and t0.op == "obj":
            g, g0 = o.st.heap.get(t.a[0]), sc.h0.get(t0.a[0])
            if g != g0:
                if g is not None and g.segs == g0.segs:
                    continue
                ch.add(f)
        elif t is not t0:
            e = o.st.fact(t)
            # equal constants after refinement
            if e == o.st.fact(t0) and e.ncomp() == 1 and (
                    e.none or e.s is not None and e.s.only is not None and
                    len(e.s.only) == 1):
                continue
            ch.add(f)
    return ch


def opaque_strip(sc, o, h):
    """Is the new opaque path the old one with trailing spaces removed?"""
    t, t0 = h.f["path"], sc.h0["B:u.rec"].f["path"]
    if t is t0:
        return True
    return t.op == "strip" and t.a[0] is t0 and any(
        is_const(x) and cval(x) == "r" or x == "r" for x in t.a)


def j_isolation(rep, kind, attr):
    sc, outs, ev = set_run(kind, attr, rep=rep)
    for o in outs:
        oid, h = rec_after(sc, o)
        ent = "URL.%s setter on %s" % (attr, kind)
        if h is None:
            rep.check(None, "record stays", ent, "", o.st)
            continue
        ch = changed(sc, o, h)
        extra = ch - MAY[attr]
        if kind == "opaque" and attr in ("hash", "search") and extra == {
                "path"}:
            # only a path nothing follows any more loses its spaces
            ok = opaque_strip(sc, o, h) and not any(
                o.st.fact(h.f[f]).s is not None
                for f in ("query", "fragment"))
            rep.check(ok, "only the assigned component changes", ent,
                      "path becomes %s" % str(h.f["path"])[:100], o.st)
        else:
            rep.check(not extra, "only the assigned component changes", ent,
                      "also changes %s" % sorted(extra), o.st)
        # the parameter list follows only the query
        L = o.st.heap[o.st.heap["B:u"].f[sc.url_fields["params"]].a[0]].f[
            sc.url_fields["list"]]
        if attr != "search":
            same = L.op == "obj" and o.st.heap.get(L.a[0]) == sc.h0[
                "B:u.list"]
            rep.check(same, "search parameters change only with the query",
                      ent, "list is now %s" % str(L)[:80], o.st)


def j_atomic(rep, kind, attr):
    sc, outs, ev = set_run(kind, attr, rep=rep)
    for o in outs:
        if o.kind != "raise":
            continue
        ent = "URL.%s setter on %s" % (attr, kind)
        oid, h = rec_after(sc, o)
        if h is None:
            rep.check(None, "record stays", ent, "", o.st)
            continue
        ch = changed(sc, o, h)
        allow = {"host"} if attr == "host" and "_parse_port" in site_func(
            o.exc) else set()
        if attr == "host" and ch == {"host"} and not allow:
            # a host applied before its port is rejected may stay
            allow = {"host"} if not isa(sc, o.exc, "HostParseError") \
                else set()
        rep.check(not (ch - allow), "a rejected assignment changes nothing",
                  ent, "%s leaves %s changed" % (o.exc.name, sorted(ch)),
                  o.st)
        bad = [x for x in sc.h0 if x not in ("B:u.rec", "B:u.rec.path") and
               o.st.heap.get(x) != sc.h0[x]]
        rep.check(not bad, "a rejected assignment changes nothing", ent,
                  "%s leaves %s changed" % (o.exc.name, bad), o.st)


def j_atomic_href(rep):
    """href = v: either everything is replaced or nothing is."""
    sc, outs, ev = set_run("special", "href", rep=rep)
    for o in outs:
        ent = "URL.href setter"
        oid, h = rec_after(sc, o)
        if o.kind == "raise":
            bad = [x for x in sc.h0 if o.st.heap.get(x) != sc.h0[x]]
            rep.check(not bad, "a rejected assignment changes nothing", ent,
                      "%s leaves %s changed" % (o.exc.name, bad), o.st)
            continue
        rep.check(o.st.heap.get("B:base") is None, "replaced", ent, "", o.st)
        ref = [k for k, t in (h.f.items() if h else ())
               if t.syms and any(s.startswith("in:u.rec") for s in t.syms)]
        rep.check(not ref, "assigning href keeps nothing of the old URL", ent,
                  "kept: %s" % ref, o.st)


INERT = [  # (kind, setter): the component does not exist there
    ("file", "username"), ("file", "password"), ("file", "port"),
    ("emptyhost", "username"), ("emptyhost", "password"),
    ("emptyhost", "port"),
    ("nohost", "username"), ("nohost", "password"), ("nohost", "port"),
    ("opaque", "username"), ("opaque", "password"), ("opaque", "port"),
    ("opaque", "host"), ("opaque", "hostname"), ("opaque", "pathname"),
]


def j_inert(rep, kind, attr):
    sc, outs, ev = set_run(kind, attr, rep=rep)
    for o in outs:
        ent = "URL.%s setter on %s" % (attr, kind)
        bad = [x for x in sc.h0 if o.st.heap.get(x) != sc.h0[x]]
        rep.check(not bad and o.kind == "return",
                  "assigning an inapplicable component does nothing", ent,
                  "%s changed, %s" % (bad, o.kind), o.st)


def j_protocol(rep, kind, **over):
    """The protocol setter never crosses the special boundary."""
    sc, outs, ev = set_run(kind, "protocol", fine=True, rep=rep)
    r0 = sc.h0["B:u.rec"]
    for o in outs:
        oid, h = rec_after(sc, o)
        ent = "URL.protocol setter on %s" % kind
        if h is None or o.kind == "raise":
            continue
        if h.f["scheme"] is r0.f["scheme"]:
            rep.check(True, "protocol stays on its side", ent, "kept", o.st)
            continue
        only = scheme_names(o, h)
        if kind in ("special", "file"):
            ok = only is not None and only <= set(SPECIAL)
        else:
            ok = scheme_class(o, h) == "other"
        rep.check(ok, "protocol stays on its side", ent,
                  "scheme becomes %s" % o.st.fact(h.f["scheme"]), o.st)
        pre = o.st.fact
        if kind == "special" and (only is None or "file" in only):
            cred = pre(r0.f["username"]).s.hi > 0 or pre(
                r0.f["password"]).s.hi > 0 or not isnone(
                    pre(r0.f["port"]))
            rep.check(not cred, "file never gets credentials or a port", ent,
                      "becomes file with username %s port %s" % (
                          pre(r0.f["username"]), pre(r0.f["port"])), o.st)
        if kind == "file" and (only is None or only & NET):
            hh = pre(h.f["host"])
            rep.check(not (hh.none or hh.s is not None and hh.s.lo == 0),
                      "a network scheme has a host", ent,
                      "host may be %s" % hh, o.st)


def scheme_names(o, h):
    """The possible schemes when they are finitely many."""
    f = o.st.fact(h.f["scheme"])
    return f.s.only if f.s is not None and f.ncomp() == 1 else None


def isnone(f):
    return f.none and f.ncomp() == 1


# ------------------------------------------------------ C09 / 10 / 11 / 12 / 13

SAFE = {
    "fragment": FRAGC, "query": QUERYC, "squery": QUERYC - C.of("'"),
    "path": PRINT - C.of("\"#<>?`{}"), "userinfo": USERINFO,
    "opaque": PRINT | C.of(" "), "host": PRINT | C.of(" "),
}


def enc_rule(rep, o, f, safe, what, ent):
    """f: Fact of an encoded component; safe: characters kept as they are."""
    if f.s is None:
        return C.EMPTY
    rep.check(f.s.cs <= safe, "every other character is percent-encoded",
              "%s in %s" % (what, ent), "may hold %s" % (f.s.cs - safe), o.st)
    for inp, sset, plus, enc in f.s.enc:
        rep.check(sset == safe and not plus, "exact percent-encode set",
                  "%s in %s" % (what, ent),
                  "encoder keeps %s beyond and encodes %s of the set" % (
                      sset - safe, safe - sset), o.st)
    return f.s.cs


def j_encode_parse(rep, kind, form):
    sc, outs, ev = parse_run(kind, form, rep=rep)
    ent = "parse_url"
    seen = {}
    for o in outs:
        h = result_rec(o) if o.kind == "return" else None
        if h is None:
            continue
        cl = scheme_class(o, h)
        if cl is None:
            rep.check(None, "scheme class", ent, "", o.st)
            continue
        encode_rules(rep, o, h, cl, ent, seen)
    if form != "nocolon":
        exact_sets(rep, seen, ent)


def encode_rules(rep, o, h, cl, ent, seen, fields=None):
    def put(k, cs):
        seen[k] = seen.get(k, C.EMPTY) | cs

    F = {k: o.st.fact(h.f[k]) for k in FIELDS if h.f[k].op != "obj"}
    q = "query" if cl == "other" else "squery"
    if not fields or "query" in fields:
        put(q, enc_rule(rep, o, F["query"], SAFE[q], "query of a %s URL" % (
            "special" if q == "squery" else "non-special"), ent))
    if not fields or "fragment" in fields:
        put("fragment", enc_rule(rep, o, F["fragment"], SAFE["fragment"],
                                 "fragment", ent))
    for k in ("username", "password"):
        if not fields or k in fields:
            put(k, enc_rule(rep, o, F[k], SAFE["userinfo"], k, ent))
    if not fields or "path" in fields:
        if h.f["path"].op == "obj":
            for f in path_segs(o, h) or ():
                put("path" + cl, enc_rule(rep, o, f, SAFE["path"],
                                          "path segment", ent))
        else:
            put("opaque", enc_rule(rep, o, F["path"], SAFE["opaque"],
                                   "opaque path", ent))


def exact_sets(rep, seen, ent):
    """Nothing else is encoded: every character of the safe set can occur."""
    for k, cs in seen.items():
        want = SAFE["userinfo"] if k in ("username", "password") else \
            SAFE["path"] - C.of("/") if k == "pathother" else \
            SAFE["path"] - C.of("/\\") if k[:4] == "path" else \
            SAFE["opaque"] - C.of("#?") if k == "opaque" else SAFE[k]
        if not cs:
            continue
        rep.check(want <= cs, "no other character is percent-encoded",
                  "%s in %s" % (k, ent), "never holds %s" % (want - cs))


def j_encode_set(rep, kind, attr):
    sc, outs, ev = set_run(kind, attr, rep=rep)
    seen = {}
    fld = {"hash": "fragment", "search": "query", "pathname": "path"}.get(
        attr, attr)
    for o in outs:
        oid, h = rec_after(sc, o)
        if h is None or o.kind != "return" or fld not in changed(sc, o, h):
            continue
        cl = "file" if kind == "file" else "net" if kind == "special" \
            else "other"
        if fld == "path" and kind == "opaque":
            continue
        encode_rules(rep, o, h, cl, "URL.%s setter" % attr, seen, {fld})
    exact_sets(rep, seen, "URL.%s setter on %s" % (attr, kind))


def norm_rules(rep, o, h, cl, ent):
    segs = path_segs(o, h)
    if segs is None:
        rep.check(h.f["path"].op == "obj" or cl == "other",
                  "only non-special URLs have an opaque path", ent,
                  "path is %s" % o.st.fact(h.f["path"]), o.st)
        return
    for f in segs:
        s = f.s
        if s is None or f.ncomp() != 1:
            rep.check(None if f.x else s is None and f.is_bot(),
                      "segments are strings", ent, str(f), o.st)
            continue
        bad = C.of("/\\") if cl != "other" else C.of("/")
        rep.check(not (s.cs & bad), "no separator inside a path segment", ent,
                  "segment may hold %s" % (s.cs & bad), o.st)
        left = sorted(d for d in DOTS if D.can_be(s, d))
        rep.check(not left, "dot segments are resolved", ent,
                  "segment may be %s" % left, o.st)


def j_norm_parse(rep, kind, form):
    sc, outs, ev = parse_run(kind, form, rep=rep)
    for o in outs:
        h = result_rec(o) if o.kind == "return" else None
        if h is None:
            continue
        cl = scheme_class(o, h)
        if cl is None:
            rep.check(None, "scheme class", "parse_url", "", o.st)
            continue
        norm_rules(rep, o, h, cl, "parse_url")


def j_norm_set(rep, kind):
    sc, outs, ev = set_run(kind, "pathname", rep=rep)
    for o in outs:
        oid, h = rec_after(sc, o)
        if h is None:
            continue
        cl = "file" if kind == "file" else "net" if kind == "special" \
            else "other"
        norm_rules(rep, o, h, cl, "URL.pathname setter")
        if cl != "other":
            n = path_len(o, h)
            rep.check(n[0] >= 1, "special URLs keep a path", "URL.pathname "
                      "setter", "length %s" % (n,), o.st)


FORB_HOST = C.of("\0\t\n\r #/:<>?@[\\]^|")
FORB_DOMAIN = FORB_HOST | C.CharSet(((0, 0x1F),)) | C.of("%\x7f") | \
    C.of("ABCDEFGHIJKLMNOPQRSTUVWXYZ") | C.CharSet(((0x80, 0x10FFFF),))


def host_rules(rep, o, f, cl, ent):
    if f.s is not None:
        bad = f.s.cs & (FORB_DOMAIN if cl != "other" else FORB_HOST |
                        C.CharSet(((0, 0x1F), (0x7F, 0x10FFFF))))
        rep.check(not bad, "no forbidden host code point", ent,
                  "%s host may hold %s" % (
                      "domain" if cl != "other" else "opaque", bad), o.st)
        for inp, sset, plus, enc in f.s.enc:
            if cl == "other":
                rep.check(sset == SAFE["host"], "opaque hosts encode the C0 "
                          "control set", ent, "keeps %s" % sset, o.st)
    if f.i is not None:
        rep.check(0 <= f.i.lo and f.i.hi <= 2**32 - 1,
                  "IPv4 value within 32 bits", ent, str(f.i), o.st)
    if cl == "net":
        rep.check(not f.none and (f.s is None or f.s.lo >= 1),
                  "special URLs have a non-empty host", ent, str(f)[:120],
                  o.st)
    if cl == "file":
        rep.check(not f.none, "file URLs have a host", ent, str(f)[:120],
                  o.st)


def j_host_parse(rep, kind, form):
    sc, outs, ev = parse_run(kind, form, rep=rep)
    for o in outs:
        h = result_rec(o) if o.kind == "return" else None
        if h is None:
            continue
        cl = scheme_class(o, h)
        if cl is None:
            rep.check(None, "scheme class", "parse_url", "", o.st)
            continue
        host_rules(rep, o, o.st.fact(h.f["host"]), cl, "parse_url")


def j_host_set(rep, kind, attr):
    sc, outs, ev = set_run(kind, attr, rep=rep)
    for o in outs:
        oid, h = rec_after(sc, o)
        if h is None:
            continue
        cl = "file" if kind == "file" else "net" if kind == "special" \
            else "other"
        host_rules(rep, o, o.st.fact(h.f["host"]), cl,
                   "URL.%s setter" % attr)


def j_host_direct(rep, notspecial):
    sc = Scene()
    outs, ev = sc.call(sc.method("Host", "parse"), [sym("s", ANYSTR),
                                                     const(notspecial)])
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        if o.kind != "return":
            continue
        f = o.st.fact(o.v)
        host_rules(rep, o, f, "other" if notspecial else "any", "Host.parse")


def int_rules(rep, ev):
    for e in ev:
        if e[0] != "int":
            continue
        v, base, bad, why = e[2]
        rep.count("integer conversions")
        fn = str(e[1]).rsplit(":", 1)[-1].replace("urlstd.parse.", "")
        rep.check(None if e[3] else not bad,
                  "numbers are ASCII digits only", fn,
                  "int(_, %s) may accept %s" % (base, why))


def num_rules(rep, o, h, ent):
    p = o.st.fact(h.f["port"])
    rep.check(p.i is None or (0 <= p.i.lo and p.i.hi <= 65535),
              "port within 16 bits", ent, str(p), o.st)
    f = o.st.fact(h.f["host"])
    rep.check(f.i is None or (0 <= f.i.lo and f.i.hi <= 2**32 - 1),
              "IPv4 value within 32 bits", ent, str(f)[:100], o.st)


def j_num_parse(rep, kind, form):
    sc, outs, ev = parse_run(kind, form, rep=rep)
    int_rules(rep, ev)
    for o in outs:
        h = result_rec(o) if o.kind == "return" else None
        if h is not None:
            num_rules(rep, o, h, "parse_url")


def j_num_set(rep, kind, attr):
    sc, outs, ev = set_run(kind, attr, rep=rep)
    int_rules(rep, ev)
    for o in outs:
        oid, h = rec_after(sc, o)
        if h is not None:
            num_rules(rep, o, h, "URL.%s setter" % attr)


def j_num_host(rep, notspecial):
    sc = Scene()
    outs, ev = sc.call(sc.method("Host", "parse"), [sym("s", ANYSTR),
                                                     const(notspecial)])
    int_rules(rep, ev)
    for o in outs:
        if o.kind == "return":
            f = o.st.fact(o.v)
            rep.check(f.i is None or (0 <= f.i.lo and f.i.hi <= 2**32 - 1),
                      "IPv4 value within 32 bits", "Host.parse",
                      str(f)[:100], o.st)


def inv_rules(rep, o, h, cl, ent, default=None):
    F = {k: o.st.fact(h.f[k]) for k in FIELDS if h.f[k].op != "obj"}

    def empty(k):
        s = F[k].s
        return s is not None and F[k].ncomp() == 1 and s.hi == 0

    hf = F["host"]
    nohost = hf.none or hf.s is not None and hf.s.lo == 0
    if cl == "file" or hf.none and hf.ncomp() == 1 or hf.s is not None and \
            hf.s.hi == 0 and hf.ncomp() == 1:
        why = "file URL" if cl == "file" else "URL without host"
        rep.check(empty("username") and empty("password"),
                  "no credentials on a %s" % why, ent, "%s / %s" % (
                      F["username"], F["password"]), o.st)
        rep.check(isnone(F["port"]), "no port on a %s" % why, ent,
                  str(F["port"]), o.st)
    elif nohost and cl == "other":
        # may be empty: then credentials and port must be absent
        bad = not empty("username") or not empty("password") or \
            not isnone(F["port"])
        if not bad:
            rep.check(True, "no credentials or port without a host", ent, "",
                      o.st)
        else:
            rep.check(_maybe(o, h), "no credentials or port without a host",
                      ent, "host %s, username %s, port %s" % (
                          str(hf)[:80], F["username"], F["port"]), o.st)
    if cl in ("net", "file"):
        rep.check(h.f["path"].op == "obj" and path_len(o, h)[0] >= 1,
                  "special URLs have a path", ent,
                  str(h.f["path"]), o.st)
    if cl == "net":
        rep.check(not nohost, "special URLs have a non-empty host", ent,
                  str(hf)[:100], o.st)
    if cl == "file":
        rep.check(not hf.none, "file URLs have a host", ent, str(hf)[:100],
                  o.st)
    if h.f["path"].op != "obj":
        rep.check(isnone(hf), "opaque paths go without a host", ent,
                  str(hf)[:100], o.st)
    s = F["scheme"].s
    rep.check(s is not None and s.lo >= 1 and s.cs <= SCHEME_REST and
              s.first <= LOWER, "scheme is lower-case ASCII", ent,
              str(F["scheme"])[:100], o.st)
    if default is not None:
        p = F["port"]
        rep.check(p.i is None or not (p.i.lo <= default <= p.i.hi) or
                  default in p.i.excl, "default port is dropped", ent,
                  "port may be %s" % p, o.st)


def _maybe(o, h):
    return None


def j_inv_parse(rep, kind, form):
    sc, outs, ev = parse_run(kind, form, rep=rep)
    for o in outs:
        h = result_rec(o) if o.kind == "return" else None
        if h is None:
            continue
        cl = scheme_class(o, h)
        if cl is None:
            rep.check(None, "scheme class", "parse_url", "", o.st)
            continue
        inv_rules(rep, o, h, cl, "parse_url")


def j_inv_scheme(rep, scheme):
    """parse_url(scheme + any): default ports are dropped."""
    sc, outs, ev = parse_run("none", ":%s://" % scheme, rep=rep)
    for o in outs:
        h = result_rec(o) if o.kind == "return" else None
        if h is None:
            continue
        cl = scheme_class(o, h)
        if cl is None:
            rep.check(None, "scheme class", "parse_url", "", o.st)
            continue
        inv_rules(rep, o, h, cl, "parse_url(%s://...)" % scheme,
                  DEFAULT_PORT.get(scheme))


def j_inv_set(rep, kind, attr, scheme=None):
    over = {}
    if scheme:
        over["scheme"] = const(scheme)
        if DEFAULT_PORT.get(scheme) is not None:
            p = D.IntF(0, 65535, frozenset([DEFAULT_PORT[scheme]]))
            over["port"] = Fact(i=p).join(D.NONE)
    sc, outs, ev = set_run(kind, attr, fine=True, rep=rep, **over)
    for o in outs:
        oid, h = rec_after(sc, o)
        if h is None:
            continue
        cl = scheme_class(o, h)
        ent = "URL.%s setter" % attr
        d = None
        if cl is None:
            only = scheme_names(o, h)
            if only and only <= set(SPECIAL):
                for c in ("net", "file"):
                    inv_rules(rep, o, h, c, ent)
            else:
                rep.check(None, "scheme class", ent, "", o.st)
            continue
        s = o.st.fact(h.f["scheme"]).s.only
        if s and len(s) == 1:
            d = DEFAULT_PORT.get(next(iter(s)))
        inv_rules(rep, o, h, cl, ent, d)


def j_inv_proto(rep, scheme):
    """protocol = "<scheme>:": the default port of the new scheme is dropped"""
    sc, outs, ev = set_run("special", "protocol", fine=True, rep=rep,
                           value=const(scheme + ":"))
    n = 0
    for o in outs:
        oid, h = rec_after(sc, o)
        if h is None or o.kind != "return":
            continue
        only = scheme_names(o, h)
        if only != {scheme}:
            rep.check(False, "protocol is applied", "URL.protocol setter",
                      "scheme is %s" % only, o.st)
            continue
        n += 1
        inv_rules(rep, o, h, "net", "URL.protocol = %s:" % scheme,
                  DEFAULT_PORT[scheme])
    rep.check(n > 0, "protocol is applied", "URL.protocol setter", scheme)


# what int() or a strip() would let through before the digits of a port
PORT_LEAD = ["\xa0", "\u2003", " ", "+", "-", "_", "\u0663", "\uff18", ".",
             "x", "\x1f", "\x0b", "\ufeff"]


def j_port_lead(rep, kind, lead):
    """A port is what the text assigned begins with, if that is a digit."""
    d = sym("d", Fact(s=D.mkstr(C.of("0123456789"), 1, 3)))
    sc, outs, ev = set_run(kind, "port", rep=rep,
                           value=cat([const(lead), d]))
    p0 = sc.h0["B:u.rec"].f["port"]
    for o in outs:
        oid, h = rec_after(sc, o)
        if h is not None:
            rep.check(h.f["port"] is p0, "a port begins with a digit",
                      "URL.port setter", "%r before the digits gives %s" % (
                          lead, str(h.f["port"])[:80]), o.st)


LETTER = C.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
SHAPES = ("", "s", "d", "ss", "sd", "ds", "dd", "mss", "msd")


def j_shorten(rep, kind, shape):
    """shorten_path() drops the last segment, except a lone drive letter of
    a file URL."""
    sc = Scene(fine=True)
    r = sc.rec_kind("r", kind)
    t = sc.st.heap["B:r"].f["path"]
    seg = Fact(s=D.mkstr(C.of("abcdefgh0123%"), 3))
    items = []
    for i, x in enumerate(shape):
        if x == "m":
            items.append(("m", sym("m", seg), sym("n", D.fint(0, INF))))
        elif x == "s":
            items.append(("i", sym("p%d" % i, seg)))
        else:
            items.append(("i", cat([sym("l%d" % i, Fact(
                s=D.mkstr(LETTER, 1, 1))), const(":")])))
    sc.st.heap[t.a[0]] = sc.st.heap[t.a[0]].with_segs(tuple(items))
    h0 = sc.st.heap["B:r"]
    outs = sc.callm(r, "shorten_path")
    outs = outs[0] if isinstance(outs, tuple) else outs
    rep.count("abstract outcomes", len(outs))
    want = list(items)
    if shape and not (kind == "file" and shape == "d"):
        want.pop()
    for o in outs:
        if o.kind != "return":
            rep.check(False, "a path is shortened without error",
                      "URLRecord.shorten_path", o.exc.name, o.st)
            continue
        h = o.st.heap["B:r"]
        rep.check(all(h.f[k] is v for k, v in h0.f.items() if k != "path"),
                  "only the path is shortened", "URLRecord.shorten_path",
                  "other fields change", o.st)
        g = o.st.heap.get(h.f["path"].a[0]) if h.f["path"].op == "obj" \
            else None
        if g is None:
            rep.check(None, "shortening drops the last segment",
                      "URLRecord.shorten_path", "no list", o.st)
            continue
        got = list(g.segs)
        rep.check(True if got == want else False if len(got) != len(want)
                  and "m" not in shape or "m" not in shape and all(
                      x[0] == "i" for x in got) else None,
                  "shortening drops the last segment",
                  "URLRecord.shorten_path", "%s -> %s" % (
                      str(items)[:80], str(got)[:80]), o.st)
    rep.check(bool(outs), "a path is shortened", "URLRecord.shorten_path",
              "never returns")
