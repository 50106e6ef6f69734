"""C24: urlparse gives the components of the parsed URL."""

from jobs_report import *
from engine.run import ctx0
from engine.terms import is_const, cval
from jobs_params import decide, tcat

SEG = C.of("abcdefghijklmnopqrstuvwxyz%0123456789=&,!$'()*+")


def builtin(sc, st, name, v):
    r = sc.it.call(mk("bltn", name), [v], {}, st.copy(), ctx0(sc.it), NODE)
    return r[0][1] if len(r) == 1 else None


def j_urlparse(rep, kind, path, frags):
    sc = Scene(fine=True)
    sc.it.apart = True
    s = sc.root("s", sym("s", ANYSTR))
    a = sym("pa", S(SEG, 1))
    b = sym("pb", S(SEG | C.of(";"), 0))
    c = sym("pc", S(SEG, 1))
    r = sc.rec_kind("r", kind)
    h = sc.st.heap["B:r"]
    t = h.f["path"]
    last = {"plain": [c], "params": [tcat([c, const(";"), b])],
            "mid": [tcat([c, const(";")]), a]}[path]
    if kind == "opaque":
        pv = tcat(last if path != "mid" else last[:1] + [const("/"), a])
        sc.st.heap["B:r"] = h.setf("path", pv)
        pre = []
    else:
        sc.st.heap[t.a[0]] = sc.st.heap[t.a[0]].with_segs(tuple(
            ("i", x) for x in [a] + last))
        pre = [const("/"), a, const("/")]
    want_path = {"plain": pre + [c], "params": pre + [c],
                 "mid": pre + [c]}[path]
    want_par = {"plain": [], "params": [b], "mid": [const("/"), a]}[path]
    if PARSE not in sc.it.funcs:
        raise AnalysisBroken("BasicURLParser.parse is gone")
    seen = []

    def stub(env, st, ctx, node):
        seen.append((env.get("urlstring"), env.get("base", NONE),
                     env.get("encoding", NONE)))
        return [(st, obj("B:r"))]

    sc.it.stubs[PARSE] = stub
    v6 = sym("v6text", S(C.of("0123456789abcdef:"), 2))
    sc.it.stubs["urlstd.parse.IPv6Address.serialize"] = \
        lambda env, st, ctx, node: [(st, v6)]
    outs, ev = sc.call(glob(sc.it, "urlparse"), [s], {
        "allow_fragments": const(frags)})
    rep.count("abstract outcomes", len(outs))
    f = sc.st.heap["B:r"].f
    ent = "urlparse"
    for u, bs, en in seen:
        rep.check(u is s or None, "the string given is parsed", ent,
                  str(u)[:80])
        rep.check(bs is NONE or None, "no base is made up", ent,
                  str(bs)[:80])
    for o in outs:
        if o.kind != "return":
            rep.check(False, "never fails on a parsed URL", ent, o.exc.name,
                      o.st)
            continue
        if o.v.op != "rec" or o.v.a[0] != "ParseResult":
            rep.check(None, "gives a ParseResult", ent, str(o.v)[:80], o.st)
            continue
        got = dict(zip(("scheme", "netloc", "path", "params", "query",
                        "fragment"), fields_of(o.v)))
        sts = [(o.st, {})]
        for k, w in (("username", const("")), ("password", const("")),
                     ("port", NONE), ("host", NONE), ("query", NONE),
                     ("fragment", NONE)):
            sts = [(y, {**d, k: e}) for x, d in sts
                   for y, e in decide(x, f[k], w)]
        for k in ("query", "fragment"):
            nxt = []
            for x, d in sts:
                if d[k]:
                    nxt.append((x, {**d, k + "0": True}))
                    continue
                nxt += [(y, {**d, k + "0": e}) for y, e in decide(
                    x, f[k], const(""))]
            sts = nxt
        if path == "params" and not frags:
            sts = [(y, {**d, "b0": e}) for x, d in sts
                   for y, e in decide(x, b, const(""))]
        for x, d in sts:
            host = [] if d["host"] else [ser_host(sc, x, f["host"])]
            creds = []
            if not (d["username"] and d["password"]):
                creds = [f["username"]] + (
                    [] if d["password"] else [const(":"), f["password"]]) + [
                        const("@")]
            port = [] if d["port"] else [const(":"), builtin(
                sc, x, "str", f["port"])]
            q = [] if d["query0"] else [f["query"]]
            fr = [] if d["fragment0"] else [f["fragment"]]
            w = {"scheme": [f["scheme"]], "netloc": creds + host + port,
                 "path": list(want_path), "params": list(want_par),
                 "query": q, "fragment": fr}
            if not frags and fr:
                hang = [const("#")] + fr
                w["fragment"] = []
                pe = path == "plain" or d.get("b0", False)
                if q:
                    w["query"] = q + hang
                elif not pe:
                    w["params"] += hang
                else:
                    w["path"] += hang
            for k, ps in w.items():
                if None in ps:
                    continue
                e = tcat(ps) if ps else const("")
                g = got[k]
                same = g is e or is_(x, "==", g, e)
                rep.check(True if same else False if plain(g) and plain(
                    e) else None, "%s holds exactly the %s of the URL" % (
                        k, k), ent, "%s, not %s" % (
                            str(g)[:100], str(e)[:100]), x)
    rep.check(bool(outs) and bool(seen), "parses", ent, "never")


def plain(t):
    return all(is_const(p) or p.op in ("sym", "in", "str", "join")
               for p in (t.a[0] if t.op == "cat" else (t,)))


def fields_of(t):
    v = t.a[1]
    return [x[1] if isinstance(x, tuple) else x for x in v]


def ser_host(sc, st, h):
    r, ev = call(sc.it, sc.method("Host", "serialize"), [h], {}, st.copy())
    r = [o for o in r if o.kind == "return"]
    return r[0].v if len(r) == 1 else None


def j_passes(rep, how):
    """Base and encoding reach the parser."""
    sc = Scene(fine=True)
    s = sc.root("s", sym("s", ANYSTR))
    b = sc.root("b", sym("b", ANYSTR))
    e = sc.root("e", sym("e", Fact(s=D.mkstr(LOWER, 1, INF))))
    sc.rec_kind("r", "opaque")
    sc.rec_kind("q", "opaque")
    if PARSE not in sc.it.funcs:
        raise AnalysisBroken("BasicURLParser.parse is gone")
    seen = []

    def stub(env, st, ctx, node):
        u = env.get("urlstring")
        seen.append((u, env.get("base", NONE), env.get("encoding", NONE)))
        return [(st, obj("B:q") if u is b else obj("B:r"))]

    sc.it.stubs[PARSE] = stub
    R = "the string is parsed against the base, in the encoding given"
    args = {"pos": ([s, b, e], {}), "kw": (
        [s], {"base": b, "encoding": e}), "none": (
            [s], {"encoding": e})}[how]
    outs, ev = sc.call(glob(sc.it, "urlparse"), *args)
    for o in outs:
        rep.check(o.kind == "return", R, "urlparse", "raises", o.st)
    main = [x for x in seen if x[0] is s]
    rep.check(bool(main) or None, R, "urlparse", "never parsed")
    for u, bs, en in seen:
        if u is s:
            want = obj("B:q") if how != "none" else NONE
            rep.check(bs is want or (False if bs is NONE or bs is b or
                                     bs.op == "obj" else None), R,
                      "urlparse", "base %s" % bs)
        rep.check(en is e or (False if is_const(en) else None), R,
                  "urlparse", "encoding %s" % en)
