"""C21: the form codec; C22: what the parameter list stores and answers."""

from jobs_sync import *
from engine.logic import compare
from engine.run import ctx0
from engine.terms import cat as tcat, cval, is_const, tup, tup_items

USVF = Fact(s=D.mkstr(USV, 0, D.INF))
FORM_SAFE = set("*-._0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
                "abcdefghijklmnopqrstuvwxyz")
ALWAYS = set("_.-~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
             "abcdefghijklmnopqrstuvwxyz")


def usv(t):
    return mk("usv", t)


def bare(t):
    """The text under conversions that change only lone surrogates."""
    while t.op in ("usv", "u8dec", "u8enc", "encode") and hasattr(
            t.a[0], "op"):
        t = t.a[0]
    return t


# ---------------------------------------------------------------- C21 decode

DEC = ("u8dec", "pctdec", "replace", "usv", "u8enc")


def decoded_ok(t, want):
    """t is the form-decoding of the bytes `want`: '+' to space, then
    percent-decoding, then UTF-8 decoding."""
    if is_const(want) and cval(want) == b"":
        return t is const("") or (None if not is_const(t) else False)
    ops = []
    while t is not want and hasattr(t, "op") and t.op in DEC:
        if t.op == "replace":
            a, b = cval(t.a[1]), cval(t.a[2])
            a = a.decode("latin-1") if isinstance(a, bytes) else a
            b = b.decode("latin-1") if isinstance(b, bytes) else b
            ops.append("plus" if (a, b) == ("+", " ") else "other")
        else:
            ops.append(t.op)
        t = t.a[0]
    ops.reverse()
    core = [x for x in ops if x in ("plus", "pctdec", "u8dec", "other")]
    if t is not want:
        return False if t.op in ("sym", "in") or is_const(t) else None
    return core == ["plus", "pctdec", "u8dec"]


def bsym(n, cs):
    return sym(n, Fact(y=D.mkstr(cs, 0, D.INF)))


def forms():
    """Query texts: (name, parts) with their pieces [(name, value)]."""
    nm, vl = C.BYTE - C.of("&="), C.BYTE - C.of("&")
    a, b, c, d = (bsym(x, y) for x, y in (
        ("na", nm), ("va", vl), ("nb", nm), ("vb", vl)))
    eq, am, E = const(b"="), const(b"&"), const(b"")
    return {
        "name": ([a], [(a, E, (a,))]),
        "pair": ([a, eq, b], [(a, b, ())]),
        "names": ([a, am, c], [(a, E, (a,)), (c, E, (c,))]),
        "pairs": ([a, eq, b, am, c, eq, d], [(a, b, ()), (c, d, ())]),
        "empties": ([am, a, eq, b, am, am, c, am],
                    [(a, b, ()), (c, E, (c,))]),
        "none": ([E], []),
        "seps": ([am, am], []),
    }


def is_empty(st, t):
    """Forks a state on whether a text is empty: [(st, bool)]."""
    if is_const(t):
        return [(st, not cval(t))]
    e, n = compare(st, "==", mk("len", t), const(0))
    return [(x, True) for x in e] + [(x, False) for x in n]


def j_decode(rep, form):
    parts, pieces = forms()[form]
    sc = Scene(fine=True)
    sc.it.apart = True
    t = tcat(parts)
    outs, ev = sc.call(glob(sc.it, "parse_qsl"), [t])
    rep.count("abstract outcomes", len(outs))
    R = "pieces between & become pairs, split at the first ="
    n = 0
    for o in outs:
        if o.kind != "return":
            rep.check(False, "decoding never fails", form, o.exc.name, o.st)
            continue
        sts = [(o.st, [])]
        for nm, vl, opt in pieces:
            nxt = []
            for x, want in sts:
                if not opt:
                    nxt.append((x, want + [(nm, vl)]))
                    continue
                for y, e in is_empty(x, opt[0]):
                    nxt.append((y, want if e else want + [(nm, vl)]))
            sts = nxt
        h = o.st.heap.get(o.v.a[0]) if o.v.op == "obj" else None
        for x, want in sts:
            n += 1
            if h is None or h.kind != "list" or any(
                    s[0] != "i" for s in h.segs):
                rep.check(None, R, form, str(o.v)[:80], x)
                continue
            got = [tup_items(s[1]) for s in h.segs]
            if len(got) != len(want):
                rep.check(False, R, form, "%d pairs, not %d: %s" % (
                    len(got), len(want), str(h.segs)[:160]), x)
                continue
            for g, w in zip(got, want):
                if g is None or len(g) != 2:
                    rep.check(None, R, form, str(g)[:80], x)
                    continue
                for k in (0, 1):
                    rep.check(decoded_ok(g[k], w[k]), "a name or value is "
                              "decoded by + to space, percent-decoding, "
                              "UTF-8", "parse_qsl(%s)" % form, "%s of %s" % (
                                  str(g[k])[:120], w[k]), x)
            rep.check(True, R, form, "%d pairs" % len(want), x)
    rep.check(n > 0, R, form, "never returns")


# ---------------------------------------------------------------- C21 encode

def encoded_ok(t, want, enc="utf-8"):
    """t is the form-encoding of the text `want`."""
    tilde = False
    quotes = []
    while hasattr(t, "op") and t.op in ("replace", "quote"):
        if t.op == "replace":
            a, b = cval(t.a[1]), cval(t.a[2])
            if (a, b) == ("~", "%7E"):
                tilde = not quotes or None
            elif (a, b) == ("%20", "+"):
                quotes.append("plus")
            else:
                return False
        else:
            quotes.append(t)
        t = t.a[0]
    if bare(t) is not bare(want):
        return False if bare(t).op in ("sym", "in") or is_const(t) else None
    plus = False
    q = None
    for x in quotes:
        if x == "plus":
            plus = True
        elif q is not None:
            return False               # encoded twice
        else:
            q = x
    if q is None or tilde is None:
        return False
    safe = q.a[1]
    safe = set(safe if isinstance(safe, str) else cval(safe))
    p = q.a[2] if isinstance(q.a[2], bool) else cval(q.a[2])
    e = q.a[3] if isinstance(q.a[3], str) else cval(q.a[3])
    if not (plus or p) or e not in ("utf-8", "utf8", enc):
        return False
    return (safe | ALWAYS) - {"~"} == FORM_SAFE and tilde


def j_encode_form(rep, n, how):
    sc = Scene(fine=True)
    prs = [(sym("n%d" % i, ANYSTR), sym("v%d" % i, ANYSTR))
           for i in range(n)]
    segs = tuple(("i", tup(p)) for p in prs)
    if how == "urlencode":
        a = sc.root("l", sc.lst("l", PAIR))
        sc.st.heap[a.a[0]] = sc.st.heap[a.a[0]].with_segs(segs)
        outs, ev = sc.call(glob(sc.it, "urlencode"), [a])
    else:
        p, lo = plist(sc, prs)
        outs, ev = sc.callm(p, "__str__")
    R = "pairs are joined by & and written name=value"
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        if o.kind != "return":
            rep.check(False, "encoding never fails", how, o.exc.name, o.st)
            continue
        if n == 0:
            rep.check(o.v is const("") or None, R, how, str(o.v)[:80], o.st)
            continue
        ps = list(o.v.a[0]) if o.v.op == "cat" else [o.v]
        flat = [x for i, (a, b) in enumerate(prs)
                for x in (([const("&")] if i else []) + [a, const("="), b])]
        if len(ps) != len(flat):
            rep.check(None if any(x.op not in (
                "quote", "replace", "const", "usv") for x in ps) else False,
                R, how, str(o.v)[:200], o.st)
            continue
        for g, w in zip(ps, flat):
            if is_const(w):
                rep.check(g is w or (False if is_const(g) else None), R, how,
                          "%s for %s" % (g, w), o.st)
            else:
                rep.check(encoded_ok(g, w), "a name or value keeps letters, "
                          "digits and *-._, space becomes +, the rest is "
                          "percent-encoded UTF-8", how, str(g)[:160], o.st)
    rep.check(bool(outs), R, how, "never returns")


def j_encode_any(rep, plus, lang):
    """The percent-encoder, for any safe set and encoding: only safe
    characters come out."""
    sc = Scene(fine=True)
    s = sc.root("s", sym("s", ANYSTR))
    kw = {"space_as_plus": const(plus)}
    safe = "!~*'()/a"
    if lang != "utf-8":
        kw["encoding"] = sc.root("e", sym("e", Fact(s=D.mkstr(
            LOWER | C.of("0123456789-"), 1, D.INF))))
    outs, ev = sc.call(glob(sc.it, "string_percent_encode"), [
        s, const(safe)], kw)
    ok = C.of("".join(ALWAYS | set(safe) | set("%") | (
        {"+"} if plus else set())))
    ent = "string_percent_encode(%s)" % lang
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        if o.kind != "return":
            if o.exc.name in ("LookupError", "UnicodeError"):
                continue
            rep.check(None if lang != "utf-8" else False, "encoding never "
                      "fails", ent, o.exc.name, o.st)
            continue
        f = o.st.fact(o.v)
        rep.check(None if f.x or f.s is None else f.s.cs <= ok, "only safe "
                  "characters and escapes come out", ent, str(f)[:160], o.st)


# ---------------------------------------------------------------- C22

def plist(sc, prs, rec=NONE):
    p = sc.params("p", rec)
    lo = sc.st.heap["B:p"].f[sc.url_fields["list"]]
    sc.st.heap[lo.a[0]] = sc.st.heap[lo.a[0]].with_segs(tuple(
        ("i", tup(x)) for x in prs))
    return p, lo


def decide(st, a, b):
    """Forks on equality of two texts: [(st, bool)]."""
    t, f = compare(st, "==", a, b)
    return [(x, True) for x in t] + [(x, False) for x in f]


def same_text(g, w):
    if g is w:
        return True
    if bare(g) is bare(w) and "usv" in (g.op, w.op):
        return False           # kept with lone surrogates
    return False if g.op in ("sym", "in", "usv", "const") and w.op in (
        "sym", "in", "usv", "const") else None


def match_items(rep, R, ent, got, want, st):
    if got is None:
        rep.check(None, R, ent, "unknown", st)
        return
    if len(got) != len(want):
        rep.check(False, R, ent, "%s, not %s" % (
            str(got)[:160], str(want)[:120]), st)
        return
    res = []
    for g, w in zip(got, want):
        if isinstance(w, tuple):
            g = tup_items(g)
            if g is None or len(g) != len(w):
                res.append(None)
                continue
            res += [same_text(x, y) for x, y in zip(g, w)]
        else:
            res.append(same_text(g, w))
    ok = False if False in res else None if None in res else True
    rep.check(ok, R, ent, "%s, not %s" % (str(got)[:200], str(want)[:160]),
              st)


def seq_items(st, v):
    t = tup_items(v)
    if t is not None:
        return list(t)
    if v.op == "obj":
        h = st.heap.get(v.a[0])
        if h is not None and h.kind == "list" and all(
                s[0] == "i" for s in h.segs):
            return [s[1] for s in h.segs]
    if v.op == "tupseq" and all(s[0] == "i" for s in v.a[0]):
        return [s[1] for s in v.a[0]]
    return None


def listing(sc, o, v):
    """list(v) in every following state: [(st, items)]."""
    c = ctx0(sc.it)
    out = []
    for x, r in sc.it.call(mk("bltn", "list"), [v], {}, o.st.copy(), c,
                           NODE):
        out.append((x, seq_items(x, r)))
    return out


READ = ("get", "get_all", "has", "has2", "__contains__", "keys", "values",
        "entries", "__iter__", "__len__", "__getitem__")
WRITE = ("append", "set", "delete", "delete2")


def j_query(rep, name, n, spare="text"):
    sc = Scene(fine=True)
    sc.it.unroll_while = 2 * n + 4
    sc.it.apart = True
    prs = [(sym("n%d" % i, USVF), sym("v%d" % i, USVF)) for i in range(n)]
    p, lo = plist(sc, prs)
    a, b = sym("a", ANYSTR), sym("b", ANYSTR)
    m = name.rstrip("2")
    args = {"get": [a], "get_all": [a], "has": [a], "has2": [a, b],
            "__contains__": [a], "append": [a, b], "set": [a, b],
            "delete": [a], "delete2": [a, b]}.get(name, [])
    ua, ub = usv(a), usv(b)
    ent = "URLSearchParams.%s" % m
    if name == "__getitem__":
        for i in range(n):
            for o in sc.callm(p, m, [const(i)])[0]:
                if o.kind == "return":
                    match_items(rep, "indexing gives the pair", ent,
                                [o.v], [prs[i]], o.st)
        return
    outs, ev = sc.callm(p, m, args)
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        if o.kind != "return":
            rep.check(False, "queries and changes of a parameter list do "
                      "not fail", ent, o.exc.name, o.st)
            continue
        if name in ("keys", "values", "entries", "__iter__"):
            want = {"keys": [x for x, _ in prs],
                    "values": [y for _, y in prs]}.get(name, prs)
            for x, got in listing(sc, o, o.v):
                match_items(rep, "iteration gives every pair in order", ent,
                            got, want, x)
            continue
        if name == "__len__":
            f = o.st.fact(o.v)
            rep.check(o.v is const(n) or f == D.fint(n, n) or (
                False if f.meet(D.fint(n, n)).ncomp() == 0 else None),
                "len counts the pairs", ent, str(o.v), o.st)
            continue
        sts = [(o.st, [])]
        if args and name != "append":
            for i in range(n):
                sts = [(y, ms + [d]) for x, ms in sts
                       for y, d in decide(x, prs[i][0], ua)]
        else:
            sts = [(o.st, [False] * n)]
        if name in ("has2", "delete2"):
            for i in range(n):
                nxt = []
                for x, ms in sts:
                    if not ms[i]:
                        nxt.append((x, ms))
                        continue
                    for y, d in decide(x, prs[i][1], ub):
                        nxt.append((y, ms[:i] + [d] + ms[i + 1:]))
                sts = nxt
        for x, ms in sts:
            hit = [i for i in range(n) if ms[i]]
            if name == "get":
                R = "get gives the value of the first pair of the name"
                w = prs[hit[0]][1] if hit else NONE
                rep.check(same_text(o.v, w), R, ent, "%s, not %s" % (
                    str(o.v)[:80], w), x)
            elif name == "get_all":
                match_items(rep, "get_all gives the values of the name in "
                            "order", ent, seq_items(x, o.v),
                            [prs[i][1] for i in hit], x)
            elif m in ("has", "__contains__"):
                R = "has tells whether a pair matches"
                f = x.fact(o.v)
                w = D.TRUE if hit else D.FALSE
                rep.check(True if f == w else None if f == D.BOOL or f.x
                          else False, R, ent, "%s for %s" % (
                              str(o.v)[:60], ms), x)
            else:
                if name == "append":
                    want = prs + [(ua, ub)]
                elif m == "delete":
                    want = [q for i, q in enumerate(prs) if i not in hit]
                else:
                    want = [(q[0], ub) if hit and i == hit[0] else q
                            for i, q in enumerate(prs)
                            if i not in hit[1:]] + (
                        [] if hit else [(ua, ub)])
                t = x.heap["B:p"].f[sc.url_fields["list"]]
                got = seq_items(x, t)
                if name == "set" and got is not None and hit and \
                        len(got) == len(want):
                    # the name may be stored as either of two equal texts
                    got = [tup([want[i][0], tup_items(g)[1]])
                           if i == hit[0] and tup_items(g) and tup_items(
                               g)[0] in (ua, want[i][0]) else g
                           for i, g in enumerate(got)]
                match_items(rep, "%s changes exactly the pairs it should" %
                            m, ent, got, want, x)
    rep.check(bool(outs), "returns", ent, "never")


def j_store(rep, how):
    """The constructor stores pairs as scalar values, in order."""
    R = "pairs given are stored in order, lone surrogates replaced"
    sc = Scene(fine=True)
    if how in ("list", "tuple"):
        prs = [(sym("n%d" % i, ANYSTR), sym("v%d" % i, ANYSTR))
               for i in range(2)]
        a = tup([tup(x) for x in prs])
        if how == "list":
            a = sc.root("l", sc.lst("l", PAIR))
            sc.st.heap[a.a[0]] = sc.st.heap[a.a[0]].with_segs(tuple(
                ("i", tup(x)) for x in prs))
        want = [(usv(x), usv(y)) for x, y in prs]
        runs = [(a, want)]
    else:
        qsl_stub(sc)
        s = sym("s", Fact(s=D.mkstr(C.ANY, 1, D.INF,
                                    first=C.ANY - C.of("?"))))
        ref, ev = sc.call(glob(sc.it, "parse_qsl"), [encode(sc, s)])
        want = ref[0].st.heap[ref[0].v.a[0]].segs
        runs = [(s, want), (tcat([const("?"), s]), want)]
        s2 = tcat([const("??"), s])
        ref, ev = sc.call(glob(sc.it, "parse_qsl"), [encode(sc, tcat(
            [const("?"), s]))])
        runs.append((s2, ref[0].st.heap[ref[0].v.a[0]].segs))
    sc.params("p", NONE)
    for a, want in runs:
        outs, ev = sc.call(glob(sc.it, "URLSearchParams"), [a])
        rep.count("abstract outcomes", len(outs))
        for o in outs:
            if o.kind != "return":
                rep.check(False, R, how, "raises %s" % o.exc.name, o.st)
                continue
            t = o.st.heap[o.v.a[0]].f[sc.url_fields["list"]]
            if how in ("list", "tuple"):
                match_items(rep, R, "URLSearchParams(%s)" % how,
                            seq_items(o.st, t), want, o.st)
            else:
                g = o.st.heap[t.a[0]].segs
                rep.check(g == want or (False if all(
                    s[0] == "m" and s[1].op == "qsl" for s in g) else None),
                    "one leading ? is dropped and the rest is form-decoded",
                    "URLSearchParams(str)", "%s, not %s" % (
                        str(g)[:120], str(want)[:120]), o.st)
        rep.check(bool(outs), R, how, "never returns")


def encode(sc, s):
    r = call(sc.it, glob(sc.it, "utf8_encode"), [s], {}, sc.st, sc.ctx)[0]
    return r[0].v


BMPC = C.rng(0, 0xFFFF) - C.SURR
NAMES = {"any": (USV, 0, D.INF), "bmp": (BMPC, 1, 1),
         "astral": (C.rng(0x10000, C.MAX), 1, 1),
         "ffff": (C.of("\uffff"), 1, 1),
         "10000": (C.of("\U00010000"), 1, 1)}


def key_ok(st, key, name, val, units):
    """The key orders as the UTF-16 code units of the name do."""
    n = None
    if key.op == "ustr":
        n, key = key.a[1], key.a[0]
        if bare(key) is not bare(name):
            return False if key.op in ("sym", "in", "lower", "upper",
                                       "casefold") else None
        if n is NONE or n.op == "u16len" and bare(n.a[0]) is bare(name):
            return True
        f = st.fact(n)
        if units and f.i is not None and not f.x:
            if f.i.lo == f.i.hi:
                return f.i.lo == units
            return None if f.i.lo <= units <= f.i.hi else False
        if n.op == "len" and bare(n.a[0]) is bare(name):
            return False           # counts code points
        return True if units is None else None
    if key.op == "u16enc":
        if bare(key.a[0]) is not bare(name):
            return False if bare(key.a[0]).op in ("sym", "in") else None
        return cval(key.a[1]) in ("utf-16-be", "utf-16be")
    if key.op in ("sym", "in", "usv", "const", "u8enc", "len", "tuple"):
        t = tup_items(key)
        if t is not None and len(t) == 1:
            return key_ok(st, t[0], name, val, units)
        return False
    return None


def j_sort(rep, form):
    R = "pairs are sorted by the UTF-16 code units of their names, stably"
    cs, lo, hi = NAMES[form]
    sc = Scene(fine=True)
    prs = [(sym("n%d" % i, Fact(s=D.mkstr(cs, lo, hi))),
            sym("v%d" % i, USVF)) for i in range(2)]
    p, l = plist(sc, prs)
    outs, ev = sc.callm(p, "sort")
    rep.count("abstract outcomes", len(outs))
    pr = [tup(x) for x in prs]
    units = {"any": None, "bmp": 1, "ffff": 1}.get(form, 2)
    seen = 0
    for k, site, (keys, rev), unk in [e for e in ev if e[0] == "sortkey"]:
        if [e for e, _ in keys] and {e for e, _ in keys} != set(pr):
            continue
        seen += 1
        if rev is not None and not is_const(rev):
            rep.check(None, R, "sort " + site, "reverse=%s" % rev)
        else:
            rep.check(rev is None or not cval(rev), R, "sort " + site,
                      "in descending order")
        for e, key in keys:
            n, v = tup_items(e)
            rep.check(None if unk else key_ok(sc.st, key, n, v, units), R,
                      "sort " + site, "key %s for the name %s (%s)" % (
                          str(key)[:80], n, form))
    for o in outs:
        if o.kind != "return":
            rep.check(None, "sorting never fails", "sort", o.exc.name, o.st)
            continue
        t = o.st.heap["B:p"].f[sc.url_fields["list"]]
        got = seq_items(o.st, t)
        if got is not None:
            rep.check(False if got == pr and not seen else
                      None, R, "sort", "the list stays %s" % str(got)[:80],
                      o.st)
        else:
            rep.check(True if seen else None, R, "sort", "how it is sorted "
                      "is not known", o.st)
    rep.check(bool(outs), R, "sort", "never returns")
