"""Jobs over finished URLs: serialisation, getters, equality, origin."""

from jobs_parse import *


def in_fields(t, name="u.rec"):
    """Record fields a term depends on, '?' for anything else."""
    out = set()
    for s in t.syms:
        for pre in ("in:%s." % name,):
            if s.startswith(pre):
                out.add(s[len(pre):].split(".")[0])
                break
        else:
            out.add("?")
    for x in t_walk(t):
        if x.op == "obj":
            out.add("path" if x.a[0].startswith("B:%s.path" % name) else "?")
    return out


from engine.terms import walk as t_walk


def v4_byte(t, host):
    """k when t is byte k (0 = lowest) of the host number."""
    if t.op == "str":
        t = t.a[0]
    k = None
    if t.op == "mod" and cval_is(t.a[1], 256):
        k, x = 0, t.a[0]
    elif t.op in ("bitand", "and") and cval_is(t.a[1], 255):
        k, x = 0, t.a[0]
    else:
        return None
    while x is not host:
        if x.op == "floordiv" and is_const(x.a[1]):
            d = cval(x.a[1])
            while d > 1 and d % 256 == 0:
                d //= 256
                k += 1
            if d != 1:
                return None
            x = x.a[0]
        elif x.op in ("rshift", "shr") and is_const(x.a[1]) and cval(
                x.a[1]) % 8 == 0:
            k += cval(x.a[1]) // 8
            x = x.a[0]
        else:
            return None
    return k


def cval_is(t, v):
    return is_const(t) and cval(t) == v


class Shape:
    """The pieces of a serialisation against what they have to be."""

    def __init__(self, o, h, name="u.rec"):
        self.o, self.h, self.name = o, h, name
        self.f = {k: o.st.fact(h.f[k]) for k in FIELDS
                  if h.f[k].op != "obj"}

    def definite(self, k):
        """True: present, False: absent (None), None: unknown."""
        f = self.f[k]
        if f.none:
            return False if f.ncomp() == 1 else None
        return True

    def nonempty(self, k):
        f = self.f[k]
        if f.s is None or f.ncomp() != 1:
            return None
        return True if f.s.lo >= 1 else False if f.s.hi == 0 else None

    def tokens(self, t):
        """The term as a list: constant characters and (field, term)."""
        out = []
        for p in cat_pieces(t):
            if is_const(p):
                v = cval(p)
                if not isinstance(v, str):
                    return None
                out += list(v)
                continue
            d = in_fields(p, self.name)
            out.append((frozenset(d), p))
        return out

    # expected pieces: ("c", text) | ("f", field) | ("host",) | ("path",)
    def match(self, t, want):
        """True / False / None and a word about it."""
        tk = self.tokens(t)
        if tk is None:
            return None, "not text"
        i = 0
        soft = ""
        for w in want:
            if w[0] == "c":
                for ch in w[1]:
                    if i >= len(tk):
                        return self.neg(soft), "%r missing" % w[1]
                    if tk[i] != ch:
                        if isinstance(tk[i], tuple) and self.foreign(tk[i]):
                            return None, "cannot tell %s" % str(tk[i])[:80]
                        return self.neg(soft), "%r expected, found %s" % (
                            w[1], self.show(tk[i]))
                    i += 1
            elif w[0] == "f":
                k = w[1]
                x = self.h.f[k]
                if is_const(x) and isinstance(cval(x), str):
                    v = list(cval(x))
                    if tk[i:i + len(v)] != v:
                        return self.neg(soft), "%s expected" % k
                    i += len(v)
                    continue
                only = self.f[k].s.only if self.f[k].s is not None and \
                    self.f[k].ncomp() == 1 else None
                if only is not None and len(only) == 1 and tk[
                        i:i + len(next(iter(only)))] == list(
                        next(iter(only))):
                    i += len(next(iter(only)))
                    continue
                if self.nonempty(k) is False:
                    if i < len(tk) and isinstance(tk[i], tuple) and tk[
                            i][1] is x:
                        i += 1
                    continue
                if i >= len(tk):
                    return self.neg(soft), "%s missing" % k
                if not isinstance(tk[i], tuple):
                    return self.neg(soft), "%s expected, found %r" % (
                        k, tk[i])
                if tk[i][1] is x or k == "port" and tk[i][1].op == "str" \
                        and tk[i][1].a[0] is x:
                    i += 1
                elif tk[i][0] == {k} or self.foreign(tk[i]):
                    soft = "cannot compare %s" % str(tk[i][1])[:80]
                    i += 1
                else:
                    return self.neg(soft), "%s expected, found %s" % (
                        k, self.show(tk[i]))
            elif w[0] == "host":
                i, ok, msg = self.host(tk, i)
                if ok is not True:
                    if ok is False:
                        return self.neg(soft), msg
                    soft = soft or msg
            elif w[0] == "path":
                i, ok, msg = self.path(tk, i)
                if ok is not True:
                    if ok is False:
                        return self.neg(soft), msg
                    soft = soft or msg
        if i < len(tk):
            rest = tk[i:]
            if any(isinstance(x, tuple) and self.foreign(x) for x in rest):
                return None, "cannot tell %s" % str(rest)[:80]
            return self.neg(soft), "extra %s" % [self.show(x) for x in rest]
        return (None, soft) if soft else (True, "")

    def neg(self, soft):
        return None if soft else False

    def foreign(self, tok):
        return "?" in tok[0] or not tok[0]

    def show(self, x):
        return repr(x) if isinstance(x, str) else str(x[1])[:80]

    def host(self, tk, i):
        h = self.h.f["host"]
        f = self.f["host"]
        if f.ncomp() != 1:
            return i, None, "host kind unknown"
        if f.s is not None:
            if is_const(h) or f.s.only is not None and len(f.s.only) == 1:
                v = list(cval(h) if is_const(h) else next(iter(f.s.only)))
                if tk[i:i + len(v)] == v:
                    return i + len(v), True, ""
            if self.nonempty("host") is False:
                if i < len(tk) and isinstance(tk[i], tuple) and \
                        tk[i][1] is h:
                    i += 1
                return i, True, ""
            if i < len(tk) and isinstance(tk[i], tuple):
                if tk[i][1] is h:
                    return i + 1, True, ""
                if tk[i][0] == {"host"} or self.foreign(tk[i]):
                    return i + 1, None, "cannot compare the host"
            return i, False, "host expected"
        if f.i is not None:
            got, j = [], i
            while j < len(tk) and (isinstance(tk[j], tuple) and (
                    tk[j][0] == {"host"} or self.foreign(tk[j])) or
                    tk[j] == "." and j > i):
                got.append(tk[j])
                j += 1
            if len(got) == 7 and got[1::2] == [".", ".", "."]:
                ks = [v4_byte(x[1], h) if isinstance(x, tuple) else None
                      for x in got[0::2]]
                if ks == [3, 2, 1, 0]:
                    return j, True, ""
                if None not in ks:
                    return j, False, "IPv4 bytes in order %s" % ks
            if not got:
                return i, False, "IPv4 address expected"
            if any(isinstance(x, tuple) and v4_byte(x[1], h) is None
                   for x in got):
                return j, None, "cannot compare the IPv4 text"
            return j, False, "IPv4 address expected, found %s" % [
                self.show(x) for x in got]
        # IPv6: [ ... ]
        if i < len(tk) and tk[i] == "[":
            j = i
            while j < len(tk) and tk[j] != "]":
                j += 1
            if j < len(tk) and j > i + 1:
                return j + 1, True, ""
            return i, False, "unclosed IPv6 address"
        if i < len(tk) and isinstance(tk[i], tuple) and (
                tk[i][0] == {"host"} or self.foreign(tk[i])):
            return i + 1, None, "cannot compare the IPv6 text"
        return i, False, "[ expected"

    def path(self, tk, i):
        p = self.h.f["path"]
        if p.op != "obj":
            if i < len(tk) and isinstance(tk[i], tuple) and tk[i][1] is p:
                return i + 1, True, ""
            if self.nonempty("path") is False:
                return i, True, ""
            if i < len(tk) and isinstance(tk[i], tuple) and (
                    tk[i][0] == {"path"} or self.foreign(tk[i])):
                return i + 1, None, "cannot compare the path"
            return i, False, "opaque path expected"
        n = path_len(self.o, self.h)
        g = self.o.st.heap[p.a[0]]
        if n[1] == 0:
            return i, True, ""
        j = i
        seen = []
        while j < len(tk) and (tk[j] == "/" or isinstance(
                tk[j], tuple) and (tk[j][0] == {"path"} or
                                   self.foreign(tk[j]))):
            seen.append(tk[j])
            j += 1
        if not seen:
            return i, (False if n[0] >= 1 else None), "path expected"
        # '/' + segment for every segment
        want = []
        for s in g.segs:
            if s[0] == "i":
                want += ["/", ("i", s[1])]
            else:
                want.append(("m", s[1], s[2]))
        if len(want) == len(seen) == 1 and isinstance(seen[0], tuple):
            t = seen[0][1]
            if t.op == "sfold":
                a = cat_pieces(t.a[0])
                if len(a) == 2 and cval_is(a[0], "/") and a[1].op == "item" \
                        and a[1].a[0] is want[0][1] and a[1].a[1].op == "idx":
                    return j, True, ""
                if not any(is_const(x) for x in a) or is_const(
                        a[0]) and cval(a[0]) != "/":
                    return j, False, "segments are not joined by '/': %s" % \
                        str(t)[:100]
        if n[0] == n[1] == len([x for x in seen if isinstance(x, tuple)]) \
                and len(want) == 1:
            P = want[0][1]
            k = 0
            good = len(seen) == 2 * n[0]
            for q in range(0, len(seen) - 1, 2):
                good = good and seen[q] == "/" and isinstance(
                    seen[q + 1], tuple) and seen[q + 1][1].op == "item" and \
                    seen[q + 1][1].a[0] is P and cval_is(
                        seen[q + 1][1].a[1], k)
                k += 1
            if good:
                return j, True, ""
            if all(x == "/" or x[1].op == "item" for x in seen):
                return j, False, "path is %s" % [self.show(x) for x in seen]
        return j, None, "cannot compare the path %s" % [
            self.show(x) for x in seen][:2]


def want_host(sh):
    """Pieces of host[:port], or None when they depend on more."""
    w = [("host",)]
    d = sh.definite("port")
    if d is None:
        return None
    if d:
        w += [("c", ":"), ("f", "port")]
    return w


def want_url(sh, frag=True):
    w = [("f", "scheme"), ("c", ":")]
    h = sh.definite("host")
    if h is None:
        return None
    if h:
        w.append(("c", "//"))
        a, b = sh.nonempty("username"), sh.nonempty("password")
        if a is None and b is not True or b is None:
            return None
        if a or b:
            w.append(("f", "username"))
            if b:
                w += [("c", ":"), ("f", "password")]
            w.append(("c", "@"))
        x = want_host(sh)
        if x is None:
            return None
        w += x
    elif sh.h.f["path"].op == "obj":
        n = path_len(sh.o, sh.h)
        g = sh.o.st.heap[sh.h.f["path"].a[0]]
        e = sh.o.st.fact(g.segs[0][1] if g.segs and g.segs[0][0] == "i"
                         else mk("item", g.segs[0][1], const(0))) \
            if g.segs else None
        if n[0] >= 2 and e is not None and e.s is not None and e.s.hi == 0:
            w.append(("c", "/."))
        elif not (n[1] <= 1 or e is not None and e.s is not None and
                  e.s.lo >= 1):
            return None
    w.append(("path",))
    for k, c in (("query", "?"), ("fragment", "#")):
        if k == "fragment" and not frag:
            continue
        d = sh.definite(k)
        if d is None:
            return None
        if d:
            w += [("c", c), ("f", k)]
    return w


def shape_rule(rep, o, h, want, ent, rule):
    if o.kind != "return":
        rep.check(False, rule, ent, "raises %s" % o.exc.name, o.st)
        return
    sh = Shape(o, h)
    w = want(sh)
    if w is None:
        rep.check(None, rule, ent, "a part's presence is undecided", o.st)
        return
    ok, msg = sh.match(o.v, w)
    rep.check(ok, rule, ent, msg and "%s in %s (expected %s)" % (
        msg, str(o.v)[:160], " ".join(x[-1] for x in w)) or str(
            o.v)[:160], o.st)


def rec_of(sc, o):
    oid, h = rec_after(sc, o)
    return h


def j_serial(rep, kind):
    sc = Scene(fine=True)
    u = sc.url("u", kind)
    r = sc.st.heap["B:u"].f[sc.url_fields["rec"]]
    R = "the serialisation is the concatenation the standard prescribes"
    runs = [(sc.callm(r, "serialize_url"), True, "URLRecord.serialize_url"),
            (sc.callm(r, "serialize_url", [TRUE_]), False,
             "URLRecord.serialize_url(exclude_fragment)"),
            (sc.callm(r, "__str__"), True, "str(URLRecord)"),
            (sc.get(r, "href"), True, "URLRecord.href"),
            (sc.callm(u, "__str__"), True, "str(URL)"),
            (sc.get(u, "href"), True, "URL.href")]
    for (outs, ev), fr, ent in runs:
        rep.count("abstract outcomes", len(outs))
        for o in outs:
            shape_rule(rep, o, o.st.heap["B:u.rec"],
                       lambda sh: want_url(sh, fr), ent, R)
            untouched(rep, sc, o, ent)


def untouched(rep, sc, o, ent):
    bad = [x for x, h in sc.st.heap.items() if x[:2] == "B:" and
           o.st.heap.get(x) != h]
    rep.check(not bad, "reading changes nothing", ent, "changed %s" % bad,
              o.st)


def pieces_getters():
    def opt(field, c):
        def f(sh):
            d = sh.definite(field)
            if d is None:
                return None
            if not d:
                return []
            e = sh.nonempty(field)
            return None if e is None else [
                ("c", c), ("f", field)] if e else []
        return f

    def host(sh):
        d = sh.definite("host")
        return None if d is None else want_host(sh) if d else []

    def hostname(sh):
        d = sh.definite("host")
        return None if d is None else [("host",)] if d else []

    def port(sh):
        d = sh.definite("port")
        return None if d is None else [("f", "port")] if d else []

    return {"protocol": lambda sh: [("f", "scheme"), ("c", ":")],
            "username": lambda sh: [("f", "username")],
            "password": lambda sh: [("f", "password")],
            "host": host, "hostname": hostname, "port": port,
            "pathname": lambda sh: [("path",)],
            "search": opt("query", "?"), "hash": opt("fragment", "#")}


def j_getters(rep, kind):
    R = "every getter returns exactly its part of the serialisation"
    sc = Scene(fine=True)
    u = sc.url("u", kind)
    for a, want in pieces_getters().items():
        outs, ev = sc.get(u, a)
        rep.count("abstract outcomes", len(outs))
        for o in outs:
            shape_rule(rep, o, o.st.heap["B:u.rec"], want, "URL.%s" % a, R)
            untouched(rep, sc, o, "URL.%s" % a)


from engine.terms import TRUE as TRUE_


# ------------------------------------------------------------------ C15

SIMPLE = dict(username=const(""), password=const(""))


def small(sc, name, kind):
    """A record of the kind with few variants."""
    over = {}
    if kind in ("special", "list", "file"):
        over = dict(SIMPLE, host=S(HOSTC, 1), query=NONE)
        if kind == "special":
            over["password"] = S(USERINFO, 1)
    return sc.rec_kind(name, kind, **over)


def eq_rule(rep, sc, o, frag, ent):
    R = "equal exactly when the serialisations are equal"
    if o.kind != "return":
        rep.check(False, R, ent, "raises %s" % o.exc.name, o.st)
        return
    H = [o.st.heap["B:a"], o.st.heap["B:b"]]
    if o.v.op == "cmp" and o.v.a[0] == "==":
        res = []
        for order in ((0, 1), (1, 0)):
            r = []
            for t, j in zip(o.v.a[1:3], order):
                sh = Shape(o, H[j], "ab"[j])
                w = want_url(sh, frag)
                r.append((None, "undecided") if w is None else
                         sh.match(t, w))
            ok = False if any(x[0] is False for x in r) else None if any(
                x[0] is None for x in r) else True
            res.append((ok, "; ".join(x[1] for x in r if x[1])))
        best = res[0] if res[0][0] is not False else res[1]
        rep.check(best[0], R, ent, best[1] or str(o.v)[:200], o.st)
        return
    if o.v is TRUE_:
        # every field of both has been compared
        eqs = set()
        for t, f in o.st.facts.items():
            if t.op == "cmp" and t.a[0] == "==" and f == D.TRUE:
                eqs |= t.syms
        miss = []
        for k in FIELDS:
            if k == "blob_url_entry" or k == "fragment" and not frag:
                continue
            ta, tb = H[0].f[k], H[1].f[k]
            if ta is tb or not (ta.syms or tb.syms):
                continue
            if isnone(o.st.fact(ta)) and isnone(o.st.fact(tb)):
                continue
            if k == "path":
                if any("a.path" in s for s in eqs) and any(
                        "b.path" in s for s in eqs):
                    continue
            elif ta.syms <= eqs and tb.syms <= eqs:
                continue
            miss.append(k)
        rep.check(not miss and None, R, ent, "equal without comparing %s" %
                  miss, o.st) if not miss else rep.check(
            False, R, ent, "equal without comparing %s" % miss, o.st)
        return
    if o.v.op == "const" and cval(o.v) is False:
        why = sum(1 for t, f in o.st.facts.items() if t.op == "cmp" and
                  f == D.FALSE)
        rep.check(None if why else False, R, ent,
                  "unequal without a comparison", o.st)
        return
    dep = {s.split(".")[1] for s in o.v.syms if s.startswith("in:")}
    if not frag and "fragment" in dep:
        rep.check(False, R, ent, "the fragment decides: %s" % o.v, o.st)
        return
    rep.check(None, R, ent, "cannot compare %s" % str(o.v)[:200], o.st)


def j_equal(rep, k1, k2, frag, via):
    sc = Scene(fine=True)
    a, b = small(sc, "a", k1), small(sc, "b", k2)
    ent = "URLRecord.%s" % via
    if via == "__eq__":
        outs, ev = sc.callm(a, "__eq__", [b])
    else:
        outs, ev = sc.callm(a, "equals", [b] + ([] if frag else [TRUE_]))
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        eq_rule(rep, sc, o, frag, ent)


def j_equal_url(rep, k1, k2, frag, via):
    """URL objects over two records."""
    sc = Scene(fine=True)
    a = small(sc, "a", k1)
    b = small(sc, "b", k2)
    u = url_over(sc, "u", a)
    v = url_over(sc, "v", b)
    ent = "URL.%s" % via
    if via == "__eq__":
        outs, ev = sc.callm(u, "__eq__", [v])
    else:
        outs, ev = sc.callm(u, "equals", [v] + ([] if frag else [TRUE_]))
    for o in outs:
        eq_rule(rep, sc, o, frag, ent)


def url_over(sc, name, rec):
    u = sc.url(name, "opaque")
    st = sc.st
    rf = sc.url_fields["rec"]
    h = st.heap["B:" + name]
    st.heap["B:" + name] = h.setf(rf, rec)
    hp = st.heap["B:%s.params" % name]
    if sc.url_fields["back"]:
        st.heap["B:%s.params" % name] = hp.setf(sc.url_fields["back"], rec)
    return u


def j_equal_other(rep):
    """Never equal to something that is no URL."""
    sc = Scene(fine=True)
    a = small(sc, "a", "opaque")
    u = sc.url("u", "opaque")
    for x, n in ((a, "URLRecord"), (u, "URL")):
        for other in (const("x:y"), NONE, const(1), u if x is a else a):
            outs, ev = sc.callm(x, "__eq__", [other])
            for o in outs:
                ok = o.kind == "return" and o.v.op == "const" and (
                    cval(o.v) is False or cval(o.v) is NotImplemented)
                if o.kind == "return" and o.v.op not in ("const", "cmp"):
                    ok = None
                rep.check(ok, "a URL is not equal to anything else",
                          "%s.__eq__" % n, "%s for %s" % (o.v, other), o.st)


# ------------------------------------------------------------------ C16


def j_origin(rep, kind):
    sc = Scene(fine=True)
    over = {}
    if kind in ("list", "emptyhost", "nohost", "opaque"):
        s = nonspecial_scheme().s
        over["scheme"] = Fact(s=D.mkstr(s.cs, 1, INF, excl=s.excl | {"blob"},
                                        first=s.first))
    u = sc.url("u", kind, **over)
    r = sc.st.heap["B:u"].f[sc.url_fields["rec"]]
    R = "the origin is scheme, host and port of a network URL, else opaque"
    h0 = sc.st.heap["B:u.rec"]
    outs, ev = sc.get(r, "origin")
    for o in outs:
        ent = "URLRecord.origin"
        untouched(rep, sc, o, ent)
        if o.kind != "return":
            rep.check(False, R, ent, "raises %s" % o.exc.name, o.st)
        elif kind != "special":
            rep.check(isnone(o.st.fact(o.v)), R, ent + " of %s" % kind,
                      "is %s" % str(o.v)[:80], o.st)
        else:
            f = origin_fields(sc, o)
            if f is None:
                rep.check(False if o.v is NONE else None, R, ent,
                          str(o.v)[:80], o.st)
                continue
            bad = [k for k in ("scheme", "host", "port")
                   if f[k] is not h0.f[k] and not same_const(o, f[k],
                                                             h0.f[k])]
            rep.check(not bad and isnone(o.st.fact(f["domain"])), R, ent,
                      "%s differ: %s" % (bad, {k: str(x)[:60] for k, x in
                                               f.items()}), o.st)
    outs, ev = sc.get(u, "origin")
    for o in outs:
        ent = "URL.origin"
        untouched(rep, sc, o, ent)
        if kind == "special":
            shape_rule(rep, o, o.st.heap["B:u.rec"],
                       lambda sh: (lambda w: w and [
                           ("f", "scheme"), ("c", "://")] + w)(
                           want_host(sh)), ent, R)
        else:
            ok = o.kind == "return" and o.st.fact(o.v).s is not None and \
                o.st.fact(o.v).s.only == {"null"}
            rep.check(ok, R, ent + " of %s" % kind, str(o.v)[:80], o.st)


def same_const(o, a, b):
    fa, fb = o.st.fact(a), o.st.fact(b)
    if fa.ncomp() != 1 or fa != fb:
        return False
    return fa.none or fa.s is not None and fa.s.only is not None and len(
        fa.s.only) == 1 or fa.i is not None and fa.i.lo == fa.i.hi


def origin_fields(sc, o):
    if o.v.op == "tuple" and len(o.v.a[0]) == 4:
        return dict(zip(("scheme", "host", "port", "domain"), o.v.a[0]))
    if o.v.op == "obj":
        h = o.st.heap.get(o.v.a[0])
        if h is not None and all(k in h.f for k in ("scheme", "host", "port",
                                                    "domain")):
            return {k: h.f[k] for k in ("scheme", "host", "port", "domain")}
    return None


def j_origin_blob(rep):
    """blob: URLs take the origin of the http(s) URL in their path."""
    sc = Scene(fine="coarse")
    r = sc.rec_kind("r", "opaque", scheme=const("blob"), query=NONE,
                    fragment=NONE)
    R = "a blob URL has the origin of the http(s) URL it holds, or none"
    outs, ev = sc.get(r, "origin")
    n = 0
    for o in outs:
        ent = "URLRecord.origin of blob"
        if o.kind != "return":
            rep.check(False, R, ent, "raises %s" % o.exc.name, o.st)
            continue
        if o.v is NONE:
            rep.check(True, R, ent, "opaque", o.st)
            continue
        f = origin_fields(sc, o)
        if f is None:
            rep.check(None, R, ent, str(o.v)[:80], o.st)
            continue
        n += 1
        s = o.st.fact(f["scheme"]).s
        rep.check(s is not None and s.only is not None and s.only <= {
            "http", "https"}, R, ent, "scheme may be %s" % o.st.fact(
                f["scheme"]), o.st)
    rep.check(n > 0 or None, R, "URLRecord.origin of blob",
              "some origin is given")


def j_same_origin(rep):
    sc = Scene(fine=True)
    host = S(HOSTC, 1)
    def org(n):
        fs = [sym("%s.scheme" % n, special_scheme()), sym("%s.host" % n,
              host), opt("%s.port" % n, D.fint(0, 65535)),
              opt("%s.domain" % n, S(HOSTC, 1))]
        return sc.root(n, sc.make("Origin", fs)), fs
    a, fa = org("a")
    b, fb = org("b")
    names = ("scheme", "host", "port", "domain")

    def compared(o):
        """Names known equal, names known different."""
        eq, ne = set(), set()
        facts = dict(o.st.facts)
        for k, x, y in zip(names, fa, fb):
            for p, q in ((x, y), (y, x)):
                f = facts.get(mk("cmp", "==", p, q))
                if f == D.TRUE:
                    eq.add(k)
                elif f == D.FALSE:
                    ne.add(k)
                if o.v.op == "cmp" and o.v.a[0] == "==" and o.v.a[
                        1] is p and o.v.a[2] is q:
                    eq.add(k)
            if same_const(o, x, y):
                eq.add(k)
            if o.st.fact(x).meet(o.st.fact(y)).is_bot():
                ne.add(k)
        return eq, ne

    outs, ev = sc.callm(a, "is_same_origin", [b])
    R = "same origin exactly when scheme, host and port are equal"
    for o in outs:
        ent = "Origin.is_same_origin"
        same_rule(rep, R, ent, o, compared(o), [{"scheme", "host", "port"}])
    outs, ev = sc.callm(a, "is_same_origin_domain", [b])
    R = "same origin-domain as the standard prescribes"
    for o in outs:
        ent = "Origin.is_same_origin_domain"
        eq, ne = compared(o)
        d = [o.st.fact(x) for x in (fa[3], fb[3])]
        need = [{"scheme", "domain"}] if not (d[0].none or d[1].none) else []
        if isnone(d[0]) and isnone(d[1]):
            need = [{"scheme", "host", "port"}]
        same_rule(rep, R, ent, o, (eq, ne), need, d)


def j_same_origin_equal(rep):
    """Two origins with the same parts."""
    sc = Scene(fine=True)
    fs = [sym("a.scheme", special_scheme()), sym("a.host", S(HOSTC, 1)),
          opt("a.port", D.fint(0, 65535))]
    for why, d in (("no domains", NONE),
                   ("the same domain", sym("a.domain", S(HOSTC, 1)))):
        a = sc.root("a", sc.make("Origin", fs + [d]))
        b = sc.root("b", sc.make("Origin", fs + [d]))
        for m in ("is_same_origin", "is_same_origin_domain"):
            outs, ev = sc.callm(a, m, [b])
            for o in outs:
                f = o.st.fact(o.v) if o.kind == "return" else None
                rep.check(f is not None and (o.v is TRUE_ or f == D.TRUE),
                          "equal origins with %s are the same" % why,
                          "Origin." + m, str(o.v)[:80], o.st)


def same_rule(rep, R, ent, o, cmps, need, d=None):
    eq, ne = cmps
    if o.kind != "return":
        rep.check(False, R, ent, "raises %s" % o.exc.name, o.st)
        return
    may = o.v is TRUE_ or o.v.op == "cmp"
    if may:
        rep.check(any(n <= eq for n in need), R, ent,
                  "true knowing only %s equal%s" % (
                      sorted(eq), d and " with domains %s" % (
                          [str(x)[:30] for x in d]) or ""), o.st)
        return
    if o.v.op == "const" and cval(o.v) is False:
        bad = any(n <= eq for n in need)
        rep.check(not bad, R, ent,
                  "false although %s are equal" % sorted(eq), o.st)
        return
    rep.check(None, R, ent, str(o.v)[:100], o.st)
