"""C04: results depend on the arguments alone."""

from jobs_obj import *
import jobs_total as T
from engine.run import Outcome

FOREIGN = ("os", "time", "random", "secrets", "socket", "locale", "uuid",
           "subprocess", "threading", "datetime", "platform", "getpass",
           "tempfile", "shutil", "glob", "io", "urllib.request",
           "http", "sys.stdin", "sys.argv", "gc", "weakref")


def in_syms(t):
    """Inputs a term depends on."""
    return {s for s in t.syms if s.startswith("in:")}


def glob_state(st):
    """Module-level state: names of modules, objects made at import."""
    out = {}
    for f, e in st.frames.items():
        if isinstance(f, str) and f.startswith("mod:"):
            for n, v in e.items():
                out[f[4:] + "." + n] = v
    for o, h in st.heap.items():
        if o[:2] == "M:":
            if h.kind == "dict" or o[:7] == "M:memo:":
                continue
            if h.kind == "inst":
                for n, v in h.f.items():
                    out[o[2:] + "." + n] = v
            else:
                out[o[2:]] = (h.kind, h.segs, h.items)
    return out


def delta(a, b):
    return {k for k in set(a) | set(b) if a.get(k) != b.get(k)}


def opaque(v):
    """A value lost in a join or unknown."""
    return not isinstance(v, tuple) and v.op in ("sym", "phi", "sel") and \
        not str(v.a[0]).startswith("in:")


def reach(st, v, seen=None):
    """Heap objects reachable from a term."""
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        t = todo.pop()
        if t is None or not hasattr(t, "op"):
            continue
        if t.op == "obj":
            o = t.a[0]
            if o in seen:
                continue
            seen.add(o)
            h = st.heap.get(o)
            if h is None:
                continue
            todo += list(h.f.values())
            for s in h.segs:
                todo += [x for x in s[1:] if hasattr(x, "op")]
            for k, w in h.items:
                todo += [k, w]
        else:
            todo += [x for x in t.a if hasattr(x, "op")]
    return seen


def pure_rule(rep, sc, outs, ev, ent, again=None):
    """again: outcome -> outcomes of the same call with other inputs."""
    R = "module state is not changed in a way a later call can observe"
    items = {}
    for kind, site, det, taint in ev:
        w = "%s in %s" % (ent, site.split(":")[0] if isinstance(
            site, str) else site)
        if kind == "io":
            rep.check(False, "no input or output", "%s: %s" % (ent, det),
                      str(site))
        elif kind == "extcall":
            top = any(det == p or det.startswith(p + ".") for p in FOREIGN)
            rep.check(False if top else None, "no ambient state is read",
                      "%s: %s" % (ent, det), str(site))
        elif kind == "memo":
            rep.count("memoised functions reached")
        elif kind == "global-write":
            gk, tgt, k, v = det
            if gk == "item" and k is not None and v is not None:
                more = in_syms(v) - in_syms(k)
                rep.check(None if taint and more else not more, R,
                          "%s: %s[...]" % (ent, tgt),
                          "stored %s under %s at %s" % (
                              str(v)[:80], str(k)[:60], site))
                old = items.setdefault((tgt, k), v)
                if old is not v and not taint and v.op != "obj" and \
                        not opaque(v) and not opaque(old):
                    rep.check(False, R, "%s: %s[%s]" % (ent, tgt, k),
                              "two values under one key: %s, %s at %s" % (
                                  str(old)[:80], str(v)[:80], site))
            elif gk != "item" and str(tgt).startswith("M:memo:") or \
                    gk == "mutate" and not str(tgt).startswith("M:"):
                rep.check(False, R, "%s: %s" % (ent, tgt), str(site))
    g0 = glob_state(sc.st)
    first = {}
    for o in outs:
        g1 = glob_state(o.st)
        for k in sorted(delta(g0, g1)):
            v = g1.get(k)
            if k not in first and again is not None:
                first[k] = v
                lost = False
                for q in again(o):
                    g2 = glob_state(q.st)
                    if g2.get(k) == v:
                        continue
                    if opaque(g2.get(k)) or opaque(v):
                        lost = True
                        continue
                    rep.check(False, R, "%s: %s" % (ent, k),
                              "%s after one call, %s after two" % (
                                  str(v)[:80], str(g2.get(k))[:80]), q.st)
                rep.check(None if lost else True, R, "%s: %s" % (ent, k),
                          "set once", o.st)
            elif first.setdefault(k, v) != v:
                rep.check(None if opaque(v) or opaque(first[k]) else False,
                          R, "%s: %s" % (ent, k), "%s or %s, by path" % (
                              str(v)[:80], str(first[k])[:80]), o.st)
        v = o.v if o.kind == "return" else None
        if v is not None:
            m = sorted(x for x in reach(o.st, v) if x[:2] == "M:" and
                       mutable(o.st, x))
            rep.check(not m, "results share no mutable part with module "
                      "state", ent, "reaches %s" % m, o.st)
        if not delta(g0, g1):
            rep.check(True, R, ent, "unchanged", o.st)


def mutable(st, o):
    h = st.heap.get(o)
    if h is None or o == "M:logger":
        return False
    if h.kind in ("list", "dict"):
        return True
    if h.kind == "inst":
        ci = h.cls
        if isinstance(ci, str) or ci is None:
            return False
        return not (ci.namedtuple or (ci.dataclass or {}).get("frozen")) \
            and getattr(ci, "enum", None) is None and bool(h.f)
    return False


PARSES = (("none", "any"), ("special", "nocolon"), ("file", "rel"),
          ("opaque", "rel"))


def j_pure_parse(rep, kind, form):
    sc, outs, ev = parse_run(kind, form, rep=rep)

    def again(o):
        b = [] if kind == "none" else [obj("B:base")]
        st = o.st.copy()
        for x, h in sc.h0.items():
            st.heap[x] = h
        r, e = call(sc.it, glob(sc.it, "parse_url"),
                    [sym("s2", ANYSTR)] + b, {}, st)
        return r

    pure_rule(rep, sc, outs, ev, "parse_url", again)


def j_pure_set(rep, kind, attr):
    sc, outs, ev = set_run(kind, attr, rep=rep)

    def again(o):
        from engine.run import ctx0
        st = o.st.copy()
        for x, h in sc.h0.items():
            st.heap[x] = h
        c = ctx0(sc.it)
        res = sc.it.setattr(sc.u, attr, sym("v2", ANYSTR), st, c, NODE)
        return [Outcome("return", x, NONE) for x in res]

    pure_rule(rep, sc, outs, ev, "URL.%s setter" % attr, again)


READERS = {
    "URL": ("__str__",),
    "URLRecord": ("__str__", "__repr__", "serialize_host", "serialize_path",
                  "serialize_url", "has_opaque_path",
                  "includes_credentials"),
}
PREAD = (("get", 1), ("get_all", 1), ("has", 1), ("has", 2), ("keys", 0),
         ("values", 0), ("entries", 0), ("__len__", 0), ("__iter__", 0),
         ("__contains__", 1), ("__str__", 0), ("__repr__", 0),
         ("__getitem__", "int"), ("__eq__", "params"), ("__add__", "params"))


def kept(rep, sc, outs, h0, ent):
    for o in outs:
        bad = sorted(x for x, h in h0.items() if o.st.heap.get(x) != h)
        rep.check(not bad, "a query leaves its object and arguments as they "
                  "were", ent, "changed: %s" % bad, o.st)


def names(sc, cls):
    """Public names and kinds of attribute of a class."""
    ci = sc.it.classes.get("urlstd.parse." + cls)
    if ci is None:
        raise AnalysisBroken("%s is gone" % cls)
    return ci


def j_pure_get(rep, kind, cls):
    sc = Scene()
    u = sc.url("u", kind)
    r = sc.st.heap["B:u"].f[sc.url_fields["rec"]]
    o = u if cls == "URL" else r
    h0 = {x: h for x, h in sc.st.heap.items() if x[:2] == "B:"}
    ci = names(sc, cls)
    n = 0
    for a in sorted(set(ci.properties) | set(READERS[cls])):
        if a.startswith("_") and a not in READERS[cls]:
            continue
        if a in ci.properties:
            outs, ev = sc.get(o, a)
        else:
            outs, ev = sc.callm(o, a)
        n += 1
        ent = "%s.%s" % (cls, a)
        pure_rule(rep, sc, outs, ev, ent, lambda q: sc.get(o, a, q.st)[0]
                  if a in ci.properties else sc.callm(
                      o, a, st=q.st)[0])
        kept(rep, sc, outs, h0, ent)
    rep.check(n >= 6, "queries analysed", cls, "%d queries" % n)


def j_pure_params(rep, name, arg):
    sc = Scene()
    rec = sc.rec_kind("rec", "list")
    p = sc.params("p", rec)
    args = []
    if arg == "int":
        args = [sc.root("i", sym("i", D.fint(-2**31, 2**31)))]
    elif arg == "params":
        args = [sc.params("q", NONE)]
    else:
        args = [sc.root("a%d" % i, sym("a%d" % i, ANYSTR))
                for i in range(arg)]
    h0 = {x: h for x, h in sc.st.heap.items() if x[:2] == "B:"}
    outs, ev = sc.callm(p, name, args)
    ent = "URLSearchParams.%s" % name
    rep.count("abstract outcomes", len(outs))
    pure_rule(rep, sc, outs, ev, ent,
              lambda q: sc.callm(p, name, args, None, q.st)[0])
    kept(rep, sc, outs, h0, ent)
    if name == "__add__":
        own = {o for o, h in h0.items() if o.startswith(("B:p", "B:q"))}
        for o in outs:
            if o.kind == "return":
                m = reach(o.st, o.v) & own
                rep.check(not m, "a new list shares nothing with the old",
                          ent, str(sorted(m)), o.st)


def j_pure_new(rep, how):
    """The constructor and urlencode keep their argument."""
    sc = Scene()
    if how == "list":
        a = sc.root("l", sc.lst("l", PAIR))
    elif how == "params":
        a = sc.params("p", NONE)
    elif how == "record":
        a = sc.rec_kind("r", "list")
    else:
        a = sc.root("s", sym("s", ANYSTR))
    h0 = {x: h for x, h in sc.st.heap.items() if x[:2] == "B:"}
    for f in ("URLSearchParams", "urlencode", "parse_qsl"):
        if f == "urlencode" and how != "list" or \
                f == "parse_qsl" and how != "str":
            continue
        outs, ev = sc.call(glob(sc.it, f), [a])
        rep.count("abstract outcomes", len(outs))
        pure_rule(rep, sc, outs, ev, f,
                  lambda q: call(sc.it, glob(sc.it, f), [a], {}, q.st)[0])
        kept(rep, sc, outs, h0, f)
        for o in outs:
            if o.kind == "return" and how != "record":
                m = reach(o.st, o.v) & set(h0)
                rep.check(not m, "the result shares nothing mutable with "
                          "the argument", f, str(sorted(m)), o.st)


SIMPLE = (("Host", "parse"), ("IDNA", "domain_to_ascii"),
          ("IDNA", "domain_to_unicode"), ("IPv4Address", "parse"),
          ("IPv6Address", "parse"))
FUNCS = (("string_percent_decode", "s"), ("utf8_decode", "b"),
         ("utf8_encode", "s"), ("utf8_percent_encode", "s"),
         ("string_percent_encode", "s"), ("parse_qsl", "b"),
         ("urlparse", "s"))


def j_pure_call(rep, cls, name):
    sc = Scene()
    s = sc.root("s", sym("s", ANYSTR))
    kw = {}
    if cls is None:
        fn = sc.it.funcs.get("urlstd.parse." + name)
        if fn is None:
            raise AnalysisBroken("%s is gone" % name)
        f = glob(sc.it, name)
        ann = [a.arg for a in fn.node.args.args]
    else:
        f = sc.method(cls, name)
        fn = sc.it.funcs.get("urlstd.parse.%s.%s" % (cls, name))
        ann = [a.arg for a in fn.node.args.args] if fn else []
    if "be_strict" in ann:
        kw["be_strict"] = sc.root("strict", sym("strict", D.BOOL))
    if "is_not_special" in ann:
        kw["is_not_special"] = sc.root("ns", sym("ns", D.BOOL))
    if "safe" in ann:
        kw["safe"] = const("/")
    if dict(FUNCS).get(name) == "b":
        s = sc.root("b", sym("b", D.BYTES))
    h0 = {x: h for x, h in sc.st.heap.items() if x[:2] == "B:"}
    if name == "urlparse":
        T.parse_stub(sc)
    outs, ev = sc.call(f, [s], kw)
    rep.count("abstract outcomes", len(outs))
    ent = "%s.%s" % (cls, name) if cls else name
    pure_rule(rep, sc, outs, ev, ent,
              lambda q: call(sc.it, f, [sym("s2", ANYSTR)], kw, q.st)[0])
    kept(rep, sc, outs, h0, ent)
