"""Abstract inputs: records, URL objects, parameter lists, arbitrary strings."""

from engine import charset as C
from engine import domain as D
from engine.domain import Fact, TupF
from engine.interp import Interp
from engine.loader import AnalysisBroken
from engine.run import NODE, call, ctx0, glob, start
from engine.state import HObj, newsym
from engine.terms import NONE, const, mk, obj

FIELDS = ("scheme", "username", "password", "host", "port", "path", "query",
          "fragment", "blob_url_entry")
SPECIAL = ("ftp", "file", "http", "https", "ws", "wss")
NET = frozenset(SPECIAL) - {"file"}
DEFAULT_PORT = {"ftp": 21, "http": 80, "https": 443, "ws": 80, "wss": 443,
                "file": None}

PRINT = C.CharSet(((0x21, 0x7E),))
SCHEME_REST = C.of("abcdefghijklmnopqrstuvwxyz0123456789+-.")
LOWER = C.of("abcdefghijklmnopqrstuvwxyz")
DOTS = frozenset(
    [a for a in (".", "%2e", "%2E")] +
    [a + b for a in (".", "%2e", "%2E") for b in (".", "%2e", "%2E")])
USERINFO = PRINT - C.of("/:;=@[]^|?`{}\"#<>\\")
PATHC = PRINT - C.of("?`{}\"#<>/")
QUERYC = PRINT - C.of("\"#<>")
FRAGC = PRINT - C.of("\"<>`")
HOSTC = PRINT - C.of("%#/:<>?@[\\]^|ABCDEFGHIJKLMNOPQRSTUVWXYZ")
OHOSTC = PRINT - C.of("#/:<>?@[\\]^|")

S = D.fstr
ANYSTR = D.STR
USV = C.ANY - C.SURR
PAIR = Fact(t=TupF((S(USV), S(USV))))


def v6fact():
    return Fact(t=TupF(None, D.fint(0, 65535), 8, 8))


def special_scheme(names=NET):
    return Fact(s=D.mkstr(only=frozenset(names)))


def nonspecial_scheme():
    return Fact(s=D.mkstr(SCHEME_REST, 1, D.INF, excl=frozenset(SPECIAL),
                          first=LOWER))


def any_scheme():
    return Fact(s=D.mkstr(SCHEME_REST, 1, D.INF, first=LOWER))


def sym(name, fact):
    return newsym("in:" + name, fact)


def opt(name, fact):
    return newsym("in:" + name, fact.join(D.NONE))


class Scene:
    """An interpreter, a start state, and a driver context."""

    def __init__(self, it=None, fine=False):
        self.it = it or Interp()
        self.it.fine = fine
        self.st = start(self.it)
        self.ctx = ctx0(self.it)

    def root(self, name, v):
        self.st.frames["drv"][name] = v
        return v

    def make(self, cls, args=(), kw=None):
        res = self.it.call(glob(self.it, cls), list(args), kw or {}, self.st,
                           self.ctx, NODE)
        if len(res) != 1 or self.ctx.sink.raises:
            raise AnalysisBroken("%s() does not construct" % cls)
        self.st, v = res[0]
        return v

    def lst(self, name, elem, lo=0, hi=D.INF):
        """A list of unknown length of elements with the given fact."""
        P = newsym("in:%s" % name, Fact(t=TupF(None, elem, lo, hi)))
        oid = "B:" + name
        self.st.heap[oid] = HObj("list", segs=(("m", P, mk("len", P)),))
        return obj(oid)

    def record(self, name, **f):
        """A URLRecord whose fields are given terms or facts."""
        v = self.make("URLRecord")
        oid = v.a[0]
        h = self.st.heap.pop(oid)
        for k, t in h.f.items():
            if t.op == "obj" and t.a[0] in self.st.heap and k not in f:
                self.st.heap["B:%s.%s" % (name, k)] = self.st.heap.pop(
                    t.a[0])
                h = h.setf(k, obj("B:%s.%s" % (name, k)))
            elif t.op == "obj" and t.a[0] in self.st.heap:
                self.st.heap.pop(t.a[0])
        for k in FIELDS:
            if k not in h.f:
                raise AnalysisBroken("URLRecord has no field %s" % k)
        for k, x in f.items():
            h = h.setf(k, self.val("%s.%s" % (name, k), x))
        nid = "B:" + name
        self.st.heap[nid] = h
        return self.root(name, obj(nid))

    def val(self, name, x):
        if isinstance(x, Fact):
            return newsym("in:" + name, x)
        if isinstance(x, tuple) and x and x[0] == "list":
            return self.lst(name, *x[1:])
        return x

    def rec_kind(self, name, kind, **over):
        """A record of one of the reachable kinds."""
        U = S(USERINFO)
        q, fr = S(QUERYC).join(D.NONE), S(FRAGC).join(D.NONE)
        port = D.fint(0, 65535).join(D.NONE)
        special = kind in ("special", "file")
        seg = Fact(s=D.mkstr(PATHC - C.of("\\") if special else PATHC,
                             excl=DOTS))
        if special:
            q = S(QUERYC - C.of("'")).join(D.NONE)
        if kind == "special":
            f = dict(scheme=special_scheme(), username=U, password=U,
                     host=S(HOSTC, 1).join(D.fint(0, 2**32 - 1)).join(
                         v6fact()),
                     port=port, path=("list", seg, 1))
        elif kind == "file":
            f = dict(scheme=const("file"), username=const(""),
                     password=const(""),
                     host=S(HOSTC).join(D.fint(0, 2**32 - 1)).join(v6fact()),
                     port=NONE, path=("list", seg, 1))
        elif kind == "list":       # not special, path is a list, has a host
            f = dict(scheme=nonspecial_scheme(), username=U, password=U,
                     host=S(OHOSTC, 1).join(v6fact()), port=port,
                     path=("list", seg, 0))
        elif kind == "emptyhost":
            f = dict(scheme=nonspecial_scheme(), username=const(""),
                     password=const(""), host=const(""), port=NONE,
                     path=("list", seg, 0))
        elif kind == "nohost":
            f = dict(scheme=nonspecial_scheme(), username=const(""),
                     password=const(""), host=NONE, port=NONE,
                     path=("list", seg, 1))
        elif kind == "opaque":
            f = dict(scheme=nonspecial_scheme(), username=const(""),
                     password=const(""), host=NONE, port=NONE,
                     path=S(PRINT | C.of(" ")))
        else:
            raise KeyError(kind)
        f["query"], f["fragment"] = q, fr
        f.update(over)
        return self.record(name, **f)

    def url(self, name, kind, **over):
        """A URL object over a record of the kind, and its parameters."""
        v = self.make("URL", [const("x:y")])
        st = self.st
        h = st.heap[v.a[0]]
        rf = pf = lf = bf = None
        for k, t in h.f.items():
            c = st.heap.get(t.a[0]) if t.op == "obj" else None
            cn = getattr(c.cls, "name", None) if c is not None else None
            if cn == "URLRecord":
                rf = k
            elif cn == "URLSearchParams":
                pf = k
        if rf is None or pf is None:
            raise AnalysisBroken("URL holds no record or no parameters")
        rec0, par0 = h.f[rf], h.f[pf]
        hp = st.heap[par0.a[0]]
        for k, t in hp.f.items():
            if t is rec0:
                bf = k
            elif t.op == "obj" and st.heap[t.a[0]].kind == "list":
                lf = k
        if lf is None:
            raise AnalysisBroken("URLSearchParams holds no list")
        self.url_fields = dict(rec=rf, params=pf, list=lf, back=bf)
        for o in list(st.heap):
            if o[:2] in ("A:", "H:"):
                del st.heap[o]
        rec = self.rec_kind(name + ".rec", kind, **over)
        lst = self.lst(name + ".list", PAIR)
        st = self.st
        par = obj("B:%s.params" % name)
        hp = hp.setf(lf, lst)
        if bf is not None:
            hp = hp.setf(bf, rec)
        st.heap[par.a[0]] = hp
        u = obj("B:" + name)
        st.heap[u.a[0]] = h.setf(rf, rec).setf(pf, par)
        return self.root(name, u)

    def params(self, name, attached=None):
        """A URLSearchParams with an arbitrary list; attached: a record."""
        v = self.make("URLSearchParams", [])
        st = self.st
        h = st.heap.pop(v.a[0])
        lf = [k for k, t in h.f.items() if t.op == "obj" and
              st.heap[t.a[0]].kind == "list"]
        bf = [k for k, t in h.f.items() if t is NONE]
        if len(lf) != 1 or len(bf) != 1:
            raise AnalysisBroken("URLSearchParams has another shape")
        h = h.setf(lf[0], self.lst(name + ".list", PAIR))
        if attached is not None:
            h = h.setf(bf[0], attached)
        self.url_fields = dict(list=lf[0], back=bf[0])
        st.heap["B:" + name] = h
        return self.root(name, obj("B:" + name))

    def set(self, o, attr, v):
        """Outcomes of  o.attr = v."""
        from engine.run import Outcome
        st = self.st.copy()
        ctx = ctx0(self.it)
        res = self.it.setattr(o, attr, v, st, ctx, NODE)
        out = [Outcome("return", x, NONE) for x in res]
        out += [Outcome("raise", x, None, e) for x, e in ctx.sink.raises]
        return out, ctx.sink.events

    def get(self, o, attr, st=None):
        """Outcomes of  o.attr."""
        from engine.run import Outcome
        st = (st or self.st).copy()
        ctx = ctx0(self.it)
        res = self.it.getattr(o, attr, st, ctx, NODE)
        out = [Outcome("return", x, v) for x, v in res]
        out += [Outcome("raise", x, None, e) for x, e in ctx.sink.raises]
        return out, ctx.sink.events

    def callm(self, o, name, args=(), kw=None, st=None):
        """Outcomes of  o.name(*args)."""
        from engine.run import Outcome
        st = (st or self.st).copy()
        ctx = ctx0(self.it)
        res = self.it.callm(o, name, list(args), kw or {}, st, ctx, NODE)
        out = [Outcome("return", x, v) for x, v in res]
        out += [Outcome("raise", x, None, e) for x, e in ctx.sink.raises]
        return out, ctx.sink.events

    def method(self, cls, name):
        r = self.it.getattr(glob(self.it, cls), name, self.st, self.ctx, NODE)
        if not r:
            raise AnalysisBroken("%s.%s is gone" % (cls, name))
        return r[0][1]

    def call(self, fn, args=(), kw=None):
        return call(self.it, fn, list(args), kw or {}, self.st, self.ctx)


KINDS = ("special", "file", "list", "emptyhost", "nohost", "opaque")
