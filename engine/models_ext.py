"""Models of the library functions and classes the package relies on."""

import re as _re
import string as _string

try:
    import re._parser as sre_parse
except ImportError:  # pragma: no cover
    import sre_parse

from . import charset as C
from . import domain as D
from .domain import Fact, IntF, INF
from .loader import ClassInfo
from .logic import list_len, truth
from .state import HObj, item, refine
from .terms import (EMPTYS, EnumVal, FALSE, NONE, T, TRUE, cat, const, cval,
                    is_const, lin_add, mk, obj, tup, tup_items)

ALWAYS_SAFE = _string.ascii_letters + _string.digits + "_.-~"

# IDNA error bits whose absence is not needed for the result to be a plain
# lower-case ASCII name (length and hyphen placement only)
HARMLESS = {"UIDNA_ERROR_" + n for n in (
    "HYPHEN_3_4", "LEADING_HYPHEN", "TRAILING_HYPHEN", "EMPTY_LABEL",
    "LABEL_TOO_LONG", "DOMAIN_NAME_TOO_LONG")}

LOGM = ("debug", "info", "warning", "error", "exception", "critical", "log")


class ExtMixin:
    def ext_attr(self, dotted):
        if dotted.startswith("string."):
            v = getattr(_string, dotted[7:], None)
            if isinstance(v, str):
                return const(v)
        return mk("ext", dotted)

    def call_ext(self, dotted, args, kw, st, ctx, node):
        if any(a.op == "star" for a in args):
            st = st.copy()
            return [(st, self.unknown(st, "star call of " + dotted, node,
                                      ctx))]
        nm = dotted.replace("icupy.icu.", "icu.")
        last = nm.rsplit(".", 1)[-1]
        m = getattr(self, "x__" + nm.replace(".", "_"), None)
        if m is not None:
            return m(args, kw, st, ctx, node)
        st = st.copy()
        if last.endswith(("Error", "Exception")):
            return [(st, self.new(st, ctx, node, HObj("inst", "exc." + last, {
                "args": tup(args)}), ":" + last))]
        if nm in ("typing.TypeVar", "typing.cast"):
            return [(st, args[-1] if last == "cast" else self.fresh(
                st, "typevar", D.UNKNOWN))]
        self.event(ctx, "extcall", node, dotted, st)
        return [(st, self.unknown(st, "call of " + dotted, node, ctx))]

    # ---------------------------------------------------------------- enum
    def x__enum_auto(self, args, kw, st, ctx, node):
        return [(st, mk("ext", "enum.auto()"))]

    # ------------------------------------------------------------- logging
    def x__logging_setLoggerClass(self, args, kw, st, ctx, node):
        if args[0].op == "class":
            self.logger_class = self.classes[args[0].a[0]]
        self.event(ctx, "global-write", node, (
            "mutate", "logging.setLoggerClass", None, None), st)
        return [(st, NONE)]

    def x__logging_getLoggerClass(self, args, kw, st, ctx, node):
        return [(st, mk("ext", "logging.Logger"))]

    def x__logging_getLogger(self, args, kw, st, ctx, node):
        n = args[0] if args else NONE
        oid = "M:logger:%s" % (cval(n) if is_const(n) else "?")
        if oid not in st.heap:
            st = st.copy()
            st.heap[oid] = HObj("inst", self.logger_class or "logging.Logger")
        return [(st, obj(oid))]

    def x__logging_NullHandler(self, args, kw, st, ctx, node):
        return [(st, mk("ext", "logging.NullHandler()"))]

    # ---------------------------------------------------------------- copy
    def x__copy_copy(self, args, kw, st, ctx, node, deep=False, memo=None):
        v = args[0]
        if v.op != "obj":
            if deep and v.op == "tuple":
                its = []
                for i in v.a[0]:
                    r = self.x__copy_copy([i], {}, st, ctx, node, True, memo)
                    st, t = r[0]
                    its.append(t)
                return [(st, tup(its))]
            return [(st, v)]
        memo = {} if memo is None else memo
        if v in memo:
            return [(st, memo[v])]
        h = st.heap.get(v.a[0])
        if h is None:
            return [(st, self.unknown(st, "copy", node, ctx))]
        if h.kind == "inst" and isinstance(h.cls, ClassInfo):
            for m in ("__deepcopy__" if deep else "__copy__",):
                if h.cls.lookup(m)[1] is not None:
                    a = [const(())] if deep else []
                    return self.callm(v, m, a, {}, st, ctx, node)
        st = st.copy()
        o = self.new(st, ctx, node, h, ":copy")
        memo[v] = o
        if deep:
            def fn(t):
                nonlocal st
                if t.op in ("obj", "tuple"):
                    st, t = self.x__copy_copy([t], {}, st, ctx, node, True,
                                              memo)[0]
                return t
            st.heap[o.a[0]] = h.map(fn)
            n = st.heap[o.a[0]]
            st = st.copy()
            st.heap[o.a[0]] = h.map(lambda t: memo.get(t, t) if t.op == "obj"
                                    else fn(t))
        return [(st, o)]

    def x__copy_deepcopy(self, args, kw, st, ctx, node):
        return self.x__copy_copy(args, kw, st, ctx, node, True)

    def x__dataclasses_replace(self, args, kw, st, ctx, node):
        r = self.x__copy_copy(args, {}, st, ctx, node)
        st, o = r[0]
        st = st.copy()
        for k, v in kw.items():
            st.heap[o.a[0]] = st.heap[o.a[0]].setf(k, v)
        return [(st, o)]

    # -------------------------------------------------------------- urllib
    def quote(self, args, kw, st, ctx, node, plus):
        s = args[0]
        safe = self.arg(args, kw, 1, "safe", const("" if plus else "/"))
        enc = self.arg(args, kw, 2, "encoding", NONE)
        err = self.arg(args, kw, 3, "errors", NONE)
        out = []
        for x, k in self.kinds(st, s):
            if k == "y":
                if enc is not NONE or err is not NONE:
                    self.raise_(x, ctx, "TypeError", node,
                                "quote() doesn't support 'encoding' for "
                                "bytes")
                    continue
                out.append((x, self.mk_quote(s, safe, plus, const(None), x,
                                             ctx, node)))
                continue
            if k != "s":
                if k == "x":
                    out.append((x, self.unknown(x, "quote", node, ctx,
                                                D.STR)))
                else:
                    self.raise_(x, ctx, "TypeError", node, "quote()")
                continue
            from .models_str import norm_enc
            e = norm_enc(enc) if enc is not NONE else "utf-8"
            f = x.fact(s).s
            m = "strict" if err is NONE else (
                cval(err) if is_const(err) else None)
            if e == "utf-8" and f.cs & C.SURR and m == "strict":
                y = x.copy()
                self.raise_(y, ctx, "UnicodeEncodeError", node,
                            "surrogate in strict utf-8 encoding")
                n = D.mkstr(f.cs - C.SURR, f.lo, f.hi, f.only, f.excl,
                            f.first, f.last, f.enc)
                x = x.copy()
                if n is None or not refine(x, s, Fact(s=n)):
                    continue
            if e == "utf-8" and not (f.cs & C.SURR) or e == "utf-8" and \
                    m == "strict":
                out.append((x, self.mk_quote(s, safe, plus, const("utf-8"), x,
                                             ctx, node)))
                continue
            if not f.cs <= C.ASCII:
                self.raise_(x.copy(), ctx, "UnicodeEncodeError", node,
                            "encoding %s" % (e or enc,))
            out.append((x, self.mk_quote(
                s, safe, plus, enc if e is None else const(e), x, ctx, node)))
        return out

    def mk_quote(self, s, safe, plus, enc, st, ctx, node):
        if not is_const(safe):
            return self.unknown(st, "quote with a non-constant safe set",
                                node, ctx, D.STR)
        sv = cval(safe)
        if isinstance(sv, bytes):
            sv = sv.decode("latin-1")
        full = "".join(sorted(set(c for c in sv if ord(c) < 128) | set(
            ALWAYS_SAFE)))
        self.event(ctx, "quote", node, (s, full, plus, enc), st)
        if is_const(s) and is_const(enc) and cval(enc) in ("utf-8", None):
            import urllib.parse as u
            v = cval(s)
            fn = u.quote_plus if plus else u.quote
            try:
                return const(fn(v, sv))
            except UnicodeEncodeError:
                pass
        return mk("quote", s, const(full), const(bool(plus)), enc)

    def x__urllib_parse_quote(self, args, kw, st, ctx, node):
        return self.quote(args, kw, st, ctx, node, False)

    def x__urllib_parse_quote_plus(self, args, kw, st, ctx, node):
        return self.quote(args, kw, st, ctx, node, True)

    def x__urllib_parse_quote_from_bytes(self, args, kw, st, ctx, node):
        return self.quote(args, kw, st, ctx, node, False)

    def x__urllib_parse_unquote_to_bytes(self, args, kw, st, ctx, node):
        out = []
        for x, k in self.kinds(st, args[0]):
            v = args[0]
            if k == "s":
                for y, b in self.encode(v, const("utf-8"), const("strict"), x,
                                        ctx, node):
                    out.append((y, self.mk_pctdec(b, y)))
            elif k == "y":
                out.append((x, self.mk_pctdec(v, x)))
            elif k == "x":
                out.append((x, self.unknown(x, "unquote", node, ctx,
                                            D.BYTES)))
            else:
                self.raise_(x, ctx, "AttributeError", node, "unquote")
        return out

    def mk_pctdec(self, b, st):
        if is_const(b):
            import urllib.parse as u
            return const(u.unquote_to_bytes(cval(b)))
        f = st.fact(b)
        if f.y is not None and "%" not in f.y.cs:
            return b
        return mk("pctdec", b)

    def x__urllib_parse_ParseResult(self, args, kw, st, ctx, node):
        n = ("scheme", "netloc", "path", "params", "query", "fragment")
        vals = dict(zip(n, args))
        vals.update(kw)
        if set(vals) != set(n) or len(args) > 6:
            self.raise_(st, ctx, "TypeError", node, "ParseResult()")
            return []
        return [(st, mk("rec", "ParseResult", tuple(
            (k, vals[k]) for k in n)))]

    # -------------------------------------------------------------- codecs
    def x__codecs_iterencode(self, args, kw, st, ctx, node):
        s = args[0]
        enc = self.arg(args, kw, 1, "encoding")
        err = self.arg(args, kw, 2, "errors", const("strict"))
        if is_const(err) and cval(err) == "strict":
            self.raise_(st.copy(), ctx, "UnicodeEncodeError", node,
                        "iterencode")
        st = st.copy()
        q = mk("encparts", s, enc, err)
        return [(st, mk("iter", "seq", q))]

    def x__codecs_lookup(self, args, kw, st, ctx, node):
        self.raise_(st.copy(), ctx, "LookupError", node, "codecs.lookup")
        return [(st, mk("rec", "CodecInfo", (("name", mk(
            "codecname", args[0])),)))]

    # ------------------------------------------------------------------ re
    def x__re_compile(self, args, kw, st, ctx, node):
        fl = self.arg(args, kw, 1, "flags", const(0))
        if not is_const(args[0]):
            return [(st, self.unknown(st, "re.compile", node, ctx))]
        try:
            _re.compile(cval(args[0]))
        except _re.error as e:
            self.raise_(st, ctx, "error", node, str(e))
            return []
        f = 0
        if is_const(fl):
            f = int(cval(fl))
        else:
            names = [x.a[0] for x in (fl.a[0] if fl.op == "bor" else [fl])
                     if x.op == "ext"]
            for n in names:
                f |= int(getattr(_re, n.rsplit(".", 1)[-1], 0))
        return [(st, mk("rx", cval(args[0]), f))]

    def _re_fn(name):
        def fn(self, args, kw, st, ctx, node):
            r = self.x__re_compile([args[0]], {}, st, ctx, node)
            out = []
            for x, rx in r:
                if rx.op == "rx":
                    out += self.rx_method(rx, name, args[1:], kw, x, ctx,
                                          node)
                else:
                    out.append((x, self.unknown(x, "re." + name, node, ctx)))
            return out
        return fn

    for _n in ("search", "match", "fullmatch", "sub", "finditer", "findall",
               "split"):
        locals()["x__re_" + _n] = _re_fn(_n)
    del _n, _re_fn

    def rx_method(self, rx, name, args, kw, st, ctx, node):
        pat, fl = rx.a
        if name == "sub":
            rep, s = args[0], args[1]
        else:
            rep, s = None, args[0]
        if is_const(s) and isinstance(cval(s), (str, bytes)) and (
                rep is None or is_const(rep)):
            r = _re.compile(pat, fl)
            if name == "sub":
                return [(st, const(r.sub(cval(rep), cval(s))))]
            if name in ("search", "match", "fullmatch"):
                m = getattr(r, name)(cval(s))
                if m is None:
                    return [(st, NONE)]
                return [(st, mk("match", "const", (m.group(),) + m.groups(),
                                m.span(), tuple(sorted(
                                    r.groupindex.items()))))]
            if name == "findall":
                return self.lift(r.findall(cval(s)), st, ctx, node)
        out = []
        for x, k in self.kinds(st, s):
            if k not in ("s", "y"):
                if k == "x":
                    out.append((x, self.unknown(x, "re." + name, node, ctx)))
                else:
                    self.raise_(x, ctx, "TypeError", node,
                                "expected string or bytes-like object")
                continue
            out += self.rx_str(rx, name, rep, s, x, ctx, node, k)
        return out

    def rx_str(self, rx, name, rep, s, st, ctx, node, k):
        shape = rx_shape(rx.a[0], rx.a[1])
        f = st.fact(s)
        sf = f.s if k == "s" else f.y
        kind = shape[0]
        if name in ("search", "match", "fullmatch"):
            if kind == "cls" and name == "search":
                # a single character of the class occurs anywhere
                if not sf.cs & shape[1]:
                    return [(st, NONE)]
                out = []
                n = st.copy()
                c = D.mkstr(sf.cs - shape[1], sf.lo, sf.hi, sf.only, sf.excl,
                            sf.first, sf.last, sf.enc)
                if s.op == "cat" and any(is_const(q) and C.of(cval(q)) &
                                         shape[1] for q in s.a[0]
                                         if k == "s"):
                    c = None      # a known piece holds one
                if c is not None and refine(n, s, Fact(**{k: c})):
                    out.append((n, NONE))
                y = st.copy()
                if sf.only is not None:
                    o = [w for w in sf.only if C.of(w) & shape[1]]
                    c = D.mkstr(only=o) if o else None
                else:
                    c = D.mkstr(sf.cs, max(1, sf.lo), sf.hi, None, sf.excl,
                                sf.first, sf.last, sf.enc)
                if c is not None and refine(y, s, Fact(**{k: c})):
                    out.append((y, mk("match", rx, s, mk("pred", "m", s))))
                return out
            if kind == "ends" and name == "search":
                cs = shape[1]
                out = []
                n = st.copy()
                c = D.mkstr(sf.cs, sf.lo, sf.hi, sf.only, sf.excl,
                            sf.first - cs, sf.last - cs, sf.enc)
                if c is not None and refine(n, s, Fact(**{k: c})):
                    out.append((n, NONE))
                y = st.copy()
                c = D.mkstr(sf.cs, max(1, sf.lo), sf.hi, sf.only, sf.excl,
                            sf.first, sf.last, sf.enc)
                if (sf.first | sf.last) & cs and c is not None and refine(
                        y, s, Fact(**{k: c})):
                    out.append((y, mk("match", rx, s, mk("pred", "m", s))))
                return out
            if kind in ("rep", "cls") and name == "fullmatch":
                cs, lo, hi = (shape[1], 1, 1) if kind == "cls" else shape[1:]
                out = []
                y = st.copy()
                c = D.mkstr(sf.cs & cs, max(lo, sf.lo), min(hi, sf.hi),
                            sf.only, sf.excl, sf.first, sf.last, sf.enc)
                if c is not None and refine(y, s, Fact(**{k: c})):
                    out.append((y, mk("match", rx, s, mk("pred", "m", s))))
                if not (sf.cs <= cs and sf.lo >= lo and sf.hi <= hi):
                    n = st.copy()
                    ok = True
                    if sf.cs <= cs and hi == INF and lo == 1:
                        ok = refine(n, s, Fact(**{k: D.sconst("")}))
                    elif lo == 0 and hi == INF:
                        ok = refine(n, s, Fact(**{k: D.mkstr(sf.cs, 1)}))
                    if ok:
                        out.append((n, NONE))
                return out
            y, n = st.copy(), st.copy()
            p = mk("pred", "re:" + name, s, const(rx.a[0]))
            out = []
            if y.facts.get(p) is not D.FALSE and refine(y, p, D.TRUE):
                out.append((y, mk("match", rx, s, p)))
            if n.facts.get(p) is not D.TRUE and refine(n, p, D.FALSE):
                out.append((n, NONE))
            return out
        if name == "sub":
            if kind == "cls" or kind == "rep" and shape[2] >= 1:
                if not sf.cs & shape[1]:
                    return [(st, s)]
                if is_const(rep) and isinstance(cval(rep), (str, bytes)) and \
                        "\\" not in str(cval(rep)):
                    if self.split_cat and s.op == "cat" and rep is EMPTYS \
                            and all(is_const(q) or not st.fact(q).x and
                                    st.fact(q).s is not None and
                                    not st.fact(q).s.cs & shape[1]
                                    for q in s.a[0]):
                        return [(st, cat([const("".join(
                            c for c in cval(q) if c not in shape[1]))
                            if is_const(q) else q for q in s.a[0]]))]
                    return [(st, mk("resub", s, const(shape[1]), rep))]
            if kind == "ends" and rep is EMPTYS:
                return [(st, self.mk_strip(s, const("".join(
                    sorted(shape[1].chars()))), "b", st))]
            if kind == "start" and rep is EMPTYS:
                return [(st, self.mk_strip(s, const("".join(
                    sorted(shape[1].chars()))), "l", st))]
            if kind == "end" and rep is EMPTYS:
                return [(st, self.mk_strip(s, const("".join(
                    sorted(shape[1].chars()))), "r", st))]
            st = st.copy()
            return [(st, self.unknown(st, "re.sub", node, ctx,
                                      D.STR if k == "s" else D.BYTES))]
        if name == "finditer":
            st = st.copy()
            q = mk("rxiter", rx, s)
            return [(st, mk("iter", "seq", q))]
        if name == "findall":
            st = st.copy()
            r = _re.compile(rx.a[0], rx.a[1])
            q = mk("rxall", rx, s)
            if r.groups:
                q = self.unknown(st, "findall with groups", node, ctx)
            return [(st, self.new(st, ctx, node, HObj("list", segs=(
                ("m", q, mk("len", q)),))))]
        if name == "split":
            st = st.copy()
            q = self.unknown(st, "re.split", node, ctx)
            return [(st, self.new(st, ctx, node, HObj("list", segs=(
                ("m", q, mk("len", q)),))))]
        st = st.copy()
        return [(st, self.unknown(st, "re." + name, node, ctx))]

    def match_group(self, m, i, st, ctx, node):
        if m.a[0] == "const":
            if not is_const(i):
                return [(st, self.unknown(st, "group", node, ctx))]
            k = cval(i)
            if isinstance(k, str):
                k = dict(m.a[3]).get(k, -1)
            if 0 <= k < len(m.a[1]):
                return [(st, const(m.a[1][k]))]
            self.raise_(st, ctx, "IndexError", node, "no such group")
            return []
        if is_const(i) and cval(i) == 0:
            return [(st, mk("mgroup", m, i))]
        r = _re.compile(m.a[0].a[0], m.a[0].a[1]) if m.a[0] is not None and \
            isinstance(m.a[0], T) and m.a[0].op == "rx" else None
        if r is not None and is_const(i) and isinstance(cval(i), int):
            if not 0 <= cval(i) <= r.groups:
                self.raise_(st, ctx, "IndexError", node, "no such group")
                return []
            st = st.copy()
            # a group that did not take part is None
            return [(st, mk("mgroup", m, i))]
        st = st.copy()
        return [(st, self.unknown(st, "group", node, ctx))]

    def re_truth(self, v, st, ctx, node):
        return truth(st, v)

    # --------------------------------------------------------- ext objects
    def ext_method(self, o, name, args, kw, st, ctx, node):
        op = o.op
        if op == "rx":
            if name in ("search", "match", "fullmatch", "sub", "finditer",
                        "findall", "split"):
                return self.rx_method(o, name, args, kw, st, ctx, node)
        if op == "match":
            if name == "group":
                if len(args) <= 1:
                    return self.match_group(o, args[0] if args else const(0),
                                            st, ctx, node)
            if name in ("start", "end") and o.a[0] == "const" and not args:
                return [(st, const(o.a[2][name == "end"]))]
            if name in ("start", "end"):
                st = st.copy()
                return [(st, self.fresh(st, "m%s:%s" % (
                    name, self.site(ctx, node)), D.NAT))]
        if op == "icu":
            return self.icu_method(o, name, args, kw, st, ctx, node)
        if op == "bltn":
            if o.a[0] in ("str", "bytes", "dict", "list", "int") and args:
                if o.a[0] == "dict" and name == "fromkeys":
                    return [(st, self.unknown(st, "fromkeys", node, ctx))]
                return self.callm(args[0], name, args[1:], kw, st, ctx, node)
        if op == "rec" and name in ("geturl",):
            st = st.copy()
            return [(st, self.fresh(st, "geturl", D.STR))]
        if op == "rec" and name == "_replace":
            d = [(k, kw.get(k, v)) for k, v in o.a[1]]
            return [(st, mk("rec", o.a[0], tuple(d)))]
        if op == "iter" and name in ("__iter__",):
            return [(st, o)]
        if op == "cset":
            s = o.a[0]
            if name in ("isdisjoint", "intersection", "issubset"):
                q = args[0]
                return [(st, mk("pred", "cset." + name, s, q))]
        if op == "class" and self.classes[o.a[0]].enum:
            pass
        st = st.copy()
        return [(st, self.unknown(st, "%s.%s" % (op, name), node, ctx))]

    def inst_method(self, o, h, name, args, kw, st, ctx, node):
        """Method of an external base class or of an external object."""
        cls = h.cls
        if isinstance(cls, ClassInfo):
            if cls.namedtuple:
                if name == "_replace":
                    st = st.copy()
                    n = h
                    for k, v in kw.items():
                        if k not in h.f:
                            self.raise_(st, ctx, "ValueError", node, k)
                            return []
                        n = n.setf(k, v)
                    return [(st, self.new(st, ctx, node, n, ":repl"))]
                if name == "_asdict":
                    st = st.copy()
                    return [(st, self.new(st, ctx, node, HObj(
                        "dict", items=tuple((const(f), h.f[f]) for f, _ in
                                            cls.fields))))]
            if self.is_logger(cls):
                return self.log_call(name, args, kw, st, ctx, node)
            if name in ("__eq__", "__ne__"):
                return [(st, mk("cmp", "is" if name == "__eq__"
                                else "is not", o, args[0]))]
            if name in ("__str__", "__repr__"):
                st = st.copy()
                return [(st, mk("repr", o))]
            if name == "__init__":
                return [(st, NONE)]
            if name == "__hash__":
                return [(st, mk("hash", o))]
            if name == "with_traceback":
                return [(st, o)]
            st = st.copy()
            return [(st, self.unknown(st, "method %s of %s" % (
                name, cls.name), node, ctx))]
        c = str(cls)
        if c == "logging.Logger":
            return self.log_call(name, args, kw, st, ctx, node)
        if c.startswith("icu."):
            return self.icu_inst(o, h, name, args, kw, st, ctx, node)
        if c.startswith("exc.") and name == "with_traceback":
            return [(st, o)]
        st = st.copy()
        return [(st, self.unknown(st, "method %s of %s" % (name, c), node,
                                  ctx))]

    def log_call(self, name, args, kw, st, ctx, node):
        if name in LOGM:
            bad = [k for k in kw if k not in (
                "exc_info", "stack_info", "stacklevel", "extra", "**")]
            if bad:
                self.raise_(st, ctx, "TypeError", node,
                            "Logger.%s(%s=)" % (name, bad[0]))
                return []
            self.event(ctx, "log", node, (name, tuple(args)), st)
            return [(st, NONE)]
        if name in ("isEnabledFor", "hasHandlers"):
            st = st.copy()
            return [(st, self.fresh(st, "logenabled", D.BOOL))]
        if name in ("addHandler", "setLevel", "addFilter"):
            self.event(ctx, "global-write", node, (
                "mutate", "logger." + name, None, None), st)
            return [(st, NONE)]
        st = st.copy()
        return [(st, self.unknown(st, "logger." + name, node, ctx))]

    # ----------------------------------------------------------------- icu
    def x__icu_IDNAInfo(self, args, kw, st, ctx, node):
        st = st.copy()
        return [(st, self.new(st, ctx, node, HObj(
            "inst", "icu.IDNAInfo", {"errors": const(0)})))]

    def x__icu_UnicodeString(self, args, kw, st, ctx, node):
        if not args:
            st = st.copy()
            return [(st, self.new(st, ctx, node, HObj(
                "inst", "icu.UnicodeString", {"v": EMPTYS})))]
        v = args[0]
        out = []
        for x, k in self.kinds(st, v):
            if k == "s":
                s = x.fact(v).s
                if s.cs & C.SURR:
                    y = x.copy()
                    self.raise_(y, ctx, "TypeError", node,
                                "UnicodeString() of a string with lone "
                                "surrogates")
                    n = D.mkstr(s.cs - C.SURR, s.lo, s.hi, s.only, s.excl,
                                s.first, s.last, s.enc)
                    x = x.copy()
                    if n is None or not refine(x, v, Fact(s=n)):
                        continue
            elif k == "y":
                pass
            elif k == "x":
                x.taint("UnicodeString of an unknown value [%s]" % self.site(
                    ctx, node))
            else:
                self.raise_(x, ctx, "TypeError", node, "UnicodeString()")
                continue
            x = x.copy()
            out.append((x, self.new(x, ctx, node, HObj(
                "inst", "icu.UnicodeString", {
                    "v": v, "n": args[1] if len(args) > 1 else NONE}))))
        return out

    def x__icu_IDNA_create_uts46_instance(self, args, kw, st, ctx, node):
        self.raise_(st.copy(), ctx, "ICUError", node, "ICU failure")
        self.event(ctx, "uts46", node, args[0], st)
        return [(st, mk("icu", "idna", args[0]))]

    def icu_method(self, o, name, args, kw, st, ctx, node):
        if o.a[0] == "idna" and name in ("name_to_ascii", "name_to_unicode",
                                         "label_to_ascii",
                                         "label_to_unicode"):
            src, dest, info = (list(args) + [None] * 3)[:3]
            hs = st.heap.get(src.a[0]) if src is not None and \
                src.op == "obj" else None
            hd = st.heap.get(dest.a[0]) if dest is not None and \
                dest.op == "obj" else None
            hi = st.heap.get(info.a[0]) if info is not None and \
                info.op == "obj" else None
            if hs is None or hd is None or hi is None or \
                    hs.cls != "icu.UnicodeString" or \
                    hd.cls != "icu.UnicodeString" or \
                    hi.cls != "icu.IDNAInfo":
                st = st.copy()
                return [(st, self.unknown(st, "IDNA call", node, ctx))]
            op = "toascii" if name.endswith("ascii") else "tounicode"
            st = st.copy()
            s = hs.f["v"]
            self.event(ctx, "idna", node, (op, o.a[1], s), st)
            y = st.copy()
            y.heap[info.a[0]] = hi.setf("errors", self.fresh(
                y, "icuerrors", D.NAT))
            self.raise_(y, ctx, "ICUError", node, "ICU failure")
            st.heap[dest.a[0]] = hd.setf("v", mk(op, o.a[1], s))
            st.heap[info.a[0]] = hi.setf("errors", mk("icuerr", const(op),
                                                      o.a[1], s))
            return [(st, dest)]
        st = st.copy()
        return [(st, self.unknown(st, "icu method " + name, node, ctx))]

    def icu_inst(self, o, h, name, args, kw, st, ctx, node):
        if h.cls == "icu.IDNAInfo":
            if name == "get_errors":
                return [(st, h.f["errors"])]
            if name == "has_errors":
                tr, fa = self.cmp_split("!=", h.f["errors"], const(0), st,
                                        ctx, node)
                return [(x, TRUE) for x in tr] + [(x, FALSE) for x in fa]
        if h.cls == "icu.UnicodeString":
            if name in ("length",):
                st = st.copy()
                return [(st, mk("u16len", h.f["v"]))]
            if name == "is_empty":
                tr, fa = self.cmp_split("==", h.f["v"], EMPTYS, st, ctx,
                                        node)
                return [(x, TRUE) for x in tr] + [(x, FALSE) for x in fa]
            if name == "__str__":
                return [(st, h.f["v"])]
        st = st.copy()
        return [(st, self.unknown(st, "%s.%s" % (h.cls, name), node, ctx))]

    def icu_str(self, t, st, ctx, node):
        st = st.copy()
        return [(st, self.unknown(st, "str of an icu object", node, ctx,
                                  D.STR))]


_shape = {}


def rx_shape(pat, fl):
    k = (pat, fl)
    if k not in _shape:
        try:
            _shape[k] = _rx_shape(pat, fl)
        except Exception:
            _shape[k] = ("other",)
    return _shape[k]


def _cls(op, av, fl):
    """Character set of a single-character item, or None."""
    n = str(op)
    if n == "LITERAL":
        return C.of(chr(av))
    if n == "NOT_LITERAL":
        return C.ANY - C.of(chr(av))
    if n == "ANY":
        return C.ANY if fl & _re.S else C.ANY - C.of("\n")
    if n != "IN":
        return None
    cs = C.EMPTY
    neg = False
    for o, a in av:
        m = str(o)
        if m == "NEGATE":
            neg = True
        elif m == "LITERAL":
            cs = cs | C.of(chr(a))
        elif m == "RANGE":
            cs = cs | C.rng(a[0], a[1])
        elif m == "CATEGORY":
            c = str(a)
            base = {"DIGIT": C.by_pred("isdecimal"),
                    "SPACE": C.by_pred("isspace"),
                    "WORD": C.by_pred("isalnum") | C.of("_")}
            w = c.replace("CATEGORY_", "")
            if w.startswith("NOT_"):
                cs = cs | (C.ANY - base[w[4:]])
            else:
                cs = cs | base[w]
        else:
            return None
    return C.ANY - cs if neg else cs


def _rep(tree, fl):
    """x+ / x* / x{m,n} of a class -> (cs, lo, hi)"""
    if len(tree) != 1:
        return None
    op, av = tree[0]
    if str(op) in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, sub = av
        if len(sub) == 1:
            c = _cls(sub[0][0], sub[0][1], fl)
            if c is not None:
                return c, lo, (INF if str(hi) == "MAXREPEAT" or
                               hi > 1 << 30 else hi)
    return None


def _rx_shape(pat, fl):
    if fl & (_re.I | _re.M):
        return ("other",)
    p = list(sre_parse.parse(pat, fl))
    if len(p) == 1:
        c = _cls(p[0][0], p[0][1], fl)
        if c is not None:
            return ("cls", c)
        r = _rep(p, fl)
        if r is not None:
            return ("rep",) + r
        if str(p[0][0]) == "BRANCH":
            alts = p[0][1][1]
            cs = []
            kinds = set()
            for a in alts:
                a = list(a)
                if len(a) == 2 and str(a[0][0]) == "AT" and str(
                        a[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                    r = _rep(a[1:], fl)
                    kinds.add("b")
                elif len(a) == 2 and str(a[1][0]) == "AT" and str(
                        a[1][1]) in ("AT_END", "AT_END_STRING"):
                    r = _rep(a[:1], fl)
                    kinds.add("e")
                else:
                    return ("other",)
                if r is None or r[1] != 1 or r[2] != INF:
                    return ("other",)
                cs.append(r[0])
            if kinds == {"b", "e"} and len(cs) == 2 and cs[0] == cs[1]:
                return ("ends", cs[0])
    if len(p) == 2:
        if str(p[0][0]) == "AT" and str(p[0][1]).startswith("AT_BEGINNING"):
            r = _rep(p[1:], fl)
            if r is not None and r[2] == INF:
                return ("start", r[0])
        if str(p[1][0]) == "AT" and str(p[1][1]).startswith("AT_END"):
            r = _rep(p[:1], fl)
            if r is not None and r[2] == INF:
                return ("end", r[0])
    return ("other",)
