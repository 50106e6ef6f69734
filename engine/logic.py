"""Truth of terms and comparisons: split a state into the part where a
condition holds and the part where it does not, refining facts."""

from . import charset as C
from . import domain as D
from . import terms as t_
from .domain import Fact, IntF, INF
from .state import HObj, St, const_fact, refine
from .terms import (EnumVal, FALSE, NONE, TRUE, const, cval, is_const,
                    lin_add, mk, tup_items)


def exclude(f, v):
    """Fact f without the single value v."""
    if v is None:
        return f.with_(none=False)
    if isinstance(v, bool):
        b = f.b & ~(2 if v else 1)
        return f.with_(b=b)
    if isinstance(v, EnumVal):
        v = v.value
    if isinstance(v, int):
        if f.i is not None:
            return f.with_(i=IntF.make(f.i.lo, f.i.hi, f.i.excl | {v}))
        return f
    if isinstance(v, (str, bytes)):
        comp = "s" if isinstance(v, str) else "y"
        s = getattr(f, comp)
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        if s is None or not D.can_be(s, v):
            return f
        if s.only is not None:
            n = D.mkstr(only=[x for x in s.only if x != v], enc=s.enc) \
                if len(s.only) > 1 else None
        else:
            n = D.mkstr(s.cs, s.lo, s.hi, None, s.excl | {v}, s.first, s.last,
                        s.enc)
        return f.with_(**{comp: n})
    return f


def falsy(f):
    return Fact(
        none=f.none, b=f.b & 1,
        i=IntF(0, 0) if f.i is not None and f.i.has(0) else None,
        s=D.mkstr(only=[""], enc=D.NOENC) if f.s is not None and D.can_be(f.s, "") else None,
        y=D.sconst("") if f.y is not None and D.can_be(f.y, "") else None,
        t=D.TupF(()) if f.t is not None and f.t.lo == 0 else None,
        x=f.x)


def truthy(f):
    i = f.i
    if i is not None:
        i = IntF.make(i.lo, i.hi, i.excl | {0})
    r = {}
    for c in ("s", "y"):
        s = getattr(f, c)
        if s is not None:
            s = D.mkstr(s.cs, max(1, s.lo), s.hi, s.only, s.excl, s.first,
                        s.last, s.enc)
        r[c] = s
    t = f.t
    if t is not None:
        if t.items is not None:
            t = t if t.items else None
        else:
            t = D.TupF(None, t.elem, max(1, t.lo), t.hi) if t.hi >= 1 else None
    return Fact(False, f.b & 2, i, r["s"], r["y"], t, f.o, f.x)


def with_fact(st, t, f):
    n = st.copy()
    if refine(n, t, f):
        return [n]
    return []


def truth(st, t):
    """-> (states where t is true, states where it is false)"""
    op = t.op
    if op == "const":
        v = cval(t)
        if isinstance(v, EnumVal):
            v = v.value if isinstance(v.value, int) else True
        return ([st], []) if v else ([], [st])
    if op == "not":
        a, b = truth(st, t.a[0])
        return b, a
    if op == "cmp":
        return compare(st, t.a[0], t.a[1], t.a[2])
    if op == "and":
        tr, fa = [st], []
        for x in t.a[0]:
            nt = []
            for s in tr:
                a, b = truth(s, x)
                nt += a
                fa += b
            tr = nt
        return tr, fa
    if op == "obj":
        h = st.heap.get(t.a[0])
        if h is None:
            return [st], []
        if h.kind in ("list", "set"):
            return truth(st, list_len(h))
        if h.kind == "dict":
            if h.items:
                return [st], []
            if not h.open:
                return [], [st]
            return [st], [st]
        return [st], []
    if op in ("func", "class", "ext", "bound", "extm", "gen", "bltn", "module",
              "match", "rx", "excv", "icu"):
        return [st], []
    f = st.fact(t)
    if f.x and f.ncomp() == 1:
        a, b = st.copy(), st.copy()
        a.put_fact(t, D.TRUE) if op in ("pred", "truth") else None
        b.put_fact(t, D.FALSE) if op in ("pred", "truth") else None
        return [a], [b]
    tr = truthy(f)
    fa = falsy(f)
    a = with_fact(st, t, tr) if not tr.is_bot() else []
    b = with_fact(st, t, fa) if not fa.is_bot() else []
    if op == "pred":
        a = [s for s in a if pred_refine(s, t, True)]
        b = [s for s in b if pred_refine(s, t, False)]
    return a, b


def pred_refine(st, t, val):
    """pred(name, s, arg): known string predicates."""
    name = t.a[0]
    if name in ("startswith", "endswith"):
        s, p = t.a[1], t.a[2]
        if not is_const(p):
            return True
        ps = cval(p)
        pre = ps if isinstance(ps, tuple) else (ps,)
        pre = [x.decode("latin-1") if isinstance(x, bytes) else x for x in pre]
        f = st.fact(s)
        comp = "s" if f.s is not None else "y"
        x = getattr(f, comp)
        if x is None or f.ncomp() != 1:
            return True
        k = 0 if name == "startswith" else -1
        chars = C.of("".join(q[k] for q in pre if q))
        if val:
            if any(q == "" for q in pre):
                return True
            m = min(len(q) for q in pre)
            first, last = x.first, x.last
            if k == 0:
                first = first & chars
            else:
                last = last & chars
            only = x.only
            if only is not None:
                fn = str.startswith if k == 0 else str.endswith
                only = [o for o in only if fn(o, tuple(pre))]
                if not only:
                    return False
            n = D.mkstr(x.cs, max(m, x.lo), x.hi, only, x.excl, first, last,
                        x.enc)
            return n is not None and refine(st, s, Fact(**{comp: n}))
        only = x.only
        fn = str.startswith if k == 0 else str.endswith
        if only is not None:
            only = [o for o in only if not fn(o, tuple(pre))]
            if not only:
                return False
            return refine(st, s, Fact(**{comp: D.mkstr(only=only, enc=x.enc)}))
        ones = C.of("".join(q for q in pre if len(q) == 1))
        if any(q == "" for q in pre):
            return False
        if ones:
            first, last = x.first, x.last
            if k == 0:
                first = first - ones
            else:
                last = last - ones
            n = D.mkstr(x.cs, x.lo, x.hi, None, x.excl, first, last, x.enc)
            return n is not None and refine(st, s, Fact(**{comp: n}))
        return True
    if name in STRPRED:
        s = t.a[1]
        f = st.fact(s)
        if f.s is None or f.ncomp() != 1:
            return True
        x = f.s
        cs, needs1 = strpred_set(name)
        if val:
            n = D.mkstr(x.cs & cs, max(x.lo, 1 if needs1 else 0), x.hi, x.only,
                        x.excl, x.first, x.last, x.enc)
            return n is not None and refine(st, s, Fact(s=n))
        if x.hi <= 1:
            n = D.mkstr(x.cs - cs, x.lo, x.hi, None, x.excl,
                        x.first, x.last, x.enc)
            if not needs1 and n is not None:
                n = D.mkstr(x.cs - cs, 1, x.hi)
            if n is None:
                return False
            return refine(st, s, Fact(s=n))
        if x.cs <= cs:
            if needs1:
                return refine(st, s, Fact(s=D.sconst("")))
            return False
        return True
    if name == "recls":
        # recls(name, s, charset, mode): regex of a single character class
        return True
    return True


STRPRED = ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum",
           "isspace", "isascii", "isidentifier", "isupper", "islower",
           "isprintable")


def strpred_set(name):
    if name == "isascii":
        return C.ASCII, False
    if name in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum",
                "isspace"):
        return C.by_pred(name), True
    if name == "isprintable":
        return C.by_pred(name), False
    return C.ANY, True


def list_len(h):
    n = const(0)
    for s in h.segs:
        n = lin_add(n, const(1) if s[0] == "i" else s[2])
    return n


SWAP = {">": "<", ">=": "<="}
NEG = {"!=": "==", "is not": "is", "not in": "in"}


def mkcmp(op, a, b):
    """Normal-form comparison term."""
    if op in NEG:
        x = mkcmp(NEG[op], a, b)
        return mknot(x)
    if op in SWAP:
        return mkcmp(SWAP[op], b, a)
    if op in ("==", "is") and b.id < a.id and not (op == "is"):
        a, b = b, a
    return mk("cmp", op, a, b)


def mknot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


def compare(st, op, a, b):
    if op in NEG:
        x, y = compare(st, NEG[op], a, b)
        return y, x
    if op in SWAP:
        return compare(st, SWAP[op], b, a)
    key = mkcmp(op, a, b)
    m = st.facts.get(key)
    if m is not None:
        if m == D.TRUE:
            return [st], []
        if m == D.FALSE:
            return [], [st]
    r = _compare(st, op, a, b)
    tr, fa = r
    if tr and fa:
        # remember the outcome, in case the facts cannot express it
        tr2, fa2 = [], []
        for s in tr:
            if s is st:
                s = s.copy()
            s.put_fact(key, D.TRUE)
            tr2.append(s)
        for s in fa:
            if s is st:
                s = s.copy()
            s.put_fact(key, D.FALSE)
            fa2.append(s)
        return tr2, fa2
    return r


def _pyconst(t):
    v = cval(t)
    return v


def _compare(st, op, a, b):
    if op in ("is", "=="):
        return eq(st, op, a, b)
    if op == "in":
        return contains(st, a, b)
    # ordering  a < b / a <= b
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        x = x.value if isinstance(x, EnumVal) else x
        y = y.value if isinstance(y, EnumVal) else y
        try:
            r = x < y if op == "<" else x <= y
        except TypeError:
            return [st], [st]
        return ([st], []) if r else ([], [st])
    fa, fb = st.fact(a), st.fact(b)
    if (fa.i is not None or fa.b) and (fb.i is not None or fb.b) and not (
            fa.b and is_const(a) is False and fa.i is None and a.op != "const"):
        if fa.b and not is_const(a) or fb.b and not is_const(b):
            return [st], [st]
        d = lin_add(b, a, -1)  # b - a  > 0 / >= 0
        k = 1 if op == "<" else 0
        if is_const(d):
            return ([st], []) if cval(d) >= k else ([], [st])
        return (with_fact(st, d, Fact(i=IntF(k, INF))),
                with_fact(st, d, Fact(i=IntF(-INF, k - 1))))
    if fa.s is not None and fb.s is not None:
        return str_order(st, op, a, b, fa, fb)
    return [st], [st]


def str_order(st, op, a, b, fa, fb):
    # constant single character against a string of at most one character
    for x, y, side in ((a, b, 0), (b, a, 1)):
        if is_const(x) and len(cval(x)) == 1:
            f = st.fact(y)
            if f.s is None or f.ncomp() != 1 or f.s.hi > 1:
                continue
            c = ord(cval(x))
            if side == 0:  # x op y : y > c (or >=)
                lo = c + 1 if op == "<" else c
                tset = C.rng(lo, C.MAX)
                t = D.mkstr(f.s.cs & tset, 1, 1)
                n = D.mkstr(f.s.cs - tset, f.s.lo, 1)
            else:  # y op x : y < c
                hi = c - 1 if op == "<" else c
                tset = C.rng(0, hi)
                t = D.mkstr(f.s.cs & tset, f.s.lo, 1)
                if f.s.lo == 0 and t is None:
                    t = D.sconst("")
                n = D.mkstr(f.s.cs - tset, 1, 1)
            tr = with_fact(st, y, Fact(s=t)) if t is not None else []
            fl = with_fact(st, y, Fact(s=n)) if n is not None else []
            return tr, fl
    return [st], [st]


def eq(st, op, a, b):
    if a is b:
        return [st], []
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        if op == "is":
            if x is None or y is None or isinstance(x, bool) or isinstance(
                    y, bool) or isinstance(x, EnumVal):
                r = type(x) is type(y) and x == y
            else:
                r = x == y
        else:
            if isinstance(x, EnumVal) and not isinstance(y, EnumVal):
                x = x.value
            if isinstance(y, EnumVal) and not isinstance(x, EnumVal):
                y = y.value
            r = x == y
        return ([st], []) if r else ([], [st])
    if a.op == "obj" or b.op == "obj":
        if a.op == "obj" and b.op == "obj":
            if op == "is":
                return [], [st]
            ha, hb = st.heap.get(a.a[0]), st.heap.get(b.a[0])
            if ha is not None and hb is not None and ha.kind == "list" and \
                    hb.kind == "list":
                if ha.segs == hb.segs:
                    return [st], []
            return [st], [st]
        o, x = (a, b) if a.op == "obj" else (b, a)
        h = st.heap.get(o.a[0])
        fx = st.fact(x)
        if fx.x or fx.o:
            return [st], [st]
        if op == "is" or (h is not None and h.kind in ("list", "dict", "set")):
            return [], [st]
        if h is not None and h.kind == "inst" and is_const(x) and cval(
                x) is None:
            return [], [st]
        return [], [st]
    fa, fb = st.fact(a), st.fact(b)
    if is_const(a):
        a, b, fa, fb = b, a, fb, fa
    if is_const(b):
        v = cval(b)
        if isinstance(v, EnumVal):
            v = v.value
        tf = const_fact(v)
        if isinstance(v, bool) and op == "==":
            tf = Fact(b=tf.b, i=IntF(int(v), int(v)), x=True)
        m = fa.meet(tf)
        if fa.x:
            return [st.copy()], [st.copy()]
        tr = [] if m.is_bot() else with_fact(st, a, tf)
        ex = exclude(fa, v)
        fl = [] if ex.is_bot() else (
            [st] if ex == fa else with_fact(st, a, ex))
        if isinstance(v, tuple):
            fl = [st]
        return tr, fl
    m = fa.meet(fb)
    if fa.x or fb.x:
        return [st], [st]
    if m.is_bot():
        return [], [st]
    if fa.i is not None and fb.i is not None and fa.ncomp() == 1 and \
            fb.ncomp() == 1:
        d = lin_add(a, b, -1)
        if is_const(d):
            return ([st], []) if cval(d) == 0 else ([], [st])
        return (with_fact(st, d, Fact(i=IntF(0, 0))),
                with_fact(st, d, Fact(i=IntF(-INF, INF, frozenset([0])))))
    tr = with_fact(st, a, m)
    tr = [s for x in tr for s in with_fact(x, b, m)]
    fl = [st]
    # both a single known string => certainly equal
    if m.ncomp() == 1 and fa == fb:
        s = m.s
        if s is not None and s.only is not None and len(s.only) == 1:
            return [st], []
        if m.none:
            return [st], []
    return tr, fl


def str_in_str(st, a, b, fa, fb):
    """a in b, both strings (or both bytes)"""
    comp = "s" if fa.s is not None else "y"
    sa = getattr(fa, comp)
    sb = getattr(fb, comp)
    if sa is None or sb is None or fa.ncomp() > 1 or fb.ncomp() > 1:
        return [st], [st]
    if is_const(b):
        v = cval(b)
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        if sa.only is not None:
            tr = [x for x in sa.only if x in v]
            fl = [x for x in sa.only if x not in v]
            return (with_fact(st, a, Fact(**{comp: D.mkstr(only=tr)})) if tr
                    else [],
                    with_fact(st, a, Fact(**{comp: D.mkstr(only=fl)})) if fl
                    else [])
        if sa.hi <= 1:
            cs = C.of(v)
            t = D.mkstr(sa.cs & cs, sa.lo, 1)
            if t is None and sa.lo == 0:
                t = D.sconst("")
            n = D.mkstr(sa.cs - cs, 1, 1)
            return (with_fact(st, a, Fact(**{comp: t})) if t else [],
                    with_fact(st, a, Fact(**{comp: n})) if n else [])
        # longer: substrings
        if len(v) <= 64:
            subs = {v[i:j] for i in range(len(v) + 1)
                    for j in range(i, min(len(v), i + 8) + 1)}
            poss = [x for x in subs if D.can_be(sa, x)]
            if not poss and sa.lo > 0:
                return [], [st]
        return [st], [st]
    if is_const(a):
        v = cval(a)
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        if v == "" or b.op == "cat" and comp == "s" and any(
                is_const(q) and isinstance(cval(q), str) and v in cval(q)
                for q in b.a[0]):
            return [st], []
        if sb.only is not None:
            tr = [x for x in sb.only if v in x]
            fl = [x for x in sb.only if v not in x]
            return (with_fact(st, b, Fact(**{comp: D.mkstr(only=tr)})) if tr
                    else [],
                    with_fact(st, b, Fact(**{comp: D.mkstr(only=fl)})) if fl
                    else [])
        if not (C.of(v) <= sb.cs):
            return [], [st]
        n = D.mkstr(sb.cs, max(sb.lo, len(v)), sb.hi, None, sb.excl, sb.first,
                    sb.last, sb.enc)
        tr = with_fact(st, b, Fact(**{comp: n})) if n else []
        if len(v) == 1:
            m = D.mkstr(sb.cs - C.of(v), sb.lo, sb.hi, None, sb.excl, sb.first,
                        sb.last, sb.enc)
            fl = with_fact(st, b, Fact(**{comp: m})) if m else []
        else:
            fl = [st]
        return tr, fl
    return [st], [st]


def const_members(st, b):
    """Python values of a constant container, else None."""
    if is_const(b):
        v = cval(b)
        if isinstance(v, (tuple, frozenset)):
            return list(v)
        return None
    its = tup_items(b)
    if its is not None:
        if all(is_const(x) for x in its):
            return [cval(x) for x in its]
        return None
    if b.op == "obj":
        h = st.heap.get(b.a[0])
        if h is None:
            return None
        if h.kind in ("list", "set") and all(
                s[0] == "i" and is_const(s[1]) for s in h.segs):
            return [cval(s[1]) for s in h.segs]
        if h.kind == "dict" and not h.open and all(
                is_const(k) for k, v in h.items):
            return [cval(k) for k, v in h.items]
    return None


def contains(st, a, b):
    fb = st.fact(b)
    fa = st.fact(a)
    if fb.s is not None or fb.y is not None:
        return str_in_str(st, a, b, fa, fb)
    mem = const_members(st, b)
    if mem is not None:
        if is_const(a):
            v = cval(a)
            r = any(_same(v, m) for m in mem)
            return ([st], []) if r else ([], [st])
        if fa.x:
            return [st], [st]
        tf = D.BOT
        strs = [m for m in mem if isinstance(m, str)]
        for m in mem:
            if not isinstance(m, str):
                tf = tf.join(const_fact(m))
        poss = [m for m in strs if fa.s is not None and D.can_be(fa.s, m)]
        if poss:
            if len(poss) <= D.ONLY_MAX:
                tf = tf.join(Fact(s=D.mkstr(only=poss)))
            else:
                # a big finite set: keep the set of characters
                tf = tf.join(Fact(s=D.mkstr(
                    C.of("".join(poss)), min(map(len, poss)),
                    max(map(len, poss)))))
        m = fa.meet(tf)
        ex = fa
        for v in mem:
            if len(mem) <= 64:
                ex = exclude(ex, v)
        tr = [] if m.is_bot() else with_fact(st, a, tf)
        fl = [] if ex.is_bot() else (
            [st] if ex == fa else with_fact(st, a, ex))
        return tr, fl
    # heterogeneous exact sequences: disjunction of equalities
    its = tup_items(b)
    if its is None and b.op == "obj":
        h = st.heap.get(b.a[0])
        if h is not None and h.kind in ("list", "set") and all(
                s[0] == "i" for s in h.segs):
            its = [s[1] for s in h.segs]
        elif h is not None and h.kind == "dict" and not h.open:
            its = [k for k, v in h.items]
        elif h is not None and h.kind == "list" and not h.segs:
            its = []
    if its is not None and len(its) <= 8:
        tr, rest = [], [st]
        for x in its:
            nr = []
            for s in rest:
                p, q = compare(s, "==", a, x)
                tr += p
                nr += q
            rest = nr
        return tr, rest
    return [st], [st]


def _same(v, m):
    if isinstance(v, EnumVal) and not isinstance(m, EnumVal):
        v = v.value
    if isinstance(m, EnumVal) and not isinstance(v, EnumVal):
        m = m.value
    return v == m
