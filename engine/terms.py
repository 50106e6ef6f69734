"""Hash-consed value terms (value numbering)."""

_table = {}


class T:
    __slots__ = ("op", "a", "id", "syms", "_objs")

    def __repr__(self):
        return show(self)


class EnumVal:
    """A member of an Enum class of the analysed program."""

    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumVal) and (self.cls, self.name) == (
            o.cls, o.name)

    def __hash__(self):
        return hash((self.cls, self.name))

    def __repr__(self):
        return "%s.%s" % (self.cls, self.name)


_EMPTY = frozenset()
_count = [0]


def mk(op, *a):
    k = (op,) + a
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _count[0] += 1
        t.id = _count[0]
        if op == "sym":
            t.syms = frozenset([a[0]])
        else:
            s = _EMPTY
            for x in a:
                if isinstance(x, T):
                    if x.syms:
                        s = s | x.syms if s else x.syms
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            if y.syms:
                                s = s | y.syms if s else y.syms
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T) and z.syms:
                                    s = s | z.syms if s else z.syms
            t.syms = s
        t._objs = None
        _table[k] = t
    return t


def _tag(v):
    if isinstance(v, tuple):
        return "tuple(" + ",".join(_tag(x) for x in v) + ")"
    return type(v).__name__


def const(v):
    return mk("const", _tag(v), v)


def cval(t):
    return t.a[1]


def is_const(t):
    return t.op == "const"


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
EMPTYS = const("")
ZERO = const(0)


def sym(name):
    return mk("sym", name)


def obj(oid):
    return mk("obj", oid)


def tup(items):
    items = tuple(items)
    if all(i.op == "const" and _hashable(cval(i)) for i in items):
        return const(tuple(cval(i) for i in items))
    return mk("tuple", items)


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def tup_items(t):
    if t.op == "tuple":
        return list(t.a[0])
    if t.op == "const" and isinstance(cval(t), tuple):
        return [const(v) for v in cval(t)]
    return None


# ---- linear integer terms -------------------------------------------------


def lin_parts(t):
    """-> (constant, {atom: coeff}) for an int-valued term."""
    if t.op == "const":
        v = cval(t)
        if isinstance(v, EnumVal):
            v = v.value
        return int(v), {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(k, parts):
    items = tuple(
        sorted(((a, c) for a, c in parts.items() if c), key=lambda p: p[0].id)
    )
    if not items:
        return const(k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", k, items)


def lin_add(x, y, sy=1):
    k1, p1 = lin_parts(x)
    k2, p2 = lin_parts(y)
    p = dict(p1)
    for a, c in p2.items():
        p[a] = p.get(a, 0) + sy * c
    return mk_lin(k1 + sy * k2, p)


def lin_mul(x, c):
    k, p = lin_parts(x)
    return mk_lin(k * c, {a: v * c for a, v in p.items()})


def add_const(t, k):
    return lin_add(t, const(k))


def lin_diff_const(x, y):
    """constant x - y if it is a constant, else None"""
    d = lin_add(x, y, -1)
    return cval(d) if d.op == "const" else None


# ---- string concatenation -------------------------------------------------


def cat(pieces):
    out = []
    empty = EMPTYS
    for p in pieces:
        ps = p.a[0] if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "const" and cval(q) in ("", b""):
                empty = q
                continue
            if out and out[-1].op == "const" and q.op == "const" and type(
                cval(out[-1])) is type(cval(q)):
                out[-1] = const(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    if not out:
        return empty
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def cat_pieces(t):
    return list(t.a[0]) if t.op == "cat" else ([] if t is EMPTYS else [t])


# ---- substitution ---------------------------------------------------------


def subst(t, m, _memo=None):
    """Replace terms by the mapping m (term -> term), bottom up."""
    if _memo is None:
        _memo = {}
    r = _memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ("const", "sym", "obj", "func", "class", "ext", "hole",
                  "idx"):
        r = t
    elif t.op == "lin":
        acc = const(t.a[0])
        for a, c in t.a[1]:
            acc = lin_add(acc, lin_mul(subst(a, m, _memo), c))
        r = acc
    elif t.op == "cat":
        r = cat([subst(p, m, _memo) for p in t.a[0]])
    elif t.op == "tuple":
        r = tup([subst(p, m, _memo) for p in t.a[0]])
    else:
        na = []
        ch = False
        for x in t.a:
            if isinstance(x, T):
                y = subst(x, m, _memo)
            elif isinstance(x, tuple):
                y = tuple(
                    subst(q, m, _memo) if isinstance(q, T) else
                    tuple(subst(z, m, _memo) if isinstance(z, T) else z
                          for z in q) if isinstance(q, tuple) else q
                    for q in x
                )
            else:
                y = x
            ch = ch or y is not x and y != x
            na.append(y)
        r = mk(t.op, *na) if ch else t
    _memo[t] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from walk(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from walk(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield from walk(z, seen)


def objs(t):
    """Ids of the heap objects a term mentions."""
    r = t._objs
    if r is None:
        r = set()
        if t.op == "obj":
            r.add(t.a[0])
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, T):
                        r |= objs(z)
        r = t._objs = frozenset(r) if r else _EMPTY
    return r


def show(t, depth=6):
    if depth == 0:
        return ".."
    if t.op == "const":
        return repr(cval(t))
    if t.op == "sym":
        return "$" + str(t.a[0])
    if t.op == "obj":
        return "@%s" % (t.a[0],)
    if t.op == "lin":
        return "(" + "+".join(
            ["%s*%s" % (c, show(a, depth - 1)) for a, c in t.a[1]]
            + ([str(t.a[0])] if t.a[0] else [])
        ) + ")"
    if t.op == "cat":
        return "·".join(show(p, depth - 1) for p in t.a[0])

    def s(x):
        if isinstance(x, T):
            return show(x, depth - 1)
        if isinstance(x, tuple):
            return "(" + ",".join(s(y) for y in x) + ")"
        return str(x)

    return "%s(%s)" % (t.op, ",".join(s(x) for x in t.a))
