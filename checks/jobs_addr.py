"""C19: IP address literals denote exactly their numbers, and anything else is
refused."""

from jobs_split import *
from engine.domain import IntF

HEX = C.of("0123456789abcdefABCDEF")
CLS = {
    "h": HEX,                                  # hexadecimal digit
    "d": DIG,
    "z": C.of("123456789"),
    "o": C.of("01234567"),
    "n": USV - HEX - C.of(":.") - C.of("\t\n\r[]"),   # no digit of any kind
    "g": USV - HEX - C.of(".xX"),
    "e": C.of("89"),
}


class Text:
    """A text of single characters of given classes: 'hh:z.' -> terms;
    letters in braces."""

    def __init__(self, pat):
        import re
        self.pat, self.out, self.groups = pat, [], []
        n = 0
        for lit, grp in re.findall(r"([^{]*)(?:\{(\w+)\})?", pat):
            if lit:
                self.out.append(const(lit))
            if grp:
                g = []
                for c in grp:
                    n += 1
                    g.append(sym("in:%s%d" % (c, n),
                                 Fact(s=D.mkstr(CLS[c], 1, 1))))
                self.out += g
                self.groups.append(g)
        self.t = tcat(self.out)


def is_number(st, t, pieces, base):
    """t is the number the digits denote in the base; a single digit known to
    be decimal is the same in any base."""
    if t.op == "int":
        b = cval(t.a[1]) if is_const(t.a[1]) else None
        if b != base:
            return None if b is None else False
        return is_text(st, t.a[0], pieces)
    if is_const(t):
        return False
    f = st.fact(t)
    if not f.x and f.i is None:
        return False
    return None


def words(st, t, want, rep, R, ent):
    """want: per 16 bit word 0, a list of digit terms, or a pair of those (two
    bytes)"""
    its = tup_items(t)
    if its is None and is_const(t) and isinstance(cval(t), tuple):
        its = [const(x) for x in cval(t)]
    if its is None:
        rep.check(None, R, ent, str(t)[:200], st)
        return
    if len(its) != 8:
        rep.check(False, R, ent, "%d words" % len(its), st)
        return
    for i, (x, w) in enumerate(zip(its, want)):
        if w == 0:
            ok = cval(x) == 0 if is_const(x) else None
            if ok is None and (x.op in ("int", "lin")):
                ok = False
        elif isinstance(w, tuple):
            ok = is_pair(st, x, w)
        else:
            ok = is_number(st, x, w, 16)
        rep.check(ok, R, ent, "word %d is %s" % (i, str(x)[:200]), st)


def is_pair(st, x, w):
    c, m = lin_parts(x)
    m = list(m.items())
    if c:
        return False if all(t.op == "int" for t, _ in m) else None
    if any(t.op != "int" for t, _ in m):
        return None
    got = sorted(k for _, k in m)
    if got != [1, 256]:
        return False
    by = {k: t for t, k in m}
    a, b = is_number(st, by[256], w[0], 10), is_number(st, by[1], w[1], 10)
    return False if a is False or b is False else None if (
        a is None or b is None) else True


SIZES = ((1, 2, 3, 4), (4, 1, 2, 3), (3, 3, 4, 2))


def v6text(a, b, v4, size, last="zz"):
    """a words, '::' unless b is None, b words, and an IPv4 part."""
    n = [0]

    def w():
        n[0] += 1
        return "{" + "h" * SIZES[size][n[0] % 4] + "}"
    tail = [w() for _ in range(0)]
    left = [w() for _ in range(a)]
    right = [w() for _ in range(b or 0)]
    if v4:
        (left if b is None else right).append("{d}.{zd}.{z}.{%s}" % last)
    t = ":".join(left)
    if b is not None:
        t += "::" + ":".join(right)
    del tail
    return t


def v6want(tx, a, b, v4):
    gs = list(tx.groups)
    left = [gs.pop(0) for _ in range(a)]
    right = [gs.pop(0) for _ in range(b or 0)]
    if v4:
        (left if b is None else right).extend(
            [(gs[0], gs[1]), (gs[2], gs[3])])
    return left + [0] * (8 - len(left) - len(right)) + right


V6 = []
for _a in range(10):
    for _b in [None] + list(range(9)):
        for _v in (False, True):
            if _a + (_b or 0) <= 9 and (_b is not None or _a or _v):
                _n = _a + (_b or 0) + 2 * _v
                _good = _n == 8 if _b is None else _n <= 7
                V6.append((_a, _b, _v, _good))

BAD6 = (
    [":", "", ":::", "{h}:", ":{h}", "{h}:::{h}", "{h}::{h}:", "{h}::{h}::",
     "::{h}::{h}", "{h}::{h}::{h}", ":{h}::{h}", "{h}:{h}:{h}:{h}:{h}:{h}:{h}:",
     ":{h}:{h}:{h}:{h}:{h}:{h}:{h}", "::{hhhhh}", "{hhhhh}::", "::{h}:{hhhhhh}",
     "{n}::", "::{n}", "::{hn}", "::{nh}", "::{hhhn}", "{h}:{n}::{h}",
     "::{d}.{d}.{d}", "::{d}.{d}", "::{d}.{d}.{d}.{d}.{d}", "::.{d}.{d}.{d}",
     "::{d}.{d}.{d}.", "::{d}..{d}.{d}", "::{d}.{d}.{d}.{d}.",
     "::0{d}.{d}.{d}.{d}", "::{d}.0{d}.{d}.{d}", "::{d}.{d}.0{dd}.{d}",
     "::{d}.{d}.{d}.0{d}", "::{d}.{d}.{d}.{dddd}", "::{zddd}.{d}.{d}.{d}",
     "::{d}.{zddd}.{d}.{d}", "::{d}.{d}.{d}.9{dd}", "::3{dd}.{d}.{d}.{d}",
     "::{d}.{d}.{d}.{dn}", "::{d}.{d}.{n}.{d}", "::{d}.{d}.{d}.{d}{n}",
     "::{d}.{d}.{d}.{d}:", "::{d}.{d}.{d}.{d}:{h}", "{d}.{d}.{d}.{d}::",
     "{d}.{d}.{d}.{d}::{h}", "{d}.{d}.{d}.{d}:{h}:{h}:{h}:{h}:{h}:{h}",
     "{h}:{d}.{d}.{d}.{d}:{h}:{h}:{h}:{h}:{h}",
     "::{d}.{d}.{d}.{d}:{h}:{h}", "::{d}.{d}.{d}.{d}::",
     "::{d}.{d}.{d}.{d}:{d}.{d}.{d}.{d}", "{d}.{d}.{d}.{d}",
     "{h}:{h}:{h}:{h}:{h}:{h}:{h}:{d}.{d}.{d}.{d}", "::0x{h}", "::+{h}",
     "::-{h}", "::{h}_{h}", "::{h} ", " ::{h}", "::{h}%{h}", "::{h}/{h}",
     "::+{d}.{d}.{d}.{d}", "::{d}.{d}.{d}.{d}_{d}", "::{d}.{d}.{d}. {d}"])


def parser(sc, cls):
    return sc.method(cls, "parse")


def j_v6(rep, i, size):
    a, b, v4, good = V6[i]
    sc = exact_scene()
    tx = Text(v6text(a, b, v4, size))
    outs, ev = sc.call(parser(sc, "IPv6Address"), [tx.t])
    judge6(rep, outs, tx, v6want(tx, a, b, v4) if good else None)


def judge6(rep, outs, tx, want):
    ent = "IPv6Address.parse(%r)" % tx.pat
    rep.count("abstract outcomes", len(outs))
    n = 0
    for o in outs:
        if o.kind == "return":
            n += 1
            if want is None:
                rep.check(False, "a malformed address is refused", ent,
                          str(o.v)[:200], o.st)
            else:
                words(o.st, o.v, want, rep,
                      "the address is the number written", ent)
        else:
            rep.check(o.exc.name == "IPv6AddressParseError" and want is None,
                      "a malformed address is refused" if want is None else
                      "a well-formed address is accepted", ent,
                      "%s in %s" % (o.exc.name, site_func(o.exc)), o.st)
    if want is not None:
        rep.check(n > 0, "a well-formed address is accepted", ent,
                  "always refused")


def j_bad6(rep, i):
    sc = exact_scene()
    tx = Text(BAD6[i])
    outs, ev = sc.call(parser(sc, "IPv6Address"), [tx.t])
    judge6(rep, outs, tx, None)


# ----------------------------------------------------------------- IPv4
# text, [(group, radix)], needed: None refused | True always accepted
#                         | "range" when no part is out of range
def num(p):
    """the groups of a part and its radix"""
    return p


P10, P16, P8 = ("{d}", 10), ("0x{h}", 16), ("0{o}", 8)
V4 = []
for _parts in (
        [("{d}", 10)], [("{zd}", 10)], [("{zddd}", 10)], [("{zddddd}", 10)],
        [("0x{hhhh}", 16)], [("0X{h}", 16)], [("0{oo}", 8)],
        [("0{ooooo}", 8)],
        [("{d}", 10), ("{d}", 10)], [("{zd}", 10), ("0x{hhhh}", 16)],
        [("0{oo}", 8), ("{zdd}", 10)], [("0X{hh}", 16), ("{d}", 10)],
        [("{d}", 10), ("{zd}", 10), ("{zdd}", 10)],
        [("0x{h}", 16), ("0{o}", 8), ("0x{hhhh}", 16)],
        [("{d}", 10), ("{d}", 10), ("{d}", 10), ("{d}", 10)],
        [("{zd}", 10), ("{d}", 10), ("{zd}", 10), ("{zd}", 10)],
        [("0{o}", 8), ("0x{hh}", 16), ("{d}", 10), ("0x{h}", 16)],
        [("0x{h}", 16), ("{zd}", 10), ("0{oo}", 8), ("0{o}", 8)],
        [("0x{hh}", 16), ("0x{hh}", 16), ("0x{hh}", 16), ("0x{hh}", 16)],
        [("1{dd}", 10), ("{d}", 10), ("1{dd}", 10), ("1{dd}", 10)],
        [("000{o}", 8), ("0x0{h}", 16), ("{d}", 10)],
        [("0x", 0), ("{d}", 10)], [("{d}", 10), ("0x", 0), ("{d}", 10)],
        [("{d}", 10), ("{d}", 10), ("{d}", 10), ("0x", 0)]):
    for _dot in ("", "."):
        V4.append((_parts, _dot))
BAD4 = ["", ".", "..", ".{d}", "{d}..", "{d}..{d}", "{d}.{d}.{d}.{d}.{d}",
        "{d}.{d}.{d}.{d}.{d}.", "{d}.{d}..{d}.{d}", "{g}", "{d}.{g}",
        "{g}.{d}", "{d}.{zg}.{d}.{d}", "{d}.{gd}.{d}.{d}", "0x{g}", "0X{g}.{d}",
        "{d}.0x{hg}", "0{e}", "{d}.0{oe}", "{d}.0{eo}.{d}", "3{dd}.{d}.{d}.{d}",
        "{d}.9{dd}.{d}.{d}", "{d}.{d}.0x1{hh}.{d}", "{d}.04{oo}.{d}.{d}",
        "{d}.{d}.{d}.3{dd}", "{d}.{d}.{d}.0x1{hh}", "{d}.{d}.{d}.{zddd}",
        "{d}.{d}.0x1{hhhh}", "{d}.{d}.7{dddd}", "{d}.0x1{hhhhhh}",
        "0x1{hhhhhhhh}", "9{ddddddddd}", "{z}{dddd}.{d}.{d}.{d}",
        "{d}.{d}.0x1{hhhh}.{d}", "{d}.-{d}", "+{d}", "{d}.{d}_{d}", " {d}",
        "{d} ", "{d}.0x+{h}", "{d}.0x_{h}", "0x0x{h}", "{d}.0o{o}", "0b{o}"]


def j_v4(rep, i):
    parts, dot = V4[i]
    sc = exact_scene()
    tx = Text(".".join(p for p, _ in parts) + dot)
    outs, ev = sc.call(parser(sc, "IPv4Address"), [tx.t])
    ent = "IPv4Address.parse(%r)" % tx.pat
    rep.count("abstract outcomes", len(outs))
    want, gs = [], list(tx.groups)
    for p, r in parts:
        if r == 0:
            want.append(None)
            continue
        lit = p[:p.index("{")]
        lit = {16: lit[2:], 8: lit[1:], 10: lit}[r]
        want.append((r, ([lit] if lit else []) + gs.pop(0)))
    n = len(want)
    wt = [256 ** (3 - j) for j in range(n - 1)] + [1]
    acc = 0
    for o in outs:
        if o.kind != "return":
            rep.check(o.exc.name == "IPv4AddressParseError" and n < 0,
                      "a well-formed address is accepted", ent, "%s in %s" % (
                          o.exc.name, site_func(o.exc)), o.st)
            continue
        acc += 1
        c, m = lin_parts(o.v)
        m = list(m.items())
        R = "the address is the number written"
        if any(t.op != "int" for t, _ in m):
            rep.check(None, R, ent, str(o.v)[:200], o.st)
            continue
        ok = c == 0
        for w, k in zip(want, wt):
            if w is None:
                continue
            hit = [x for x in m if x[1] == k and is_number(
                o.st, x[0], w[1], w[0])]
            if hit:
                m.remove(hit[0])
            else:
                ok = False
        rep.check(ok and not m, R, ent, str(o.v)[:200], o.st)
    rep.check(acc > 0, "a well-formed address is accepted", ent,
              "always refused")


def j_bad4(rep, i):
    sc = exact_scene()
    tx = Text(BAD4[i])
    outs, ev = sc.call(parser(sc, "IPv4Address"), [tx.t])
    ent = "IPv4Address.parse(%r)" % tx.pat
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        rep.check(o.kind != "return" and o.exc.name ==
                  "IPv4AddressParseError", "a malformed address is refused",
                  ent, str(o.v)[:200] if o.kind == "return" else o.exc.name,
                  o.st)


# ------------------------------------------------------- text of addresses
def j_show6(rep, lo, hi):
    for mask in range(lo, hi):
        sc = exact_scene()
        sc.it.apart = True
        ws = [sym("w%d" % j, Fact(i=IntF(1, 0xFFFF))) if mask >> j & 1 else
              const(0) for j in range(8)]
        outs, ev = sc.call(sc.method("IPv6Address", "serialize"),
                           [mk("tuple", tuple(ws))])
        best, j = (1, None), 0
        while j < 8:
            k = j
            while k < 8 and not mask >> k & 1:
                k += 1
            if k - j > best[0]:
                best = (k - j, j)
            j = max(k, j + 1)
        ent = "IPv6Address.serialize, nonzero words %s" % [
            j for j in range(8) if mask >> j & 1]
        rep.count("abstract outcomes", len(outs))
        for o in outs:
            if o.kind != "return":
                rep.check(False, "an address has a text", ent, o.exc.name,
                          o.st)
                continue
            rep.check(shows(o.st, o.v, ws, best),
                      "the text of an address compresses the first longest "
                      "run of zeros", ent, str(o.v)[:300], o.st)


def shows(st, t, ws, best):
    n, at = best
    left = ws if at is None else ws[:at]
    right = [] if at is None else ws[at + n:]
    want = []
    for part in (left, right):
        for j, w in enumerate(part):
            if j:
                want.append(":")
            want.append("0" if is_const(w) else w)
        if part is left and at is not None:
            want.append("::")
    want = glue(want)
    got = []
    for p in (t.a[0] if t.op == "cat" else (t,)):
        if is_const(p) and isinstance(cval(p), str):
            got.append(cval(p))
        elif p.op in ("fmt", "format", "hexs") and any(
                q in ws for q in p.a):
            spec = [cval(q) for q in p.a if hasattr(q, "op") and is_const(q)]
            spec += [q for q in p.a if isinstance(q, str)]
            if "x" not in spec:
                return None
            got.append([q for q in p.a if q in ws][0])
        else:
            return None
    return glue(got) == want


RANGE = [("6", "::{zdd}.{d}.{d}.{d}"), ("6", "::{d}.{zdd}.{d}.{d}"),
         ("6", "::{d}.{d}.{zdd}.{d}"), ("6", "{h}::{d}.{d}.{d}.{zdd}"),
         ("4", "{zdd}.{d}.{d}.{d}"), ("4", "{d}.{zdd}.{d}.{d}"),
         ("4", "{d}.{d}.{zdd}.{d}"), ("4", "{d}.{d}.{d}.{zdd}"),
         ("4", "0x{hhh}.{d}"), ("4", "{d}.0x{hhh}.{d}"), ("4", "0{ooo}.{d}"),
         ("4", "{d}.{d}.0x{hhhhh}"), ("4", "{d}.{zddddddd}"),
         ("4", "{zddddddddd}"), ("4", "0x{hhhhhhhhh}"),
         ("4", "{d}.0x{hhhhhhh}"), ("4", "{d}.{d}.{d}.0{ooo}"),
         ("4", "{d}.{d}.{zdddd}")]


def j_range(rep, i):
    """A part is accepted exactly when its number is in range."""
    v, pat = RANGE[i]
    cls = "IPv%sAddress" % v
    sc = exact_scene()
    tx = Text(pat)
    outs, ev = sc.call(parser(sc, cls), [tx.t])
    ent = "%s.parse(%r)" % (cls, pat)
    rep.count("abstract outcomes", len(outs))
    ps = pat.split(":")[-1].split(".")
    wide = [j for j, p in enumerate(ps) if len(p) > 4][0]
    p = ps[wide]
    lim = 255
    if v == "4" and wide == len(ps) - 1:
        lim = 256 ** (5 - len(ps)) - 1
    k = [sum("{" in q for q in ps[:wide])][0]
    if v == "6":
        k += pat.count("{") - 4
    radix = 16 if p[:2] == "0x" else 8 if p[0] == "0" else 10
    term = mk("int", tcat(tx.groups[k]), const(radix))
    for o in outs:
        lo, hi = o.st.int_iv(term)
        if o.kind == "return":
            ok = True if hi <= lim else False if lo > lim else None
            rep.check(ok if hi <= lim or term in o.st.facts else (
                False if mentions(o.v, term) else None),
                "a part out of range is refused", ent,
                "up to %s" % hi, o.st)
        else:
            rep.check(True if lo > lim else False if hi <= lim else None,
                      "a part in range is accepted", ent, "from %s" % lo,
                      o.st)
    kinds = {o.kind for o in outs}
    rep.check("return" in kinds, "a part in range is accepted", ent, "never")
    rep.check("raise" in kinds, "a part out of range is refused", ent,
              "never")


def mentions(t, x):
    c, m = lin_parts(t) if t.op in ("lin", "int") else (0, {})
    return t is x or x in m


def octet(st, t, n):
    """t as (n // d) mod m -> (d, m); m None when there is no mod."""
    if t is n:
        return 1, None
    if t.op in ("floordiv", "mod", "rshift", "and", "bitand", "band") and \
            len(t.a) == 2:
        a, b = t.a
        if is_const(a) and not is_const(b):
            a, b = b, a
            if t.op in ("floordiv", "mod", "rshift"):
                return None
        if not is_const(b) or type(cval(b)) is not int:
            return None
        k = cval(b)
        x = octet(st, a, n)
        if x is None:
            return None
        d, m = x
        if t.op == "rshift":
            k = 1 << k
        if t.op in ("floordiv", "rshift"):
            return (d * k, None if m is None else m // k) \
                if m is None or m % k == 0 else None
        if t.op != "mod":
            k += 1
            if k & (k - 1):
                return None
        return (d, k) if m is None or m % k == 0 else None
    return None


def j_show4(rep):
    sc = exact_scene()
    n = sym("in:n", Fact(i=IntF(0, 2 ** 32 - 1)))
    outs, ev = sc.call(sc.method("IPv4Address", "serialize"), [n])
    ent = "IPv4Address.serialize"
    R = "the text of an address is its four bytes"
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        if o.kind != "return":
            rep.check(False, R, ent, o.exc.name, o.st)
            continue
        ps = list(o.v.a[0]) if o.v.op == "cat" else [o.v]
        nums = [p for p in ps if not is_const(p)]
        lits = [cval(p) for p in ps if is_const(p)]
        if any(p.op not in ("str", "fmt") for p in nums):
            rep.check(None, R, ent, str(o.v)[:300], o.st)
            continue
        if len(nums) != 4 or lits != [".", ".", "."] or len(ps) != 7 or \
                is_const(ps[0]):
            rep.check(False, R, ent, str(o.v)[:300], o.st)
            continue
        for j, p in enumerate(nums):
            x = octet(o.st, p.a[0], n)
            d = 256 ** (3 - j)
            rep.check(None if x is None else x == (d, 256) or
                      j == 0 and x == (d, None), R, ent,
                      "byte %d is %s" % (j, str(p)[:200]), o.st)
