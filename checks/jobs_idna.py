"""C23: how domains are handed to the IDNA processing."""

from jobs_facade import *
from jobs_params import bare, same_text, usv, decoded_ok

BASE = {"CHECK_BIDI", "CHECK_CONTEXTJ"}
HYPH = {"ERROR_HYPHEN_3_4", "ERROR_LEADING_HYPHEN", "ERROR_TRAILING_HYPHEN"}
DNS = {"ERROR_EMPTY_LABEL", "ERROR_LABEL_TOO_LONG",
       "ERROR_DOMAIN_NAME_TOO_LONG"}


def flags(t):
    """The names of the UIDNA flags of an or-ed term, or None."""
    if t.op == "bor":
        fs = [flags(x) for x in t.a[0]]
        return None if None in fs else set().union(*fs)
    if t.op == "ext":
        n = t.a[0].rsplit(".", 1)[-1]
        return {n[6:]} if n.startswith("UIDNA_") else None
    if is_const(t) and cval(t) == 0:
        return set()
    return None


def options_ok(rep, ent, op, opts, strict, unk=False):
    want = BASE | {"NONTRANSITIONAL_TO_" + (
        "ASCII" if op == "toascii" else "UNICODE")} | (
            {"USE_STD3_RULES"} if strict else set())
    got = flags(opts)
    rep.check(None if got is None or unk else got == want, "IDNA is run with "
              "the options of the standard", ent, "%s, not %s" % (
                  sorted(got) if got is not None else str(opts)[:80],
                  sorted(want)))


def masked(st):
    """(ignored error flags, is zero) of the tests of IDNA error bits made
    on the way."""
    out = []
    for t, f in st.facts.items():
        if t.op == "icuerr":
            out.append((t, set(), f))
        if t.op == "band":
            e, m = t.a
            if e.op != "icuerr":
                e, m = m, e
            if e.op == "icuerr" and m.op == "binv":
                out.append((e, flags(m.a[0]), f))
    return out


def zero(f):
    if f.i is None or f.x:
        return None
    return True if f.i.lo == f.i.hi == 0 else False \
        if f.i.lo > 0 or f.i.hi < 0 else None


def j_domain(rep, name, strict, after):
    """IDNA.domain_to_ascii / domain_to_unicode of any domain, also after a
    call with the other strictness."""
    sc = Scene(fine=True)
    d = sc.root("d", sym("d", ANYSTR))
    fn = sc.method("IDNA", name)
    ent = "IDNA.%s" % name
    op = "toascii" if name.endswith("ascii") else "tounicode"
    if after:
        o2 = "domain_to_unicode" if after == "swap" else name
        pre, ev = sc.call(sc.method("IDNA", o2), [
            const("x"), const(strict if after == "swap" else not strict)])
        pre = [o for o in pre if o.kind == "return"]
        if not pre:
            return
        sc.st = pre[0].st
        sc.st.facts = {}
        sc.st.cache = {}
        sc.ctx = ctx0(sc.it)
    outs, ev = sc.call(fn, [d, const(strict)])
    rep.count("abstract outcomes", len(outs))
    ids = [e for e in ev if e[0] == "idna"]
    rep.check(bool(ids) or None, "the domain is processed by IDNA", ent,
              "no call of ICU")
    for _, site, (o, opts, s), unk in ids:
        rep.check(None if unk else o == op, "IDNA is run in the direction "
                  "asked for", ent, o)
        options_ok(rep, ent, op, opts, strict, unk)
        rep.check(None if unk else same_text(s, usv(d)), "the whole domain "
                  "is processed, as scalar values", ent, str(s)[:100])
    ign = HYPH | (set() if strict else DNS)
    for o in outs:
        tests = [(m, zero(f)) for e, m, f in masked(o.st)
                 if cval(e.a[0]) == op]
        if o.kind == "return":
            v = o.v
            rep.check(True if v.op == op and same_text(v.a[1], usv(d))
                      else False if v.op in ("sym", "in", "usv", op)
                      or is_const(v) else None, "the result is what IDNA "
                      "gives for the domain", ent, str(v)[:100], o.st)
            if op == "tounicode":
                continue
            ok = None
            for m, z in tests:
                if z and m is not None:
                    ok = m <= ign
            if not tests:
                ok = False if v.op == op else None
            rep.check(ok, "only hyphen placement%s may be wrong in an "
                      "accepted domain" % ("" if strict else
                                           " and label lengths"), ent,
                      "accepted though %s" % (tests,), o.st)
            f = o.st.fact(v)
            rep.check(True if f.s is not None and f.s.lo > 0 else
                      False if f.s is not None and not f.x else None,
                      "an accepted domain is not empty", ent, str(f)[:60],
                      o.st)
        elif o.exc.name == "HostParseError" and op == "toascii":
            bad = [m for m, z in tests if z is False]
            empty = any(t.op == op and o.st.fact(t).s is not None
                        and o.st.fact(t).s.hi == 0 for t in o.st.facts)
            ok = True if empty else None
            for m in bad:
                if m is not None and ok is None:
                    ok = ign <= m
            if not bad and not empty and tests and all(
                    z for m, z in tests):
                ok = False
            rep.check(ok, "a domain is refused only for an IDNA error or an "
                      "empty result", ent, "refused though %s" % (tests,),
                      o.st)
        elif op == "tounicode" and o.exc.name != "IDNAError":
            rep.check(False, "conversion to Unicode never refuses a domain",
                      ent, o.exc.name, o.st)


def j_host(rep, kind):
    """Host.parse of a domain: decoded, then ToASCII, not strictly."""
    sc = Scene(fine=True)
    h = sc.root("h", sym("h", Fact(s=D.mkstr(
        C.ANY, 1, INF, first=C.ANY - C.of("[")))))
    outs, ev = sc.call(sc.method("Host", "parse"), [h] + (
        [const(True)] if kind == "opaque" else []))
    rep.count("abstract outcomes", len(outs))
    ent = "Host.parse"
    ids = [e for e in ev if e[0] == "idna"]
    if kind == "opaque":
        rep.check(not ids, "opaque hosts are not domains", ent,
                  "an opaque host goes through IDNA")
        return
    rep.check(bool(ids), "domains go through IDNA", ent, "no call of ICU")
    for _, site, (o, opts, s), unk in ids:
        rep.check(None if unk else o == "toascii", "domains are mapped to "
                  "ASCII", ent, o)
        options_ok(rep, ent, o, opts, False, unk)
        ops, t = [], s
        while t is not h and t.op in ("usv", "u8dec", "pctdec", "u8enc"):
            ops.append(t.op)
            t = t.a[0]
        core = [x for x in reversed(ops) if x != "usv"]
        rep.check(None if unk or t is not h and not t.op in ("sym",)
                  else t is h and core == ["u8enc", "pctdec", "u8dec"],
                  "domains are percent-decoded and read as UTF-8 before "
                  "IDNA", ent, str(s)[:100])
    for o in outs:
        if o.kind != "return":
            continue
        f = o.st.fact(o.v)
        if f.i is not None and f.ncomp() == 1:
            continue
        v = o.v
        rep.check(True if v.op == "toascii" else False if v.op in (
            "tounicode", "sym", "in", "usv", "u8dec") else None,
            "the host is what IDNA gives", ent, str(v)[:100], o.st)


def j_valid_domain(rep):
    """HostValidator.is_valid_domain: strictly, in both directions."""
    sc = Scene(fine=True)
    d = sc.root("d", sym("d", ANYSTR))
    outs, ev = sc.call(sc.method("HostValidator", "is_valid_domain"), [d])
    ent = "HostValidator.is_valid_domain"
    ids = [e for e in ev if e[0] == "idna"]
    for op in ("toascii", "tounicode"):
        rep.check(op in [e[2][0] for e in ids], "a valid domain passes ToASCII "
                  "and ToUnicode", ent, "no %s" % op)
    for _, site, (o, opts, s), unk in ids:
        options_ok(rep, ent, o, opts, True, unk)
