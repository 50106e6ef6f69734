"""C27: the validators say yes exactly to what the standard calls valid."""

from jobs_addr import *

UNRES = C.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
             "!$&'()*+,-.;=_~")
CLS.update({
    "u": UNRES,
    "v": C.rng(0xA0, 0xD7FF),
    "f": C.of("\x00\t\n\r #/<>?@[\\]^|:"),
    "b": C.of("\"`{}\x7f") | C.rng(1, 8) | C.rng(0x80, 0x9f)
    | C.rng(0xFDD0, 0xFDEF) | C.rng(0xD800, 0xDFFF),
    "A": ALPHAS,
    "S": ALPHAS | DIG | C.of("+-."),
    "B": C.ANY - ALPHAS,
    "T": C.ANY - ALPHAS - DIG - C.of("+-."),
})

CASES27 = []
for _i, (_a, _b, _v, _g) in enumerate(V6):
    CASES27.append(("HostValidator", "is_valid_ipv6_address",
                    v6text(_a, _b, _v, 0), _g))
CASES27 += [("HostValidator", "is_valid_ipv6_address", p, False)
            for p in BAD6]
for _p in BAD4 + ["{d}", "{d}.{d}", "{d}.{d}.{d}", "{d}.{d}.{d}.", "{zdddd}",
                  "{d}.{d}.{d}.{d}.", "0{d}.{d}.{d}.{d}", "{d}.0{d}.{d}.{d}",
                  "{d}.{d}.{d}.0{o}", "{d}.{d}.{d}.00", "0x{h}.{d}.{d}.{d}",
                  "{d}.{d}.0X{h}.{d}", "{d}.{d}.{d}.0x", "{d}.0x.{d}.{d}",
                  "{d}.{d}.{d}.3{dd}", "{d}.{d}.{d}.{zddd}", "256.{d}.{d}.{d}",
                  "{d}.{d}.{d}.256", "{d}.{d}.26{d}.{d}", "0.0.0.0{d}"]:
    CASES27.append(("HostValidator", "is_valid_ipv4_address", _p, False))
for _p in ("{d}.{d}.{d}.{d}", "{zd}.{d}.{zd}.{d}", "1{dd}.{d}.1{dd}.{zd}",
           "0.0.0.0", "{d}.24{d}.{d}.25{o}"[:14] + "249", "{d}.{d}.1{dd}.255",
           "255.{d}.{zd}.1{dd}", "{zd}.{zd}.{zd}.0"):
    CASES27.append(("HostValidator", "is_valid_ipv4_address", _p, True))
for _p, _g in (("", False),
               ("{B}", False), ("{BS}", False), ("{AT}", False),
               ("{ASST}", False), ("{ATS}", False), ("{AS}:", False),
               ("{A}\n", False), (" {A}", False), ("{ASS} ", False)):
    CASES27.append(("URLValidator", "is_valid_url_scheme", _p, _g))
for _p, _g in (("", False), ("{f}", False), ("{uf}", False), ("{fu}", False),
               ("{uufu}", False), ("{b}", False), ("{ub}", False),
               ("{bu}", False), ("{u}%{hh}{f}", False),
               ("{f}{uuu}", False), ("{vb}", False), ("{vvf}", False),
               ("{u}%{hh}{b}", False)):
    CASES27.append(("HostValidator", "is_valid_opaque_host", _p, _g))


def j_verdict27(rep, lo, hi):
    for cls, name, pat, good in CASES27[lo:hi]:
        sc = exact_scene()
        tx = Text(pat)
        t = tx.t if pat else const("")
        outs, ev = sc.call(sc.method(cls, name), [t])
        ent = "%s.%s(%r)" % (cls, name, pat)
        R = "a valid text is called valid" if good else \
            "an invalid text is called invalid"
        rep.count("abstract outcomes", len(outs))
        for o in outs:
            if o.kind != "return":
                rep.check(False, R, ent, o.exc.name, o.st)
            elif is_const(o.v):
                rep.check(bool(cval(o.v)) == good, R, ent, str(o.v), o.st)
            else:
                rep.check(None, R, ent, str(o.v)[:200], o.st)
