"""The properties and the analysis runs that decide them."""

from jobs_parse import *
import jobs_obj as O
import jobs_sync as Y
import jobs_params as Q
import jobs_pure as P
import jobs_rel as R
import jobs_report as V
import jobs_facade as F
import jobs_idna as I
import jobs_total as T
import jobs_split as X
import jobs_addr as A
import jobs_valid as W

STATES = ("SCHEME_START_STATE", "AUTHORITY_STATE", "HOST_STATE",
          "HOSTNAME_STATE", "PORT_STATE", "PATH_START_STATE", "PATH_STATE",
          "QUERY_STATE", "FRAGMENT_STATE", "OPAQUE_PATH_STATE")
NOHREF = tuple(s for s in SETTERS if s != "href")


def every(fn, *axes):
    out = [()]
    for a in axes:
        out = [x + (y,) for x in out for y in a]
    return [(fn, x) for x in out]


def setjobs(fn, kinds=KINDS, attrs=NOHREF):
    return every(fn, kinds, attrs)


def parses(fn, tier, none=True):
    """The parsing runs: without base, and with a base of every kind."""
    out = [(fn, ("none", "any"))] if none else []
    if tier == "thorough":
        out += [(fn, (k, "any")) for k in KINDS]
    out += [(fn, (k, f)) for k in KINDS for f in ("rel", "nocolon")]
    return out + [(fn, ("special", "same")), (fn, ("file", "same"))]


PROPS = {
    "C01": dict(
        jobs=lambda t: parses(j_exc_parse, t) + setjobs(j_exc_set),
        rule="Every exceptional outcome of the abstract interpretation of "
             "parse_url (no base, and a base of each kind), of every setter "
             "on every kind of URL, for an arbitrary string, is an instance "
             "of URLParseError.", min=500),
    "C02": dict(
        jobs=lambda t: every(T.j_agree, ("URL.can_parse",),
                             ("none", "str", "url"), (True, False))
        + every(T.j_agree, ("URLValidator.is_valid",),
                ("none", "str", "record"), (True, False))
        + [(T.j_total, v + (w, True)) for v in T.validators()
           for w in (True, False)],
        rule="With the parser as an unknown but fixed predicate of string "
             "and base, every abstract outcome of can_parse is True where "
             "parse_url returns and False where it raises any error class "
             "of the library, and no outcome raises; every validator "
             "returns a bool in every abstract outcome.", min=50),
    "C03": dict(
        jobs=lambda t: parses(j_base_untouched, t, False),
        rule="In every abstract outcome (normal or exceptional) of parse_url "
             "with a base, every object reachable from the base is unchanged "
             "and the returned record points to none of them.", min=500),
    "C04": dict(
        jobs=lambda t: (parses(P.j_pure_parse, t) if t == "thorough" else
                        [(P.j_pure_parse, x) for x in P.PARSES])
        + setjobs(P.j_pure_set, KINDS if t == "thorough" else (
            "special", "list", "opaque"))
        + every(P.j_pure_get, KINDS, ("URL", "URLRecord"))
        + [(P.j_pure_params, x) for x in P.PREAD]
        + every(P.j_pure_new, ("list", "params", "str", "record"))
        + [(P.j_pure_call, x) for x in P.SIMPLE]
        + [(P.j_pure_call, (None, x[0])) for x in P.FUNCS]
        + [(P.j_pure_call, x) for x in P.T.validators()],
        rule="No abstract outcome of a call leaves a module-level object or "
             "name with a value that depends on the call (a table keyed by "
             "everything stored in it, and lazily made constants, may "
             "grow); no result reaches a mutable module-level object; no "
             "call does input or output or reads ambient state; queries "
             "leave every object they are given as it was.", min=500),
    "C05": dict(
        jobs=lambda t: setjobs(j_isolation),
        rule="In every abstract outcome of a setter every record field other "
             "than the assigned component holds its old value.", min=100),
    "C06": dict(
        jobs=lambda t: setjobs(j_atomic) + [(j_atomic_href, ())],
        rule="In every exceptional abstract outcome of a setter the record, "
             "the parameter list and the URL object equal the initial ones "
             "(a host applied before its port was rejected may stay).",
        min=100),
    "C07": dict(
        jobs=lambda t: [(j_inert, x) for x in INERT] + [
            (j_protocol, (k,)) for k in KINDS],
        rule="A setter for a component the URL cannot have reaches no heap "
             "write on any abstract path; the protocol setter never moves a "
             "URL between special and non-special schemes.", min=20),
    "C08": dict(
        jobs=lambda t: setjobs(Y.j_sync_set) + [
            (Y.j_sync_set, ("list", "href", p)) for p in (
                "x:", "http:", "file:")] + [
            (Y.j_sync_set, ("opaque", "href", "x:"))] + (
            [(Y.j_sync_set, (k, "href")) for k in KINDS]
            if t == "thorough" else []) + every(
            Y.j_sync_mut, KINDS, (0, 1, 2)) + every(
            Y.j_sync_new, ("get", "opaque", "path", "http")) + every(
            Y.j_sync_attach, KINDS, ("attach", "copy")),
        rule="After every setter and on construction, in every abstract "
             "outcome, the parameter list equals the list a fresh "
             "URLSearchParams makes of the record's query, and appending to "
             "it rewrites that record's query; after every mutator of the "
             "list the record's query is the term str(list), None when the "
             "list is empty.", min=100),
    "C09": dict(
        jobs=lambda t: parses(j_encode_parse, t) + setjobs(
            j_encode_set, attrs=("hash", "search", "pathname", "username",
                                 "password")),
        rule="The character set of each component in every abstract outcome "
             "is the safe set of the URL standard, and every encoder call "
             "whose output reaches it has exactly that safe set.", min=500),
    "C10": dict(
        jobs=lambda t: parses(j_norm_parse, t) + every(
            j_norm_set, [k for k in KINDS if k != "opaque"]) + every(
            j_shorten, ("file", "special", "list"), SHAPES),
        rule="The abstract value of every path segment in every outcome "
             "excludes all spellings of dot segments and holds no separator.",
        min=100),
    "C11": dict(
        jobs=lambda t: parses(j_host_parse, t) + setjobs(
            j_host_set, [k for k in KINDS if k != "opaque"],
            ("host", "hostname")) + every(j_host_direct, (False, True)),
        rule="The abstract host value of every outcome holds no forbidden "
             "host (domain) code point; special URLs never get an empty or "
             "missing host.", min=100),
    "C12": dict(
        jobs=lambda t: parses(j_num_parse, t) + setjobs(
            j_num_set, ("special", "list", "file", "nohost", "emptyhost"),
            ("host", "hostname", "port")) + every(
            j_num_host, (False, True)) + every(
            j_port_lead, ("special", "list"), PORT_LEAD),
        rule="Every int() call reached while parsing gets only digits of its "
             "radix; ports and IPv4 values stay within 16 and 32 bits in "
             "every outcome.", min=100),
    "C13": dict(
        jobs=lambda t: parses(j_inv_parse, t) + every(
            j_inv_scheme, sorted(NET) + ["x"]) + every(
            j_inv_proto, sorted(NET)) + [
            (j_inv_set, ("special", a, s)) for s in sorted(NET)
            for a in ("host", "port", "protocol")] + setjobs(
                j_inv_set, [k for k in KINDS if k != "special"],
                ("host", "hostname", "port", "protocol", "username",
                 "password", "pathname")),
        rule="In every abstract outcome the record satisfies the structural "
             "invariants of the URL standard.", min=500),
    "C14": dict(
        jobs=lambda t: every(O.j_serial, KINDS) + every(O.j_getters, KINDS),
        rule="On every abstract path the text returned by the serialisers "
             "and getters is, piece by piece, the concatenation of record "
             "fields and delimiters the URL standard prescribes for the "
             "fields present on that path, and the record is not written.",
        min=100),
    "C15": dict(
        jobs=lambda t: every(O.j_equal, KINDS, KINDS, (True,), ("__eq__",))
        + every(O.j_equal, KINDS, KINDS, (True, False), ("equals",))
        + every(O.j_equal_url, KINDS, KINDS, (True,), ("__eq__",))
        + every(O.j_equal_url, KINDS, KINDS, (True, False), ("equals",))
        + [(O.j_equal_other, ())],
        rule="Every abstract outcome of an equality test is the comparison "
             "of the two serialisations (or of all fields), without the "
             "fragment when asked so.", min=100),
    "C16": dict(
        jobs=lambda t: every(O.j_origin, KINDS) + [
            (O.j_origin_blob, ()), (O.j_same_origin, ()),
            (O.j_same_origin_equal, ())],
        rule="On every abstract path the origin is made of the record's "
             "scheme, host and port exactly for the network schemes (for "
             "blob: of the http(s) URL inside), None otherwise; the same-"
             "origin tests return true only after comparing all parts.",
        min=30),
    "C20": dict(
        jobs=lambda t: [(R.j_relative, (k, f)) for k in KINDS
                        for f in R.FORMS if not (
                            f == "samescheme" and k != "special" or
                            f == "absolute" and k not in (
                                "special", "opaque") or
                            f.startswith("backslash") and k not in (
                                "special", "file"))]
        + [(R.j_relative, (k, f, v)) for k in KINDS for v in R.VARIANTS
           for f in ("empty", "fragment", "query", "path", "simple")
           if (v.endswith("query") or k in ("special", "list")
               or v == "v4zero" and k == "file")
           and not (k == "opaque" and f != "fragment")
           and not (v == "v4zero" and k == "list")]
        + [(R.j_drive, (f,)) for f in ("path", "relative", "up")]
        + [(R.j_base_arg, (h,)) for h in ("url", "urlstr", "urlnone", "str")],
        rule="The fields of the base hold characters nothing else can hold; "
             "in every abstract outcome of resolving each form of reference "
             "the fields to be taken over are the very terms of the base, "
             "the others hold none of its characters, and references "
             "without authority never raise.", min=100),
    "C21": dict(
        jobs=lambda t: [(Q.j_decode, (f,)) for f in Q.forms()]
        + every(Q.j_encode_form, (0, 1, 2), ("urlencode", "str"))
        + every(Q.j_encode_any, (False, True), ("utf-8", "any"))
        + [(Q.j_store, ("str",))],
        rule="For symbolic names and values the abstract result of "
             "parse_qsl is, on every path, the list of pairs between the "
             "separators, each the term UTF-8-decode(percent-decode(+ to "
             "space)); the result of urlencode is the concatenation of the "
             "percent-encoder's terms with exactly the form safe set.",
        min=30),
    "C22": dict(
        jobs=lambda t: every(Q.j_query, Q.READ + Q.WRITE,
                             range(5 if t == "quick" else 7))
        + [(Q.j_store, (h,)) for h in ("list", "tuple", "str")]
        + [(Q.j_sort, (f,)) for f in Q.NAMES],
        rule="On lists of up to four pairs (six in the thorough tier) of "
             "arbitrary texts, on every abstract path and for every way the "
             "names and values can be equal, the answer of a query and the "
             "list after a change are the very terms the standard "
             "prescribes.", min=100),
    "C17": dict(
        jobs=lambda t: [(V.j_parse, ("parse_url", k, f, True))
                        for k, f in (("none", "any"), ("file", "nocolon"),
                                     ("special", "rel"), ("opaque", "rel"))
                        + ((("list", "nocolon"), ("emptyhost", "rel"),
                            ("special", "same"), ("file", "same"))
                           if t == "thorough" else ())]
        + [(V.j_verdict, v) for v in T.validators()]
        + every(V.j_is_valid, ("URLValidator.is_valid",), ("none", "str"))
        + every(V.j_methods, ("prepend", "reset")),
        rule="Every abstract outcome of a validator returns True with a "
             "report without errors, or False with at least one, with as "
             "many types and descriptions as errors and nothing left over "
             "from before; on every abstract path of parse_url to an error "
             "of the library, ValidityState.prepend was called.", min=100),
    "C24": dict(
        jobs=lambda t: every(F.j_urlparse, KINDS, ("plain", "params", "mid"),
                             (True, False))
        + every(F.j_passes, ("pos", "kw", "none")),
        rule="With the parser returning a record of each kind with arbitrary "
             "components, every field of the abstract ParseResult is the "
             "concatenation of exactly the component terms it stands for.",
        min=100),
    "C23": dict(
        jobs=lambda t: every(I.j_domain, ("domain_to_ascii",
                                          "domain_to_unicode"),
                             (True, False), (None, "flip", "swap"))
        + every(I.j_host, ("domain", "opaque")) + [(I.j_valid_domain, ())],
        rule="The terms reaching every ICU IDNA call are the whole domain "
             "(for Host.parse: percent-decoded and read as UTF-8) and "
             "exactly the option flags of the standard, also when another "
             "call came before; an abstract outcome that accepts implies "
             "that no error bit outside the ones to be ignored is set.",
        min=60),
    "C18": dict(
        jobs=lambda t: [(X.j_effect, (i,)) for i in range(len(X.SETS))],
        rule="For every kind of URL and every form of text listed in "
             "jobs_split.SETS, whose parts are symbolic texts over whole "
             "character classes, no abstract outcome of the assignment "
             "raises and the component afterwards is exactly the "
             "(percent-encoded) concatenation of the parts that belong to "
             "it.", min=100),
    "C25": dict(
        jobs=lambda t: [(X.j_split, (i,)) for i in range(len(X.CASES))],
        rule="For every template of jobs_split.CASES, whose parts are "
             "symbolic texts over whole character classes, every abstract "
             "outcome of parse_url is a record each of whose fields is the "
             "(percent-encoded) concatenation of exactly the parts the "
             "template assigns to it; only a domain may be refused.",
        min=300),
    "C19": dict(
        jobs=lambda t: every(A.j_v6, range(len(A.V6)),
                             (0,) if t == "quick" else (0, 1, 2))
        + [(A.j_bad6, (i,)) for i in range(len(A.BAD6))]
        + [(A.j_v4, (i,)) for i in range(len(A.V4))]
        + [(A.j_bad4, (i,)) for i in range(len(A.BAD4))]
        + [(A.j_range, (i,)) for i in range(len(A.RANGE))]
        + [(A.j_show6, (i, i + 32)) for i in range(0, 256, 32)]
        + [(A.j_show4, ())],
        rule="For every shape of an IPv6 literal (number of words before and "
             "after ::, IPv4 part or not) and the shapes of IPv4 literals "
             "and of malformed ones listed in jobs_addr, with every digit "
             "symbolic, each abstract outcome is an address whose words are "
             "the terms int(digits, radix) in their places, or the parse "
             "error, as the shape demands; the texts produced are, for "
             "every pattern of zero words, the terms of the words with the "
             "first longest run compressed.", min=500),
    "C26": dict(
        jobs=lambda t: [(X.j_refuse, (i,)) for i in range(len(X.REFUSE))],
        rule="No abstract outcome of parse_url on a template of "
             "jobs_split.REFUSE, whose parts are symbolic texts over whole "
             "character classes, is a record.", min=150),
    "C27": dict(
        jobs=lambda t: [(W.j_verdict27, (i, i + 6))
                        for i in range(0, len(W.CASES27), 6)],
        rule="Every abstract outcome of a validator on a shape of text with "
             "symbolic digits and characters is the verdict the standard "
             "gives to that shape.", min=250),
}
