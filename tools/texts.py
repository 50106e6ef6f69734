prop("C01", "Parsing and assignment fail only with the documented error",
     "Parsing any string, with or without a base URL, and assigning any string to any component of a URL either succeeds or raises the library's URL parse error (or a subclass of it). No other exception ever escapes, whatever characters the string holds and however long its numbers are.",
     ["inputs", "histories"], "For " + ANYS + ", every kind of base URL, every component setter and every kind of URL it is applied to.",
     "The tests sample a few thousand URLs; an IndexError, ValueError, UnicodeError or AssertionError on one odd string is invisible to them.",
     [("exception discipline of the state methods", "BasicURLParser.*"), ("host parsing", "Host.parse, IPv4Address.parse, IPv6Address.parse, IDNA"), ("setters", "URL.*.setter")],
     ["parse_url", "URL(...)", "URL setters"], (P, "src/urlstd/error.py"))
prop("C02", "Validity tests never raise and agree with the parser",
     "Asking whether a string can be parsed, and every host or URL validity query, returns a truth value for every string and never raises a parse error. The can-parse query is true exactly when parsing the same string with the same base succeeds.",
     ["inputs"], "For " + ANYS + " and every base (none, a valid one, an invalid one).",
     "Tests compare a handful of strings; a wrongly scoped except clause or a missed error class only shows on particular failures.",
     [("can_parse", "URL.can_parse"), ("validators", "URLValidator.is_valid, HostValidator.is_valid*")],
     ["URL.can_parse", "URLValidator.is_valid", "HostValidator"])
prop("C03", "Parsing never touches or shares the base URL",
     "Resolving a string against a base URL leaves the base exactly as it was, whether the parse succeeds or fails. The result shares no mutable part with the base, so changing one later never changes the other.",
     ["inputs", "histories"], "For " + ANYS + " and every kind of base URL (special, file, opaque path, with and without host).",
     "Tests look at the result, hardly ever at the base afterwards, and cannot see a shared path list until someone mutates it.",
     [("relative states copy components", "BasicURLParser._parse_relative, _parse_file, _parse_file_slash, _parse_no_scheme")],
     ["parse_url(urlstring, base)", "URL(url, base)"])
prop("C04", "Results depend on the arguments alone",
     "Parsing, assigning, serialising and querying read and write nothing but their arguments and the objects they are called on: no call changes module-level state in a way a later call can observe, and no input or output takes place apart from logging.",
     ["histories", "inputs"], "For every sequence of calls before a call, and " + ANYS + ".",
     "Tests run calls in one order; leaking state between calls (a cached list, a mutated table, a shared default) needs a particular history to show.",
     [("module tables are constants", "SPECIAL_SCHEMES, *_SAFE sets"), ("lazily created IDNA objects", "IDNA")],
     ["every public function and method"])
prop("C05", "A setter changes only its own component",
     "Assigning a component of a URL changes that component and nothing else; the exceptions are the ones the URL standard prescribes (host may set the port given with it, protocol may drop a port that became the default, removing the query or fragment may strip trailing spaces of an opaque path, search also replaces the search parameters).",
     ["inputs", "histories"], "For every setter, every kind of URL with arbitrary other components, and " + ANYS + ".",
     "Tests assert the serialisation after a few assignments; interference that needs a particular combination of components is missed.",
     [("state override", "BasicURLParser.parse"), ("setters", "URL.*.setter")], ["URL setters", "URL getters"])
prop("C06", "A rejected assignment leaves the URL as it was",
     "When assigning a component raises, the URL and its search parameters are exactly as before the assignment (a host may stay when only the port following it was rejected). Replacing the whole address is all or nothing.",
     ["inputs", "fault_sequences"], "For every setter, every kind of URL, every rejected string.",
     "Tests check that errors are raised, seldom the state left behind by an error in the middle of an update.",
     [("order of parse and update", "URL.*.setter, BasicURLParser.*")], ["URL setters followed by URL getters"])
prop("C07", "Assignments a URL cannot take are ignored",
     "Setting credentials or a port on a URL without a (non-empty) host or on a file URL, and setting host, port, credentials or path on a URL with an opaque path, does nothing. The protocol setter never turns a special URL into a non-special one or the reverse, never gives a file URL credentials or a port, and never gives a network scheme to a URL without a host.",
     ["inputs", "histories"], "For every URL of those kinds and " + ANYS + ".",
     "The guard conditions combine four or five components; tests try few of the combinations (port 0, empty password, ...).",
     [("guards", "URLRecord.cannot_have_username_password_port, URLRecord.has_opaque_path"), ("scheme state override", "BasicURLParser._parse_scheme")],
     ["URL setters"])
prop("C08", "The query and the search parameters stay in step",
     "Every change made through a URL's search parameters is at once the URL's query (none when the list became empty), and every change of the query through the URL is at once its search parameters. The URL and its parameters never come apart, including after the whole address is replaced.",
     ["histories", "inputs"], "For every sequence of mutations on either side, " + ANYS + " as names, values and queries.",
     "A missing update on one mutator, or a link to a record that has been replaced, shows only in sequences mixing both sides.",
     [("update steps", "URLSearchParams._update"), ("href and search setters", "URL.href, URL.search")],
     ["URL.search", "URL.search_params", "URLSearchParams mutators"])
prop("C09", "Each component is percent-encoded with exactly its set",
     "In every URL the library produces, each component holds only the characters its percent-encode set in the URL standard leaves alone, everything else having been percent-encoded; and no character outside the set is ever encoded. This covers fragment, query of special and non-special URLs, path segments, opaque paths and credentials, however they were set.",
     ["inputs"], "For " + ANYS + ", parsing with every kind of base and every setter on every kind of URL.",
     "The sets differ by one or two characters; tests do not try each character in each component by each route.",
     [("percent-encode sets", "*_SAFE constants"), ("encoders", "utf8_percent_encode, string_percent_encode")],
     ["record components after parse_url and setters"])
prop("C10", "Paths are stored in normal form",
     "A path never keeps a dot segment in any spelling (., .., with either dot percent-encoded in upper or lower case), a segment never contains a separator, only non-special URLs have an opaque path, assigning a path leaves special URLs with at least one segment, and shortening a path drops exactly its last segment, except the lone drive letter of a file URL.",
     ["inputs"], "For " + ANYS + ", every base, and the path setter on every kind of URL.",
     "There are twelve spellings times positions times schemes; tests hold a fraction of them.",
     [("path state", "BasicURLParser._parse_path")], ["URLRecord.path"])
prop("C11", "Hosts never hold a forbidden code point",
     "The host of any URL produced is free of forbidden host code points; the host of a special URL in addition holds no percent sign, no control, no upper-case ASCII letter and nothing outside ASCII, and is never missing or empty (only file URLs may have an empty host). Opaque hosts are encoded with exactly the C0-control set.",
     ["inputs"], "For " + ANYS + " as URL, as host assigned, and as argument of the host parser.",
     "Whether some path (percent-decoding, IDNA, opaque hosts, setters) lets one forbidden character through cannot be sampled.",
     [("host parser", "Host.parse, Host._opaque_host_parse, IDNA.domain_to_ascii")], ["URLRecord.host"])
prop("C12", "Numbers in URLs are strict and in range",
     "Ports, IPv4 parts and IPv6 pieces are only ever read from ASCII digits of the right radix: no sign, space, underscore, or non-ASCII digit is accepted by any conversion. A stored port lies in 0..65535 and a stored IPv4 address in 0..4294967295.",
     ["inputs"], "For " + ANYS + ", on every route to a port or an address.",
     "Python's integer conversion accepts many spellings the URL standard forbids; tests try few.",
     [("port state", "BasicURLParser._parse_port"), ("IPv4 number parser", "IPv4Address"), ("IPv6 parser", "IPv6Address.parse")],
     ["URLRecord.port", "URLRecord.host"])
prop("C13", "Every URL satisfies the structural invariants",
     "Every URL obtained by parsing or by assigning components has a lower-case ASCII scheme; a special URL has a host and a path; a URL without host, with an empty host, or with the file scheme has neither credentials nor port; an opaque path comes without a host; and a port equal to the scheme's default is never stored.",
     ["inputs", "histories"], "For " + ANYS + ", every base, and every setter on every URL that satisfies the invariants (so for every sequence of assignments).",
     "Invariants over all reachable states need induction over operations, not samples.",
     [("parser states", "BasicURLParser.*"), ("setters", "URL.*.setter")], ["URLRecord fields"])

prop("C14", "Serialisations and getters report exactly the stored components",
     "Serialising a URL yields scheme, colon, and, when it has a host, //, the credentials with @ when there are any, the host (IPv6 in brackets) and the port when stored; then the path (guarded by /. when it would otherwise look like a host), then ? and # with query and fragment when present. Each component getter returns exactly its part with its delimiter, and none of them changes the URL.",
     ["inputs", "histories"], "For every URL satisfying the structural invariants, of every kind, with arbitrary component values.",
     "Which delimiters appear depends on which components are missing or empty; the combinations with unusual values (port 0, empty query, empty password) are not all tested.",
     [("serializer", "URLRecord.serialize_url, serialize_host, serialize_path"), ("getters", "URL.href, host, search, hash, ...")],
     ["str(url)", "URL getters"])
prop("C15", "URL equality compares every component",
     "Two URLs are equal exactly when their serialisations are equal, without their fragments when those are excluded; a URL never equals an object that is no URL.",
     ["inputs"], "For every pair of URLs of any kinds, and other objects.",
     "Tests compare a few pairs; a comparison leaving out one component needs a pair differing in it alone.",
     [("equality", "URLRecord.equals, URLRecord.__eq__, URL.equals, URL.__eq__")], ["==", "equals()"])
prop("C16", "Origins are computed and compared as the standard prescribes",
     "The origin of an ftp, http, https, ws or wss URL is its scheme, host and port; of a blob URL that of the http(s) URL in its path; any other URL has the opaque origin, shown as null. Two origins are the same exactly when scheme, host and port are equal, and the same origin-domain exactly when schemes and domains are equal, or there are no domains and the origins are the same.",
     ["inputs"], "For every URL of every kind and every pair of origins.",
     "Security decisions rest on it; tests hold one URL per scheme.",
     [("origin", "URLRecord.origin, URL.origin"), ("comparison", "Origin.is_same_origin, Origin.is_same_origin_domain")],
     ["URL.origin", "URLRecord.origin", "Origin"])

prop("C20", "Relative references take over exactly what the standard says",
     "A reference without a scheme of its own takes scheme, credentials, host and port from the base (all of them, or only the scheme when it names an authority), the path unchanged when it is empty or only a query or fragment, the query only when it is empty or only a fragment, and never the fragment. A plain name replaces the last path segment. Nothing of the base reaches the result of an absolute reference. References without authority always resolve against a base with a hierarchical path; against an opaque path only fragments do. File URLs keep the drive letter of the base. URL(s, base) and parse_url(s, base) resolve against exactly that base.",
     ["inputs"], "For every kind of base with arbitrary components, and every string of each form of reference.",
     "Tests resolve fixed references against a few bases; inheriting a stale query, credentials or port shows only for particular combinations.",
     [("relative states", "BasicURLParser._parse_no_scheme, _parse_relative, _parse_relative_slash, _parse_file, _parse_file_slash"), ("base handling", "parse_url, URL.__init__")],
     ["parse_url(urlstring, base)", "URL(url, base)"])

prop("C21", "Form encoding and decoding follow application/x-www-form-urlencoded",
     "parse_qsl (and so URLSearchParams built from a string and URL.search_params) splits at every &, drops empty pieces, splits each piece at its first =, and decodes names and values by turning + into space, percent-decoding and decoding as UTF-8. urlencode and str(URLSearchParams) write every pair in order as name=value joined by &, leaving only ASCII letters, digits and *-._ as they are, space as +, everything else percent-encoded. string_percent_encode emits only unreserved and requested-safe characters and escapes.",
     ["inputs"], "For every byte string of the forms listed (any bytes between the separators) and every list of up to two pairs of arbitrary texts.",
     "Tests sample a few queries; one wrong character of 256, a second = in a value or a + treated after decoding needs a particular query.",
     [("decoder", "parse_qsl, percent_decode, utf8_decode"), ("encoder", "urlencode, string_percent_encode")],
     ["parse_qsl", "urlencode", "URLSearchParams.__str__"])

prop("C22", "A parameter list stores, answers and changes exactly what the standard says",
     "URLSearchParams keeps the pairs given in order, as scalar-value text. get gives the first value of a name, get_all and iteration give all in order, has tells whether a pair (name, or name and value) is there; append adds at the end; delete removes exactly the pairs of that name (and value); set changes the first pair of the name, removes the later ones, and appends when there is none; every other pair stays in place. Sorting orders by UTF-16 code units of the names. A string given loses one leading ? only and is form-decoded.",
     ["inputs"], "For lists of up to four pairs (six in the thorough tier) of arbitrary texts, in every way the names and values can be equal to one another and to the arguments.",
     "The mistakes need particular repetitions of names and values, which tests sample.",
     [("list operations", "URLSearchParams.append, delete, get, get_all, has, set, sort, __iter__, keys, values, entries, __init__")],
     ["URLSearchParams methods"])

prop("C17", "Verdicts of the validators and their reports agree",
     "After a HostValidator or URLValidator check with a ValidityState: True comes with a report that is valid and counts no error, False with one that is not valid and counts at least one; the report holds as many error types and descriptions as it counts errors, and nothing left over from an earlier use of the object. Whenever parse_url raises an error of the library, an error has been recorded in the ValidityState given. Recording never fails, whatever characters the input has.",
     ["inputs", "histories"], "For every string, every earlier content of the ValidityState, and every base.",
     "A failure that is not recorded, or a leftover count, needs one particular failure path or a particular earlier use.",
     [("report", "ValidityState.prepend, reset, __iadd__"), ("validators", "HostValidator.*, URLValidator.*"), ("log calls before every raise", "BasicURLParser, Host, IDNA, IPv4Address, IPv6Address, _Logger")],
     ["ValidityState.valid", "ValidityState.validation_errors", "return values"])

prop("C24", "urlparse gives the components of the parsed URL",
     "urlparse parses its string against the base in the encoding given, and its result has the scheme of the URL; as netloc the user name, then ':' and the password if there is one, then '@' when there are credentials, the host, and ':' and the port when there is one; as path and params the serialised path before and after its first ';'; the query and the fragment, empty when absent. With allow_fragments=False a nonempty fragment is appended, after '#', to the query, or else the params, or else the path, whichever is the last that is not empty.",
     ["inputs"], "For records of every kind with arbitrary credentials, host, port, query and fragment, and paths of two segments or opaque ones with and without ';'.",
     "A component lost or misplaced needs a rare combination, such as a password without a user name.",
     [("facade", "urlparse"), ("serializers", "URLRecord.serialize_host, serialize_path")],
     ["urllib.parse.ParseResult fields"])

prop("C23", "Domains go through IDNA whole, with the options of the standard",
     "Host.parse percent-decodes a domain, reads it as UTF-8 and maps it with UTS46 ToASCII using CheckBidi, ContextJ and non-transitional processing, and no STD3 rules; IDNA.domain_to_ascii and domain_to_unicode add STD3 rules exactly when be_strict, whatever was called before. The result is exactly what ICU gives; a domain is accepted only if no error other than hyphen placement (and, when not strict, label and name lengths) was reported and the result is not empty, and refused only for such an error, an empty result or an ICU failure; ToUnicode never refuses. Opaque hosts do not go through IDNA. A valid domain passes both directions strictly.",
     ["inputs", "histories"], "For every domain, strictness, and earlier call with other options.",
     "Tests sample domains; an option lost on one path or an instance cached for other options shows only for domains breaking that one rule.",
     [("IDNA calls", "IDNA.domain_to_ascii, domain_to_unicode, _create_instance"), ("host parser", "Host.parse"), ("validator", "HostValidator.is_valid_domain")],
     ["URL.hostname", "IDNA.domain_to_ascii", "IDNA.domain_to_unicode"])

prop("C18", "An assignment a URL can take stores exactly the text assigned",
     "Assigning to an attribute of a URL that can take it stores exactly the text given, percent-encoded where the standard says, and never raises: user name and password whole; the port as the number the leading digits denote, 0 included, none for the empty text or the default port of the scheme; a fragment or query without one leading # or ?, none for the empty text; a path as its segments, cut at / (and at \\ for special schemes), dot segments resolved; host and hostname up to the first of / ? : (and the port after the colon for host); a scheme in lower case up to its colon. A host that happens to be zero (0.0.0.0, [::]) is a host like any other.",
     ["inputs"], "For every kind of URL (special, file, with, without and with empty host, opaque path) and assigned texts of some 160 forms, each part of which is an arbitrary nonempty text over the characters that do not end it; the address zero as host, and every default port.",
     "Tests sample a few assignments; a truncated, dropped or doubled piece needs a particular kind of URL together with a particular form of text.",
     [("setters", "URL.username, password, host, hostname, port, pathname, search, hash, protocol"), ("states with override", "BasicURLParser.*"), ("record setters", "URLRecord.set_username, set_password")],
     ["attributes of URL after an assignment"])

prop("C25", "Parsing puts each part of a URL into its component",
     "Parsing a URL text splits it as the standard says: scheme (lower case); user name up to the first colon and password up to the last @ before the host; host; port as a number, none when it is the default of the scheme or empty; path segments cut at / (and \\ for special schemes) with single-dot and double-dot segments resolved and never above the root or a drive letter; query from the first ? and fragment from the first #, absent as distinct from empty; opaque paths whole. Every component is exactly its part of the text, percent-encoded where the standard says, nothing lost, doubled or moved; a reference takes from its base exactly what it does not give itself. Well-formed text is refused only because of its domain.",
     ["inputs"], "For some 120 forms of URL and relative reference (special, file, other schemes; against network, file and hostless bases), each part of which is an arbitrary nonempty text over the characters that do not end it.",
     "Tests sample texts; a piece lost or misplaced for one combination of parts, one length or one character needs that text.",
     [("state machine", "BasicURLParser.parse and its states"), ("path helpers", "URLRecord.shorten_path"), ("encoder", "utf8_percent_encode, string_percent_encode")],
     ["URL attributes", "URLRecord fields"])

prop("C19", "IP address literals denote exactly their numbers, and nothing else is accepted",
     "IPv6Address.parse accepts exactly the texts of one to four hexadecimal digits per word with eight words, or fewer with one ::, the last two words possibly written as four decimal bytes without leading zeros, and gives the eight words they denote, in place. IPv4Address.parse accepts one to four decimal, hexadecimal (0x) or octal (leading 0) numbers, with or without a final dot, each but the last at most 255 and the last within the remaining bytes, and gives the number they denote. Everything else raises the address's parse error. The text of an IPv4 address is its four bytes; that of an IPv6 address its words in lower-case hexadecimal with the first longest run of at least two zero words compressed.",
     ["inputs"], "For every shape of IPv6 literal (words before and after ::, IPv4 part) with arbitrary digits, some 50 shapes of IPv4 literals, about 100 malformed shapes with arbitrary digits and intruders, and every address in every pattern of zero words.",
     "Tests sample literals; a word misplaced or a wrong limit shows for one shape only.",
     [("parsers", "IPv6Address.parse, IPv4Address.parse, IPv4Address._parse_ipv4_number"), ("serializers", "IPv6Address.serialize, IPv4Address.serialize")],
     ["URL.hostname", "IPv6Address.parse", "IPv4Address.parse", "Host.serialize"])

prop("C26", "A text that is no URL is refused, whatever surrounds the mistake",
     "parse_url refuses: text without a scheme when there is no base, or a base with an opaque path (except a lone fragment); special URLs without host; credentials or a port without a host; a port that holds anything but digits or exceeds 65535; an unclosed bracket; an opaque host holding a forbidden host code point; and does so for any text around the mistake, any credentials, path, query or fragment.",
     ["inputs"], "For some 130 forms of malformed text and reference, each part of which is an arbitrary nonempty text over the characters that do not end it, without and with a base.",
     "Tests sample malformed texts; a check skipped for one kind of URL, one position or one neighbouring character needs that text.",
     [("state machine", "BasicURLParser.*"), ("host parser", "Host.parse, Host._parse_opaque_host")],
     ["parse_url", "URL()", "URL.can_parse"])

prop("C27", "Address validators say yes exactly to valid addresses",
     "HostValidator.is_valid_ipv6_address is True exactly for well-formed IPv6 text, is_valid_ipv4_address exactly for four decimal numbers up to 255 without leading zeros; is_valid_opaque_host is False for text holding a character that is neither a URL code point nor a percent sign, and for empty text; is_valid_url_scheme is False for text that does not start with a letter or holds a character no scheme can hold.",
     ["inputs"], "For every shape of IPv6 text (words before and after ::, IPv4 part), the shapes of IPv4 text and some 130 malformed shapes, with arbitrary digits and intruding characters.",
     "Tests sample addresses.",
     [("validators", "HostValidator.is_valid_ipv4_address, is_valid_ipv6_address, is_valid_opaque_host, URLValidator.is_valid_url_scheme")],
     ["return values of the validators"])

NA = {}


def na(pid, title, statement, over, text, why, mech, observe, reason):
    prop(pid, title, statement, over, text, why, mech, observe)
    NA[pid] = reason


na("C30", "Parsing a serialised URL gives the same URL",
   "Serialising a URL and parsing the result yields an equal URL.",
   ["inputs"], "For every URL obtainable from any string.",
   "It must hold for all strings.",
   [("serializer and parser", "URLRecord.serialize_url, BasicURLParser.parse")], ["str(parse_url(str(u))) == str(u)"],
   "Relates two runs of a recursive string transducer through unbounded strings; the abstract domain (character sets, lengths, finite sets of strings) cannot express equality of re-parsed text. C09-C13 decide the per-component conditions it rests on.")
na("C31", "Domains are mapped as UTS46 prescribes",
   "Every domain is mapped to ASCII and Unicode exactly as UTS46 prescribes.",
   ["inputs"], "For every domain.",
   "The input space is unbounded.",
   [("ICU binding", "IDNA")], ["URLRecord.host"],
   "The mapping itself lives in the ICU library, outside the source; how it is called is C23.")
na("C33", "Parsing takes time proportional to the input",
   "Parsing, serialising and querying take time at most polynomial of low degree in the length of the input.",
   ["inputs"], "For every input.",
   "Worst cases are rare inputs.",
   [("parser loops", "BasicURLParser.*")], ["wall time"],
   "Cost bounds of regular expressions, ICU and string concatenation are runtime quantities the analysis has no model for.")
