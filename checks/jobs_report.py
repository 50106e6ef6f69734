"""C17: verdicts and reports of the validators agree."""

from jobs_total import *
from engine.logic import compare, list_len
from engine.terms import lin_add, tup_items

LISTS = ("error_types", "descriptions")


def dirty(sc, quiet=None):
    """A validity state with leftovers of an earlier use."""
    v = sc.make("ValidityState")
    h = sc.st.heap.pop(v.a[0])
    for k in ("valid", "validation_errors", "disable_logging") + LISTS:
        if k not in h.f:
            raise AnalysisBroken("ValidityState has no field %s" % k)
    for k in LISTS:
        if h.f[k].op == "obj":
            sc.st.heap.pop(h.f[k].a[0], None)
        h = h.setf(k, sc.lst("vs." + k, Fact(s=D.mkstr(C.ANY, 0, D.INF))))
    h = h.setf("valid", sym("vs.valid", D.BOOL))
    h = h.setf("validation_errors", sym("vs.n", D.fint(0, D.INF)))
    h = h.setf("disable_logging", sym("vs.quiet", D.BOOL)
               if quiet is None else const(quiet))
    sc.st.heap["B:vs"] = h
    return sc.root("vs", obj("B:vs"))


def is_(st, op, a, b):
    """True/False/None: does a op b hold on every path?"""
    t, f = compare(st, op, a, b)
    return True if not f else False if not t else None


def report(st):
    h = st.heap.get("B:vs")
    n, valid = h.f["validation_errors"], h.f["valid"]
    ls = []
    for k in LISTS:
        t = h.f[k]
        g = st.heap.get(t.a[0]) if t.op == "obj" else None
        if g is None or g.kind != "list":
            return None
        ls.append(list_len(g))
    return n, valid, ls


def hard(st, ok, sure):
    """A 'no' counts only where nothing about the values was forgotten."""
    return ok if ok is not None or not sure else None


def consistent(rep, ent, st, want=None, counts=True, fresh=False):
    r = report(st)
    if r is None:
        rep.check(None, "the report is readable", ent, "", st)
        return
    n, valid, ls = r
    if fresh:
        old = {x for t in [n, valid] + ls for x in t.syms
               if x.startswith("in:vs.")}
        rep.check(not old, "a validation starts from a clean report", ent,
                  "what an earlier one left (%s) counts" % ", ".join(
                      sorted(old)), st)
    for k, ln in zip(LISTS, ls) if counts else ():
        rep.check(is_(st, "==", n, ln), "as many %s as errors counted" % k,
                  ent, "%s errors, %s %s" % (n, ln, k), st)
    fv = st.fact(valid)
    zero = is_(st, "==", n, const(0))
    vt = True if fv == D.TRUE else False if fv == D.FALSE else None
    rep.check(None if zero is None or vt is None else zero == vt,
              "valid exactly when no error is counted", ent,
              "valid=%s with %s errors" % (valid, n), st)
    if want is None:
        return
    rep.check(None if zero is None else zero == want, "the verdict is valid "
              "exactly when no error is counted", ent,
              "%s with %s errors" % (want, n), st)


def j_verdict(rep, cls, name):
    sc = Scene(fine=True)
    s = sc.root("s", sym("s", ANYSTR))
    vs = dirty(sc)
    outs, ev = sc.call(sc.method(cls, name), [s], {"validity": vs})
    ent = "%s.%s" % (cls, name)
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        if o.kind == "return":
            consistent(rep, ent, o.st, truth_of(o), fresh=True)
    rep.check(bool(outs), "returns", ent, "never")


def two_valued(sc, formats=False):
    """prepend and reset with what j_methods shows of them: the report
    becomes faulty, or clean."""
    pos = newsym("vs.pos", D.fint(1, D.INF))
    ci = sc.it.classes.get("urlstd.parse.ValidityState")
    if ci is None:
        raise AnalysisBroken("ValidityState is gone")

    def prepend(env, st, ctx, node):
        h = st.heap.get(env["self"].a[0])
        st = st.copy()
        st.heap[env["self"].a[0]] = h.setf("valid", const(False)).setf(
            "validation_errors", pos)
        # the message is still put together
        args, msg = env.get("args"), env.get("msg")
        if formats and msg is not None and args is not None and tup_items(args):
            return [(x, NONE) for x, _ in sc.it.binop(
                "%", msg, args, st, ctx, node)]
        return [(st, NONE)]

    sc.it.stubs["urlstd.parse.ValidityState.prepend"] = prepend
    return pos


def j_parse(rep, what, kind, form, quiet):
    """parse_url / URLValidator.is_valid with a validity state: counters
    agree, and a failure is always reported."""
    sc = Scene(fine="coarse")
    b = [] if kind == "none" else [sc.rec_kind("base", kind)]
    s = sym("s", {"any": ANYSTR, "rel": NOALPHA, "nocolon": NOCOLON}.get(
        form, CLEAN))
    if form[0] == ":":
        s = cat([const(form[1:]), s])
    vs = dirty(sc, quiet)
    h = sc.st.heap["B:vs"]
    if what == "parse_url":
        # nothing resets the state here: it starts empty
        for k in LISTS:
            t = h.f[k].a[0]
            sc.st.heap[t] = sc.st.heap[t].with_segs(())
        sc.st.heap["B:vs"] = h.setf("valid", const(True)).setf(
            "validation_errors", const(0))
        fn = glob(sc.it, what)
    else:
        fn = sc.method(*what.split("."))
    pos = two_valued(sc)
    if what == "parse_url":
        sc.it.ghost = ("B:vs", h)
        sc.it.ghost_bad = sc.st.heap["B:vs"].setf(
            "valid", const(False)).setf("validation_errors", pos)
    outs, ev = sc.call(fn, [s] + b, {"validity": vs})
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        if o.kind == "raise":
            g = o.st.heap["B:vs"]
            rep.check(o.st.fact(g.f["valid"]) == D.FALSE, "a failure is "
                      "always reported", "%s <- %s in %s" % (
                          what, o.exc.name, site_func(o.exc)),
                      "raised with no error recorded on the way", o.st)
    rep.check(bool(outs), "returns", what, "never")


def tie(sc, st, oid, n):
    """Lists with as many entries as errors counted."""
    h = st.heap[oid]
    for k in LISTS:
        t = h.f[k].a[0]
        P = newsym("in:%s.%s" % (oid, k), Fact(t=TupF(None, D.STR, 0, INF)))
        st.heap[t] = st.heap[t].with_segs(
            (("m", P, n),) if n is not const(0) else ())
    st.heap[oid] = h.setf("validation_errors", n).setf(
        "valid", const(n is const(0)))


def j_is_valid(rep, what, base):
    """URLValidator.is_valid, for any outcome and report of the parser."""
    sc = Scene(fine=True)
    b = [] if base == "none" else [sc.root("b", sym("b", ANYSTR))]
    s = sc.root("s", sym("s", ANYSTR))
    vs = dirty(sc)
    errs = error_classes(sc)
    r = sc.rec_kind("tmpl", "opaque")
    tmpl = sc.st.heap.pop(r.a[0])
    sc.st.frames["drv"].pop("tmpl", None)
    if PARSE not in sc.it.funcs:
        raise AnalysisBroken("BasicURLParser.parse is gone")
    sc.tmpl = tmpl
    pos = newsym("vs.pos", D.fint(1, INF))

    def stub(env, st, ctx, node):
        out = []
        before = report(st)
        for n in (const(0), pos):
            x = st.copy()
            if before is not None and before[0] is const(0):
                tie(sc, x, "B:vs", n)
            # otherwise not reset before the parse: the counts go on
            any_record(sc, x, "B:parsed")
            if n is pos:
                for ci in errs:
                    sc.it.raise_(x.copy(), ctx, ci, node, explicit=True)
            out.append((x, obj("B:parsed")))
        return out

    sc.it.stubs[PARSE] = stub
    outs, ev = sc.call(sc.method(*what.split(".")), [s] + b,
                       {"validity": vs})
    rep.count("abstract outcomes", len(outs))
    for o in outs:
        if o.kind == "return":
            consistent(rep, what, o.st, truth_of(o), fresh=True)
    rep.check(bool(outs), "returns", what, "never")


def decided(st, n):
    t, f = compare(st, "==", n, const(0))
    return [(x, True) for x in t] + [(x, False) for x in f]


def j_methods(rep, name):
    """Every method keeps the counters together; recording an error makes
    the report faulty."""
    sc = Scene(fine=True)
    n = sym("vs.n", D.fint(0, D.INF))
    vs = dirty(sc)
    tie(sc, sc.st, "B:vs", n)
    for x, clean in decided(sc.st, n):
        x = x.copy()
        x.heap["B:vs"] = x.heap["B:vs"].setf("valid", const(clean))
        sc.st = x
        a = {"prepend": [sym("m", D.STR)], "reset": []}[name]
        outs, ev = sc.callm(vs, name, a)
        for o in outs:
            if o.kind != "return":
                rep.check(False, "recording an error never fails",
                          "ValidityState.%s" % name, o.exc.name, o.st)
                continue
            consistent(rep, "ValidityState.%s" % name, o.st)
            z = report(o.st)
            if name == "prepend" and z is not None:
                rep.check(o.st.fact(z[1]) == D.FALSE or (
                    False if o.st.fact(z[1]) == D.TRUE else None),
                    "recording an error makes the report faulty",
                    "ValidityState.prepend", "valid=%s" % z[1], o.st)
            if name == "reset" and z is not None:
                rep.check(o.st.fact(z[1]) == D.TRUE or (
                    False if o.st.fact(z[1]) == D.FALSE else None),
                    "a reset makes the report clean",
                    "ValidityState.reset", "valid=%s" % z[1], o.st)
