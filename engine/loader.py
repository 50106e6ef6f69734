"""Source loading: modules, functions, classes, liveness of locals."""

import ast
import os


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: no verdict is possible."""


class FuncInfo:
    def __init__(self, module, node, qualname, cls=None, closure=None):
        self.module = module
        self.node = node
        self.qualname = qualname
        self.cls = cls  # ClassInfo where it is defined
        self.closure = closure  # frame id of the defining frame, if nested
        self.name = getattr(node, "name", "<lambda>")
        self.kind = "function"  # function | classmethod | staticmethod
        self.decorators = []
        self._live = None
        self._gen = None
        self._locals = None

    @property
    def is_gen(self):
        if self._gen is None:
            self._gen = not isinstance(self.node, ast.Lambda) and any(
                isinstance(n, (ast.Yield, ast.YieldFrom))
                for n in own_nodes(self.node)
            )
        return self._gen

    @property
    def live(self):
        if self._live is None:
            self._live = Liveness(self.node).after
        return self._live

    @property
    def localnames(self):
        if self._locals is None:
            s = set()
            a = self.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                s.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x:
                    s.add(x.arg)
            glob = set()
            for n in own_nodes(self.node):
                if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)
                ):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob |= set(n.names)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        s.add((al.asname or al.name).split(".")[0])
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    s.add(n.name)
            self.globalnames = glob
            self._locals = s - glob
        return self._locals

    def site(self, node):
        return "%s:%s:%s" % (
            self.module.relpath,
            getattr(node, "lineno", 0),
            self.qualname,
        )

    def __repr__(self):
        return "<fn %s>" % self.qualname


def own_nodes(fn):
    """Nodes of a function body, nested functions/classes excluded (but
    comprehensions included)."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node, qualname):
        self.module = module
        self.node = node
        self.qualname = qualname
        self.name = node.name
        self.bases = []  # ClassInfo | str (external dotted name)
        self.attrs = {}  # name -> term (class attributes and functions)
        self.properties = {}  # name -> {'get':FuncInfo,'set':..., 'del':...}
        self.dataclass = None  # None | dict(eq=..., frozen=...)
        self.fields = []  # dataclass/NamedTuple fields: (name, default node)
        self.namedtuple = False
        self.enum = False
        self.members = {}
        self.annotations = []

    def mro(self):
        out, seen = [], set()

        def go(c):
            if not isinstance(c, ClassInfo):
                return
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            for b in c.bases:
                go(b)

        go(self)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, ClassInfo)]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def find_property(self, name):
        for c in self.mro():
            if name in c.properties:
                return c.properties[name]
            if name in c.attrs:
                return None
        return None

    def __repr__(self):
        return "<class %s>" % self.qualname


class Module:
    def __init__(self, name, path, relpath):
        self.name, self.path, self.relpath = name, path, relpath
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.env = {}
        self.executed = False


def load_package(root, package="urlstd"):
    """All .py modules of /repo/src/<package>."""
    base = os.path.join(root, "src", package)
    if not os.path.isdir(base):
        raise AnalysisBroken("no package directory %s" % base)
    mods = {}
    for dp, dn, fn in os.walk(base):
        dn[:] = sorted(d for d in dn if d != "__pycache__")
        for f in sorted(fn):
            if not f.endswith(".py"):
                continue
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, os.path.join(root, "src"))
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            mods[name] = Module(name, p, os.path.relpath(p, root))
    return mods


# ---- liveness ---------------------------------------------------------------


def _names(node, ctx):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ctx):
            out.add(n.id)
    return out


class Liveness:
    """Live local names after each statement of a function (structured)."""

    def __init__(self, fn):
        self.after = {}
        self.always = set()
        body = fn.body if isinstance(fn.body, list) else []
        for n in own_nodes(fn):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.GeneratorExp)):
                self.always |= _names(n, ast.Load)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
        self.exc = [set()]
        self.block(body, set(), set(), set())

    def block(self, stmts, out, brk, cont):
        live = set(out)
        for s in reversed(stmts):
            old = self.after.get(s)
            self.after[s] = live | self.always | (old or set())
            live = self.stmt(s, live, brk, cont)
        return live

    def use(self, *nodes):
        u = set()
        for n in nodes:
            if n is not None:
                u |= _names(n, (ast.Load, ast.Del))
        return u

    def stmt(self, s, out, brk, cont):
        exc = set().union(*self.exc)
        if isinstance(s, (ast.Return, ast.Raise)):
            return self.use(s) | exc
        if isinstance(s, ast.Break):
            return set(brk) | exc
        if isinstance(s, ast.Continue):
            return set(cont) | exc
        if isinstance(s, ast.If):
            a = self.block(s.body, out, brk, cont)
            b = self.block(s.orelse, out, brk, cont)
            return a | b | self.use(s.test) | exc
        if isinstance(s, ast.While):
            els = self.block(s.orelse, out, brk, cont)
            head = els | self.use(s.test)
            for _ in range(4):
                n = head | self.block(s.body, head, out, head)
                if n == head:
                    break
                head = n
            return head | exc
        if isinstance(s, ast.For):
            els = self.block(s.orelse, out, brk, cont)
            head = set(els)
            tgt = _names(s.target, ast.Store)
            for _ in range(4):
                b = self.block(s.body, head, out, head)
                n = head | (b - tgt) | self.use(s.target)
                if n == head:
                    break
                head = n
            return head | self.use(s.iter) | exc
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, brk, cont) if s.finalbody else out
            fin = set(fin)
            hl = set()
            for h in s.handlers:
                b = self.block(h.body, fin, brk | fin, cont | fin)
                if h.name:
                    b = b - {h.name}
                hl |= b | self.use(h.type)
            els = self.block(s.orelse, fin, brk, cont)
            self.exc.append(hl | fin)
            b = self.block(s.body, els, brk, cont)
            self.exc.pop()
            return b | hl | fin | exc
        if isinstance(s, ast.With):
            b = self.block(s.body, out, brk, cont)
            for it in s.items:
                if it.optional_vars is not None:
                    b = b - _names(it.optional_vars, ast.Store)
                b |= self.use(it.context_expr)
            return b | exc
        if isinstance(s, ast.Match):
            r = set(out) | self.use(s.subject)
            for c in s.cases:
                r |= self.block(c.body, out, brk, cont) | self.use(c.pattern)
                if c.guard is not None:
                    r |= self.use(c.guard)
            return r | exc
        if isinstance(s, ast.Assign):
            d = set()
            u = self.use(s.value)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    d.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            d.add(e.id)
                u |= self.use(t)
            return (out - d) | u | exc
        if isinstance(s, ast.AnnAssign):
            u = self.use(s.value) | self.use(s.target)
            d = set()
            if isinstance(s.target, ast.Name) and s.value is not None:
                d.add(s.target.id)
            return (out - d) | u | exc
        if isinstance(s, ast.AugAssign):
            return out | self.use(s.value) | self.use(s.target) | (
                _names(s.target, ast.Store)) | exc
        return out | self.use(s) | exc
