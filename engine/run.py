"""Entry points: run a function or method on abstract arguments."""

import ast

from . import domain as D
from .interp import Ctx, Interp, Sink
from .loader import AnalysisBroken
from .state import HObj, St, newsym
from .terms import const, mk, obj


class Outcome:
    """kind: 'return' | 'raise'"""

    __slots__ = ("kind", "st", "v", "exc")

    def __init__(self, kind, st, v=None, exc=None):
        self.kind, self.st, self.v, self.exc = kind, st, v, exc


def ctx0(it, cid=""):
    m = it.modules["urlstd.parse"]
    return Ctx(fid="drv", top=0, func=None, cid=cid, sink=Sink(), module=m,
               stack=(), locals_=None, base=False)


NODE = ast.parse("entry").body[0]


def start(it):
    st = it.base.copy()
    st.frames["drv"] = {}
    return st


def collect(it, ctx, res):
    out = [Outcome("return", x, v) for x, v in res]
    out += [Outcome("raise", x, None, e) for x, e in ctx.sink.raises]
    return out


def call(it, fn, args, kw, st, ctx=None):
    ctx = ctx or ctx0(it)
    res = it.call(fn, list(args), dict(kw), st, ctx, NODE)
    return collect(it, ctx, res), ctx.sink.events


def func(it, qual):
    f = it.funcs.get("urlstd.parse." + qual)
    if f is None:
        raise AnalysisBroken("public function %s is gone" % qual)
    return mk("func", f.qualname)


def glob(it, name):
    v = it.base.frames["mod:urlstd.parse"].get(name)
    if v is None:
        raise AnalysisBroken("public name %s is gone" % name)
    return v
