"""Entry points of the analysed crate: what the outside world (users, actix, timers) can invoke."""
from .domain import *
from .engine import Engine, Outcome
from .ir import last
from . import models


class Missing(Exception):
    """a public anchor of the analysis is gone"""


class Run:
    def __init__(self, name, E, outs):
        self.name, self.E = name, E
        self.outs = outs
        self.panics = E.panics

    @property
    def all(self):
        return self.outs + self.panics


def adt(ir, name):
    """path of the (unique) local type with this name"""
    c = [p for p in ir.local_adts if last(p) == name and '_' not in p.split('::')[-2][:1]]
    if len(c) != 1:
        raise Missing('type ' + name)
    return c[0]


def handler(ir, actor, msg):
    bs = ir.find_impl('Handler', adt(ir, actor), adt(ir, msg), 'handle')
    if len(bs) != 1:
        raise Missing('impl Handler<%s> for %s' % (msg, actor))
    return bs[0]


def method(ir, ty, name):
    bs = []
    for b in ir.bodies.values():
        if not b.std and b.method == name and b.impl_self is not None and b.impl_trait is None:
            if ir.adt_of(b.impl_self) and last(ir.adt_of(b.impl_self)) == ty:
                bs.append(b)
    if len(bs) != 1:
        raise Missing('%s::%s' % (ty, name))
    return bs[0]


def func(ir, name):
    bs = [b for b in ir.bodies.values() if not b.std and b.kind == 'Fn' and last(b.key) == name and b.parent is None or
          (not b.std and b.kind == 'Fn' and b.key.split('::')[-1] == name)]
    bs = [b for b in bs if '{' not in b.key]
    if len(bs) != 1:
        raise Missing('fn ' + name)
    return bs[0]


def run_body(name, E, body, args, st=None, settle=True):
    st = st or State()
    vals = []
    for a in args:
        vals.append(a(st) if callable(a) else a)
    outs = []
    for v, s in E.exec_body(body, vals, st):
        if settle:
            rs = models.settle(E, s, v)
        else:
            rs = [(v, s)]
        for v2, s2 in rs:
            for v3, s3 in models.answers(E, E.resolve(s2, v2), s2):
                outs.append(Outcome('return', v3, s3))
    return Run(name, E, outs)


def ref(v, tag):
    def f(st):
        c = ('arg', tag)
        st.cells[c] = v
        return ('r', c, ())
    return f


SELF = ref(term('actor', 'WorkQueue'), 'self')
CTX = ref(term('ctx'), 'ctx')


def msg(E, ty, **kw):
    """message with the given opaque fields"""
    p = adt(E.ir, ty)
    return term('msg', ty)


def run_handler(E, actor, m):
    b = handler(E.ir, actor, m)
    return run_body('%s<-%s' % (actor, m), E, b, [ref(term('actor', actor), 'self'), term('msg', m), CTX])


def run_method(E, ty, name, args):
    return run_body('%s::%s' % (ty, name), E, method(E.ir, ty, name), args)
