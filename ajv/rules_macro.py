"""Rules over programs that use the job macro: a witness crate is expanded and analysed, never run."""
import os
from .world import *
from . import extract, rules_codec
from .models import ok, err, RES, POLL, deref

SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness', 'macro')
FNS = [('one', 1), ('three', 3), ('later_two', 2), ('later_unit', 4), ('fallible', 2), ('zero', 0), ('later_zero', 0), ('trailing', 2), ('changes', 2)]


class Hook:
    """the engine's side of the generated code"""
    def __call__(self, E, st, k):
        c = k.c
        m = c.get('method') or last(c['fn'])
        f = c.get('res') or c['fn']
        if f.startswith('ajwitness::') and m == 'observe':
            a = E.resolve(st, k.args[0])
            E.event(st, 'user', (a,))
            return [(term('result', a), st)]
        if m == 'poll' and last(c.get('trait', '')) == 'Future':
            x = deref(E, st, k.args[0])
            if x[0] == 'o' and x[1] == '#ajrun':
                s2 = st.copy()
                E.event(st, 'submit', (x[3][0][1],))
                E.event(s2, 'submit', (x[3][0][1],))
                return [(('o', POLL, 0, (('0', ok(term('id'))),), None), st), (('o', POLL, 0, (('0', err(term('why'))),), None), s2)]
            return None
        if not c['fn'].startswith('aj_core::'):
            return None
        t = E.ir.adt_of(c['impl_self']) if 'impl_self' in c else None
        t = last(t) if t else None
        a = [E.resolve(st, deref(E, st, x)) for x in k.args]
        if t == 'Job' and m == 'new':
            return [(term('ajjob', a[0], None), st)]
        if t == 'Job' and m == 'context' and a[0][:2] == ('t', 'ajjob'):
            return [(term('ajjob', a[0][2], a[1]), st)]
        if t == 'Job' and m == 'run':
            return [(('o', '#ajrun', 0, (('job', a[0]),), None), st)]
        if t == 'Job' and m == 'just_run':
            E.event(st, 'submit', (a[0], 'unanswered'))
            return [(UNIT, st)]
        if t == 'AJ' and m == 'add_job':
            return [(('o', '#ajrun', 0, (('job', a[0]),), None), st)]
        if t == 'AJ' and m == 'just_add_job':
            E.event(st, 'submit', (a[0], 'unanswered'))
            return [(UNIT, st)]
        return None


def C21(W, R):
    R.rule('witness-builds', 'programs with annotated functions (plain, async, without arguments, with a trailing comma, returning or not) type check')
    R.rule('submits', 'run and just_run submit exactly one job that carries the arguments, with the given context when there is one; run answers with the id of the job or with the error')
    R.rule('executes', 'executing that job calls the annotated function exactly once with the arguments in order, and yields its result')
    R.rule('own-queue', 'the queue of a job type is named by a fixed text of its own')
    R.rule('arguments-stored', 'the stored form of a generated job holds every argument')
    p = extract.witness('ajwitness', SRC)
    R.ok('witness-builds', len(FNS) + 1)
    X = World(p)
    X.tier = W.tier
    W.engines_of = X
    names = {}
    for fn, n in FNS:
        one(W, X, R, fn, n, names)
    by_hand(W, X, R, names)
    for q, ts in names.items():
        if len(ts) > 1:
            R.bad('own-queue', 'shared:' + '+'.join(sorted(ts)), 'the job types %s share the queue %r' % (', '.join(sorted(ts)), q))
        else:
            R.ok('own-queue')
    W.engines.extend(X.engines)
    W.inconclusive.extend(X.inconclusive)


def body(X, key):
    b = X.ir.bodies.get(key)
    if b is None:
        raise entry.Missing(key)
    return b


def call(X, b, args):
    E = X.engine(opts=dict(unroll=6, iterations=6, codec=Hook()))
    try:
        return entry.run_body(last(b.key), E, b, args)
    except Budget as x:
        return None


def one(W, X, R, fn, n, names):
    args = tuple(term('arg', fn, i) for i in range(n))
    want = ('o', 'tuple', 0, tuple(sorted([('0', lit(fn))] + [(str(i + 1), a) for i, a in enumerate(args)])), None)
    struct = None
    for how in ('run', 'just_run', 'run_with_context', 'just_run_with_context'):
        where = fn + '::' + how
        ctx = term('uctx') if how.endswith('context') else None
        r = call(X, body(X, 'ajwitness::%s::%s' % (fn, how)), args + ((ctx,) if ctx else ()))
        if r is None:
            R.unclear('submits', where, 'too many paths')
            continue
        for p in r.panics:
            R.bad('submits', where + ':panic', '%s can panic: %s' % (where, p.msg), p)
        for o in r.outs:
            sub = [e for e in flat(o) if e.kind == 'submit']
            if any(e.kind == 'await' for e in flat(o)) or any(murky(e.args[0]) for e in sub):
                R.unclear('submits', where, 'what is submitted')
                continue
            if len(sub) != 1:
                R.bad('submits', where + ':count', '%s submits %d jobs' % (where, len(sub)), o)
                continue
            j = sub[0].args[0]
            if j[:2] != ('t', 'ajjob'):
                R.unclear('submits', where, 'submitted job')
                continue
            if j[3] != ctx:
                R.bad('submits', where + ':context', '%s submits the job %s' % (where, 'without the given context' if ctx else 'with another context'), o, sub[0])
                continue
            R.ok('submits')
            if how in ('run', 'run_with_context'):
                v = o.ret
                if len(sub[0].args) > 1:
                    R.bad('submits', where + ':unanswered', '%s answers without waiting for the job to be accepted' % where, o, sub[0])
                elif not (v[0] == 'o' and v[1] == RES):
                    R.unclear('submits', where, 'answer')
                elif v[2] == 0 and v[3][0][1] != term('id') or v[2] == 1 and not contains(v, term('why')):
                    if murky(v):
                        R.unclear('submits', where, 'answer')
                    else:
                        R.bad('submits', where + ':answer', '%s answers %s' % (where, show.sv(v)), o)
                else:
                    R.ok('submits')
            executes(X, R, fn, where, j[2], want, names if how == 'run' else None)


def executes(X, R, fn, where, s, want, names):
    if s[0] != 'o' or s[1] not in X.ir.local_adts:
        R.unclear('executes', where, 'submitted value')
        return
    bs = X.ir.find_impl('Executable', s[1], None, 'execute')
    if len(bs) != 1:
        R.unclear('executes', where, 'no execute')
        return
    r = call(X, bs[0], (entry.ref(s, 'self'), entry.ref(term('ectx'), 'ectx')))
    if r is None:
        R.unclear('executes', where, 'too many paths')
        return
    if not r.outs:
        R.unclear('executes', where, 'no path')
    for o in r.outs:
        us = [e for e in flat(o) if e.kind == 'user']
        if any(e.kind == 'await' for e in flat(o)):
            R.unclear('executes', where, 'await')
        elif len(us) != 1:
            R.bad('executes', where + ':count', 'executing the job of %s calls the function %d times' % (where, len(us)), o)
        elif us[0].args[0] != want:
            if murky(us[0].args[0]):
                R.unclear('executes', where, 'arguments')
            else:
                R.bad('executes', where + ':args', 'the function is called with %s instead of %s' % (show.sv(us[0].args[0]), show.sv(want)), o, us[0])
        elif o.ret != term('result', want):
            if murky(o.ret) or unit_result(o.ret):
                if unit_result(o.ret):
                    R.ok('executes')
                else:
                    R.unclear('executes', where, 'result')
            else:
                R.bad('executes', where + ':result', 'executing the job yields %s instead of the result of the function' % show.sv(o.ret), o)
        else:
            R.ok('executes')
    if names is not None:
        queue(X, R, s[1], names)
        stored(X, R, s[1])


def unit_result(v):
    return v == UNIT


def queue(X, R, p, names):
    bs = X.ir.find_impl('BackgroundJob', p, None, 'queue_name')
    if len(bs) != 1:
        R.unclear('own-queue', last(p), 'no queue name')
        return
    r = call(X, bs[0], ())
    if r is None or not r.outs:
        R.unclear('own-queue', last(p), 'queue name')
        return
    vs = {o.ret for o in r.outs}
    if len(vs) == 1 and list(vs)[0][0] == 's' and all(isinstance(x, str) for x in list(vs)[0][1]):
        q = ''.join(list(vs)[0][1])
        names.setdefault(q, set()).add(last(p))
        if not q:
            R.bad('own-queue', last(p) + ':empty', 'the queue of %s has no name' % last(p))
    else:
        R.unclear('own-queue', last(p), 'queue name')


def stored(X, R, p):
    ws = X.ir.find_impl('Serialize', p, None, 'serialize')
    rs = X.ir.find_impl('Deserialize', p, None, 'deserialize')
    if len(ws) != 1 or len(rs) != 1:
        R.unclear('arguments-stored', last(p), 'encoding')
        return
    S = Sub(R)
    rules_codec.roundtrip(X, S, p, ws[0], rs[0])


class Sub:
    """report of the encoding rules under one rule of this property"""
    def __init__(self, R):
        self.R = R

    def ok(self, rule, n=1):
        self.R.ok('arguments-stored', n)

    def bad(self, rule, where, msg, o=None, ev=None):
        self.R.bad('arguments-stored', where, msg, o, ev)

    def unclear(self, rule, where, why):
        self.R.unclear('arguments-stored', where, why)


def by_hand(W, X, R, names):
    p = entry.adt(X.ir, 'ByHand')
    queue(X, R, p, names)
    bs = X.ir.find_impl('BackgroundJob', p, None, 'job')
    if len(bs) != 1:
        R.unclear('submits', 'ByHand::job', 'no job')
        return
    r = call(X, bs[0], (term('hand'),))
    for o in r.outs if r else ():
        if o.ret == term('ajjob', term('hand'), None):
            R.ok('submits')
        elif murky(o.ret) or o.ret[:2] != ('t', 'ajjob'):
            R.unclear('submits', 'ByHand::job', 'job')
        else:
            R.bad('submits', 'ByHand::job', 'job() makes a job of %s' % show.sv(o.ret), o)
