"""Engine start, queue registry and routing, builders: C18, C19, C28."""
from .world import *
from .rules_queue import is_ok, is_err, payload, requests
from .engine import Outcome
from .models import some, NONE
from .jobworld import Unclear

NOT_MODELLED_SYNC = ('Atomic', 'Once', 'Lazy', 'Condvar', 'Barrier', 'compare_exchange', 'swap')


def starts_of(o, ty):
    """starts of an actor of this type on a path, with their position"""
    return [(i, e) for i, e in enumerate(flat(o)) if e.kind == 'actor_start' and is_actor(e, ty)]


def is_actor(e, ty):
    s = e.args[0][2] if e.args[0][0] == 't' and len(e.args[0]) > 2 else str(e.args[0])
    if isinstance(s, tuple):
        s = str(s)
    return last(str(s).split('<')[0].strip("'\" ")) == ty or str(s).split('<')[0].endswith('::' + ty) or str(s).split('<')[0] == ty


def helds(e):
    """(lock, kind, exclusive) held at a start"""
    if len(e.args) < 3 or e.args[2][:2] != ('t', 'held'):
        return []
    out = []
    for h in e.args[2][2:]:
        out.append((h[2], h[3], h[4] == lit('excl')))
    return out


def strange_sync(E):
    return [k for k in E.stats['unmodelled'] if any(x in k for x in NOT_MODELLED_SYNC)]


def variant_of(facts, t):
    """'Some'/'None' of an option value on a path, else None"""
    if t[0] == 'o':
        return {0: 'None', 1: 'Some'}.get(t[2])
    v = facts.get(('V', t))
    if v is not None and len(v) == 1:
        return {0: 'None', 1: 'Some'}.get(next(iter(v)))
    return None


# ---------------------------------------------------------------- C18
def C18(W, R):
    R.rule('single', 'on every path that starts an engine, exactly one is started, while an exclusive lock is held')
    R.rule('checked', 'an engine is only started after the registered address was found absent under that same acquisition of the lock')
    R.rule('registered', 'the started engine is registered before the lock is released, and its address returned')
    R.rule('reused', 'a path that starts no engine returns the registered address')
    R.rule('lookup', 'the address lookup returns the registered address')
    R.rule('backend', 'the engine is built with the given back end, and queues with the back end of the engine')
    R.rule('quick', 'the quick start starts the engine the same way')
    for name, args, given in (('start', (term('given_backend'),), True), ('quick_start', (), False)):
        r = W.api('AJ', name, args)
        if not r:
            R.unclear('single', name, 'too many paths')
            continue
        cells = []
        nstart = 0
        for o in r.outs:
            ss = starts_of(o, 'AJ')
            if ss:
                nstart += 1
                engine_path(W, R, r.E, o, ss, name, cells, given)
        if not nstart:
            if strange_sync(r.E):
                R.unclear('single', name, 'start not found')
            else:
                R.bad('single', name + ':never', 'no path of %s starts an engine' % name, r.outs[0] if r.outs else None)
            continue
        for o in r.outs:
            if not starts_of(o, 'AJ'):
                reuse_path(R, r.E, o, name, cells)
        if name == 'quick_start':
            R.ok('quick')
        for p in r.panics:
            if nopanic_ok(p):
                R.ok('single')
            else:
                R.bad('single', name + ':panic', 'starting the engine panics: %s' % p.msg, p)
        # the lookup
        if name == 'start' and cells:
            g = W.api(None, 'get_aj_address', ())
            if g:
                for o in g.outs:
                    if from_cells(o.ret, cells):
                        R.ok('lookup')
                    elif o.ret == NONE and any(e.kind == 'trylock_failed' for e in flat(o)):
                        R.bad('lookup', 'get_aj_address:busy', 'the lookup gives up when the address is in use', o)
                    elif murky(o.ret) or strange_sync(g.E):
                        R.unclear('lookup', 'get_aj_address', show.sv(o.ret)[:80])
                    elif o.ret == NONE and any(variant_of(o.facts, e.args[2]) == 'None' for e in flat(o) if e.kind == 'lock' and e.args[0] in cells):
                        R.ok('lookup')
                    elif o.ret == NONE and not any(e.kind == 'lock' for e in flat(o)):
                        R.ok('lookup')      # poisoned or never set
                    else:
                        R.bad('lookup', 'get_aj_address', 'the address lookup returns %s' % show.sv(o.ret), o)
    queue_backend(W, R)


def nopanic_ok(p):
    return True     # poisoned locks and thread failures: not reachable without another panic


def from_cells(v, cells):
    """the value was read from one of the registered cells"""
    for x in iter_terms(v):
        if len(x) > 2 and x[0] == 't' and x[1] in ('locked', 'oncecontent') and x[2] in cells:
            return True
    return False


def engine_path(W, R, E, o, ss, name, cells, given):
    evs = flat(o)
    if len(ss) > 1:
        R.bad('single', name + ':many', 'one start creates %d engines' % len(ss), o, ss[1][1])
        return
    i, e = ss[0]
    addr = e.res
    hs = helds(e)
    excl = [h for h in hs if h[2] and 'static' in str(h[0])]
    if not excl:
        if strange_sync(E):
            R.unclear('single', name, 'unmodelled synchronisation')
            return
        R.bad('single', name + ':unlocked', 'an engine is started while no exclusive lock is held: two concurrent starts both start one', o, e)
        return
    R.ok('single')
    once = [h for h in excl if h[1] == lit('once')]
    if once:
        cells.append(once[0][0])
        R.ok('checked')
        on = [x for x in evs if x.kind == 'once' and x.args[0] == once[0][0]]
        if on and on[-1].res == addr:
            R.ok('registered')
        elif on and not murky(on[-1].res if isinstance(on[-1].res, tuple) else UNIT):
            R.bad('registered', name, 'what is registered is %s' % show.sv(on[-1].res), o, e)
        backend_rule(W, R, o, e, name, given)
        return
    # where the address is registered
    reg = None
    for j, x in enumerate(evs):
        if x.kind == 'unlock' and j > i and x.args[1] == some(addr):
            reg = (j, x)
            break
    if reg is None:
        for j, x in enumerate(evs):
            if j > i and x.kind in ('dm.insert', 'm.insert') and contains_v(x.args[-1], addr):
                R.unclear('registered', name, 'registered in a map')
                return
        if any(x.kind == 'unlock' and murky(x.args[1]) for x in evs[i:]):
            R.unclear('registered', name, 'registration not understood')
            return
        R.bad('registered', name, 'the started engine is not registered when start returns', o, e)
        return
    cell = reg[1].args[0]
    cells.append(cell)
    # the acquisition that protects the start
    lk = [h[0] for h in excl]
    gl = None
    for j, x in enumerate(evs):
        if x.kind == 'lock' and x.args[0] in lk and j < i and not any(
                y.kind == 'unlock' and y.res == x.res for y in evs[j:i]):
            gl = (j, x)
            break
    if gl is None:
        R.unclear('checked', name, 'the protecting lock is not found')
        return
    end = next((j for j, y in enumerate(evs) if y.kind == 'unlock' and y.res == gl[1].res), len(evs))
    seen = [x for j, x in enumerate(evs) if x.kind == 'lock' and x.args[0] == cell and gl[0] <= j < i]
    if any(variant_of(o.facts, x.args[2]) == 'None' for x in seen):
        R.ok('checked')
    elif any(murky(x.args[2]) for x in seen):
        R.unclear('checked', name, 'value of the registered address')
    else:
        R.bad('checked', name, 'an engine is started without finding the registered address absent under the lock it holds', o, e)
    if reg[0] <= end:
        R.ok('registered')
    else:
        R.bad('registered', name + ':late', 'the engine is registered after the lock was released', o, reg[1])
    if o.ret == addr:
        R.ok('registered')
    elif murky(o.ret):
        R.unclear('registered', name, 'returned address')
    else:
        R.bad('registered', name + ':returned', 'start returns %s, not the engine it started' % show.sv(o.ret), o, e)
    backend_rule(W, R, o, e, name, given)


def contains_v(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains_v(y, x) for y in v)


def reuse_path(R, E, o, name, cells):
    if from_cells(o.ret, cells):
        R.ok('reused')
    elif murky(o.ret) or strange_sync(E):
        R.unclear('reused', name, show.sv(o.ret)[:80])
    else:
        R.bad('reused', name, 'a start that finds an engine returns %s instead of its address' % show.sv(o.ret), o)


def built(W, clo):
    """values an actor's start closure returns"""
    E = W.engine()
    st = State()
    if clo[0] != 'o' or not clo[1].startswith('closure:'):
        return None, None
    try:
        outs = E.call_closure(st, clo, [entry.CTX(st)])
    except Budget:
        return None, None
    return E, [(E.resolve(s, v), s) for v, s in outs]


def backend_rule(W, R, o, e, name, given):
    want = term('given_backend')
    E, vs = built(W, e.args[1])
    if vs is None:
        R.unclear('backend', name, 'how the engine is built')
        return
    for v, s in vs:
        if v[0] != 'o' or last(v[1]) != 'AJ':
            R.unclear('backend', name, 'what is built')
            continue
        if given:
            if any(x == want for _, x in v[3]):
                R.ok('backend')
            elif murky(v):
                R.unclear('backend', name, show.sv(v)[:80])
            else:
                R.bad('backend', name, 'the engine is built as %s, without the given back end' % show.sv(v), o, e)
        else:
            R.ok('backend')


def queue_backend(W, R):
    r = W.handler('AJ', 'InitWorkQueue')
    if not r:
        return
    for o in r.outs:
        for i, e in starts_of(o, 'WorkQueue'):
            clo = e.args[1]
            want = fld(r.E, term('actor', 'AJ'), 'backend')
            vals = [x for _, x in clo[3]] if clo[0] == 'o' else []
            be = [x for x in vals if any(len(y) > 2 and y[0] == 't' and y[1] == 'fld' and y[2] == term('actor', 'AJ') for y in iter_terms(x))]
            if not be:
                if murky(clo):
                    R.unclear('backend', 'queue', 'what the queue is started with')
                else:
                    R.bad('backend', 'queue', 'a queue is started with %s, not with the back end of the engine' % show.sv(clo), o, e)
                continue
            E, vs = built(W, clo)
            if vs is None:
                R.unclear('backend', 'queue', 'how the queue is built')
                continue
            for v, s in vs[:20]:
                if v[0] == 'o' and last(v[1]) == 'WorkQueue':
                    if any(x in be for _, x in v[3]):
                        R.ok('backend')
                    elif murky(v):
                        R.unclear('backend', 'queue', show.sv(v)[:80])
                    else:
                        R.bad('backend', 'queue:built', 'a queue is built as %s' % show.sv(v), o, e)
                else:
                    R.unclear('backend', 'queue', 'what is built')


# ---------------------------------------------------------------- C19
def lookups(o, upto=None):
    """(map, key, found) of registry lookups on a path"""
    out = []
    evs = flat(o)
    for e in evs[:upto]:
        if e.kind in ('dm.get', 'dm.contains', 'dm.entry', 'dm.get_mut'):
            out.append((e.args[0], e.args[1], e.res, e))
        elif e.kind in ('m.get', 'm.contains', 'm.get_mut') and not (str(e.args[0]).find('static') >= 0 and e.res is None):
            out.append((e.args[0], e.args[1], None, e))
    return out


def typed(key):
    """the key names the job type"""
    for x in iter_terms(key):
        if len(x) > 2 and x[0] == 't' and x[1] == 'typeid':
            return True
    return False


def registry_of(W, R):
    """the (map, key) queues are registered under, from the handler that creates them"""
    r = W.handler('AJ', 'InitWorkQueue')
    if not r:
        R.unclear('one-queue', 'InitWorkQueue', 'too many paths')
        return r, None
    regs = set()
    for o in r.outs:
        for i, e in starts_of(o, 'WorkQueue'):
            for x in flat(o)[i:]:
                if x.kind == 'dm.insert' and x.args[2] == e.res and typed(x.args[1]):
                    regs.add((x.args[0], x.args[1]))
    return r, regs


def C19(W, R):
    R.rule('one-queue', 'a queue is started only on a path that found none registered for its type, is registered under its type before anything else can ask, and its address is the answer')
    R.rule('name-free', 'a queue is started only when its name was looked up and belongs to no other job type')
    R.rule('existing', 'when a queue is registered for the type, its address is the answer and none is started')
    R.rule('serialized', 'queues are only started inside the engine, which handles one request at a time')
    R.rule('routed', 'every request is delivered to the queue registered for its own type, or just created for it')
    R.rule('unregistered', 'a request for a type without queue answers that none is registered, delivers nothing and starts none')
    r, regs = registry_of(W, R)
    if not r:
        return
    if not regs:
        started = any(starts_of(o, 'WorkQueue') for o in r.outs)
        if started and not any(murky(x.args[-1]) or x.kind == 'm.insert' or x.kind == 'unlock' and 'shard' not in str(x.args[0])[:12] for o in r.outs for x in flat(o)) and not strange_sync(r.E):
            R.bad('one-queue', 'InitWorkQueue:unregistered', 'the queue of a type is not registered under its type when it is started', r.outs[0])
        else:
            R.unclear('one-queue', 'InitWorkQueue', 'registration not understood')
        return
    reg = sorted(regs, key=str)[0]
    for o in r.outs:
        creation(R, r.E, o, reg, 'InitWorkQueue')
    for p in r.panics:
        if taken(p) == 'type':
            R.bad('existing', 'InitWorkQueue:panic', 'a request for the queue of a type that has one stops the engine', p)
        else:
            R.ok('existing')
    if not any(starts_of(o, 'WorkQueue') for o in r.outs):
        R.bad('one-queue', 'InitWorkQueue:never', 'no queue is started when none is registered', r.outs[0] if r.outs else None)
    # lookup
    try:
        g = W.api(None, 'get_work_queue_address', ())
    except Missing:
        g = None
        R.unclear('existing', 'lookup', 'how a queue is looked up')
    if g:
        for o in g.outs:
            routes(R, o, reg, 'get_work_queue_address')
            v = variant_of(o.facts, o.ret)
            ls = [x for x in lookups(o) if x[0] == reg[0]]
            if v == 'Some' and payload(o.ret) is not None and payload(o.ret)[:2] != ('t', 'val') and not murky(o.ret):
                R.bad('existing', 'lookup', 'the lookup returns %s' % show.sv(o.ret), o)
            elif v == 'None' and any(x[2] is True for x in ls) and not downcast_failed(o):
                R.bad('existing', 'lookup:none', 'the lookup finds nothing although the queue is registered', o)
            else:
                R.ok('existing')
    # requests of the public API
    J = term('submitted')
    for meth, args, silent in (('enqueue_job', (J, term('config'), term('qname')), None), ('add_job', (J, term('qname')), None),
                               ('cancel_job', (term('jid'),), False), ('retry_job', (term('jid'),), False),
                               ('get_job', (term('jid'),), True), ('update_work_queue', (term('cfg'),), False)):
        a = W.api('AJ', meth, args)
        if not a:
            R.unclear('routed', meth, 'too many paths')
            continue
        for o in a.outs:
            if silent is None and not any(x[2] is False for x in lookups(o)):
                pass
            request_path(R, a.E, o, reg, meth, silent)


def taken(p):
    """which registered entry a panic of the engine is about: 'type', 'name', 'none' (impossible) or None"""
    ls = [x for x in lookups(p) if x[2] is not None]
    if not ls or ls[-1][2] is not True:
        return None
    # queues are only registered by the engine, one request at a time: what was absent stays absent
    if any(x[0] == ls[-1][0] and x[1] == ls[-1][1] and x[2] is False for x in ls[:-1]):
        return 'none'
    return 'type' if typed(ls[-1][1]) else 'name'


def downcast_failed(o):
    return any('downcast' in str(k) for k in o.facts)


def creation(R, E, o, reg, where):
    evs = flat(o)
    ss = starts_of(o, 'WorkQueue')
    if len(ss) > 1:
        R.bad('one-queue', where + ':many', 'one request starts %d queues' % len(ss), o, ss[1][1])
        return
    if ss:
        i, e = ss[0]
        before = [x for x in lookups(o, i) if x[0] == reg[0] and x[1] == reg[1]]
        if before and all(x[2] is not True for x in before):
            R.ok('one-queue')
        elif any(h[1] == lit('dash') and h[2] for h in helds(e)):
            R.ok('one-queue')
        elif before:
            R.bad('one-queue', where + ':second', 'a queue is started although one is registered for the type', o, e)
        else:
            R.bad('one-queue', where + ':unchecked', 'a queue is started without looking whether the type has one', o, e)
        other = [x for x in lookups(o, i) if x[0] != reg[0] or x[1] != reg[1]]
        if any(x[2] is False for x in other):
            R.ok('name-free')
        elif not other and not any(x.kind == 'loop' or x.kind[:3] == 'dm.' and x.kind not in ('dm.get', 'dm.contains', 'dm.insert') for x in evs[:i]) and not any(murky(x) for x in o.facts):
            R.bad('name-free', where, 'a queue is started without looking whether its name belongs to another job type', o, e)
        else:
            R.unclear('name-free', where, 'how the name is looked up')
        free = [x for x in other if x[2] is False]
        if free:
            maps = {x[0] for x in free}
            keys = [x.args[1] for x in evs[i:] if x.kind in ('dm.insert', 'dm.entry') and x.args[0] in maps]
            if any(k == x[1] for k in keys for x in free):
                R.ok('name-free')
            elif any(murky(k) for k in keys) or any(x.kind == 'loop' or x.kind[:3] == 'dm.' and x.kind not in ('dm.get', 'dm.contains', 'dm.insert', 'dm.entry') for x in evs[i:]):
                R.unclear('name-free', where, 'how the name is registered')
            elif not any(h[1] == lit('dash') and h[2] for h in helds(e)):
                R.bad('name-free', where + ':unregistered', 'a started queue is not registered under the name that was looked up', o, e)
        ins = [x for x in evs[i:] if x.kind == 'dm.insert' and (x.args[0], x.args[1]) == reg]
        if ins and ins[-1].args[2] == e.res:
            R.ok('one-queue')
        else:
            R.bad('one-queue', where + ':unregistered', 'a started queue is not registered under its type', o, e)
        if o.ret == e.res or (is_ok(o.ret) and payload(o.ret) == e.res):
            R.ok('one-queue')
        elif murky(o.ret):
            R.unclear('one-queue', where, 'answer')
        else:
            R.bad('one-queue', where + ':answer', 'the answer is %s, not the started queue' % show.sv(o.ret), o, e)
    else:
        if contains_v(o.ret, term('val', reg[0], reg[1])):
            R.ok('existing')
        elif is_err(o.ret) and refused(o, reg):
            R.ok('existing')
        elif murky(o.ret):
            R.unclear('existing', where, 'answer')
        else:
            R.bad('existing', where, 'the answer is %s, not the registered queue' % show.sv(o.ret), o)
        bad = [x for x in evs if x.kind == 'dm.insert' and (x.args[0], x.args[1]) == reg]
        if bad:
            R.bad('existing', where + ':replaced', 'the registration of the existing queue is replaced', o, bad[0])


def refused(o, reg):
    """no queue of this type is registered, and another queue has the name"""
    ls = [x for x in lookups(o) if x[2] is not None]
    return any((x[0], x[1]) == reg and x[2] is False for x in ls) and not any((x[0], x[1]) == reg and x[2] for x in ls) and \
        any(x[0] != reg[0] and x[2] is True for x in ls)


def routes(R, o, reg, where):
    for m, k, found, e in lookups(o):
        if m == reg[0] and k != reg[1] and not murky(k):
            R.bad('routed', where + ':key', 'queues are registered under %s but looked up under %s' % (show.sv(reg[1]), show.sv(k)), o, e)
        elif m != reg[0] and typed(k) and not murky(m):
            R.bad('routed', where + ':map', 'queues are registered in %s but looked up in %s' % (show.sv(reg[0]), show.sv(m)), o, e)


def request_path(R, E, o, reg, meth, silent):
    evs = flat(o)
    routes(R, o, reg, meth)
    want = term('val', reg[0], reg[1])
    created = [e.res for i, e in starts_of(o, 'WorkQueue')]
    depth = 0
    for e in evs:
        if e.kind == 'send':
            a = e.args[0]
            toaj = 'locked' in str(a) or 'oncecontent' in str(a) or (a[:2] == ('t', 'addr') and "AJ" in str(a))
            depth += 1
            if toaj:
                R.ok('routed')
            elif a == want or a in created:
                R.ok('routed')
            elif a[:2] == ('t', 'addr') and 'PluginCenter' in str(a):
                R.ok('routed')
            elif murky(a):
                R.unclear('routed', meth, show.sv(a)[:80])
            else:
                R.bad('routed', meth, 'the request is delivered to %s' % show.sv(a), o, e)
        elif e.kind == 'reply':
            depth -= 1
        elif e.kind == 'actor_start' and is_actor(e, 'WorkQueue'):
            if depth > 0 or any(h[2] for h in helds(e)):
                R.ok('serialized')
            elif strange_sync(E):
                R.unclear('serialized', meth, 'unmodelled synchronisation')
            else:
                R.bad('serialized', meth, 'a queue is started outside the engine: concurrent first requests each start one', o, e)
    ls = [x for x in lookups(o) if x[0] == reg[0] and x[1] == reg[1]]
    if silent is not None and ls and ls[0][2] is False:
        sent = [e for e in evs if e.kind in ('send', 'do_send', 'actor_start')]
        if sent:
            R.bad('unregistered', meth + ':acts', 'a request for a type without queue still acts (%s)' % sent[0].kind, o, sent[0])
            return
        if silent:
            if o.ret == NONE:
                R.ok('unregistered')
            elif murky(o.ret):
                R.unclear('unregistered', meth, 'answer')
            else:
                R.bad('unregistered', meth, 'a lookup without queue answers %s' % show.sv(o.ret), o)
        else:
            p = payload(o.ret) if is_err(o.ret) else None
            if p is not None and p[0] == 'o' and E.ir.variants(p[1])[p[2]]['name'] == 'NoQueueRegister':
                R.ok('unregistered')
            elif murky(o.ret):
                R.unclear('unregistered', meth, 'answer')
            else:
                R.bad('unregistered', meth, 'a request for a type without queue answers %s' % show.sv(o.ret), o)


# ---------------------------------------------------------------- C28
CTX_FIELDS = ('job_id', 'job_type', 'job_status', 'retry', 'created_at', 'enqueue_at', 'run_at', 'complete_at', 'cancel_at', 'run_count')


def same(R, rule, where, o, got, want, what):
    try:
        good = got == want or (callable(want) and want(got))
    except Unclear as u:
        R.unclear(rule, where, '%s: %s' % (what, u))
        return
    if good:
        R.ok(rule)
    elif murky(got):
        R.unclear(rule, where, '%s: %s' % (what, show.sv(got)[:80]))
    else:
        R.bad(rule, where + ':' + what, '%s becomes %s%s' % (what, show.sv(got), '' if callable(want) else ' instead of ' + show.sv(want)), o)


def variant(E, adt, name, **fields):
    p = entry.adt(E.ir, adt)
    for i, v in enumerate(E.ir.variants(p)):
        if v['name'] == name:
            return p, i
    raise Missing('%s::%s' % (adt, name))


def is_variant(E, adt, name, *vals):
    p, i = variant(E, adt, name)

    def f(v):
        if v[0] != 'o' or v[1] != p or v[2] != i:
            return False
        names = [n for n, _ in E.ir.variants(p)[i]['fields']]
        for n, w in zip(names, vals):
            x = E.field(v, p, i, n)
            if not (x == w or (callable(w) and w(x))):
                return False
        return True
    return f


def uses(t, *parts):
    return all(contains_v(t, p) for p in parts)


def nows(o):
    return [e.res for e in flat(o) if e.kind == 'clock']


def C28(W, R):
    R.rule('builders', 'each builder of a job changes exactly the part it is named after, to the given value, and keeps every other field')
    R.rule('new-job', 'a new job has a fresh id, the given data, waits, never ran, and has no schedule or retry policy')
    R.rule('constructors', 'constructors of schedules, recurrences, policies and configurations hold the given values')
    R.rule('predicates', 'the status predicates hold exactly for the statuses they are named after')
    R.rule('units', 'the time helpers convert in the unit they are named after')
    R.rule('errors', 'conversions to the error type keep the cause under its own kind')
    J = term('submitted')
    x = term('given')

    def keeps(where, r, changed):
        if not r:
            R.unclear('builders', where, 'too many paths')
            return
        for o in r.outs:
            v = o.ret
            if v[0] != 'o' and v != J:
                R.unclear('builders', where, show.sv(v)[:80])
                continue
            for f in CTX_FIELDS:
                base = fld(r.E, J, 'context', f)
                if 'context' in changed:
                    base = fld(r.E, changed['context'], f)
                want = changed.get(f, base)
                if callable(want):
                    w = want(r.E, o)
                else:
                    w = want
                same(R, 'builders', where, o, fld(r.E, v, 'context', f), w, f)
            same(R, 'builders', where, o, fld(r.E, v, 'data'), fld(r.E, J, 'data'), 'data')

    for name, changed in (
            ('set_id', {'job_id': x}), ('set_context', {'context': x}), ('context', {'context': x}), ('set_job_type', {'job_type': x}),
            ('job_type', {'job_type': x}), ('set_retry', {'retry': some(x)}), ('retry', {'retry': some(x)}),
            ('schedule_at', {'job_type': lambda E, o: is_variant(E, 'JobType', 'ScheduledAt', x)}),
            ('delay', {'job_type': lambda E, o: is_variant(E, 'JobType', 'ScheduledAt',
                                                           lambda t: any(t == add(n, x) for n in nows(o)))}),
            ('cron', {'job_type': lambda E, o: cron_ok(E, o, x, None)})):
        keeps('Job::' + name, W.api('Job', name, (J, x)), changed)
    # the id accessor
    r = W.api('Job', 'id', (entry.ref(J, 'j'),))
    for o in r.outs if r else ():
        same(R, 'builders', 'Job::id', o, o.ret, fld(r.E, J, 'context', 'job_id'), 'id')

    def fresh_ctx(where, E, o, c, idw):
        same(R, 'new-job', where, o, fld(E, c, 'job_id'), idw, 'id')
        same(R, 'new-job', where, o, fld(E, c, 'job_type'), is_variant(E, 'JobType', 'Normal'), 'schedule')
        same(R, 'new-job', where, o, fld(E, c, 'job_status'), is_variant(E, 'JobStatus', 'Queued'), 'status')
        same(R, 'new-job', where, o, fld(E, c, 'retry'), NONE, 'retry policy')
        for f in ('enqueue_at', 'run_at', 'complete_at', 'cancel_at'):
            same(R, 'new-job', where, o, fld(E, c, f), NONE, f)
        same(R, 'new-job', where, o, fld(E, c, 'run_count'), const(0), 'run count')
        same(R, 'new-job', where, o, fld(E, c, 'created_at'), lambda t: any(t == term('timestamp_millis', n) for n in nows(o)), 'creation time')

    r = W.api('Job', 'new', (term('payload'),))
    for o in r.outs if r else ():
        if o.ret[0] != 'o':
            R.unclear('new-job', 'Job::new', show.sv(o.ret)[:80])
            continue
        same(R, 'new-job', 'Job::new', o, fld(r.E, o.ret, 'data'), term('payload'), 'data')
        fresh_ctx('Job::new', r.E, o, fld(r.E, o.ret, 'context'), lambda t: any(len(y) > 1 and y[:2] == ('t', 'uuid') for y in iter_terms(t)))
    r = W.api('JobContext', 'new', (x,))
    for o in r.outs if r else ():
        if o.ret[0] == 'o':
            fresh_ctx('JobContext::new', r.E, o, o.ret, x)

    def ctor(ty, name, args, wants, kind=None):
        r = W.api(ty, name, args)
        for o in r.outs if r else ():
            v = o.ret
            if v[0] != 'o':
                if murky(v):
                    R.unclear('constructors', ty + '::' + name, show.sv(v)[:80])
                else:
                    R.bad('constructors', '%s::%s' % (ty, name), 'returns %s' % show.sv(v), o)
                continue
            for f, w in wants.items():
                if callable(w) and w.__code__.co_argcount == 2:
                    w = w(r.E, o)
                same(R, 'constructors', '%s::%s' % (ty, name), o, fld(r.E, v, f), w, f)

    y, z = term('given2'), term('given3')
    ctor('Retry', 'new', (x, y, z), {'retried_times': x, 'max_retries': y, 'strategy': z})
    ctor('Retry', 'new_interval_retry', (x, y), {'retried_times': const(0), 'max_retries': x,
                                                 'strategy': lambda E, o: is_variant(E, 'RetryStrategy', 'Interval', y)})
    ctor('Retry', 'new_exponential_backoff', (x, y), {'retried_times': const(0), 'max_retries': x,
                                                      'strategy': lambda E, o: is_variant(E, 'RetryStrategy', 'ExponentialBackoff', y)})
    ctor('EnqueueConfig', 'new', (x, y), {'re_run': x, 'override_data': y})
    ctor('EnqueueConfig', 'new_re_run', (), {'re_run': TRUE, 'override_data': TRUE})
    ctor('EnqueueConfig', 'new_skip_if_finished', (), {'re_run': FALSE, 'override_data': TRUE})
    r = W.api('JobType', 'new_schedule', (x,))
    for o in r.outs if r else ():
        same(R, 'constructors', 'JobType::new_schedule', o, o.ret, is_variant(r.E, 'JobType', 'ScheduledAt', x), 'schedule')
    r = W.api('JobType', 'new_cron', (x, y))
    for o in r.outs if r else ():
        where = 'JobType::new_cron'
        if is_err(o.ret):
            ok_parse = [k for k, v in o.facts.items() if k[0] == 'V' and k[1][:2] == ('t', 'parse') and v == frozenset([0])]
            if ok_parse:
                R.bad('constructors', where + ':refused', 'a valid expression is refused', o)
            else:
                R.ok('constructors')
        elif is_ok(o.ret):
            same(R, 'constructors', where, o, payload(o.ret), cron_ok(r.E, o, x, y), 'recurrence')
        else:
            R.unclear('constructors', where, show.sv(o.ret)[:80])
    default_of_type(W, R, 'CronContext', {'tick_number': const(0), 'max_repeat': NONE, 'end_at': NONE})
    predicates(W, R)
    units(W, R)
    errors(W, R)


def cron_ok(E, o, expr, ctx):
    """Cron(expr, first occurrence after now (or now when there is none), 1, ctx)"""
    def slot(t):
        asked = any(e.kind == 'events' for e in flat(o))
        read = [y for k in list(o.facts) + [t] for y in iter_terms(k) if len(y) > 3 and y[:2] == ('t', 'cron_next')]
        if asked and not read:
            raise Unclear('events of the schedule')
        if any(y[:2] == ('t', 'cron?') for k in list(o.facts) + [t] for y in iter_terms(k)):
            raise Unclear('events of the schedule')
        if any(y[3] not in nows(o) and E.numeric(y[3]) and is_const(add(y[3], c, -1)) and add(y[3], c, -1)[1] < 0 for y in read for c in nows(o)):
            raise Unclear('events of the schedule')
        if t in nows(o):
            # only when the expression has no further occurrence
            return any(k[0] == 'V' and k[1][:2] == ('t', 'cron_next') and k[1][3] in nows(o) and v == frozenset([0]) for k, v in o.facts.items())
        if any(y[:1] == ('t',) and len(y) > 1 and (y[1] == 'elem' or str(y[1]).startswith('phi')) for y in iter_terms(t)):
            raise Unclear('events of the schedule')
        mine = [y for y in iter_terms(t) if len(y) > 3 and y[:2] == ('t', 'cron_next')]
        later = [y for y in mine if any(z[:2] == ('t', 'cron_next') for z in iter_terms(y[3]))]
        if later:
            clocks = {z for k in list(o.facts) + [t] if any(y[:2] == ('t', 'cron_next') for y in iter_terms(k))
                      for z in iter_terms(k) if z[:2] == ('t', 'now')}
            if len(clocks) != 1 or not all(y in later or y[3] in nows(o) for y in mine):
                raise Unclear('events of the schedule')
            return False
        return any(contains_v(y[2], expr) and (y[3] in nows(o) or not any(z in nows(o) for z in iter_terms(y[3])) and murky(y[3]))
                   for y in mine)

    def c(t):
        if ctx is not None:
            return t == ctx
        return t[0] == 'o' and fld(E, t, 'tick_number') == const(0) and fld(E, t, 'max_repeat') == NONE and fld(E, t, 'end_at') == NONE
    return is_variant(E, 'JobType', 'Cron', expr, slot, const(1), c)


def default_of_type(W, R, ty, wants):
    bs = W.ir.find_impl('Default', entry.adt(W.ir, ty), None, 'default')
    if len(bs) != 1:
        return
    r = entry.run_body(ty + '::default', W.engine(), bs[0], [])
    for o in r.outs:
        for f, w in wants.items():
            same(R, 'constructors', ty + '::default', o, fld(r.E, o.ret, f), w, f)


def predicates(W, R):
    J = term('submitted')
    for name, sts in (('is_queued', ('Queued',)), ('is_running', ('Running',)), ('is_cancelled', ('Canceled',)),
                      ('is_done', ('Finished', 'Failed', 'Canceled'))):
        try:
            b = entry.method(W.ir, 'Job', name)
        except Missing:
            continue
        for s in STATUSES:
            E = W.engine()
            st = State()
            st.facts = {('V', status_term(E, J)): frozenset([W.variant(s)])}
            st.cells[('arg', 'j')] = J
            for v, s2 in E.exec_body(b, [('r', ('arg', 'j'), ())], st):
                o = Outcome('return', E.resolve(s2, v), s2)
                d = s2.decide(o.ret) if hasattr(s2, 'decide') else None
                if o.ret == ('b', s in sts) or d == (s in sts):
                    R.ok('predicates')
                elif o.ret in (TRUE, FALSE):
                    R.bad('predicates', '%s:%s' % (name, s), 'a job with status %s answers %s' % (s, show.sv(o.ret)), o)
                else:
                    R.unclear('predicates', name, show.sv(o.ret)[:80])


def evaluate(t, n):
    """the value of an arithmetic term when the given number is n; None: not understood"""
    if t == term('given'):
        return n
    if t[0] == 'i':
        r = t[1]
        for x, c in t[2]:
            y = evaluate(x, n)
            if y is None:
                return None
            r += c * y
        return r
    if t[:2] == ('t', 'bin') and len(t) == 5:
        a, b = evaluate(t[3], n), evaluate(t[4], n)
        if a is None or b is None:
            return None
        if t[2] in ('Div', 'Rem') and b:
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if t[2] == 'Div' else a - q * b
        if t[2] == 'Mul':
            return a * b
    return None


def units(W, R):
    for n, f in (('get_now', lambda t: t), ('get_now_as_secs', lambda t: term('timestamp', t)), ('get_now_as_ms', lambda t: term('timestamp_millis', t))):
        try:
            r = W.api(None, n, ())
        except Missing:
            continue
        for o in r.outs if r else ():
            same(R, 'units', n, o, o.ret, lambda t: any(t == f(c) for c in nows(o)), 'the time')
    try:
        r = W.api(None, 'get_ms_as_datetime', (term('given'),))
    except Missing:
        return
    for o in r.outs if r else ():
        t = o.ret
        ok = False
        bad = None
        for y in iter_terms(t):
            if len(y) > 3 and y[:2] == ('t', 'call'):
                nm = str(y[2])
                arg = y[3][-1] if isinstance(y[3], tuple) and y[3] else None
                for k, factor in (('timestamp_nanos', 1000000), ('timestamp_micros', 1000), ('timestamp_millis', 1), ('from_timestamp_millis', 1),
                                  ('from_timestamp_micros', 1000), ('from_timestamp_nanos', 1000000)):
                    if nm.split('::')[-1].split('_opt')[0] == k:
                        if arg == scale(term('given'), factor):
                            ok = True
                        elif arg is not None and (not murky(arg) or any(evaluate(arg, n) not in (None, n * factor) for n in (1, 1500, 999999))):
                            bad = arg
        if ok:
            R.ok('units')
        elif bad is not None:
            R.bad('units', 'get_ms_as_datetime', 'milliseconds are read as %s' % show.sv(t), o)
        else:
            R.unclear('units', 'get_ms_as_datetime', show.sv(t)[:80])


def errors(W, R):
    p = entry.adt(W.ir, 'Error')
    vs = W.ir.variants(p)
    kinds = {}
    for i, v in enumerate(vs):
        if len(v['fields']) == 1:
            kinds[W.ir.T[v['fields'][0][1]]['s']] = v['name']
    for im in W.ir.impls:
        if not im.get('trait') or last(im['trait']) != 'From' or W.ir.adt_of(im['self']) != p:
            continue
        ta = im.get('targs', [])
        src = W.ir.T[ta[1]]['s'] if len(ta) > 1 else None
        for nm, key in im['items']:
            if nm == 'from' and key in W.ir.bodies and src in kinds:
                r = entry.run_body('From', W.engine(), W.ir.bodies[key], [term('cause')])
                for o in r.outs:
                    same(R, 'errors', src.split('::')[-1], o, o.ret, is_variant(r.E, 'Error', kinds[src], term('cause')), 'the error')
