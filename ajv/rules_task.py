"""Rules over the task that executes a claimed job: pipeline, hooks, retry, recurrence, conclusion, panics."""
from .jobworld import *
from .rules_queue import requests, notifications, same_content, is_ok, is_err, payload, msg_field
from .rules_tick import order_preds, mono, opaque_guard, SEC, scans, PEEL1, eligible_cases, nofault

OPT = models.OPT


class Exec:
    """one way a started job can end"""
    def __init__(self, E, o):
        self.E, self.o = E, o
        self.evs = flat(o)
        self.panicked = any(e.kind == 'user_panic' for e in self.evs)
        self.user = [e for e in self.evs if e.kind.startswith('user.')]
        self.clocks = [e.res for e in self.evs if e.kind == 'clock']
        self.key = fld(E, JOB, 'context', 'job_id')
        self.out = None
        for e in self.user:
            if e.kind == 'user.execute' or e.kind == 'user.post_execute':
                self.out = e.res
        self.w = None

    def world(self):
        if self.w is None:
            ws = [w for s0, m, w in worlds(self.E, self.o, self.key, JOB)]
            if len(ws) != 1:
                raise Unclear('status of the claimed job')
            self.w = ws[0]
        return self.w

    def failed(self):
        return term('failed', self.out)

    def opt(self, t, n):
        return self.E.isv(t, OPT, [n])

    # the claimed job
    def ctx(self, *n):
        return fld(self.E, JOB, 'context', *n)

    def retry(self):
        return self.ctx('retry')

    def policy(self):
        return self.E.tfield(self.retry(), 1, '0', OPT)

    def should_retry(self):
        """[conjunctions] under which the library's policy retries"""
        E, p = self.E, self.policy()
        base = [self.failed(), self.opt(self.retry(), 'Some')]
        mx = fld(E, p, 'max_retries')
        done = fld(E, p, 'retried_times')
        mv = E.tfield(mx, 1, '0', OPT)
        yield 'unlimited', base + [self.opt(mx, 'None')]
        yield 'tries-left', base + [self.opt(mx, 'Some'), le0(add(add(done, const(1)), mv, -1))]

    def should_not_retry(self):
        E, p = self.E, self.policy()
        mx = fld(E, p, 'max_retries')
        done = fld(E, p, 'retried_times')
        mv = E.tfield(mx, 1, '0', OPT)
        yield 'succeeded', [neg(self.failed())]
        yield 'no-policy', [self.failed(), self.opt(self.retry(), 'None')]
        yield 'exhausted', [self.failed(), self.opt(self.retry(), 'Some'), self.opt(mx, 'Some'), le0(add(mv, done, -1))]

    def retried(self):
        """did this path schedule a retry? (the job waits again, not as its next recurrence)"""
        w = self.world()
        return w.status == 'Queued' and not self.recurred()

    def new_type(self):
        return fld(self.E, self.world().rec, 'context', 'job_type')

    def type_path(self):
        return entry.adt(self.E.ir, 'JobType')

    def type_parts(self, t):
        """(variant name, [fields]) of a schedule, or None"""
        E, path = self.E, self.type_path()
        vs = E.ir.variants(path)
        if t[0] == 'o':
            i = t[2]
        else:
            cur = self.o.facts.get(('V', t))
            if cur is None or len(cur) != 1:
                return None
            i = next(iter(cur))
        return vs[i]['name'], [E.field(t, path, i, n) if t[0] == 'o' else E.tfield(t, i, n, path) for n, _ in vs[i]['fields']]

    def recurred(self):
        """the stored schedule is a later occurrence of the recurrence (its count moved)"""
        w = self.world()
        if w.status != 'Queued' or w.rec is None:
            return False
        n = self.type_parts(self.new_type())
        if n is None or n[0] != 'Cron':
            return False
        total = self.E.tfield(self.ctx('job_type'), self.cron_i(), '2', self.type_path())
        return n[1][2] != total

    def cron_i(self):
        for i, v in enumerate(self.E.ir.variants(self.type_path())):
            if v['name'] == 'Cron':
                return i
        raise Missing('JobType::Cron')


def execs(W, R, rule, faults=False, modes=('default', 'override'), panics=False, **opts):
    n = 0
    for mode in modes:
        r = W.task(faults, retry=mode, **opts)
        if not r:
            R.unclear(rule, 'execution', 'too many paths')
            continue
        for o in r.outs:
            x = Exec(r.E, o)
            if x.panicked and not panics:
                continue
            n += 1
            yield mode, x, o
    if not n:
        R.unclear(rule, 'execution', 'no path')


# ---------------------------------------------------------------- C29
def C29(W, R):
    R.rule('pipeline', 'a started job runs its pre step, its body and its post step once each, in this order, each on the data the previous one left, with the run counted')
    R.rule('output', 'the post step gets the output of the body; success is judged on what the post step returns')
    R.rule('persisted', 'the record stored at the end has the data the execution left, the run count increased by one, and the id and creation time of the job')
    R.rule('defaults', 'a job type that does not say otherwise has steps that change nothing, the output of its body as result, and never fails')
    defaults(W, R)
    for mode, x, o in execs(W, R, 'pipeline'):
        E = x.E
        us = [e for e in x.user if e.kind in ('user.pre_execute', 'user.execute', 'user.post_execute')]
        ks = [e.kind[5:] for e in us]
        if ks != ['pre_execute', 'execute', 'post_execute']:
            if any(e.kind == 'loop' and any(y[0].kind.startswith('user.') for s in e.args[1].segs for y in s[0]) for e in x.evs):
                R.unclear('pipeline', 'execution', 'steps in a loop')
            else:
                R.bad('pipeline', 'order:' + '>'.join(ks), 'the steps run as %s' % ', '.join(ks), o, us[0] if us else None)
            continue
        d = fld(E, JOB, 'data')
        good = True
        for e in us:
            if e.args[0] != d:
                if murky(e.args[0]):
                    R.unclear('pipeline', e.kind, 'data')
                else:
                    R.bad('pipeline', e.kind[5:] + ':data', '%s works on %s instead of the data so far' % (e.kind[5:], show.sv(e.args[0])), o, e)
                good = False
                break
            d = after_data(o, e, d)
            c = e.args[-1]
            for f in ('job_id', 'job_type', 'retry'):
                if fld(E, c, f) != x.ctx(f) and not murky(fld(E, c, f)):
                    R.bad('pipeline', '%s:%s' % (e.kind[5:], f), '%s sees another %s' % (e.kind[5:], f), o, e)
            rc = fld(E, c, 'run_count')
            if rc != add(x.ctx('run_count'), const(1)):
                if not murky(rc):
                    R.bad('pipeline', e.kind[5:] + ':run_count', '%s sees run count %s' % (e.kind[5:], show.sv(rc)), o, e)
            else:
                R.ok('pipeline')
        if not good:
            continue
        pe = us[2]
        if pe.args[1] != us[1].res:
            R.bad('output', 'post:input', 'the post step gets %s instead of the output of the body' % show.sv(pe.args[1]), o, pe)
        else:
            R.ok('output')
        for e in x.user:
            if e.kind in ('user.is_failed_output', 'user.retry_at'):
                out = e.args[1] if e.kind == 'user.is_failed_output' else e.args[2]
                if out != pe.res:
                    if murky(out):
                        R.unclear('output', e.kind, 'output')
                    else:
                        R.bad('output', e.kind[5:] + ':input', '%s judges %s instead of the result' % (e.kind[5:], show.sv(out)), o, e)
                else:
                    R.ok('output')
        try:
            w = x.world()
        except Unclear as u:
            R.unclear('persisted', 'execution', u)
            continue
        if not w.writes:
            continue      # C07
        rec = w.rec
        for n, a, b in (('data', fld(E, rec, 'data'), d),
                        ('run_count', fld(E, rec, 'context', 'run_count'), add(x.ctx('run_count'), const(1))),
                        ('job_id', fld(E, rec, 'context', 'job_id'), x.key),
                        ('created_at', fld(E, rec, 'context', 'created_at'), x.ctx('created_at'))):
            if a == b:
                R.ok('persisted')
            elif murky(a) or murky(b):
                R.unclear('persisted', n, show.sv(a)[:60])
            else:
                R.bad('persisted', '%s:%s' % (w.status, n), 'the record of a job that ends %s has %s %s instead of %s' % (w.status, n, show.sv(a), show.sv(b)), o, w.writes[-1][1])


def defaults(W, R):
    """the provided methods of the job trait"""
    me, out, ctx = term('self'), term('given'), term('ctx')
    for name, want in (('pre_execute', None), ('post_execute', out), ('is_failed_output', FALSE)):
        bs = [b for b in W.ir.bodies.values() if b.in_trait and last(b.in_trait) == 'Executable' and b.method == name and b.kind != 'Closure']
        if len(bs) != 1:
            R.unclear('defaults', name, '%d bodies' % len(bs))
            continue
        b = bs[0]
        vals = [entry.ref(me, 'self')] + ([out] if name == 'post_execute' else []) + [entry.ref(out if name == 'is_failed_output' else ctx, 'x')]
        r = W.memo(('default', name), lambda: entry.run_body('Executable::' + name, W.engine(), b, vals))
        if not r:
            R.unclear('defaults', name, 'too many paths')
            continue
        for o in r.outs:
            if want is None:
                if any(e.kind.startswith('user.') for e in flat(o)):
                    R.bad('defaults', name, 'the default %s runs %s' % (name, flat(o)[0].kind), o)
                else:
                    R.ok('defaults')
            elif o.ret == want:
                R.ok('defaults')
            elif murky(o.ret):
                R.unclear('defaults', name, show.sv(o.ret)[:60])
            else:
                R.bad('defaults', name, 'by default %s answers %s instead of %s' % (name, show.sv(o.ret), show.sv(want)), o)


def after_data(o, e, d):
    """the data a user step leaves: the value every later event works on"""
    m = e.kind[5:]
    seen = False
    for f in flat(o):
        if f is e:
            seen = True
            continue
        if seen:
            for a in f.args:
                for t in iter_terms(a):
                    if len(t) > 3 and t[0] == 't' and t[1] == 'data' and t[2] == m and t[3] == d:
                        return t
    return term('data', m, d, '?')


# ---------------------------------------------------------------- C13
def hook_msgs(E, evs, name):
    for i, e in enumerate(evs):
        if e.kind in ('send', 'do_send') and e.args[1][0] == 'o' and last(e.args[1][1]) == 'RunHook':
            m = e.args[1]
            b = E.field(m, m[1], 0, 'before')
            yield i, e, b, E.field(m, m[1], 0, 'job_id')


def C13(W, R):
    R.rule('around', 'every execution runs the before hooks once before the first step of the job and the after hooks once after its last step and before its conclusion is stored, for its own id')
    R.rule('delivered', 'running the hooks calls the matching hook of every registered plugin that applies to the job type, once, with the id of the job')
    R.rule('registered', 'registering a plugin adds it, keeping the others, and it applies to all job types')
    R.rule('not-blocking', 'a job runs even when its hooks cannot be delivered')
    kinds = ('hook.before_run', 'hook.after_run')
    for mode, x, o in execs(W, R, 'around', modes=('default',)):
        E = x.E
        seq = []      # order of what happens
        bad = False
        for e in x.evs:
            hs = hooks_in(e)
            for h in hs:
                if h.args[1] != x.key:
                    if murky(h.args[1]):
                        R.unclear('around', h.kind, 'id')
                    else:
                        R.bad('around', h.kind + ':id', 'the hook is called with %s instead of the id of the job' % show.sv(h.args[1]), o, h)
            ks = {h.kind for h in hs}
            if len(ks) > 1:
                bad = True
                R.bad('around', 'both', 'before and after hooks are run together', o, e)
            elif ks:
                seq.append(next(iter(ks)))
            elif e.kind in ('user.pre_execute', 'user.execute', 'user.post_execute'):
                seq.append(e.kind)
            elif e.kind == 'be.storage_upsert':
                seq.append('stored')
        if bad:
            continue
        want = ['hook.before_run', 'user.pre_execute', 'user.execute', 'user.post_execute', 'hook.after_run', 'stored']
        got = [s for i, s in enumerate(seq) if not (s == 'stored' and seq[:i].count('stored'))]
        a = [s for s in got if s in kinds]
        if a != ['hook.before_run', 'hook.after_run']:
            R.bad('around', 'hooks:' + ','.join(s[5:] for s in a), 'an execution runs the hooks %s' % (', '.join(s[5:] for s in a) or '(none)'), o)
        elif 'user.execute' in got:
            ib, ia = got.index('hook.before_run'), got.index('hook.after_run')
            us = [i for i, s in enumerate(got) if s.startswith('user.')]
            st = [i for i, s in enumerate(got) if s == 'stored']
            if ib > us[0]:
                R.bad('around', 'before:late', 'the before hooks run after the job started', o)
            elif ia < us[-1]:
                R.bad('around', 'after:early', 'the after hooks run before %s' % ('the job' if ia < got.index('user.execute') else 'the post step of the job'), o)
            elif st and ia > st[0]:
                R.bad('around', 'after:late', 'the after hooks run after the conclusion is stored', o)
            else:
                R.ok('around')
    r = W.task(True, retry='override')
    if r:
        for o in r.outs:
            x = Exec(r.E, o)
            if any(e.kind == 'mailbox_error' for e in x.evs) and not x.panicked:
                if not any(e.kind == 'user.execute' for e in x.evs):
                    R.bad('not-blocking', 'execution', 'the job does not run when its hooks cannot be delivered', o)
                else:
                    R.ok('not-blocking')
        for p in r.panics:
            evs = [e for e, f, q in walk(p.nodes())]
            if any(e.kind == 'mailbox_error' for e in evs) and not any(e.kind == 'user.execute' for e in evs):
                R.bad('not-blocking', 'execution:panic', 'the job panics instead of running when its hooks cannot be delivered', p)
    r = W.handler('PluginCenter', 'RunHook')
    if r:
        m = term('msg', 'RunHook')
        before = r.E.tfield(m, None, 'before')
        for o in r.outs:
            d = State()
            d.facts = o.facts
            b = d.decide(before)
            if b is None:
                hs = [h for e in flat(o) for h in hooks_in(e)]
                if hs:
                    # decided inside the loop
                    dispatch(R, r.E, o, None, 'delivered', 'RunHook', before)
                continue
            dispatch(R, r.E, o, 'hook.before_run' if b else 'hook.after_run', 'delivered', 'RunHook')
    population(W, R, 'RunHook', 'delivered', hook_kind)
    registration(W, R)


def hooks_in(e):
    if e.kind.startswith('hook.'):
        return [e]
    if e.kind == 'loop':
        return [h for s in e.args[1].segs for x in s[0] for h in hooks_in(x[0])]
    return []


def applies(E, facts, plugin):
    """(may apply, may not apply) to the job type, as the path knows"""
    ids = fld(E, plugin, 'job_type_ids')
    return ids


def dispatch(R, E, o, kind, rule, where, before=None):
    """each iteration over the plugins calls the hook exactly when the plugin applies"""
    loops = [(e, p) for e, p in loops_of(o.nodes()) if any(h for h in hooks_in(e))]
    m = term('msg', where)
    jid = E.tfield(m, None, 'job_id')
    if not loops:
        if any(e.kind.startswith('hook.') for e in flat(o)):
            R.unclear(rule, where, 'hooks outside a loop')
        elif any(e.kind == 'loop' for e in flat(o)) and kind is not None:
            R.bad(rule, '%s:%s' % (where, kind), 'no plugin is called (%s)' % kind[5:], o)
        return
    for e, p in loops:
        src = None
        for evs, bf, dl in e.args[1].segs:
            nx = [x[0] for x in evs if x[0].kind == 'next']
            hs = [x[0] for x in evs if x[0].kind.startswith('hook.')]
            if any(x[0].kind == 'loop' and hooks_in(x[0]) for x in evs):
                R.unclear(rule, where, 'nested loops')
                continue
            if not nx:
                R.unclear(rule, where, 'iteration')
                continue
            src = nx[0].args[0]
            plugin = nx[0].res
            k = kind
            if k is None:
                d = State()
                d.facts = bf
                b = d.decide(before)
                if b is None:
                    R.unclear(rule, where, 'which hook')
                    continue
                k = 'hook.before_run' if b else 'hook.after_run'
            ids = fld(E, plugin, 'job_type_ids')
            guards = [kk for kk in bf if contains(kk, ids)]
            if len(hs) > 1:
                R.bad(rule, '%s:%s:twice' % (where, k), 'a plugin is called twice', o, hs[1])
            elif len(hs) == 1:
                h = hs[0]
                if h.kind != k:
                    R.bad(rule, '%s:%s:kind' % (where, k), 'calls %s instead of %s' % (h.kind[5:], k[5:]), o, h)
                elif h.args[1] != jid and not murky(h.args[1]):
                    R.bad(rule, '%s:%s:id' % (where, k), 'the hook gets %s instead of the id of the job' % show.sv(h.args[1]), o, h)
                elif not contains(h.args[0], plugin):
                    R.unclear(rule, where, 'receiver')
                else:
                    R.ok(rule)
                if where == 'ChangeStatus' and len(h.args) > 2:
                    s = E.tfield(m, None, 'status')
                    if h.args[2] != s and not murky(h.args[2]):
                        R.bad(rule, '%s:status' % where, 'the hook gets status %s instead of the announced one' % show.sv(h.args[2]), o, h)
            else:
                R.ok(rule)       # judged on the populated lists
        if src is not None and src != fld(E, term('actor', 'PluginCenter'), 'plugins'):
            if contains(src, fld(E, term('actor', 'PluginCenter'), 'plugins')):
                R.unclear(rule, where, 'sequence of plugins')
            elif not murky(src):
                R.bad(rule, '%s:plugins' % where, 'iterates over %s instead of the registered plugins' % show.sv(src), o, e)


POPULATIONS = (0, 1, 2, 3, 40)


def populated(W, n):
    """(engine, state, plugin centre) after registering n plugins through the public call, or None"""
    def f():
        r = W.api('AJ', 'register_plugin', (term('plugin'),))
        if not r:
            return None
        ms = {e.args[1] for o in r.outs for e in flat(o) if e.kind in ('send', 'do_send') and contains(e.args[1], term('plugin'))}
        if len(ms) != 1:
            return None
        m = ms.pop()
        h = entry.handler(W.ir, 'PluginCenter', 'RegisterPlugin')
        d = W.ir.find_impl('Default', entry.adt(W.ir, 'PluginCenter'), None, 'default')
        if len(d) != 1 or murky(m):
            return None
        E = W.engine(opts=dict(unroll=n + 2, iterations=4 * n + 8))
        ps = E.exec_body(d[0], [], State())
        if len(ps) != 1:
            return None
        v, st = ps[0]
        for i in range(n):
            st.cells[('arg', 'self')] = E.resolve(st, v)
            st.cells[('arg', 'ctx')] = term('ctx')
            outs = E.exec_body(h, [('r', ('arg', 'self'), ()), subst(m, term('plugin'), term('plugin', i)), ('r', ('arg', 'ctx'), ())], st)
            if len(outs) != 1:
                return None
            st = outs[0][1]
            v = st.cells[('arg', 'self')]
        return E, st, v
    return W.memo(('populated', n), f)


def population(W, R, msg, rule, kinds):
    """with n registered plugins, a message makes exactly n calls of the right hook, one on each plugin"""
    for n in POPULATIONS:
        p = populated(W, n)
        if p is None:
            R.unclear(rule, msg, 'registering %d plugins' % n)
            continue
        E, st, v = p

        def f():
            s = st.copy()
            s.cells[('arg', 'self')] = v
            s.cells[('arg', 'ctx')] = term('ctx')
            E2 = W.engine(opts=E.opts)
            return entry.run_body('%s x%d' % (msg, n), E2, entry.handler(W.ir, 'PluginCenter', msg),
                                  [lambda _: ('r', ('arg', 'self'), ()), term('msg', msg), lambda _: ('r', ('arg', 'ctx'), ())], s)
        r = W.memo(('population', msg, n), f)
        if not r:
            R.unclear(rule, msg, 'delivering to %d plugins' % n)
            continue
        m = term('msg', msg)
        jid, status = r.E.tfield(m, None, 'job_id'), r.E.tfield(m, None, 'status') if msg == 'ChangeStatus' else None
        for o in r.outs:
            evs = flat(o)
            if any(e.kind == 'loop' for e in evs) or any(murky(k) for k in o.facts if k[0] in 'BVL'):
                R.unclear(rule, msg, '%d plugins' % n)
                continue
            k = kinds(r.E, o)
            if n == 0 and not any(e.kind.startswith('hook.') for e in evs):
                R.ok(rule)
                continue
            if k is None:
                R.unclear(rule, msg, 'which hook')
                continue
            hs = [e for e in evs if e.kind.startswith('hook.')]
            if any(murky(a) for h in hs for a in h.args):
                R.unclear(rule, msg, 'arguments of a hook')
                continue
            where = '%s:%s' % (msg, k)
            bad = [h for h in hs if h.kind != k]
            if bad:
                R.bad(rule, where + ':kind', 'calls %s instead of %s' % (bad[0].kind[5:], k[5:]), o, bad[0])
                continue
            got = {}
            for h in hs:
                for i in [i for i in range(n) if contains(h.args[0], term('plugin', i))]:
                    got.setdefault(i, []).append(h)
            if sum(map(len, got.values())) != len(hs):
                R.unclear(rule, msg, 'receiver of a hook')
                continue
            miss = [i for i in range(n) if i not in got]
            twice = [i for i in got if len(got[i]) > 1]
            wrong = [h for h in hs if h.args[1] != jid]
            stat = [h for h in hs if status is not None and len(h.args) > 2 and h.args[2] != status and not same_variant(o, r.E, h.args[2], status)]
            if miss:
                R.bad(rule, where + ':skipped', 'with %d registered plugins, %d of them are not called (%s)' % (n, len(miss), show.facts(o.facts)[:200]), o)
            elif twice:
                R.bad(rule, where + ':twice', 'a plugin is called twice', o, got[twice[0]][1])
            elif wrong:
                R.bad(rule, where + ':id', 'the hook gets %s instead of the id of the job' % show.sv(wrong[0].args[1]), o, wrong[0])
            elif stat:
                R.bad(rule, where + ':status', 'the hook gets status %s instead of the announced one' % show.sv(stat[0].args[2]), o, stat[0])
            else:
                R.ok(rule)


def same_variant(o, E, a, t):
    """a constant status that the path knows to be the announced one"""
    v = o.facts.get(('V', t))
    return a[0] == 'o' and v is not None and v == frozenset([a[2]])


def hook_kind(E, o):
    d = State()
    d.facts = o.facts
    b = d.decide(E.tfield(term('msg', 'RunHook'), None, 'before'))
    if b is None:
        return None
    return 'hook.before_run' if b else 'hook.after_run'


def registration(W, R):
    for n in POPULATIONS[1:]:
        p = populated(W, n)
        if p is None or murky(p[2]):
            R.unclear('registered', 'handler', '%d plugins' % n)
            continue
        lost = [i for i in range(n) if not contains(p[2], term('plugin', i))]
        if lost:
            R.bad('registered', 'handler', 'of %d registered plugins, %d are not kept' % (n, len(lost)))
        else:
            R.ok('registered')
    r = W.handler('PluginCenter', 'RegisterPlugin')
    for o in r.outs if r else ():
        v = o.st.cells.get(('arg', 'self'))
        if v == term('actor', 'PluginCenter') and not any(murky(k) for k in o.facts):
            R.bad('registered', 'handler:dropped', 'a registered plugin is dropped (%s)' % show.facts(o.facts)[:200], o)
        else:
            R.ok('registered')
    r = W.api('AJ', 'register_plugin', (term('plugin'),))
    if r:
        for o in r.outs:
            ss = [e for e in flat(o) if e.kind in ('send', 'do_send')]
            hit = [e for e in ss if contains(e.args[1], term('plugin'))]
            if not hit:
                if not any(murky(e.args[1]) for e in ss):
                    R.bad('registered', 'api', 'the plugin is not delivered', o)
                continue
            R.ok('registered')
            m = hit[0].args[1]
            p = r.E.field(m, m[1], 0, 'plugin') if m[0] == 'o' else None
            if p is not None and p[0] == 'o':
                ids = fld(r.E, p, 'job_type_ids')
                if ids[0] == 'vec' and is_const(ids[1]) and ids[1][1] > 0:
                    R.bad('registered', 'api:types', 'a plugin registered for all job types only applies to some', o)


# ---------------------------------------------------------------- C14
def C14(W, R):
    R.rule('announced', 'every stored change of a status is announced to the plugins, after it is stored')
    R.rule('true', 'every announcement names a job and the status just stored for it')
    R.rule('delivered', 'an announcement calls the status hook of every plugin that applies to the job type, once, with that id and status')
    for faults in (False, True):
        for name, r, key in requests(W, faults):
            for o in r.outs:
                notifications(R, r.E, flat(o), name, o, 'announced', 'true')
        for mode in ('override',) if faults else ('default', 'override'):
            r = W.task(faults, retry=mode)
            if r:
                for o in r.outs:
                    notifications(R, r.E, flat(o), 'execution', o, 'announced', 'true')
        r = W.tick(faults)
        if r:
            for o in r.outs:
                for e, p in loops_of(o.nodes()):
                    for evs, bf, dl in e.args[1].segs:
                        notifications(R, r.E, [x[0] for x in evs], 'claim', o, 'announced', 'true')
                notifications(R, r.E, flat(o), 'claim', o, 'announced', 'true')
    r = W.handler('PluginCenter', 'ChangeStatus')
    if r:
        for o in r.outs:
            dispatch(R, r.E, o, 'hook.change_status', 'delivered', 'ChangeStatus')
    population(W, R, 'ChangeStatus', 'delivered', lambda E, o: 'hook.change_status')


# ---------------------------------------------------------------- C06
def C06(W, R):
    R.rule('retried', 'a failed run is put back to wait whenever its policy has tries left')
    R.rule('not-retried', 'a successful run, a job without policy and a job whose tries are used up are not retried')
    R.rule('counted', 'a retry is stored with one more used try and the same limits')
    R.rule('delay', 'the retry waits the interval of the policy, or its initial backoff times two to the number of used tries (saturating)')
    R.rule('user-policy', "a job type with its own policy is retried exactly when that policy names a time, at that time")
    R.rule('policy', 'asked directly, a policy answers from the given time, counts the try, and has tries left exactly while it used fewer than allowed')
    policy_api(W, R)
    R.rule('recurrence-kept', 'a recurring job that is retried keeps its expression, count and bounds')
    for mode, x, o in execs(W, R, 'retried', modes=('default',)):
        E = x.E
        try:
            w = x.world()
            if x.out is None:
                R.unclear('retried', 'execution', 'no result')
                continue
            if guarded(x):
                R.unclear('retried', 'execution', 'condition')
                continue
            p = x.policy()
            should = [n for n, c in x.should_retry() if consistent(o.facts, c)]
            should_not = [n for n, c in x.should_not_retry() if consistent(o.facts, c)]
            if should:
                if not x.retried():
                    R.bad('retried', 'execution:%s->%s' % (should[0], 'recurrence' if x.recurred() else w.status),
                          'a failed run whose policy has tries left (%s) ends %s' % (should[0], 'as its next recurrence' if x.recurred() else w.status), o)
                    continue
                R.ok('retried')
            if should_not:
                if x.retried():
                    R.bad('not-retried', 'execution:' + should_not[0], 'a job is retried although it must not be (%s)' % should_not[0], o)
                    continue
                R.ok('not-retried')
            if x.retried() and should:
                if any(e.kind == 'overflow' for e in x.evs):
                    R.bad('delay', 'overflow', 'a backoff too long to represent overflows', o)
                    continue
                check_retry(R, x, o)
        except Unclear as u:
            R.unclear('retried', 'execution', u)
    for mode, x, o in execs(W, R, 'user-policy', modes=('override',)):
        E = x.E
        try:
            asks = [e for e in x.user if e.kind == 'user.retry_at']
            w = x.world()
            if not asks:
                if consistent(o.facts, [x.opt(x.retry(), 'Some')]):
                    R.bad('user-policy', 'not-asked', 'the policy of a job type is not asked', o)
                elif x.retried():
                    R.bad('user-policy', 'no-policy', 'a job without retry settings is retried', o)
                else:
                    R.ok('user-policy')
                continue
            t = asks[-1].res
            some = consistent(o.facts, [x.opt(t, 'Some')])
            none = consistent(o.facts, [x.opt(t, 'None')])
            if some and not x.retried():
                R.bad('user-policy', 'ignored', 'the policy names a time but the job ends %s' % w.status, o)
            elif none and x.retried():
                R.bad('user-policy', 'forced', 'the policy names no time but the job is retried', o)
            elif some:
                at = when(x)
                want = E.tfield(t, 1, '0', OPT)
                if at is None or murky(at):
                    R.unclear('user-policy', 'time', show.sv(at)[:60] if at else '')
                elif at != want:
                    R.bad('user-policy', 'time', 'the job is retried at %s instead of the time its policy names' % show.sv(at), o)
                else:
                    R.ok('user-policy')
                keep_cron(R, x, o)
            else:
                R.ok('user-policy')
        except Unclear as u:
            R.unclear('user-policy', 'execution', u)


def policy_api(W, R):
    P, now = term('policy'), term('given')
    r = W.api('Retry', 'should_retry', (entry.ref(P, 'p'),))
    for o in r.outs if r else ():
        E = r.E
        mx, done = fld(E, P, 'max_retries'), fld(E, P, 'retried_times')
        left = [[E.isv(mx, OPT, ['None'])], [E.isv(mx, OPT, ['Some']), le0(add(add(done, const(1)), E.tfield(mx, 1, '0', OPT), -1))]]
        used = [[E.isv(mx, OPT, ['Some']), le0(add(E.tfield(mx, 1, '0', OPT), done, -1))]]
        if murky(o.ret) or any(k[0] == 'B' and murky(k[1]) for k in o.facts):
            R.unclear('policy', 'should_retry', show.sv(o.ret)[:60])
            continue
        for want, cases in ((True, left), (False, used)):
            for c in cases:
                if consistent(o.facts, c + [neg(o.ret) if want else o.ret] if o.ret not in (TRUE, FALSE) else c):
                    if o.ret in (TRUE, FALSE) and (o.ret == TRUE) == want:
                        R.ok('policy')
                    else:
                        R.bad('policy', 'should_retry:%s' % want, 'a policy %s answers that it has %s' % (
                            'with tries left' if want else 'without tries left', 'none' if want else 'some'), o)
                else:
                    R.ok('policy')
    r = W.api('Retry', 'retry_at', (entry.ref(P, 'p'), models.some(now)))
    for o in r.outs if r else ():
        E = r.E
        if any(e.kind == 'overflow' for e in flat(o)):
            R.bad('policy', 'overflow', 'a backoff too long to represent overflows', o)
            continue
        t = o.ret
        if murky(t) or contains(t, now):
            R.ok('policy')
        elif any(contains(t, e.res) for e in flat(o) if e.kind == 'clock'):
            R.bad('policy', 'retry_at:now', 'a policy asked for a given time answers from the clock: %s' % show.sv(t), o)
        else:
            R.ok('policy')


def guarded(x):
    """the path depends on something about the job the analysis cannot read"""
    for k in x.o.facts:
        if k[0] == 'B' and murky(k[1]) and (contains(k[1], JOB) or contains(k[1], x.out)):
            return True
    return False


def when(x):
    n = x.type_parts(x.new_type())
    if n is None:
        return None
    return n[1][0] if n[0] == 'ScheduledAt' else n[1][1] if n[0] == 'Cron' else None


def check_retry(R, x, o):
    E, w, p = x.E, x.world(), x.policy()
    done = fld(E, p, 'retried_times')
    nr = fld(E, w.rec, 'context', 'retry')
    np = E.field(nr, nr[1], 1, '0') if nr[0] == 'o' and nr[2] == 1 else (E.tfield(nr, 1, '0', OPT) if nr[0] == 't' else None)
    if np is None:
        R.bad('counted', 'policy', 'a retried job is stored without its retry policy', o, w.writes[-1][1])
        return
    a = fld(E, np, 'retried_times')
    if a == add(done, const(1)):
        R.ok('counted')
    elif murky(a):
        R.unclear('counted', 'execution', show.sv(a)[:60])
    else:
        R.bad('counted', 'retried_times', 'a retry is stored with %s used tries instead of one more' % show.sv(a), o, w.writes[-1][1])
    for f in ('max_retries', 'strategy'):
        a = fld(E, np, f)
        if a != fld(E, p, f) and not murky(a):
            R.bad('counted', f, 'a retry changes the %s of the policy to %s' % (f, show.sv(a)), o, w.writes[-1][1])
        else:
            R.ok('counted')
    at = when(x)
    if at is None:
        n = x.type_parts(x.new_type())
        if n is None or murky(x.new_type()):
            R.unclear('delay', 'execution', 'schedule')
        else:
            R.bad('delay', 'schedule', 'a retried job is stored with schedule %s' % n[0], o, w.writes[-1][1])
        return
    strat = fld(E, p, 'strategy')
    path = entry.adt(E.ir, 'RetryStrategy')
    vs = E.ir.variants(path)
    cur = o.facts.get(('V', strat), frozenset(range(len(vs))))
    for i in cur:
        d = E.tfield(strat, i, '0', path)
        nm = vs[i]['name']
        if nm == 'Interval':
            want = [add(c, d) for c in x.clocks]
        else:
            want = [add(c, models.mul_vals(d, term('pow2', add(done, const(1))))) for c in x.clocks]
        if at in want:
            R.ok('delay')
            continue
        if nm != 'Interval':
            big = implied_le0(o.facts, add(const(30), done, -1))
            over = any(k[0] == 'B' and k[1][:2] == ('t', 'overflow') and v for k, v in o.facts.items())
            if big or over:
                # saturated: must not be earlier than now
                if any(at == c for c in x.clocks) or mentions(at, 'wrap'):
                    R.bad('delay', 'saturated', 'a backoff too long to represent becomes no delay', o, w.writes[-1][1])
                else:
                    R.ok('delay')
                continue
            if at[0] == 't' and at[1] in ('sat',):
                R.unclear('delay', nm, show.sv(at)[:60])
                continue
        if murky(at) or strange(at):
            R.unclear('delay', nm, show.sv(at)[:80])
        else:
            R.bad('delay', nm, 'a retry with policy %s is scheduled at %s' % (nm, show.sv(at)), o, w.writes[-1][1])
    keep_cron(R, x, o)


def strange(v):
    """arithmetic the analysis only names"""
    for t in iter_terms(v):
        if len(t) > 1 and t[0] == 't' and t[1] in ('shl', 'shr', 'powi', 'pow', 'sat', 'min', 'max', 'cast', 'dur', 'div', 'rem', 'nanos', 'checked'):
            return True
    return False


def keep_cron(R, x, o):
    t = x.ctx('job_type')
    cur = o.facts.get(('V', t))
    if cur is not None and x.cron_i() not in cur:
        return
    if cur is None or len(cur) > 1:
        # not distinguished on this path: a recurring job is treated like any other
        n = x.type_parts(x.new_type())
        if n is not None and n[0] != 'Cron':
            R.bad('recurrence-kept', 'execution', 'a recurring job that is retried becomes %s: its recurrence is lost' % n[0], o)
        return
    n = x.type_parts(x.new_type())
    if n is None:
        R.unclear('recurrence-kept', 'execution', 'schedule')
        return
    if n[0] != 'Cron':
        R.bad('recurrence-kept', 'execution', 'a recurring job that is retried becomes %s: its recurrence is lost' % n[0], o)
        return
    for i in (0, 2, 3):
        old = x.E.tfield(t, x.cron_i(), str(i), x.type_path())
        if n[1][i] != old and not murky(n[1][i]):
            R.bad('recurrence-kept', 'execution:%d' % i, 'a retry changes the recurrence of the job', o)
        else:
            R.ok('recurrence-kept')


# ---------------------------------------------------------------- C05
def C05(W, R):
    R.rule('recurs', 'a recurring job that ran and is not retried waits again for the next occurrence of its expression after now, with one more counted, whenever its bounds allow one')
    R.rule('ends', 'a recurring job without a further occurrence, beyond its maximal count or with a next occurrence after its end is concluded')
    R.rule('only-recurring', 'a job that is not recurring is never put back as a recurrence')
    R.rule('expired', 'a waiting recurring job that can never run again is not left waiting')
    for mode, x, o in execs(W, R, 'recurs'):
        E = x.E
        try:
            w = x.world()
            if x.out is None:
                continue
            if mode == 'override':
                asks = [e for e in x.user if e.kind == 'user.retry_at']
                if asks and consistent(o.facts, [x.opt(asks[-1].res, 'Some')]):
                    continue
            elif any(consistent(o.facts, c) for n, c in x.should_retry()):
                continue
            if guarded(x):
                R.unclear('recurs', 'execution', 'condition')
                continue
            t = x.ctx('job_type')
            path = x.type_path()
            vs = E.ir.variants(path)
            cur = o.facts.get(('V', t), frozenset(range(len(vs))))
            if x.cron_i() not in cur:
                if w.status == 'Queued':
                    R.bad('only-recurring', 'execution', 'a job that is not recurring waits again after it ran', o)
                else:
                    R.ok('only-recurring')
                continue
            ci = x.cron_i()
            expr, slot, total, ctx = [E.tfield(t, ci, str(i), path) for i in range(4)]
            sched = parsed(o, w, expr)
            occ = occurrences(o, w)
            base = [E.isv(t, path, ['Cron'])]
            mx, end = fld(E, ctx, 'max_repeat'), fld(E, ctx, 'end_at')
            mv, ev = E.tfield(mx, 1, '0', OPT), E.tfield(end, 1, '0', OPT)
            if sched is not None:
                base.append(E.isv(sched, models.RES, ['Ok']))
            if any(t[:2] == ('t', 'cron?') for k in o.facts for t in iter_terms(k)):
                raise Unclear('events of the schedule')
            if any(t[:2] == ('t', 'cron?') for t in iter_terms(w.rec if w.rec is not None else ('seq',))):
                raise Unclear('events of the schedule')
            later = [t for t in occ if any(y[:2] == ('t', 'cron_next') for y in iter_terms(t[3]))]
            if later:
                # an event other than the first one: only told when nothing but that clock decides which
                base0 = [t[3] for t in occ if t not in later]
                asked = {y for k in o.facts if any(z[:2] == ('t', 'cron_next') for z in iter_terms(k))
                         for y in iter_terms(k) if y[:2] == ('t', 'now')}
                if len(base0) != 1 or base0[0] not in x.clocks or asked - {base0[0]}:
                    raise Unclear('events of the schedule')
            if not occ and any(e.kind == 'events' for e in x.evs):
                raise Unclear('events of the schedule')
            if not occ:
                u = term('cron_next', 'unread')
            else:
                u = occ[0]
            uv = E.tfield(u, 1, '0', OPT)
            must = []
            for a in ('None', 'Some'):
                for b in ('None', 'Some'):
                    c = base + [x.opt(u, 'Some'), x.opt(mx, a), x.opt(end, b)]
                    if a == 'Some':
                        c.append(le0(add(add(total, const(1)), mv, -1)))
                    if b == 'Some':
                        p = order_preds(o.facts, ev, uv, 0)
                        if p is None:
                            R.unclear('recurs', 'execution', 'end of the recurrence')
                            continue
                        c += p
                    if consistent(o.facts, c):
                        must.append((a, b))
            mustnot = []
            if occ and consistent(o.facts, base + [x.opt(u, 'None')]):
                mustnot.append('no further occurrence')
            if consistent(o.facts, base + [x.opt(mx, 'Some'), le0(add(mv, total, -1))]):
                mustnot.append('count exceeded')
            if occ:
                p = order_preds(o.facts, uv, ev, 1)
                if p is None:
                    R.unclear('ends', 'execution', 'end of the recurrence')
                elif consistent(o.facts, base + [x.opt(u, 'Some'), x.opt(end, 'Some')] + p):
                    mustnot.append('next occurrence after the end')
            if must:
                if w.status != 'Queued':
                    R.bad('recurs', 'execution:%s' % w.status, 'a recurring job with a further occurrence (max %s, end %s) ends %s' % (must[0] + (w.status,)), o)
                    continue
                n = x.type_parts(x.new_type())
                if n is not None and n[0] == 'Cron' and stale_slot(n[1][1]):
                    R.bad('recurs', 'execution:slot', 'the next occurrence is %s, not the next event of the expression after now' % show.sv(n[1][1]), o, w.writes[-1][1])
                elif n is None or murky(x.new_type()):
                    R.unclear('recurs', 'execution', 'schedule')
                elif n[0] != 'Cron':
                    R.bad('recurs', 'execution:type', 'a recurring job is stored as %s' % n[0], o, w.writes[-1][1])
                else:
                    want = [expr, None, add(total, const(1)), ctx]
                    for i, nm in ((0, 'expression'), (2, 'count'), (3, 'bounds')):
                        if n[1][i] == want[i] or same_ctx(E, n[1][i], want[i], i):
                            R.ok('recurs')
                        elif murky(n[1][i]):
                            R.unclear('recurs', nm, show.sv(n[1][i])[:60])
                        else:
                            R.bad('recurs', 'execution:' + nm, 'the next occurrence is stored with %s %s' % (nm, show.sv(n[1][i])), o, w.writes[-1][1])
                    s = n[1][1]
                    good = [E.tfield(term('cron_next', src, c), 1, '0', OPT) for q in occ for src in [q[2]] for c in x.clocks]
                    if s in good and sched is not None and contains(s, sched):
                        R.ok('recurs')
                    elif any(s == E.tfield(q, 1, '0', OPT) and implied_le0(o.facts, add(q[3], c, -1)) and implied_le0(o.facts, add(add(c, const(1)), s, -1))
                             for q in occ for c in x.clocks if E.numeric(q[3]) and E.numeric(s)):
                        R.ok('recurs')       # an event after now, with none between
                    elif murky(s) or any(y[:1] == ('t',) and len(y) > 1 and (y[1] == 'elem' or str(y[1]).startswith('phi')) for y in iter_terms(s)):
                        R.unclear('recurs', 'slot', show.sv(s)[:60])
                    else:
                        R.bad('recurs', 'execution:slot', 'the next occurrence is %s, not the next event of the expression after now' % show.sv(s), o, w.writes[-1][1])
                    nr, orr = fld(E, w.rec, 'context', 'retry'), x.ctx('retry')
                    np = payload(nr) if nr[0] == 'o' and nr[3] else nr
                    if nr == orr or contains(np, orr) or consistent(o.facts, [x.opt(orr, 'None')]) or murky(nr):
                        R.ok('recurs')
                    else:
                        R.bad('recurs', 'execution:retry', 'the next occurrence is stored with the retry policy %s' % show.sv(nr)[:80], o, w.writes[-1][1])
            if mustnot and w.status == 'Queued':
                R.bad('ends', 'execution:' + mustnot[0].replace(' ', '-'), 'a recurring job waits again although it must end (%s)' % mustnot[0], o)
            elif mustnot:
                R.ok('ends')
        except Unclear as u:
            R.unclear('recurs', 'execution', u)
    # waiting jobs that can never run
    for sc, o in scans(W, R, 'expired', False, PEEL1):
        E = sc.E
        for s in sc.steps:
            if not s.job or s.moved is not None or s is not sc.steps[0]:
                continue
            if opaque_guard(o.facts, s.job):
                continue
            clocks = [e.res for e in flat(o) if e.kind == 'clock']
            if not clocks:
                continue
            for what, preds in eligible_cases(E, o.facts, s.job, clocks, True):
                if what not in ('cron-end', 'cron-count') or preds is None:
                    continue
                # due by its slot, so that this is what keeps it waiting
                t = fld(E, s.job, 'context', 'job_type')
                path = entry.adt(E.ir, 'JobType')
                slot = E.tfield(t, [i for i, v in enumerate(E.ir.variants(path)) if v['name'] == 'Cron'][0], '1', path)
                if consistent(o.facts, preds + [le0(add(slot, clocks[0], -1))]) and s.rotated:
                    R.bad('expired', 'tick:' + what, 'a waiting recurring job whose %s is left waiting forever' %
                          ('end has passed' if what == 'cron-end' else 'count is exceeded'), o)
                else:
                    R.ok('expired')


def stale_slot(v):
    """the event after a time that is made of a stored number and no clock"""
    for t in iter_terms(v):
        if len(t) > 3 and t[:2] == ('t', 'cron_next'):
            at = t[3]
            return at[:2] == ('t', 'call') and 'timestamp' in str(at[2]) and not any(y[:2] in (('t', 'now'), ('t', 'hv')) for y in iter_terms(at))
    return False


def same_ctx(E, a, b, i):
    if i != 3:
        return False
    if a[0] == 'o' and (a[4] == b or not a[3]):
        return all(fld(E, a, f) == fld(E, b, f) for f in ('tz', 'start_at', 'end_at', 'max_repeat') if True) if a[4] == b else False
    return False


def parsed(o, w, expr):
    """the parsed schedule expression"""
    for src in [k for k in o.facts] + ([w.rec] if w.rec is not None else []):
        for t in iter_terms(src):
            if len(t) > 3 and t[0] == 't' and t[1] == 'parse' and contains(t, expr):
                return t
    return None


def occurrences(o, w):
    out = []
    for src in [k for k in o.facts] + ([w.rec] if w.rec is not None else []):
        for t in iter_terms(src):
            if len(t) > 3 and t[0] == 't' and t[1] == 'cron_next' and t not in out:
                out.append(t)
    # the outermost first occurrence is the one asked for; nested ones are later events of the same iteration
    out.sort(key=lambda t: sum(1 for y in iter_terms(t) if len(y) > 1 and y[0] == 't' and y[1] == 'cron_next'))
    return out


# ---------------------------------------------------------------- C07
def C07(W, R):
    R.rule('concluded', 'every execution ends with the job finished, failed or waiting again, stored once, and its running slot freed')
    R.rule('outcome', 'a job that neither waits again nor failed ends finished; one that failed and does not wait again ends failed')
    R.rule('slot', 'a failure at the end of an execution, other than that of removing the entry itself, does not keep the running slot')
    R.rule('store-failure', 'when storing the outcome or putting the job back fails, the job is marked failed and its slot is freed')
    for mode, x, o in execs(W, R, 'concluded', panics=True):
        try:
            w = x.world()
            for k, msg, e in w.problems:
                R.bad('concluded', k, msg, o, e)
            if w.problems:
                continue
            if not w.writes:
                R.bad('concluded', 'nothing-stored', 'an execution ends without storing an outcome', o)
                continue
            if w.status == 'Running' or w.status is None:
                R.bad('concluded', 'status:%s' % w.status, 'an execution leaves the job %s' % w.status, o)
                continue
            if w.member['Running']:
                R.bad('concluded', 'slot:%s' % w.status, 'an execution that ends %s keeps its running slot' % w.status, o)
                continue
            if len(w.writes) > 1 and len({n for r, e, ns in w.writes for n in ns}) > 1:
                R.bad('concluded', 'twice', 'an execution is concluded %s' % ' and then '.join('/'.join(ns) for r, e, ns in w.writes), o, w.writes[1][1])
                continue
            bad = consistent_lists(w.status, w.member)
            if bad:
                R.bad('concluded', 'lists:%s' % w.status, 'a job that ends %s: %s' % (w.status, bad), o)
            else:
                R.ok('concluded')
            if x.panicked or x.out is None:
                if w.status != 'Failed':
                    R.bad('outcome', 'panic:%s' % w.status, 'a job that panics ends %s' % w.status, o)
                continue
            if guarded(x):
                R.unclear('outcome', 'execution', 'condition')
                continue
            if w.status == 'Finished' and consistent(o.facts, [x.failed()]):
                R.bad('outcome', 'failed->Finished', 'a failed run ends finished', o)
            elif w.status == 'Failed' and consistent(o.facts, [neg(x.failed())]):
                R.bad('outcome', 'ok->Failed', 'a successful run ends failed', o)
            elif w.status == 'Canceled':
                R.bad('outcome', 'Canceled', 'an execution ends canceled', o)
            else:
                R.ok('outcome')
        except Unclear as u:
            R.unclear('concluded', 'execution', u)
    for mode, x, o in execs(W, R, 'store-failure', True, modes=('override',), mailbox=False, json_fault=False):
        fs = [e for e in x.evs if e.kind.startswith('be.') and not okres(e)]
        if len(fs) != 1 or any(e.kind in ('json_err', 'mailbox_error') for e in x.evs):
            continue
        e = fs[0]
        try:
            w = x.world()
            if e.kind != 'be.queue_remove' and not w.problems:
                if w.member['Running']:
                    R.bad('slot', '%s:%s' % (e.kind[3:], w.status), 'when %s fails at the end of an execution, its running slot is kept' % e.kind[3:], o, e)
                    continue
                R.ok('slot')
            if not (e.kind == 'be.storage_upsert' or (e.kind == 'be.queue_push' and x.E.role(e.args[0]) == 'Queued')):
                continue
            what = e.kind[3:]
            if w.problems:
                continue
            if w.status != 'Failed' or consistent_lists('Failed', w.member):
                R.bad('store-failure', '%s:%s' % (what, w.status), 'when %s fails at the end of an execution, the job is left %s (%s)' % (
                    what, w.status, consistent_lists(w.status, w.member) or 'in its list'), o, e)
            else:
                R.ok('store-failure')
        except Unclear as u:
            R.unclear('store-failure', 'execution', u)


# ---------------------------------------------------------------- C23
def C23(W, R):
    R.rule('contained', 'a panic in the code of a job ends that job as failed and frees its slot, and stops nothing else')
    R.rule('no-library-panic', 'no path of the engine, the queue or the plugin centre panics by itself')
    n = 0
    for mode in ('default', 'override'):
        r = W.task(retry=mode)
        if not r:
            R.unclear('contained', 'execution', 'too many paths')
            continue
        iso = False
        for o in r.outs:
            evs = flat(o)
            depth = 0
            for e in evs:
                if e.kind == 'iso_begin':
                    depth += 1
                elif e.kind == 'iso_end':
                    depth -= 1
                elif e.kind.startswith('user.') and depth <= 0:
                    R.bad('contained', e.kind, '%s runs where a panic takes the queue down' % e.kind[5:], o, e)
                    iso = True
                    break
                elif e.kind.startswith('user.'):
                    R.ok('contained')
            x = Exec(r.E, o)
            if not x.panicked:
                continue
            n += 1
            try:
                w = x.world()
                if w.problems:
                    continue
                if w.status != 'Failed':
                    R.bad('contained', 'panic:%s' % w.status, 'a job that panics is left %s' % w.status, o)
                elif consistent_lists('Failed', w.member):
                    R.bad('contained', 'panic:lists', 'a job that panics: ' + consistent_lists('Failed', w.member), o)
                else:
                    R.ok('contained')
            except Unclear as u:
                R.unclear('contained', 'execution', u)
    runs = []
    for faults in (False, True):
        for name, r, key in requests(W, faults):
            runs.append((name, r))
        for a, m in (('WorkQueue', 'GetJob'), ('WorkQueue', 'UpdateWorkQueue'), ('PluginCenter', 'RunHook'),
                     ('PluginCenter', 'ChangeStatus'), ('PluginCenter', 'RegisterPlugin')):
            runs.append((m, W.handler(a, m, faults)))
        runs.append(('tick', W.tick(faults)))
        runs.append(('execution', W.task(faults, retry='default', **(dict(mailbox=False, json_fault=False) if faults else {}))))
        runs.append(('execution', W.task(faults, retry='override')))
    for name, r, key in requests(W, False, logs=True):
        runs.append((name, r))
    runs.append(('tick', W.tick(False, logs=True)))
    runs.append(('execution', W.task(False, retry='override', logs=True)))
    from .rules_api import taken
    for m in ('InitWorkQueue', 'JustRunJob'):
        runs.append((m, W.handler('AJ', m)))
    for name, r in runs:
        if not r:
            continue
        for p in r.panics:
            site = panic_site(p)
            if name == 'InitWorkQueue':
                t = taken(p)
                if t == 'none':
                    continue
                if t:
                    R.bad('no-library-panic', 'InitWorkQueue:%s-taken' % t, 'the engine panics when a queue with that %s exists' % t, p)
                    continue
            R.bad('no-library-panic', '%s:%s' % (name, str(p.msg)[:60]), 'the library can panic: %s %s' % (p.msg, site), p)
        R.ok('no-library-panic', len(r.outs))


def panic_site(p):
    return ''


# ---------------------------------------------------------------- C30
STAMP = {'Queued': 'enqueue_at', 'Running': 'run_at', 'Finished': 'complete_at', 'Failed': 'complete_at', 'Canceled': 'cancel_at'}


def is_clock(t):
    return t[0] == 't' and t[1] == 'now'


def stamp_ok(v):
    """True: the milliseconds of a clock reading; False: definitely not; None: unknown"""
    if v[0] == 'o' and v[1] == OPT and v[2] == 1:
        x = payload(v)
        if x[0] == 't' and x[1] == 'timestamp_millis' and is_clock(x[2]):
            return True
    return None if murky(v) else False


def mentions(v, word):
    return v == word or isinstance(v, tuple) and any(mentions(x, word) for x in v)


def C30(W, R):
    R.rule('stamped', 'whenever an operation stores a job with a new status, the record has the current time in milliseconds as the time of that status')
    R.rule('others-kept', 'the other times of a job are stored as they were')
    runs = [(n, r) for n, r, key in requests(W)] + [('poll', W.tick())]
    for mode in ('default', 'override'):
        runs.append(('execution', W.task(False, retry=mode)))
    seen = 0
    for name, r in runs:
        if not r:
            R.unclear('stamped', name, 'too many paths')
            continue
        E = r.E
        for o in r.outs:
            for e, f, path in walk(o.nodes()):
                if e.kind != 'be.storage_upsert' or not okres(e):
                    continue
                rec = record(E, e.args[2])
                if rec is None:
                    continue
                st = status_term(E, rec)
                if st[0] != 'o':
                    continue
                seen += 1
                s = next(iter(status_names(E, {}, st)))
                own = fld(E, rec, 'context', STAMP[s])
                ok = stamp_ok(own)
                if ok:
                    R.ok('stamped')
                elif ok is None:
                    R.unclear('stamped', '%s:%s' % (name, s), show.sv(own)[:60])
                else:
                    R.bad('stamped', '%s:%s' % (name, s), 'a job stored as %s has %s %s instead of the current time in milliseconds' % (s, STAMP[s], show.sv(own)), o, e)
                for g in sorted(set(STAMP.values()) | {'created_at'}):
                    if g == STAMP[s]:
                        continue
                    v = fld(E, rec, 'context', g)
                    if murky(v):
                        R.unclear('others-kept', name, show.sv(v)[:60])
                    elif stamp_ok(v) or (v[0] == 't' and v[1] == 'timestamp_millis'):
                        R.bad('others-kept', '%s:%s:%s' % (name, s, g), 'a job stored as %s gets the current time as its %s too' % (s, g), o, e)
                    elif v[0] == 'o' and not any(x[:1] == ('t',) for x in iter_terms(v)) and not any(mentions(k, g) for k in f):
                        R.bad('others-kept', '%s:%s:%s:set' % (name, s, g), 'a job stored as %s has its %s replaced by %s' % (s, g, show.sv(v)[:60]), o, e)
                    else:
                        R.ok('others-kept')
    if not seen:
        R.unclear('stamped', 'all', 'no stored status')
