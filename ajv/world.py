"""The runs every rule looks at, computed once per process, and the vocabulary of the rules."""
from .domain import *
from .engine import Engine, Outcome, Budget
from .ir import IR, last
from . import entry, models, show
from .entry import Missing

STATUSES = ('Queued', 'Running', 'Finished', 'Failed', 'Canceled')
DONE = ('Finished', 'Failed', 'Canceled')
JOB = term('claimed')        # the job a started task was given

MURKY = {'call', 'havoc', 'upd', 'rv', '?', 'nofield', 'cell', 'vecfield', 'agg', 'un', 'setd', 'awaited', 'bin', 'xor', 'const',
         'hv', 'map?', 'qlen?', 'fmt', 'rep', 'retained', 'drained', 'cron?'}


def murky(v):
    """the value went through something the analysis does not understand"""
    for x in iter_terms(v):
        if len(x) > 1 and x[0] == 't' and x[1] in MURKY:
            if x[1] == 'cell' and len(x) > 2 and isinstance(x[2], tuple) and x[2][:1] == ('static',):
                continue      # a global variable
            return True
        if x == MOVED:
            return True
    return False


class World:
    def __init__(self, path):
        self.ir = IR(path)
        self.cache = {}
        self.engines = []
        self.inconclusive = []

    def engine(self, **kw):
        if getattr(self, 'tier', 'quick') == 'thorough':
            kw.setdefault('max_paths', 400000)
        E = Engine(self.ir, **kw)
        self.engines.append(E)
        return E

    def memo(self, key, f):
        if key not in self.cache:
            try:
                self.cache[key] = f()
            except (Budget, RecursionError) as e:
                self.inconclusive.append('%s: %s' % (key, e))
                self.cache[key] = None
        return self.cache[key]

    # ---------------------------------------------------------------- entry points
    def handler(self, actor, msg, faults=False, **opts):
        return self.memo(('handler', actor, msg, faults, tuple(sorted(opts.items()))),
                         lambda: entry.run_handler(self.engine(faults=faults, opts=opts), actor, msg))

    def method(self, ty, name, faults=False, args=None, key=None):
        def f():
            b = entry.method(self.ir, ty, name)
            a = args
            if a is None:
                a = []
                for i in range(1, b.argc + 1):
                    v = term('self') if i == 1 else term('arg', i - 1)
                    a.append(entry.ref(v, i) if self.ir.ty(b.locals[i])['k'] == 'ref' and not self._str(b.locals[i]) else v)
            return entry.run_body('%s::%s' % (ty, name), self.engine(faults=faults), b, a)
        return self.memo(('method', ty, name, faults, key), f)

    def _str(self, ty):
        t = self.ir.ty(ty)
        return t['k'] == 'ref' and self.ir.ty(t['args'][0] if 'args' in t else self.ir.strip_ref(ty))['s'] == 'str'

    def tick_body(self):
        """the polling step: what the queue's start runs and what it re-schedules"""
        try:
            return entry.method(self.ir, 'WorkQueue', 'process_jobs')
        except Missing:
            pass
        found = []
        for b in self.ir.bodies.values():
            if b.std or b.kind == 'Closure' or b.argc != 2 or b.impl_self is None or b.impl_trait is not None:
                continue
            if not self.ir.adt_of(b.impl_self) or last(self.ir.adt_of(b.impl_self)) != 'WorkQueue':
                continue
            if 'Context<' not in self.ir.ty(b.locals[2])['s']:
                continue
            r = self.memo(('tick?', b.key), lambda b=b: entry.run_body('tick?', self.engine(), b, [entry.SELF, entry.CTX]))
            if r and any(e.kind in ('run_later', 'notify_later') for o in r.outs for e in flat(o)) and \
                    any(e.kind == 'be.queue_count' for o in r.outs for e, f, q in walk(o.nodes())):
                found.append(b)
        if len(found) != 1:
            raise Missing('the polling step of WorkQueue')
        return found[0]

    def tick(self, faults=False, **opts):
        return self.memo(('tick', faults, tuple(sorted(opts.items()))), lambda: entry.run_body(
            'tick', self.engine(faults=faults, opts=opts), self.tick_body(), [entry.SELF, entry.CTX]))

    def starts(self, faults=False):
        """distinct (started value, how) of the jobs a tick starts"""
        r = self.tick(faults)
        out = []
        if r is None:
            return out
        for o in r.outs:
            for e, f, path in walk(o.nodes()):
                if e.kind in ('spawn', 'notify') and (e.args[0], e.kind) not in [(x[0], x[1]) for x in out]:
                    out.append((e.args[0], e.kind, e, f))
        return out

    def task(self, faults=False, retry='default', **opts):
        """the task started for a claimed job; the job is the opaque value JOB with status Running"""
        def f():
            st0 = self.starts(False)
            if not st0:
                raise Missing('no task is started for a claimed job')
            runs = []
            seen = []
            for v, how, e, _ in st0:
                if how == 'notify' or self._subst_job(v) in seen:
                    continue
                seen.append(self._subst_job(v))
                E = self.engine(faults=faults, user_retry=retry, opts=opts)
                st = State()
                v2 = self._subst_job(v)
                if v2 is None:
                    self.inconclusive.append('task: the started job is not identified')
                    continue
                adt = entry.adt(self.ir, 'JobStatus')
                st.facts = {('V', status_term(E, JOB)): frozenset([self.variant('Running')])}
                st.cells[('actor', 'WorkQueue')] = term('actor', 'WorkQueue')
                outs = []
                for r, s in models.run_future(E, st, v2):
                    outs.append(Outcome('return', E.resolve(s, r), s))
                runs.append(entry.Run('task', E, outs))
            if len(runs) != 1:
                self.inconclusive.append('task: %d kinds of tasks' % len(runs))
                return runs[0] if runs else None
            return runs[0]
        return self.memo(('task', faults, retry, tuple(sorted(opts.items()))), f)

    def _subst_job(self, v):
        if v[0] != 'o':
            return None
        jobs = []
        for n, x in v[3]:
            if x[0] == 't' and x[1] == 'elem':
                jobs.append(x)
            elif x[0] == 'o' and last(x[1]) == 'Job':
                jobs.append(x)
        if len(set(jobs)) != 1:
            c = set()
            for x in iter_terms(v):
                if len(x) > 1 and x[0] == 't' and x[1] == 'elem':
                    c.add(x)
            if len(c) != 1:
                return None
            jobs = list(c)
        return subst(v, jobs[0], JOB)

    def api(self, ty, name, args, faults=False, **opts):
        """an async or plain function of the public API, awaited to its end"""
        return self.memo(('api', ty, name, args, faults, tuple(sorted(opts.items()))), lambda: entry.run_body(
            '%s::%s' % (ty, name), self.engine(faults=faults, opts=opts),
            entry.method(self.ir, ty, name) if ty else entry.func(self.ir, name), list(args)))

    def variant(self, name):
        vs = self.ir.variants(entry.adt(self.ir, 'JobStatus'))
        for i, v in enumerate(vs):
            if v['name'] == name:
                return i
        raise Missing('JobStatus::' + name)

    def stats(self):
        b, blocks, calls, loops, ev, paths, un = set(), 0, 0, 0, 0, 0, {}
        for E in self.engines:
            b |= E.stats['bodies']
            blocks += E.stats['blocks']
            calls += E.stats['calls']
            loops += E.stats['loops']
            ev += E.stats['events']
            paths += E.paths + 1
            for k, n in E.stats['unmodelled'].items():
                un[k] = un.get(k, 0) + n
        return dict(functions=sorted(x for x in b if x.startswith('aj')), blocks=blocks, call_sites=calls, loops=loops,
                    events=ev, paths=paths, unmodelled=un)


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(subst(x, a, b) for x in v)
    return v


# ---------------------------------------------------------------- traces
def walk(nodes, path=()):
    """(event, facts, loop path) of a trace, loops unfolded once per abstract iteration"""
    return walk_seg([n[1:] for n in nodes], path)


def walk_seg(evs, path):
    for x in evs:
        e, f = x[0], x[1]
        if e.kind == 'loop':
            li = e.args[1]
            for i, (evs2, bf, dl) in enumerate(li.segs):
                for y in walk_seg(evs2, path + ((e.args[0], i),)):
                    yield y
        else:
            yield e, f, path


def loops_of(nodes):
    """all loops of a trace: (loop event, enclosing path)"""
    out = []

    def rec(e, path):
        if e.kind == 'loop':
            out.append((e, path))
            for i, (evs, bf, dl) in enumerate(e.args[1].segs):
                for x in evs:
                    rec(x[0], path + ((e.args[0], i),))
    for n in nodes:
        rec(n[1], ())
    return out


def flat(o):
    """events of a loop-free trace; loops are kept as events"""
    return [n[1] for n in o.nodes()]


def has_effect(e):
    if e.kind == 'loop':
        return any(has_effect(x[0]) for seg in e.args[1].segs for x in seg[0])
    return e.kind in ('be.queue_push', 'be.queue_move', 'be.queue_remove', 'be.storage_upsert')


def okres(e):
    return e.res is None or not (isinstance(e.res, tuple) and e.res and e.res[0] == 'err')


# ---------------------------------------------------------------- job records
def fld(E, v, *names):
    for n in names:
        if v[0] == 'o':
            v = E.field(v, v[1], v[2], n)
        else:
            v = E.tfield(v, None, n)
    return v


def status_term(E, job):
    return fld(E, job, 'context', 'job_status')


def record(E, v):
    """what a stored string decodes to"""
    if v[0] == 't' and v[1] == 'json':
        return v[2]
    return None


def status_names(E, facts, v, env=None):
    """possible names of a status value"""
    path = entry.adt(E.ir, 'JobStatus')
    vs = E.ir.variants(path)
    if v[0] == 'o' and v[1] == path:
        return {vs[v[2]]['name']}
    if env and v in env:
        return {env[v]}
    cur = facts.get(('V', v)) if facts else None
    if cur is not None:
        return {vs[i]['name'] for i in cur}
    return {x['name'] for x in vs}


def hidden(v):
    """the value may be made of things it does not show"""
    return any(len(x) > 1 and x[0] == 't' and x[1] in MURKY - {'call'} for x in iter_terms(v)) or any(x == MOVED for x in iter_terms(v))


def opaque_on(facts, t, job):
    """a condition on this part of the job the analysis does not understand"""
    for k in facts:
        if k[0] == 'V':
            if k[1] != t and murky(k[1]) and contains(k[1], t):
                return True
        elif contains(k[1], t) or (murky(k[1]) and contains(k[1], job) and not only_fields(k[1], job)):
            return True
    return False


def only_fields(v, job):
    """the job occurs in the value only through fields"""
    if v == job:
        return False
    if isinstance(v, tuple):
        if len(v) > 3 and v[:2] == ('t', 'fld') and v[2] == job:
            return True
        return all(only_fields(x, job) for x in v)
    return True


def feasible(facts, *preds):
    st = State()
    st.facts = dict(facts)
    for p in preds:
        if not st.assume(p):
            return False
    # cross-check linear facts once more
    for k, v in st.facts.items():
        if k[0] == 'L':
            e = const(0)
            for t, c in k[1]:
                e = add(e, scale(t, c))
            if v[0] is not None and v[1] is not None and v[0] > v[1]:
                return False
            if v[0] is not None and implied_le0(st.facts, add(e, const(v[0] - 1), -1)):
                return False
            break
    return True


def infeasible(facts):
    cons = []
    terms = set()
    for k, v in facts.items():
        if k[0] == 'L':
            lo, hi = v
            d = dict(k[1])
            terms |= set(d)
            if hi is not None:
                cons.append((-hi, d))
            if lo is not None:
                cons.append((lo, {t: -x for t, x in d.items()}))
        if k[0] == 'V' and not v:
            return True
    for t in terms:
        if t in UNSIGNED:
            cons.append((0, {t: -1}))
    return fm_infeasible(cons)


def consistent(facts, preds):
    """can the path condition hold together with these predicates?"""
    st = State()
    st.facts = dict(facts)
    for p in preds:
        if not st.assume(p):
            return False
    return not infeasible(st.facts)
