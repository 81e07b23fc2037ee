"""Rules over the polling step of a queue: eligibility, claiming, the concurrency limit, rescheduling."""
from .jobworld import *
from .rules_queue import same_content, is_ok, KEEP
from .models import callf

HOUR = 3600 * 10 ** 6
SEC = 10 ** 6
PEEL = dict(unroll=2, iterations=6, job_type='Normal')
PEEL1 = dict(unroll=1, iterations=3)
DEEP = {(False, 'PEEL'): dict(unroll=3, iterations=7, job_type='Normal'), (True, 'PEEL'): dict(unroll=3, iterations=6, job_type='Normal'),
        (False, 'PEEL1'): dict(unroll=2, iterations=3), (True, 'PEEL1'): PEEL1}


# ---------------------------------------------------------------- the scan
class Step:
    """one entry of the waiting list looked at by a scan"""
    def __init__(self, elem, pos, batch, ev):
        self.elem, self.pos, self.batch, self.ev = elem, pos, batch, ev
        self.job = None          # stored job, or False when there is none
        self.running = None      # event that stored the running record
        self.rec = None
        self.moved = None        # event that took the entry to the running list
        self.rotated = False
        self.gone = None         # event that took the entry elsewhere
        self.facts = None        # facts where the claim was made
        self.starts = []


class Scan:
    """positions of the entries of the waiting list along one straight path"""
    def __init__(self, E, o):
        self.E, self.o = E, o
        self.steps = []
        self.problems = []       # (key, message, event)
        self.batch = None        # (term, direction)
        self.pops = 0
        self.nexts = 0
        self.moves = 0
        self.clocks = []
        self.first_get = None

    def step_of(self, elem):
        for s in self.steps:
            if s.elem == elem:
                return s
        return None

    def run(self):
        E = self.E
        for n in self.o.nodes():
            e, facts = n[1], n[2]
            k = e.kind
            if k == 'loop':
                if has_effect(e):
                    raise Unclear('effects inside a loop')
            elif k == 'clock':
                self.clocks.append(e.res)
            elif k == 'be.queue_get' and okres(e):
                if E.role(e.args[0]) == 'Queued':
                    v = e.res[1]
                    if v[0] != 'vec':
                        raise Unclear('batch')
                    self.batch = (v[2], dirname(E, e.args[2]), v[1])
                    self.first_get = self.first_get or e
                    self.pops = self.nexts = 0
                elif E.role(e.args[0]) is None:
                    raise Unclear('list name')
            elif k == 'next':
                if self.batch is not None and e.args[0] == self.batch[0]:
                    if e.res is None or e.res == 'none':
                        continue
                    self.steps.append(Step(e.res, self.nexts, self.batch, e))
                    self.nexts += 1
                elif self.batch is not None and contains(e.args[0], self.batch[0]):
                    raise Unclear('reordered batch')
            elif k == 'be.storage_get' and okres(e):
                s = self.step_of(e.args[1])
                if s is not None:
                    if e.res == 'none':
                        s.job = False
                    elif e.res[1][0] == 't' and e.res[1][1] == 'stored':
                        s.job = term('job', e.res[1][3], e.res[1][4])
                    else:
                        raise Unclear('stored record')
            elif k == 'be.storage_upsert':
                if not okres(e):
                    continue
                r = record(E, e.args[2])
                if r is None:
                    raise Unclear('stored value')
                ns = status_names(E, facts, status_term(E, r))
                s = self.step_of(e.args[1])
                if s is None:
                    if murky(e.args[1]) or e.args[1][1] != 'elem':
                        raise Unclear('record key')
                    self.problems.append(('other-record', 'the scan writes a record under an id it did not look at', e))
                    continue
                if ns == {'Running'}:
                    if s.running is not None:
                        self.problems.append(('twice', 'the running record is stored twice for one entry', e))
                    s.running, s.rec, s.facts = e, r, facts
                elif s.job and status_term(E, r) == status_term(E, s.job):
                    continue                     # stored with the status it had: no claim
                elif 'Running' in ns:
                    raise Unclear('stored status')
                else:
                    raise Unclear('scan stores another status')
            elif k == 'be.queue_move' and okres(e):
                self.move(e, facts)
            elif k in ('be.queue_push', 'be.queue_remove') and okres(e):
                role = E.role(e.args[0])
                s = self.step_of(e.args[1])
                if role is None or s is None:
                    raise Unclear('list operation of the scan')
                if k == 'be.queue_push' and role == 'Running':
                    s.moved = e
                    s.facts = s.facts or facts
                elif k == 'be.queue_remove' and role == 'Queued':
                    s.gone = e
                elif k == 'be.queue_push' and role == 'Queued':
                    s.gone = None
                else:
                    raise Unclear('list operation of the scan')
            elif k in ('spawn', 'notify'):
                self.start(e)
        return self

    def move(self, e, facts):
        E = self.E
        src, dst = E.role(e.args[0]), E.role(e.args[1])
        if src is None or dst is None:
            raise Unclear('list name')
        cnt = e.args[2]
        if not is_const(cnt):
            raise Unclear('number of moved entries')
        d1, d2 = dirname(E, e.args[3]), dirname(E, e.args[4])
        if src != 'Queued':
            self.problems.append(('from-' + src, 'the scan moves entries out of the %s list' % src, e))
            return
        if self.batch is None:
            raise Unclear('move without looking at the list')
        if d1 is None or d2 is None or self.batch[1] is None:
            raise Unclear('direction')
        for i in range(cnt[1]):
            if d1 != self.batch[1]:
                # the other end of the list: another entry whenever the list has more than one
                self.problems.append(('other-end', 'the entry that is moved is at the other end of the list than the one looked at', e))
                return
            if dst == 'Queued' and d1 == d2:
                continue                       # stays where it is
            at = [s for s in self.steps if s.batch is self.batch and s.pos == self.pops]
            self.pops += 1
            s = at[0] if at else None
            if dst == 'Running':
                self.moves += 1
                if s is None:
                    self.problems.append(('unseen', 'an entry that was not looked at is moved to the running list', e))
                else:
                    s.moved = e
                    s.facts = s.facts or facts
            elif dst == 'Queued':
                if s is not None:
                    s.rotated = True
            else:
                self.problems.append(('to-' + dst, 'the scan moves an entry to the %s list' % dst, e))

    def start(self, e):
        E = self.E
        v = e.args[0]
        job = None
        for x in iter_terms(v):
            if len(x) > 1 and x[0] == 'o' and last(x[1]) == 'Job':
                job = x
                break
        if job is None:
            plain = [x for x in iter_terms(v) if x[:2] == ('t', 'job')]
            job = plain[0] if plain else None
        if job is None:
            raise Unclear('started job')
        jid = fld(E, job, 'context', 'job_id')
        s = self.step_of(jid)
        if s is None:
            j = [s for s in self.steps if s.job and fld(E, s.job, 'context', 'job_id') == jid]
            s = j[0] if j else None
        if s is None:
            if murky(jid):
                raise Unclear('started job')
            self.problems.append(('start-other', 'a job is started that the scan did not claim', e))
            return
        s.starts.append((job, e))


def dirname(E, v):
    if v[0] == 'o':
        return E.ir.variants(v[1])[v[2]]['name']
    return None


def scans(W, R, rule, faults=False, opts=PEEL):
    """(Scan, outcome) of every peeled path of the polling step"""
    r = None
    if getattr(W, 'tier', 'quick') == 'thorough':
        deep = DEEP[bool(faults), 'PEEL' if opts is PEEL else 'PEEL1']
        r = W.tick(faults, **deep) if deep is not opts else None
    r = r or W.tick(faults, **opts)
    for unroll, its in ((1, 3), (1, 2)):       # fewer entries looked at, when there are too many paths
        r = r or W.tick(faults, **dict(opts, unroll=unroll, iterations=its))
    if not r:
        R.unclear(rule, 'tick', 'too many paths')
        return
    for o in r.outs:
        try:
            yield Scan(r.E, o).run(), o
        except Unclear as x:
            R.unclear(rule, 'tick', x)


def scan_steps(W, R, rule):
    """positions and records agree (no faults)"""
    for sc, o in scans(W, R, rule):
        for k, m, e in sc.problems:
            if not k.startswith('start'):
                R.bad(rule, 'tick:' + k, m, o, e)
        if sc.problems:
            continue
        for s in sc.steps:
            if s.running is not None and s.moved is None:
                R.bad(rule, 'tick:not-moved', 'a job is stored as running but its entry is not moved to the running list', o, s.running)
            elif s.moved is not None and s.running is None:
                R.bad(rule, 'tick:not-stored', 'an entry is moved to the running list but its job is not stored as running', o, s.moved)
            elif s.gone is not None and s.moved is None:
                R.bad(rule, 'tick:dropped', 'a waiting entry is taken out of the waiting list', o, s.gone)
            elif s.moved is not None and s.moved.kind == 'be.queue_push' and s.gone is None:
                R.bad(rule, 'tick:copied', 'a claimed entry also stays in the waiting list', o, s.moved)
            else:
                R.ok(rule)


# ---------------------------------------------------------------- C04
def derived(facts, x):
    """terms of the facts that are computed from x (time stamps, durations); None when one is not understood"""
    out = set()
    for k in facts:
        for t in iter_terms(k):
            if len(t) > 1 and t[0] == 't' and t[1] not in ('fld', 'vf') and t != x and contains(t, x):
                if t[1] in ('dur', 'timestamp', 'timestamp_millis', 'timestamp_micros') or (t[1] == 'timestamp_nanos_opt'):
                    out.add(t)
                else:
                    return None
    return out


COARSE = ('timestamp', 's')


def order_preds(facts, a, b, margin, fine=False):
    """a is at least `margin` later than b, and so is everything derived from them (with `fine`, by less than
    a second, so that whole seconds may agree); None when not understood"""
    gap = lambda unit: const(0 if fine and unit in COARSE else 1)
    preds = [le0(add(add(b, const(margin)), a, -1))]
    da, db = derived(facts, a), derived(facts, b)
    if da is None or db is None:
        return None
    for t in da | db:
        if t[1] == 'dur':
            x = t[3]
            c, d = lin(x)
            if d.get(a, 0) == -d.get(b, 0) and d.get(a, 0) and len(d) == 2:
                preds.append(le0(add(gap(t[2]), t, -1)) if d[a] > 0 else le0(add(t, gap(t[2]))))
            else:
                return None
        else:
            x = t[2]
            if x == a:
                o = ('t', t[1], b)
                preds.append(le0(add(add(o, gap(t[1])), t, -1)))
            elif x == b:
                o = ('t', t[1], a)
                preds.append(le0(add(add(t, gap(t[1])), o, -1)))
            else:
                return None
    for f in sorted({t[1] for k in facts for t in iter_terms(k) if len(t) > 1 and t[0] == 't' and t[1] in STAMPS}):
        preds.append(le0(add(add(('t', f, b), gap(f)), ('t', f, a), -1)))
        da = da | {('t', f, a)}
    if (da | db) and not fine:
        preds[0] = le0(add(add(b, const(max(margin, HOUR))), a, -1))
    return preds


def type_of(E, facts, job):
    """possible variants of the job's schedule: {name: term of field i}"""
    t = fld(E, job, 'context', 'job_type')
    path = entry.adt(E.ir, 'JobType')
    vs = E.ir.variants(path)
    cur = facts.get(('V', t), frozenset(range(len(vs))))
    return t, path, {vs[i]['name']: i for i in cur}


STAMPS = ('timestamp', 'timestamp_millis', 'timestamp_micros', 'timestamp_nanos_opt')


def mono(clocks, facts=()):
    out = [le0(add(a, b, -1)) for a, b in zip(clocks, clocks[1:])]
    used = {t[1] for k in facts for t in iter_terms(k) if len(t) > 1 and t[0] == 't' and t[1] in STAMPS}
    for f in sorted(used):
        out += [le0(add(('t', f, a), ('t', f, b), -1)) for a, b in zip(clocks, clocks[1:])]
    return out


def opaque_guard(facts, job, skip=False):
    """a condition on the job the analysis does not understand"""
    for k in facts:
        if k[0] == 'B' and contains(k[1], job) and k[1][:2] != ('t', 'has'):
            return True
        if skip and k[0] == 'B' and k[1][:2] == ('t', 'has') and contains(k[1][3], job[2]):
            return True
        if k[0] in ('L', 'N', 'V') and contains(k[1], job) and (murky(k[1]) or strange(k[1], job)):
            return True
    return False


PLAIN = ('fld', 'vf', 'dur', 'timestamp', 'timestamp_millis', 'timestamp_micros', 'timestamp_nanos_opt')


def strange(v, job):
    """a function of the job the rules know nothing about"""
    if v == job or not isinstance(v, tuple):
        return False
    if len(v) > 1 and v[0] == 't' and isinstance(v[1], str) and v[1] not in PLAIN and contains(v, job):
        return True
    return any(strange(x, job) for x in v)


def eligible_cases(E, facts, job, clocks, early):
    """conjunctions describing one way in which the job must not (early=True) / must (False) be claimed"""
    t, path, names = type_of(E, facts, job)
    vf = lambda v, i: E.tfield(t, names[v], str(i), path)
    base = mono(clocks, facts)
    n0, n1 = (clocks[0], clocks[-1]) if clocks else (None, None)
    OPT = models.OPT
    isv = lambda x, n: E.isv(x, OPT, [n])
    for v in names:
        tv = [E.isv(t, path, [v])]
        if v == 'Normal':
            if not early:
                yield 'normal', base + tv
            continue
        if v == 'ScheduledAt':
            slot = vf(v, 0)
            if early:
                if n1 is None:
                    yield 'scheduled', tv
                else:
                    p = order_preds(facts, slot, n1, 1, True)
                    yield 'scheduled', None if p is None else base + tv + p
            elif n0 is not None:
                p = order_preds(facts, n0, slot, SEC)
                yield 'scheduled', None if p is None else base + tv + p
            continue
        if v == 'Cron':
            slot, total, ctx = vf(v, 1), vf(v, 2), vf(v, 3)
            mx, end = fld(E, ctx, 'max_repeat'), fld(E, ctx, 'end_at')
            mxv, endv = E.tfield(mx, 1, '0', OPT), E.tfield(end, 1, '0', OPT)
            if early:
                if n1 is None:
                    yield 'cron-slot', tv
                    continue
                p = order_preds(facts, slot, n1, 1, True)
                yield 'cron-slot', None if p is None else base + tv + p
                yield 'cron-count', base + tv + [isv(mx, 'Some'), le0(add(add(mxv, const(1)), total, -1))]
                p = order_preds(facts, n0, endv, 1)
                yield 'cron-end', None if p is None else base + tv + [isv(end, 'Some')] + p
            elif n0 is not None:
                p = order_preds(facts, n0, slot, SEC)
                if p is None:
                    yield 'cron', None
                    continue
                for a in ('None', 'Some'):
                    for b in ('None', 'Some'):
                        q = base + tv + p + [isv(mx, a), isv(end, b)]
                        if a == 'Some':
                            q.append(le0(add(total, mxv, -1)))
                        if b == 'Some':
                            pe = order_preds(facts, endv, n1, SEC)
                            if pe is None:
                                q = None
                            else:
                                q += pe
                        yield 'cron', q


def C04(W, R):
    R.rule('not-early', 'where a job is claimed, the path condition excludes a start time in the future, an exceeded repeat count and a passed end of its recurrence')
    R.rule('not-skipped', 'where the first waiting job, or the one behind a claimed one, is passed over although a slot is free, the path condition excludes that it is due')
    R.rule('looked-at', 'a scan with a free slot looks at the waiting jobs')
    R.rule('schedule-kept', 'claiming keeps the data, schedule and retry policy of the job')
    st = W.variant('Queued')
    for sc, o in scans(W, R, 'not-early', False, PEEL1):
        E = sc.E
        for s in sc.steps:
            if s.job is None:
                continue
            if s.moved is not None or s.running is not None:
                if not s.job:
                    R.bad('not-early', 'tick:no-record', 'an entry without a stored job is claimed', o, s.moved or s.running)
                    continue
                facts = s.facts
                if opaque_guard(facts, s.job):
                    R.unclear('not-early', 'tick', 'condition on the job')
                    continue
                clocks = clocks_before(sc, s.running or s.moved)
                for what, preds in eligible_cases(E, facts, s.job, clocks, True):
                    if preds is None:
                        R.unclear('not-early', 'tick', what)
                    elif consistent(facts, preds):
                        R.bad('not-early', 'tick:' + what, 'a job is claimed although it may not run now (%s)' % what, o, s.running or s.moved)
                    else:
                        R.ok('not-early')
                if s.rec is not None:
                    same_content(E, s.rec, s.job, R, 'schedule-kept', 'claim', o, s.running)
            elif s.job and s.pos == 0 and s is sc.steps[0]:
                facts = o.facts
                if opaque_guard(facts, s.job, True):
                    R.unclear('not-skipped', 'tick', 'condition on the job')
                    continue
                cap = capacity(E, o)
                if cap is None:
                    R.unclear('not-skipped', 'tick', 'free slots')
                    continue
                cap = cap + [E.isv(status_term(E, s.job), E.status_path(), ['Queued'])]
                clocks = [e.res for e in flat(o) if e.kind == 'clock'] or [term('now', 'unread')]
                for what, preds in eligible_cases(E, facts, s.job, clocks, False):
                    if preds is None:
                        R.unclear('not-skipped', 'tick', what)
                    elif consistent(facts, preds + cap):
                        R.bad('not-skipped', 'tick:' + what, 'a due job is passed over although a slot is free (%s)' % what, o)
                    else:
                        R.ok('not-skipped')
        if not sc.steps or all(s.job is None for s in sc.steps):
            cap = capacity(E, o)
            if cap is None:
                R.unclear('looked-at', 'tick', 'free slots')
                continue
            more = []
            for e in flat(o):
                if e.kind == 'be.queue_count' and okres(e) and E.role(e.args[0]) == 'Queued':
                    more.append(le0(add(const(1), e.res[1], -1)))
                if e.kind == 'be.queue_get' and okres(e) and E.role(e.args[0]) == 'Queued':
                    more.append(le0(add(const(1), e.res[1][1], -1)))
            if any(k[0] == 'B' for k in o.facts):
                R.unclear('looked-at', 'tick', 'condition')
            elif consistent(o.facts, cap + more):
                R.bad('looked-at', 'tick', 'a slot is free and jobs are waiting, but the scan looks at none', o)
            else:
                R.ok('looked-at')
    # the job behind a claimed one
    for sc, o in scans(W, R, 'not-skipped', False, PEEL):
        E = sc.E
        if sc.problems or len(sc.steps) < 2:
            continue
        a, b = sc.steps[:2]
        if a.moved is None or not b.job or b.pos != 1 or b.moved is not None or not b.rotated:
            continue
        if any(k[0] == 'B' and v and k[1][:2] == ('p', 'eq') and {a.elem, b.elem} == set(k[1][2:4]) for k, v in o.facts.items()):
            R.ok('not-skipped')        # the same job again
            continue
        if opaque_guard(o.facts, b.job, True) or foreign_guard(E, o.facts):
            R.unclear('not-skipped', 'tick', 'condition on the second job')
            continue
        cap = capacity(E, o)
        rs = running_terms(E, flat(o))
        if cap is None or not rs:
            R.unclear('not-skipped', 'tick', 'free slots')
            continue
        cap = cap + [le0(add(add(r, const(2)), limit(E), -1)) for r in rs]
        cap.append(E.isv(status_term(E, b.job), E.status_path(), ['Queued']))
        clocks = [e.res for e in flat(o) if e.kind == 'clock'] or [term('now', 'unread')]
        for what, preds in eligible_cases(E, o.facts, b.job, clocks, False):
            if preds is None:
                R.unclear('not-skipped', 'tick', what)
            elif consistent(o.facts, preds + cap):
                R.bad('not-skipped', 'tick:second-' + what, 'a due job behind a claimed one is passed over although two slots are free (%s)' % what, o)
            else:
                R.ok('not-skipped')
    # every abstract iteration
    r = W.tick()
    if r:
        for o in r.outs:
            for e, facts, path in walk(o.nodes()):
                if e.kind == 'be.storage_upsert' and okres(e):
                    rec = record(r.E, e.args[2])
                    if rec is None or rec[0] != 'o' or rec[4] is None or rec[4][:2] != ('t', 'job'):
                        continue
                    job = rec[4]
                    if opaque_guard(facts, job):
                        continue
                    for what, preds in eligible_cases(r.E, facts, job, loop_clocks(facts, o, path, e), True):
                        if preds is not None and not consistent(facts, preds):
                            R.ok('not-early')


def loop_clocks(facts, o, path, ev):
    out = []
    for e, f, p in walk(o.nodes()):
        if e is ev:
            break
        if e.kind == 'clock' and p == path:
            out.append(e.res)
    return out


def clocks_before(sc, ev):
    out = []
    for e in flat(sc.o):
        if e is ev:
            break
        if e.kind == 'clock':
            out.append(e.res)
    return out


def running_terms(E, evs):
    """what the path knows about the number of running jobs"""
    out = []
    for e in evs:
        if e.kind == 'be.queue_count' and okres(e) and E.role(e.args[0]) == 'Running':
            out.append(e.res[1])
    return out


def limit(E):
    return fld(E, term('actor', 'WorkQueue'), 'config', 'max_processing_jobs')


def capacity(E, o):
    """predicates saying that at least one slot is free"""
    rs = running_terms(E, flat(o))
    if not rs:
        if any(k[0] in 'LNVB' and contains(k, term('actor', 'WorkQueue')) for k in o.facts):
            return None
        return [le0(add(const(1), limit(E), -1))]
    return [le0(add(add(r, const(1)), limit(E), -1)) for r in rs]


# ---------------------------------------------------------------- C08
def C08(W, R):
    R.rule('within-limit', 'at every claim, the running jobs plus the claims made by this polling step do not exceed the configured limit')
    R.rule('limit-configurable', 'reconfiguring a queue replaces the limit and the polling interval by the given ones; the public call delivers them')
    proved, seen = True, 0
    r = W.tick()
    if r:
        for o in r.outs:
            for n, facts, ghost in claim_nodes(r.E, o):
                rs = running_terms(r.E, [e for e, f, p in walk(o.nodes())])
                seen += 1
                if len(rs) != 1 or not implied_le0(facts, add(add(ghost, rs[0]), limit(r.E), -1)):
                    proved = False
                else:
                    R.ok('within-limit')
        if not seen and any(e.kind == 'be.queue_move' and murky(e.args[1]) for o in r.outs for e, f, p in walk(o.nodes())):
            R.unclear('within-limit', 'tick', 'names of the lists')
        elif not seen:
            R.bad('within-limit', 'tick:no-claim', 'the polling step claims no job at all')
    else:
        proved = False
    for faults in (False, True):
        for sc, o in scans(W, R, 'within-limit', faults):
            E = sc.E
            k = 0
            rs, noise = [], False
            for n in o.nodes():
                e, facts = n[1], n[2]
                if e.kind == 'be.queue_count' and okres(e) and E.role(e.args[0]) == 'Running':
                    rs.append(e.res[1])
                if (e.kind == 'be.queue_move' and okres(e) and E.role(e.args[1]) == 'Running') or \
                        (e.kind == 'be.queue_push' and okres(e) and E.role(e.args[0]) == 'Running'):
                    k += e.args[2][1] if e.kind == 'be.queue_move' and is_const(e.args[2]) else 1
                    if foreign_guard(E, facts):
                        R.unclear('within-limit', 'tick', 'condition')
                        continue
                    run = rs[0] if rs else term('count', 'unread')
                    over = [le0(add(add(limit(E), const(1)), add(run, const(k)), -1))]
                    if not rs:
                        R.bad('within-limit', 'tick:unread', 'jobs are claimed without looking at the number of running jobs', o, e)
                    elif wraps(E, o):
                        R.bad('within-limit', 'tick:wraps', 'the number of free slots wraps around when the limit is below the number of running jobs', o, e)
                    elif consistent(facts, over):
                        R.bad('within-limit', 'tick:over', 'claim %d of a polling step is possible with %d free slot(s)' % (k, k - 1), o, e)
                    else:
                        R.ok('within-limit')
    # configuration
    r = W.handler('WorkQueue', 'UpdateWorkQueue')
    cfg = term('msg', 'UpdateWorkQueue')
    if r:
        E = r.E
        want = E.tfield(cfg, None, 'config')
        for o in r.outs:
            v = o.st.cells.get(('arg', 'self'))
            if v is None:
                R.unclear('limit-configurable', 'handler', 'state')
                continue
            for f in ('max_processing_jobs', 'process_tick_duration'):
                a, b = fld(E, v, 'config', f), fld(E, want, f)
                if a == b:
                    R.ok('limit-configurable')
                elif murky(a):
                    R.unclear('limit-configurable', 'handler', f)
                else:
                    R.bad('limit-configurable', 'handler:' + f, 'after a reconfiguration %s is %s instead of the given value' % (f, show.sv(a)), o)
    r = W.api('AJ', 'update_work_queue', (term('uconfig'),))
    if r:
        n = 0
        for o in r.outs:
            for e in flat(o):
                if e.kind in ('send', 'do_send') and e.args[1][0] == 'o' and last(e.args[1][1]) == 'UpdateWorkQueue':
                    n += 1
                    v = r.E.field(e.args[1], e.args[1][1], 0, 'config')
                    for f in ('max_processing_jobs', 'process_tick_duration'):
                        a, b = fld(r.E, v, f), fld(r.E, term('uconfig'), f)
                        if a == b:
                            R.ok('limit-configurable')
                        elif murky(a):
                            R.unclear('limit-configurable', 'api', f)
                        else:
                            R.bad('limit-configurable', 'api:' + f, 'delivers %s %s instead of the given value' % (f, show.sv(a)), o, e)
        if not n and r.outs:
            if any(e.kind in ('send', 'do_send') and murky(e.args[1]) for o in r.outs for e in flat(o)):
                R.unclear('limit-configurable', 'api', 'message')
            else:
                R.bad('limit-configurable', 'api:not-sent', 'the configuration never reaches the queue', r.outs[0])


def wraps(E, o):
    """the first unsigned subtraction involving the limit that can go below zero"""
    for n in o.nodes():
        e, facts = n[1], n[2]
        if e.kind == 'underflow' and any(contains(a, limit(E)) for a in e.args):
            d = add(e.args[0], e.args[1], -1)
            if not murky(d) and not foreign_guard(E, facts) and consistent(facts, [le0(add(d, const(1)))]):
                return e
    return None


def cursor_wraps(E, o):
    """the first unsigned subtraction of entries looked at from the number of waiting jobs that can go below zero"""
    known = []
    for n in o.nodes():
        e, facts = n[1], n[2]
        if e.kind == 'be.queue_count' and okres(e):
            known.append(e.res[1])
        elif e.kind == 'be.queue_get' and okres(e):
            known.append(e.res[1][1])
        elif e.kind == 'underflow':
            d = add(e.args[0], e.args[1], -1)
            if d[0] != 'i' or not d[2] or not all(is_atom(t, known) for t, c in d[2]):
                continue
            if not foreign_guard(E, facts) and consistent(facts, [le0(add(d, const(1)))]):
                return e
    return None


def is_atom(t, known):
    return any(t == x or (x[0] == 'i' and x[1] == 0 and len(x[2]) == 1 and tuple(x[2])[0] == (t, 1)) for x in known)


def foreign_guard(E, facts):
    for k in facts:
        if k[0] == 'B' and murky(k[1]):
            return True
        if k[0] in ('L', 'N') and contains(k[1], limit(E)) and murky(k[1]):
            return True
    return False


def claim_nodes(E, o):
    """(event, facts, claims so far including this one) of every claim, loops included"""
    def rec(evs):
        for x in evs:
            e, f, held, ghost = x
            if e.kind == 'loop':
                for seg in e.args[1].segs:
                    for y in rec(seg[0]):
                        yield y
            elif e.kind == 'be.queue_move' and okres(e) and E.role(e.args[1]) == 'Running':
                yield e, f, dict(ghost).get('claims', const(0))
    return rec([n[1:] for n in o.nodes()])


# ---------------------------------------------------------------- C09
def C09(W, R):
    R.rule('aligned', 'the entry that leaves the waiting list is the one whose job was read and stored as running')
    R.rule('claimed-is-started', 'every job whose entry reached the running list is started exactly once by the same polling step, whatever fails later')
    R.rule('started-is-claimed', 'no job is started that was not stored as running and moved to the running list')
    R.rule('fresh-state', 'the started job is the stored job with status running')
    scan_steps(W, R, 'aligned')
    for faults in (False, True):
        for sc, o in scans(W, R, 'claimed-is-started', faults):
            E = sc.E
            for k, m, e in sc.problems:
                if k.startswith('start'):
                    R.bad('started-is-claimed', 'tick:' + k, m, o, e)
            if sc.problems:
                continue
            for e in flat(o):
                if e.kind != 'it.take' or not is_const(e.args[1]):
                    continue
                ids = [fld(E, j, 'context', 'job_id') for j in e.args[0][2][1:] if j[0] in 'ot']
                if any(s.moved is not None and s.elem in ids for s in sc.steps):
                    R.bad('claimed-is-started', 'tick:cut', 'only the first %d of the claimed jobs are started' % e.args[1][1], o, e)
            for s in sc.steps:
                if s.moved is not None and not s.starts:
                    R.bad('claimed-is-started', 'tick:lost' + ('-after-fault' if faults and not nofault(o) else ''),
                          'an entry is moved to the running list but its job is never started', o, s.moved)
                elif s.moved is not None and len(s.starts) > 1:
                    R.bad('claimed-is-started', 'tick:twice', 'a claimed job is started %d times' % len(s.starts), o, s.starts[1][1])
                elif s.starts and s.moved is None:
                    R.bad('started-is-claimed', 'tick:unclaimed', 'a job is started although its entry is not in the running list', o, s.starts[0][1])
                elif s.starts and s.running is None:
                    R.bad('started-is-claimed', 'tick:not-stored', 'a job is started although it is not stored as running', o, s.starts[0][1])
                elif s.moved is not None:
                    R.ok('claimed-is-started')
                    R.ok('started-is-claimed')
                for job, e in s.starts:
                    ns = status_names(E, o.facts, status_term(E, job))
                    if ns != {'Running'}:
                        R.bad('fresh-state', 'tick:status', 'a job is started with status %s' % '/'.join(sorted(ns)), o, e)
                    elif s.job:
                        same_content(E, job, s.job, R, 'fresh-state', 'start', o, e)


def nofault(o):
    return not any(e.kind.startswith('be.') and not okres(e) or e.kind in ('json_err', 'mailbox_error') for e in flat(o))


# ---------------------------------------------------------------- C10
def C10(W, R):
    R.rule('rescheduled', 'every way a polling step can end, failures included, schedules the next polling step exactly once')
    R.rule('interval', 'the next step is scheduled after the configured interval')
    R.rule('re-enters', 'what is scheduled is a polling step')
    R.rule('started', 'a queue starts polling when it is started')
    R.rule('terminates', 'a scan makes progress in every round: no round leaves everything as it was')
    R.rule('no-blocking', 'while a slot is free, an entry that was looked at and not claimed makes room for those behind it')
    R.rule('no-panic', 'no path of a polling step panics in the library')
    R.rule('not-held', 'a running job does not keep the queue from polling and answering')
    closures = []
    for faults in (False, True):
        r = W.tick(faults)
        if not r:
            R.unclear('rescheduled', 'tick', 'too many paths')
            continue
        for o in r.outs:
            for e, f, p in walk(o.nodes()):
                if e.kind == 'spawn':
                    if e.args[1] == 'wait':
                        R.bad('not-held', 'tick', 'the queue stops until a started job ends', o, e)
                    else:
                        R.ok('not-held')
            ls = [(e, f, p) for e, f, p in walk(o.nodes()) if e.kind in ('run_later', 'run_interval', 'notify_later')]
            if len(ls) != 1 or ls[0][2]:
                why = 'after a failed ' + first_fault(o) if first_fault(o) else 'without failure'
                if not ls:
                    R.bad('rescheduled', 'tick:none:' + (first_fault(o) or 'ok'), 'a polling step ends %s and schedules no further one' % why, o)
                else:
                    R.bad('rescheduled', 'tick:many', 'a polling step schedules %d further ones' % len(ls), o, ls[0][0])
                continue
            e = ls[0][0]
            if e.kind == 'run_interval':
                R.bad('rescheduled', 'tick:interval', 'every polling step starts another endless series of polling steps', o, e)
                continue
            R.ok('rescheduled')
            want = fld(r.E, term('actor', 'WorkQueue'), 'config', 'process_tick_duration')
            if e.args[0] == want:
                R.ok('interval')
            elif fixed(e.args[0]):
                R.bad('interval', 'tick', 'the next polling step is scheduled after a fixed time, not the configured interval', o, e)
            elif e.args[0][0] == 'i' and want in dict(e.args[0][2]) and len(e.args[0][2]) == 1:
                R.bad('interval', 'tick', 'the next polling step is scheduled after %s, not the configured interval' % show.sv(e.args[0]), o, e)
            elif murky(e.args[0]) or contains(e.args[0], want):
                R.unclear('interval', 'tick', show.sv(e.args[0])[:80])
            else:
                R.bad('interval', 'tick', 'the next polling step is scheduled after %s, not the configured interval' % show.sv(e.args[0]), o, e)
            if e.kind == 'run_later' and e.args[1] not in closures:
                closures.append(e.args[1])
        for o in r.outs:
            e = wraps(r.E, o)
            if e is not None:
                R.bad('no-panic', 'tick:underflow', 'a polling step subtracts the number of running jobs from a smaller limit', o, e)
                break
        for sc, o in scans(W, R, 'no-panic', False, PEEL1):
            e = cursor_wraps(sc.E, o)
            if e is not None:
                R.bad('no-panic', 'tick:cursor', 'a polling step subtracts the entries it looked at from a smaller number of waiting jobs', o, e)
                break
        for p in r.panics:
            R.bad('no-panic', 'tick:' + str(p.msg)[:60], 'a polling step can panic: %s' % p.msg, p)
        R.ok('no-panic', len(r.outs))
    requests_poll(W, R)
    for c in closures:
        reenters(W, R, 're-enters', c, [entry.SELF, entry.CTX], 'scheduled')
    try:
        r = W.api('WorkQueue', 'start_with_name', (term('qname'), term('backend')))
    except Missing:
        r = None
        R.unclear('started', 'start', 'how a queue is started')
    if r:
        for o in r.outs:
            st = [e for e in flat(o) if e.kind == 'actor_start']
            if not st:
                R.unclear('started', 'start', 'no actor is started')
                continue
            c = st[0].args[1]
            if c[0] == 'o' and c[1].startswith('closure:') or c[0] == 'fn':
                reenters(W, R, 'started', c, [entry.CTX], 'start')
            else:
                R.unclear('started', 'start', 'how the queue starts')
    termination(W, R)
    blocking(W, R)


def requests_poll(W, R):
    """a request does not start a second series of polling steps"""
    from .rules_queue import requests
    runs = [(n, r) for n, r, k in requests(W)]
    for m in ('GetJob', 'UpdateWorkQueue'):
        try:
            runs.append((m, W.handler('WorkQueue', m)))
        except Missing:
            pass
    for name, r in runs:
        for o in r.outs if r else ():
            evs = [e for e, f, p in walk(o.nodes())]
            ls = [e for e in evs if e.kind in ('run_later', 'run_interval')]
            if not ls:
                R.ok('rescheduled')
            elif any(e.kind == 'ctx.cancel_future' for e in evs):
                R.unclear('rescheduled', name, 'the pending step may be replaced')
            elif polls(W, ls[0].args[1]):
                R.bad('rescheduled', 'request:' + name, 'a %s request starts another series of polling steps besides the one going on' % name, o, ls[0])
            else:
                R.ok('rescheduled')


def polls(W, clo):
    E = W.engine()
    st = State()
    try:
        outs = callf(E, st, clo, [entry.SELF(st), entry.CTX(st)])
    except Budget:
        return False
    return any(e.kind in ('run_later', 'run_interval') for v, s in outs for e, f, p in walk(Outcome('return', v, s).nodes()))


def blocking(W, R):
    """an entry that was looked at does not stay in front of the others"""
    for sc, o in scans(W, R, 'no-blocking'):
        E = sc.E
        if sc.problems:
            continue
        if sc.first_get is None or not is_const(sc.first_get.args[1]):
            continue                       # looks at the whole list each time
        rs = running_terms(E, flat(o))
        if len(rs) != 1 or foreign_guard(E, o.facts):
            if sc.steps:
                R.unclear('no-blocking', 'tick', 'number of free slots')
            continue
        free = [le0(add(add(rs[0], const(sc.moves + 1)), limit(E), -1))]
        for s in sc.steps:
            if s.moved is not None or s.rotated or s.gone is not None:
                R.ok('no-blocking')
            elif consistent(o.facts, free):
                R.bad('no-blocking', 'tick:' + ('missing' if s.job is False else 'entry'),
                      'an entry that is looked at and not claimed stays at the end that is read first: the entries behind it are never reached', o, s.ev)
            else:
                R.ok('no-blocking')


def fixed(v):
    """made of literals and named constants only"""
    if v[0] == 'i':
        return all(fixed(t) for t, k in v[2])
    if v[0] == 't':
        return v[1] == 'const'
    if v[0] == 'o':
        return v[4] is None and bool(v[3]) and all(fixed(x) for n, x in v[3])
    return False


def reenters(W, R, rule, clo, args, where):
    E = W.engine()
    st = State()
    vals = [a(st) for a in args]
    try:
        outs = callf(E, st, clo, vals)
    except Budget as x:
        R.unclear(rule, where, x)
        return
    started = [b for b in W.ir.bodies.values() if not b.std and b.method == 'started' and b.impl_trait]
    for v, s in outs:
        o = Outcome('return', v, s)
        ls = [e for e, f, p in walk(o.nodes()) if e.kind in ('run_later', 'run_interval')]
        gets = [e for e, f, p in walk(o.nodes()) if e.kind.startswith('be.queue_')]
        if ls and (gets or where == 'start'):
            R.ok(rule)
        elif started and where == 'start':
            R.unclear(rule, where, 'polling is started elsewhere')
        else:
            R.bad(rule, where, 'what is run at the %s does not poll the queue and schedule the next step' % where, o)


def first_fault(o):
    for e, f, p in walk(o.nodes()):
        if e.kind.startswith('be.') and not okres(e):
            return e.kind[3:]
    return None


def termination(W, R):
    seen = set()
    for faults in (False, True):
        r = W.tick(faults)
        if not r:
            continue
        E = r.E
        for o in r.outs:
            for e, path in loops_of(o.nodes()):
                lid = e.args[0][:3]
                if (lid, faults) in seen:
                    continue
                seen.add((lid, faults))
                for evs, bf, dl in e.args[1].segs:
                    kinds = [x[0].kind for x in evs]
                    if 'next' in kinds:
                        R.ok('terminates')
                        continue
                    if any(shrinks(E, x[0]) for x in evs):
                        R.ok('terminates')
                        continue
                    deltas = [v for k, v in dl.items() if not is_items(k)]
                    if any(murky(v) for v in deltas):
                        R.unclear('terminates', 'tick', 'change of a loop variable')
                        continue
                    nums = [v for v in deltas if E.numeric(v)]
                    if len(nums) != len(deltas):
                        R.unclear('terminates', 'tick', 'loop variable')
                        continue
                    if any(k[0] == 'B' for k in bf):
                        R.unclear('terminates', 'tick', 'loop condition')
                        continue
                    if consistent(bf, [eq0(v) for v in nums]):
                        R.bad('terminates', '%s' % last(lid[1]), 'a round of the scan can leave everything as it was: it repeats forever', o, e)
                    else:
                        R.ok('terminates')


def is_items(k):
    return '#items' in str(k[-1])


def shrinks(E, e):
    """takes an entry out of the waiting list in every case (a loop may run zero times)"""
    if e.kind == 'be.queue_move' and okres(e):
        return E.role(e.args[0]) == 'Queued' and E.role(e.args[1]) != 'Queued'
    if e.kind == 'be.queue_remove' and okres(e):
        return E.role(e.args[0]) == 'Queued'
    return False
