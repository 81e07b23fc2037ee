"""Rules over the requests a queue serves: submit, cancel, retry, get, configure."""
from .jobworld import *

KEEP = ('job_id', 'job_type', 'retry', 'created_at', 'run_count')


def msg_field(W, msg, tyname, default):
    """name of the field of a message whose type is `tyname`"""
    p = entry.adt(W.ir, msg)
    for n, ty in W.ir.variants(p)[0]['fields']:
        a = W.ir.adt_of(ty)
        if a and last(a) == tyname:
            return n
    if any(n == default for n, _ in W.ir.variants(p)[0]['fields']):
        return default
    raise Missing('%s in message %s' % (tyname, msg))


def is_ok(v):
    return v is not None and v[0] == 'o' and last(v[1]) == 'Result' and v[2] == 0


def is_err(v):
    return v is not None and v[0] == 'o' and last(v[1]) == 'Result' and v[2] == 1


def payload(v):
    return dict(v[3]).get('0') if v is not None and v[0] == 'o' else None


def enqueue_parts(W, E):
    m = term('msg', 'Enqueue')
    job = E.tfield(m, None, msg_field(W, 'Enqueue', 'Job', '0'))
    cfg = E.tfield(m, None, msg_field(W, 'Enqueue', 'EnqueueConfig', '1'))
    return job, cfg, fld(E, job, 'context', 'job_id')


def id_of_msg(W, E, msg):
    return E.tfield(term('msg', msg), None, msg_field(W, msg, 'String', 'job_id'))


def requests(W, faults=False, **opts):
    """(name, run, key) of the requests that act on one job"""
    out = []
    r = W.handler('WorkQueue', 'Enqueue', faults, **opts)
    if r:
        job, cfg, key = enqueue_parts(W, r.E)
        out.append(('submit', r, key))
    for n, m in (('cancel', 'CancelJob'), ('retry', 'RetryJob')):
        r = W.handler('WorkQueue', m, faults, **opts)
        if r:
            out.append((n, r, id_of_msg(W, r.E, m)))
    return out


def same_content(E, rec, job, R, rule, where, o, e, names=KEEP):
    """the stored record is the submitted job"""
    for n in names:
        a, b = fld(E, rec, 'context', n), fld(E, job, 'context', n)
        if a != b:
            if murky(a):
                R.unclear(rule, where, n)
                continue
            R.bad(rule, where + ':' + n, '%s of the stored job is %s, not the submitted %s' % (n, show.sv(a), show.sv(b)), o, e)
        else:
            R.ok(rule)
    a, b = fld(E, rec, 'data'), fld(E, job, 'data')
    if a != b:
        if murky(a):
            R.unclear(rule, where, 'data')
            return
        R.bad(rule, where + ':data', 'the stored data is %s, not the submitted one' % show.sv(a), o, e)
    else:
        R.ok(rule)


# ---------------------------------------------------------------- C01
def check_submission(R, E, o, key, job, where):
    """one path on which there is no job with this id"""
    for s0, m, w in worlds(E, o, key, None, (None,)):
        for k, msg, e in w.problems:
            R.bad('stored-and-queued', where + ':' + k, msg, o, e)
        if w.status != 'Queued':
            R.bad('stored-and-queued', where + ':status', 'a new job ends with status %s' % (w.status,), o)
            continue
        bad = consistent_lists('Queued', w.member)
        if bad:
            R.bad('stored-and-queued', where + ':lists', 'a new job is in the wrong lists: ' + bad, o)
        else:
            R.ok('stored-and-queued')
        same_content(E, w.rec, job, R, 'payload-kept', where, o, w.writes[-1][1])


def C01(W, R):
    R.rule('stored-and-queued', 'on every path of a submission that finds no stored job, the id is put exactly once in the waiting list and a waiting record is stored under it, and the request succeeds')
    R.rule('payload-kept', 'the stored record carries the submitted data, id, schedule, retry policy')
    R.rule('id-returned', 'a successful submission returns the id of the submitted job and delivered that job')
    R.rule('accepted', 'no submission is refused when nothing fails')
    r = W.handler('WorkQueue', 'Enqueue')
    n = 0
    if r:
        job, cfg, key = enqueue_parts(W, r.E)
        for o in r.outs:
            try:
                s = stored_for(r.E, o, key)
                if s is None:
                    # a submission that never looks whether the job exists: a running one would be enqueued again
                    R.bad('stored-and-queued', 'submit:blind', 'the stored job is not read before acting', o)
                    continue
                if not s[0]:
                    n += 1
                    check_submission(R, r.E, o, key, job, 'submit')
                if not is_ok(o.ret):
                    R.bad('accepted', 'submit:refused', 'a submission is refused with %s' % show.sv(o.ret), o)
                else:
                    R.ok('accepted')
            except Unclear as x:
                R.unclear('stored-and-queued', 'submit', x)
        if r.outs and not n:
            R.bad('stored-and-queued', 'submit:none', 'no path of a submission handles a new job')
    # the public entry points
    J = term('submitted')
    for name, ty, meth, args in (
            ('run', 'Job', 'run', (J,)),
            ('add_job', 'AJ', 'add_job', (J, term('qname'))),
            ('enqueue_job', 'AJ', 'enqueue_job', (J, term('config'), term('qname')))):
        r = W.api(ty, meth, args)
        if not r:
            continue
        E = r.E
        key = fld(E, J, 'context', 'job_id')
        seen = 0
        for o in r.outs:
            sends = [e for e in flat(o) if e.kind == 'send' and e.args[1][0] == 'o' and last(e.args[1][1]) == 'Enqueue']
            if not sends:
                if is_ok(o.ret):
                    if any(murky(e.args[1]) for e in flat(o) if e.kind == 'send'):
                        R.unclear('id-returned', name, 'message')
                    else:
                        R.bad('id-returned', name + ':not-sent', 'reports success without delivering the job', o)
                continue
            e = sends[0]
            if len(sends) > 1:
                R.bad('id-returned', name + ':twice', 'delivers the job twice', o, e)
            mj = E.field(e.args[1], e.args[1][1], 0, msg_field(W, 'Enqueue', 'Job', '0'))
            if mj != J:
                if murky(mj):
                    R.unclear('id-returned', name, 'message')
                else:
                    R.bad('id-returned', name + ':other-job', 'delivers %s instead of the submitted job' % show.sv(mj), o, e)
                continue
            seen += 1
            if is_ok(o.ret) and name != 'enqueue_job':
                v = payload(o.ret)
                if v != key:
                    if murky(v):
                        R.unclear('id-returned', name, 'id')
                    else:
                        R.bad('id-returned', name + ':id', 'returns %s instead of the id of the job' % show.sv(v), o)
                else:
                    R.ok('id-returned')
            try:
                s = stored_for(E, o, key)
                if s is not None and not s[0]:
                    if is_ok(o.ret):
                        check_submission(R, E, o, key, J, name)
                    else:
                        R.bad('accepted', name + ':refused', 'a new job is refused with %s' % show.sv(o.ret), o)
            except Unclear as x:
                R.unclear('stored-and-queued', name, x)
        if not seen:
            R.unclear('id-returned', name, 'no delivery seen')
    # fire and forget
    r = W.api('Job', 'just_run', (J,))
    if r:
        got = 0
        for o in r.outs:
            ds = [e for e in flat(o) if e.kind == 'do_send']
            if not ds and not any(e.kind in ('send', 'spawn') for e in flat(o)):
                # only without an engine
                ls = [e for e in flat(o) if e.kind == 'lock']
                if any(o.facts.get(('V', e.args[2])) == frozenset([1]) for e in ls):
                    R.bad('id-returned', 'just_run:dropped', 'a job is dropped although the engine runs', o)
            for e in ds:
                m = e.args[1]
                if m[0] == 'o' and last(m[1]) == 'JustRunJob':
                    mj = r.E.field(m, m[1], 0, msg_field(W, 'JustRunJob', 'Job', 'job'))
                    if mj == J:
                        got += 1
                        R.ok('id-returned')
                    elif not murky(mj):
                        R.bad('id-returned', 'just_run:other-job', 'delivers %s instead of the submitted job' % show.sv(mj), o, e)
        if not got and r.outs and not R.bad_:
            R.bad('id-returned', 'just_run:not-sent', 'the job is never handed to the engine', r.outs[0])
    just_run_task(W, R)


def name_taken(o):
    """the queue of the type could not be created: another type has its name"""
    from .rules_api import lookups, typed
    return any(x[2] is True and not typed(x[1]) for x in lookups(o))


def just_run_task(W, R):
    r = W.handler('AJ', 'JustRunJob')
    if not r:
        return
    E0 = r.E
    job = E0.tfield(term('msg', 'JustRunJob'), None, msg_field(W, 'JustRunJob', 'Job', 'job'))
    started = False
    for o in r.outs:
        for e in flat(o):
            if e.kind == 'spawn':
                started = True
                E = W.engine()
                st = o.st.copy()
                st.trace = None
                try:
                    outs = [Outcome('return', E.resolve(s, v), s) for v, s in models.run_future(E, st, e.args[0])]
                except Budget as x:
                    R.unclear('id-returned', 'just_run', x)
                    continue
                n = 0
                if e.args[1] == 'wait' and any(e2.kind == 'send' and e2.args[1][0] == 'o' and last(e2.args[1][1]) == 'InitWorkQueue' for p in outs for e2 in flat(p)):
                    R.bad('id-returned', 'just_run:stuck', 'the engine waits for a job to be submitted, which waits for the engine', o, e)
                    continue
                for p in outs:
                    if not any(e2.kind == 'send' and (e2.args[1][0] != 'o' or last(e2.args[1][1]) == 'Enqueue') for e2 in flat(p)) \
                            and any(e2.kind == 'send' and e2.args[1][0] == 'o' and last(e2.args[1][1]) == 'Enqueue' for q in outs for e2 in flat(q)) \
                            and not any(k[0] == 'B' and murky(k[1]) for k in p.facts) and not name_taken(p):
                        R.bad('id-returned', 'just_run:skipped', 'the engine drops a fire-and-forget job', p)
                    for e2 in flat(p):
                        if e2.kind == 'send' and e2.args[1][0] == 'o' and last(e2.args[1][1]) == 'Enqueue':
                            mj = E.field(e2.args[1], e2.args[1][1], 0, msg_field(W, 'Enqueue', 'Job', '0'))
                            n += 1
                            if mj != job and not murky(mj):
                                R.bad('id-returned', 'just_run:task', 'the engine submits %s instead of the job' % show.sv(mj), p, e2)
                            else:
                                R.ok('id-returned')
                if outs and not n:
                    R.bad('id-returned', 'just_run:dropped', 'the engine never submits the job', outs[0])
            elif e.kind == 'send':
                started = True
    if not started and r.outs:
        R.bad('id-returned', 'just_run:ignored', 'the engine ignores fire-and-forget jobs', r.outs[0])


# ---------------------------------------------------------------- C02
def C02(W, R):
    R.rule('lists-match-status', 'whatever status the job had and whatever path a request or the end of an execution takes, the id ends in exactly the list of its stored status')
    for name, r, key in requests(W):
        for o in r.outs:
            lists_rule(W, R, r.E, o, key, None, name)
    for mode in ('default', 'override'):
        r = W.task(retry=mode)
        if not r:
            continue
        for o in r.outs:
            lists_rule(W, R, r.E, o, fld(r.E, JOB, 'context', 'job_id'), JOB, 'execution')
    from .rules_tick import scan_steps
    R.rule('claim-lists', 'a scan step moves an entry to the running list exactly when it stores the running status for that id, and otherwise leaves it waiting')
    scan_steps(W, R, 'claim-lists')
    R.rule('one-name', 'every entry point uses the same list for the same status of a queue')
    names = list_names(W)
    for role, ns in names.items():
        if len(ns) > 1:
            R.bad('one-name', role, 'the %s list has several names: %s' % (role, ', '.join(sorted(show.sv(x) for x in ns))))
        else:
            R.ok('one-name')
    roles = {}
    for role, ns in names.items():
        for x in ns:
            roles.setdefault(x, set()).add(role)


def list_names(W):
    names = {}
    runs = [r for _, r, _ in requests(W)]
    for r in runs + [W.tick(), W.task()]:
        if not r:
            continue
        for o in r.outs:
            for e, f, p in walk(o.nodes()):
                if e.kind.startswith('be.queue_'):
                    for a in e.args[:2] if e.kind == 'be.queue_move' else e.args[:1]:
                        role = r.E.role(a)
                        if role and not murky(a):
                            names.setdefault(role, set()).add(a)
    return names


def lists_rule(W, R, E, o, key, rec, name, rule='lists-match-status'):
    try:
        for s0, m, w in worlds(E, o, key, rec):
            for k, msg, e in w.problems:
                R.bad(rule, '%s:%s' % (name, k), msg, o, e)
            if w.problems:
                continue
            if s0 is None and w.status is None and not w.ops:
                R.ok(rule)
                continue
            bad = consistent_lists(w.status, w.member)
            if bad:
                R.bad(rule, '%s:%s->%s' % (name, s0, w.status),
                      'a %s job ends %s but %s' % (s0 or 'new', w.status, bad), o)
            else:
                R.ok(rule)
    except Unclear as x:
        R.unclear(rule, name, x)


# ---------------------------------------------------------------- C03
def C03(W, R):
    R.rule('running-untouched', 'on every path on which the stored job may be running, a submission, cancellation or retry of its id writes no record and changes no list')
    R.rule('retry-refused', 'a retry of a running job answers false')
    for name, r, key in requests(W):
        for o in r.outs:
            running_rule(R, r.E, o, key, name)
    J = term('data')
    r = W.api('AJ', 'update_job', (term('uid'), J, term('uctx')))
    if r:
        for o in r.outs:
            running_rule(R, r.E, o, term('uid'), 'update')


def running_rule(R, E, o, key, name):
    try:
        s = last_read(E, o, key)
        if s is None or s[1] is None:
            return
        if 'Running' not in status_names(E, o.facts, status_term(E, s[1])):
            return
        if opaque_on(o.facts, status_term(E, s[1]), s[1]):
            raise Unclear('condition on the status')
        evs = [e for e in flat(o) if e.kind in ('be.storage_upsert', 'be.queue_push', 'be.queue_remove', 'be.queue_move') and okres(e)]
        loops = [e for e in flat(o) if e.kind == 'loop' and has_effect(e)]
        evs += [e for e in loops if any(contains(x.args, key) for x, f, p in walk([e]) if x is not e and has_effect(x))]
        if loops and not evs:
            raise Unclear('effects inside a loop')
        if evs:
            R.bad('running-untouched', '%s:%s' % (name, evs[0].kind), 'a %s of a running job does %s' % (name, evs[0].kind), o, evs[0])
        else:
            R.ok('running-untouched')
        if name == 'retry':
            v = payload(o.ret) if is_ok(o.ret) else None
            if v == TRUE:
                R.bad('retry-refused', 'retry:true', 'the retry of a running job answers true', o)
            else:
                R.ok('retry-refused')
    except Unclear as x:
        R.unclear('running-untouched', name, x)


def last_read(E, o, key):
    """the read of the job the decision is based on: the last one of the path"""
    out = None
    for e in flat(o):
        if e.kind == 'be.storage_get' and e.args[1] == key and okres(e):
            if e.res == 'none':
                out = (False, None)
            elif e.res[1][0] == 't' and e.res[1][1] == 'stored':
                out = (True, term('job', e.res[1][3], e.res[1][4]))
            else:
                out = (True, record(E, e.res[1]))
    return out


# ---------------------------------------------------------------- C11
def C11(W, R):
    R.rule('cancel-waiting', 'cancelling a waiting job stores it as canceled, takes its id out of the waiting list and succeeds')
    R.rule('cancel-others', 'cancelling a job that is not waiting, or does not exist, changes nothing')
    R.rule('cancel-keeps', 'a canceled record is the stored job with only its status and time stamps changed')
    R.rule('api', 'the public call delivers the id it was given')
    r = W.handler('WorkQueue', 'CancelJob')
    if r:
        E = r.E
        key = id_of_msg(W, E, 'CancelJob')
        got = 0
        for o in r.outs:
            try:
                for s0, m, w in worlds(E, o, key):
                    for k, msg, e in w.problems:
                        R.bad('cancel-waiting', 'cancel:' + k, msg, o, e)
                    if s0 == 'Queued':
                        got += 1
                        if w.status != 'Canceled':
                            R.bad('cancel-waiting', 'cancel:status', 'a waiting job that is cancelled ends %s' % w.status, o)
                        elif w.member['Queued'] or w.member['Running']:
                            R.bad('cancel-waiting', 'cancel:lists', 'a cancelled job still is in a waiting or running list', o)
                        elif not is_ok(o.ret):
                            R.bad('cancel-waiting', 'cancel:ret', 'a successful cancellation answers %s' % show.sv(o.ret), o)
                        else:
                            R.ok('cancel-waiting')
                            rec0 = stored_for(E, o, key)[1]
                            same_content(E, w.rec, rec0, R, 'cancel-keeps', 'cancel', o, w.writes[-1][1])
                    else:
                        if w.writes or w.ops:
                            R.bad('cancel-others', 'cancel:%s' % s0, 'cancelling a job that is %s changes it' % (s0 or 'unknown'), o,
                                  (w.writes[0][1] if w.writes else w.ops[0][2]))
                        else:
                            R.ok('cancel-others')
            except Unclear as x:
                R.unclear('cancel-waiting', 'cancel', x)
        if r.outs and not got:
            R.unclear('cancel-waiting', 'cancel', 'no path for a waiting job')
    delivered(W, R, 'api', 'cancel_job', (term('uid'),), 'CancelJob', term('uid'))


def delivered(W, R, rule, meth, args, msg, key):
    """AJ::<meth> sends <msg> with the id it was given"""
    r = W.api('AJ', meth, args)
    if not r:
        return
    n = 0
    for o in r.outs:
        for e in flat(o):
            if e.kind == 'send' and e.args[1][0] == 'o' and last(e.args[1][1]) == msg:
                n += 1
                v = r.E.field(e.args[1], e.args[1][1], 0, msg_field(W, msg, 'String', 'job_id'))
                if v != key and not murky(v):
                    R.bad(rule, meth + ':id', 'asks for %s instead of the given id' % show.sv(v), o, e)
                else:
                    R.ok(rule)
    if not n and r.outs:
        if any(e.kind == 'send' for o in r.outs for e in flat(o)):
            R.unclear(rule, meth, 'other message')
        else:
            R.bad(rule, meth + ':not-sent', 'the request never reaches the queue', r.outs[0])


# ---------------------------------------------------------------- C12
def C12(W, R):
    R.rule('retry-done', 'retrying a finished, failed or canceled job makes it waiting again (record and list), exactly once, and answers true')
    R.rule('retry-others', 'retrying a waiting, running or unknown job changes nothing and answers false')
    R.rule('retry-keeps', 'the record of a retried job keeps data, id, schedule, retry policy and run count')
    R.rule('api', 'the public call delivers the id it was given and passes the answer on')
    r = W.handler('WorkQueue', 'RetryJob')
    if r:
        E = r.E
        key = id_of_msg(W, E, 'RetryJob')
        for o in r.outs:
            try:
                for s0, m, w in worlds(E, o, key):
                    for k, msg, e in w.problems:
                        R.bad('retry-done', 'retry:' + k, msg, o, e)
                    v = payload(o.ret) if is_ok(o.ret) else None
                    if s0 in DONE:
                        if w.status != 'Queued':
                            R.bad('retry-done', 'retry:%s:status' % s0, 'a %s job that is retried ends %s' % (s0, w.status), o)
                            continue
                        bad = consistent_lists('Queued', w.member)
                        if bad:
                            R.bad('retry-done', 'retry:%s:lists' % s0, 'a %s job that is retried: %s' % (s0, bad), o)
                        elif v != TRUE:
                            R.bad('retry-done', 'retry:%s:answer' % s0, 'a %s job that is retried answers %s' % (s0, show.sv(o.ret)), o)
                        else:
                            R.ok('retry-done')
                            same_content(E, w.rec, stored_for(E, o, key)[1], R, 'retry-keeps', 'retry', o, w.writes[-1][1])
                    else:
                        if w.writes or w.ops:
                            R.bad('retry-others', 'retry:%s' % s0, 'retrying a job that is %s changes it' % (s0 or 'unknown'), o)
                        elif v != FALSE:
                            if v is not None and murky(v):
                                R.unclear('retry-others', 'retry', 'answer')
                            else:
                                R.bad('retry-others', 'retry:%s:answer' % s0, 'retrying a job that is %s answers %s' % (s0 or 'unknown', show.sv(o.ret)), o)
                        else:
                            R.ok('retry-others')
            except Unclear as x:
                R.unclear('retry-done', 'retry', x)
    delivered(W, R, 'api', 'retry_job', (term('uid'),), 'RetryJob', term('uid'))
    r = W.api('AJ', 'retry_job', (term('uid'),))
    if r:
        for o in r.outs:
            reps = [e for e in flat(o) if e.kind == 'reply']
            if reps and is_ok(reps[-1].res) and o.ret != reps[-1].res and not murky(o.ret):
                R.bad('api', 'retry_job:answer', 'answers %s although the queue answered %s' % (show.sv(o.ret), show.sv(reps[-1].res)), o)
            else:
                R.ok('api')


# ---------------------------------------------------------------- C14 (queue side)
def notifications(R, E, evs, where, o, rule_a, rule_b, key_rec=None):
    """evs: events of one straight path"""
    last_rec = {}
    told = set()
    pending = None
    for e in evs:
        if e.kind == 'be.storage_upsert':
            r = record(E, e.args[2])
            if pending is not None:
                R.bad(rule_a, '%s:%s' % (where, pending[1]), 'the change to %s is not announced' % pending[1], o, pending[2])
                pending = None
            told.discard(e.args[1])
            if r is None:
                continue
            s = status_term(E, r)
            if okres(e):
                last_rec[e.args[1]] = s
                if s[0] == 'o':
                    pending = (e.args[1], E.ir.variants(s[1])[s[2]]['name'], e)
            else:
                last_rec.pop(e.args[1], None)
        elif e.kind == 'do_send' and e.args[1][0] == 'o' and last(e.args[1][1]) == 'ChangeStatus':
            m = e.args[1]
            jid, s = E.field(m, m[1], 0, 'job_id'), E.field(m, m[1], 0, 'status')
            if jid not in last_rec:
                if murky(jid):
                    R.unclear(rule_b, where, 'id')
                else:
                    R.bad(rule_b, where + ':unsaved', 'announces a status of %s that was not stored' % show.sv(jid), o, e)
            elif last_rec[jid] != s:
                if murky(s) or murky(last_rec[jid]):
                    R.unclear(rule_b, where, 'status')
                else:
                    R.bad(rule_b, where + ':other', 'announces %s but stored %s' % (show.sv(s), show.sv(last_rec[jid])), o, e)
            else:
                R.ok(rule_b)
            if pending is not None and pending[0] == jid:
                R.ok(rule_a)
                pending = None
            elif jid in told and last_rec.get(jid) == s and not murky(jid):
                R.bad(rule_a, '%s:twice' % where, 'one stored change to %s is announced twice' % show.sv(s), o, e)
            told.add(jid)
    if pending is not None:
        R.bad(rule_a, '%s:%s' % (where, pending[1]), 'the change to %s is not announced' % pending[1], o, pending[2])


# ---------------------------------------------------------------- C22
def C22(W, R):
    R.rule('error-reported', 'on every path of a request on which a backend call, serialization or delivery failed, the answer is an error')
    R.rule('nothing-claimed', 'when the number of running jobs cannot be read, no job is claimed')
    for name, r, key in requests(W, True):
        for o in r.outs:
            failed_rule(R, r.E, o, name)
    for meth, args in (('add_job', (term('submitted'), term('qname'))), ('enqueue_job', (term('submitted'), term('config'), term('qname'))),
                       ('cancel_job', (term('uid'),)), ('retry_job', (term('uid'),)), ('update_job', (term('uid'), term('data'), term('uctx'))),
                       ('update_work_queue', (term('config'),)), ('register_plugin', (term('plugin'),))):
        r = W.api('AJ', meth, args, True)
        if r:
            for o in r.outs:
                failed_rule(R, r.E, o, 'AJ::' + meth)
    r = W.api('Job', 'run', (term('submitted'),), True)
    if r:
        for o in r.outs:
            failed_rule(R, r.E, o, 'Job::run')
    r = W.tick(True)
    if r:
        for o in r.outs:
            bad = None
            for e, f, p in walk(o.nodes()):
                if e.kind == 'be.queue_count' and not okres(e) and r.E.role(e.args[0]) == 'Running':
                    bad = e
                elif bad is not None and e.kind == 'be.queue_move' and r.E.role(e.args[1]) == 'Running':
                    R.bad('nothing-claimed', 'tick', 'jobs are claimed although the number of running jobs is unknown', o, e)
                    break
            else:
                if bad is not None:
                    R.ok('nothing-claimed')


def failed_rule(R, E, o, name):
    msg = ''
    for e in flat(o):
        if e.kind == 'send':
            m = e.args[1]
            msg = last(m[1]) if m[0] == 'o' else ''
        if e.kind in ('do_send', 'try_send') and name.startswith('AJ::') and e.args[1][0] == 'o' and \
                last(e.args[1][1]) in ('Enqueue', 'CancelJob', 'RetryJob', 'UpdateWorkQueue', 'InitWorkQueue', 'RegisterPlugin'):
            if is_ok(o.ret):
                R.bad('error-reported', '%s:unawaited' % name, 'answers %s without waiting for the answer of the queue' % show.sv(o.ret), o, e)
                return
        bad = None
        if e.kind.startswith('be.') and not okres(e):
            bad = e.kind[3:]
        elif e.kind in ('json_err', 'mailbox_error'):
            bad = e.kind
        if bad:
            if is_ok(o.ret):
                R.bad('error-reported', '%s:%s%s' % (name, bad, ' in ' + msg if msg and name.startswith('AJ::') else ''),
                      '%s fails but the answer is %s' % (bad, show.sv(o.ret)), o, e)
            elif is_err(o.ret):
                R.ok('error-reported')
            else:
                R.unclear('error-reported', name, 'answer ' + show.sv(o.ret)[:60])
            return


# ---------------------------------------------------------------- C24
def C24(W, R):
    R.rule('data-replaced', 'updating a job that is not running stores the given data (and context, when given) under the given id')
    R.rule('status-kept', 'a waiting job that is overridden keeps its place: still waiting, in the waiting list once')
    R.rule('skip', 'override and re-run only happen when the submission asks for them')
    R.rule('unknown', 'updating an unknown job stores nothing')
    R.rule('same-id', 'an update never creates or changes a job with another id')
    R.rule('config-delivered', 'a submission is handled with the configuration it was given; one without configuration replaces data and re-runs')
    config_delivered(W, R)
    uid, data, uctx = term('uid'), term('data'), term('uctx')
    r = W.api('AJ', 'update_job', (uid, data, uctx))
    n = 0
    if r:
        E = r.E
        for o in r.outs:
            evs = flat(o)
            gets = [e for e in evs if e.kind == 'be.storage_get']
            ups = [e for e in evs if e.kind == 'be.storage_upsert' and okres(e)]
            for e in evs:
                if e.kind in ('be.storage_upsert', 'be.queue_push', 'be.queue_remove'):
                    if e.args[1] != uid:
                        if murky(e.args[1]):
                            R.unclear('same-id', 'update', 'id')
                        else:
                            R.bad('same-id', 'update:' + e.kind, 'an update acts on %s instead of the given id' % show.sv(e.args[1]), o, e)
                    else:
                        R.ok('same-id')
            if gets and gets[0].args[1] == uid and gets[0].res == 'none':
                if ups:
                    R.bad('unknown', 'update', 'updating an unknown job stores it', o, ups[0])
                else:
                    R.ok('unknown')
                continue
            if not gets:
                continue
            s = last_read(E, o, uid)
            if s is None or not s[0] or s[1] is None:
                continue
            names = status_names(E, o.facts, status_term(E, s[1]))
            if opaque_on(o.facts, status_term(E, s[1]), s[1]):
                R.unclear('data-replaced', 'update', 'condition on the status')
                continue
            if names == {'Running'}:
                continue
            if not is_ok(o.ret):
                continue
            if 'Running' in names and ups:
                continue
            if not ups and opaque(o, s[1]):
                R.unclear('data-replaced', 'update', 'condition')
                continue
            if not ups:
                R.bad('data-replaced', 'update:lost', 'an update of a job that is not running is dropped', o)
                continue
            n += 1
            rec = record(E, ups[-1].args[2])
            if rec is None:
                R.unclear('data-replaced', 'update', 'record')
                continue
            d = fld(E, rec, 'data')
            if d != data:
                if murky(d):
                    R.unclear('data-replaced', 'update', 'data')
                else:
                    R.bad('data-replaced', 'update:data', 'an update stores %s instead of the given data' % show.sv(d), o, ups[-1])
            else:
                R.ok('data-replaced')
            # the context
            if feasible(o.facts, models_isv(E, uctx, 'Some')) is False:
                src = term_ctx_of_first(E, gets[0])
            else:
                src = E.tfield(uctx, 1, '0', models.OPT)
            if src is not None:
                for f in ('job_type', 'retry'):
                    a = fld(E, rec, 'context', f)
                    b = fld(E, src, f)
                    if a != b:
                        if murky(a):
                            R.unclear('data-replaced', 'update', f)
                        else:
                            R.bad('data-replaced', 'update:' + f, 'an update stores %s %s instead of %s' % (f, show.sv(a), show.sv(b)), o, ups[-1])
                    else:
                        R.ok('data-replaced')
        if r.outs and not n:
            R.unclear('data-replaced', 'update', 'no path stores the update')
    r = W.handler('WorkQueue', 'Enqueue')
    if r:
        E = r.E
        job, cfg, key = enqueue_parts(W, E)
        ov, rr = fld(E, cfg, 'override_data'), fld(E, cfg, 're_run')
        for o in r.outs:
            try:
                for s0, m, w in worlds(E, o, key):
                    if s0 in (None, 'Running'):
                        continue
                    fov, frr = fact_bool(o.facts, ov), fact_bool(o.facts, rr)
                    if s0 == 'Queued' or frr is False:
                        # not re-run: the status stays, the data only changes on request
                        if w.status != s0:
                            R.bad('status-kept', 'submit:%s->%s' % (s0, w.status), 'a %s job whose data is overridden ends %s' % (s0, w.status), o)
                        elif w.ops and consistent_lists(s0, w.member):
                            R.bad('status-kept', 'submit:%s:lists' % s0, 'a %s job whose data is overridden is in the wrong lists' % s0, o)
                        elif s0 == 'Queued' and any(op == 'queue_push' for op, role, e in w.ops):
                            R.bad('status-kept', 'submit:place', 'a waiting job that is submitted again loses its place in the waiting list', o, w.ops[-1][2])
                        else:
                            R.ok('status-kept')
                    if fov is None and w.writes and any(k[0] == 'B' and k[1] != ov and contains(k, ov) for k in o.facts):
                        R.unclear('skip', 'submit', 'condition')
                    elif fov is not True and w.writes:
                        d = fld(E, w.rec, 'data')
                        if d == fld(E, job, 'data'):
                            R.bad('skip', 'submit:no-override:%s' % ('rerun' if frr else 'keep'), 'data is overridden although the submission forbids it', o, w.writes[-1][1])
                        else:
                            R.ok('skip')
                    if fov is True:
                        if not w.writes:
                            R.bad('data-replaced', 'submit:%s' % s0, 'the data of a %s job is not overridden although the submission asks for it' % s0, o)
                        elif fld(E, w.rec, 'data') != fld(E, job, 'data') and not murky(fld(E, w.rec, 'data')):
                            R.bad('data-replaced', 'submit:%s:data' % s0, 'a %s job is stored with other data than submitted' % s0, o, w.writes[-1][1])
                        else:
                            R.ok('data-replaced')
                    if s0 in DONE:
                        if frr is True and w.status != 'Queued':
                            R.bad('skip', 'submit:rerun:%s' % s0, 'a %s job is not re-run although the submission asks for it' % s0, o)
                        elif frr is False and w.status == 'Queued':
                            R.bad('skip', 'submit:norerun:%s' % s0, 'a %s job is re-run although the submission forbids it' % s0, o)
                        else:
                            R.ok('skip')
            except Unclear as x:
                R.unclear('status-kept', 'submit', x)


def opaque(o, job):
    return any(k[0] == 'B' and murky(k[1]) for k in o.facts)


def config_delivered(W, R):
    J, cfg = term('submitted'), term('config')
    for name, ty, args, want in (('enqueue_job', 'AJ', (J, cfg, term('qname')), None), ('add_job', 'AJ', (J, term('qname')), (True, True)),
                                 ('run', 'Job', (J,), (True, True))):
        r = W.api(ty, name, args)
        for o in r.outs if r else ():
            for e in flat(o):
                if e.kind == 'send' and e.args[1][0] == 'o' and last(e.args[1][1]) == 'Enqueue':
                    c = r.E.field(e.args[1], e.args[1][1], 0, msg_field(W, 'Enqueue', 'EnqueueConfig', '1'))
                    if want is None:
                        good = c == cfg or all(fld(r.E, c, f) == fld(r.E, cfg, f) for f in ('re_run', 'override_data'))
                    else:
                        good = (fld(r.E, c, 're_run'), fld(r.E, c, 'override_data')) == (('b', want[0]), ('b', want[1]))
                    if good:
                        R.ok('config-delivered')
                    elif murky(c):
                        R.unclear('config-delivered', name, show.sv(c)[:60])
                    else:
                        R.bad('config-delivered', name, '%s submits with configuration %s' % (name, show.sv(c)), o, e)


def term_ctx_of_first(E, e):
    if isinstance(e.res, tuple) and e.res[0] == 'some' and e.res[1][0] == 't' and e.res[1][1] == 'stored':
        return fld(E, term('job', e.res[1][3], e.res[1][4]), 'context')
    return None


def models_isv(E, t, name):
    return E.isv(t, models.OPT, [name])


def fact_bool(facts, t):
    return State_decide(facts, t)


def State_decide(facts, t):
    st = State()
    st.facts = facts
    return st.decide(t)


# ---------------------------------------------------------------- C25
def C25(W, R):
    R.rule('no-effect', 'looking up a job writes no record, changes no list, starts nothing and announces nothing')
    R.rule('faithful', 'a lookup returns the stored job of that id, or nothing when there is none')
    for faults in (False, True):
        r = W.handler('WorkQueue', 'GetJob', faults)
        if r:
            key = id_of_msg(W, r.E, 'GetJob')
            for o in r.outs:
                lookup_rule(R, r.E, o, key, 'lookup', faults)
        r = W.api('AJ', 'get_job', (term('uid'),), faults)
        if r:
            for o in r.outs:
                lookup_rule(R, r.E, o, term('uid'), 'AJ::get_job', faults)
    delivered(W, R, 'faithful', 'get_job', (term('uid'),), 'GetJob', term('uid'))
    for m in ('get_processing_job_ids', 'read_job', 'get_job'):
        try:
            r = W.method('WorkQueue', m)
        except Missing:
            continue
        if r:
            for o in r.outs:
                pure(R, o, 'WorkQueue::' + m)


def pure(R, o, where):
    for e, f, p in walk(o.nodes()):
        if e.kind in ('be.queue_push', 'be.queue_move', 'be.queue_remove', 'be.storage_upsert', 'spawn', 'do_send', 'run_later', 'notify',
                      'actor_start'):
            R.bad('no-effect', where + ':' + e.kind, 'a lookup does %s' % e.kind, o, e)
            return
    R.ok('no-effect')


def lookup_rule(R, E, o, key, where, faults):
    pure(R, o, where)
    if faults:
        return
    v = o.ret
    gets = [e for e in flat(o) if e.kind == 'be.storage_get']
    if not gets:
        return
    e = gets[-1]
    if e.args[1] != key:
        if not murky(e.args[1]):
            R.bad('faithful', where + ':key', 'looks up %s instead of the given id' % show.sv(e.args[1]), o, e)
        return
    isnone = v[0] == 'o' and last(v[1]) == 'Option' and v[2] == 0
    if e.res == 'none':
        if not isnone and not murky(v):
            R.bad('faithful', where + ':invented', 'returns %s for an unknown id' % show.sv(v), o, e)
        else:
            R.ok('faithful')
        return
    s = last_read(E, o, key)
    if isnone:
        R.bad('faithful', where + ':hidden', 'returns nothing for a stored job', o, e)
    elif v[0] == 'o' and payload(v) == s[1]:
        R.ok('faithful')
    elif murky(v):
        R.unclear('faithful', where, 'value')
    else:
        R.bad('faithful', where + ':altered', 'returns %s instead of the stored job' % show.sv(v), o, e)


# ---------------------------------------------------------------- C26
def C26(W, R):
    R.rule('own-lists', 'every list a queue works on carries the name of that queue and of one status')
    R.rule('name-kept', 'a queue is started under the name it was asked for')
    R.rule('own-records', 'the records of different job types cannot collide')
    names = list_names(W)
    for role, ns in names.items():
        for a in ns:
            own = any(isinstance(x, tuple) and len(x) > 1 and contains_actor_name(x) for x in (a[1] if a[0] == 's' else (a,)))
            if own and not name_fields(unaltered(a)):
                R.bad('own-lists', role + ':altered', 'the %s list %s carries the name of the queue altered: queues of different names share it' % (role, show.sv(a)))
            elif own:
                R.ok('own-lists')
            elif murky(a):
                R.unclear('own-lists', role, 'name of the list')
            else:
                R.bad('own-lists', role, 'the %s list %s does not carry the name of the queue' % (role, show.sv(a)))
    allnames = [n for ns in names.values() for n in ns]
    for i, a in enumerate(allnames):
        for b in allnames[:i]:
            if a == b:
                R.bad('own-lists', 'collision', 'two statuses share the list %s' % show.sv(a))
    # the name reaches the queue
    J = term('submitted')
    r = W.api('AJ', 'enqueue_job', (J, term('config'), term('qname')))
    if r:
        for o in r.outs:
            for e in flat(o):
                if e.kind == 'actor_start' and 'WorkQueue' in str(e.args[0]):
                    cl = e.args[1]
                    vals = [x for _, x in cl[3]] if cl[0] == 'o' else []
                    if any(x == term('qname') for x in vals):
                        R.ok('name-kept')
                    elif murky(cl) and not cut(cl, term('qname')) and (contains(cl, term('qname')) or hidden(cl)):
                        R.unclear('name-kept', 'start', 'closure')
                    else:
                        R.bad('name-kept', 'start', 'the queue is started with %s' % show.sv(cl), o, e)
    queue_named(W, R)
    own_name(W, R)
    # records
    seen = set()
    for name, r, key in requests(W):
        for o in r.outs:
            for e in flat(o):
                if e.kind in ('be.storage_upsert', 'be.storage_get'):
                    h, k = e.args[0], e.args[1]
                    seen.add(h)
    for h in seen:
        if not contains_actor_name(h) and not murky(h):
            R.bad('own-records', 'hash ' + show.sv(h), 'all job types store their records in %s under the bare job id: two types using the same id overwrite each other' % show.sv(h))
        else:
            R.ok('own-records')
    if len(seen) > 1:
        R.bad('own-records', 'several', 'records are written to and read from different places: %s' % ', '.join(sorted(show.sv(h) for h in seen)))


def own_name(W, R):
    """a job asks for the queue named after its type"""
    J = term('submitted')
    for name, kind in (('run', 'send'), ('just_run', 'do_send')):
        r = W.api('Job', name, (J,))
        for o in r.outs if r else ():
            for e in flat(o):
                if e.kind != kind or e.args[1][0] != 'o' or last(e.args[1][1]) not in ('InitWorkQueue', 'JustRunJob'):
                    continue
                m = e.args[1]
                v = r.E.field(m, m[1], 0, msg_field(W, last(m[1]), 'String', 'queue_name'))
                if v[:2] == ('t', 'queue_name'):
                    R.ok('name-kept')
                elif murky(v) and not fixed_name(v):
                    R.unclear('name-kept', name, show.sv(v)[:60])
                else:
                    R.bad('name-kept', name, '%s asks for a queue named %s, not for the one of its job type' % (name, show.sv(v)), o, e)
    r = W.handler('AJ', 'JustRunJob')
    for o in r.outs if r else ():
        want = r.E.tfield(term('msg', 'JustRunJob'), None, msg_field(W, 'JustRunJob', 'String', 'queue_name'))
        for e in flat(o):
            if e.kind != 'spawn':
                continue
            E = W.engine()
            st = o.st.copy()
            st.trace = None
            try:
                outs = [Outcome('return', E.resolve(s, v), s) for v, s in models.run_future(E, st, e.args[0])]
            except Budget:
                continue
            for p in outs:
                for e2 in flat(p):
                    if e2.kind == 'send' and e2.args[1][0] == 'o' and last(e2.args[1][1]) == 'InitWorkQueue':
                        v = E.field(e2.args[1], e2.args[1][1], 0, msg_field(W, 'InitWorkQueue', 'String', 'queue_name'))
                        if v == want:
                            R.ok('name-kept')
                        elif murky(v):
                            R.unclear('name-kept', 'just_run', show.sv(v)[:60])
                        else:
                            R.bad('name-kept', 'JustRunJob', 'a fire-and-forget job asks for a queue named %s' % show.sv(v), p, e2)


def fixed_name(v):
    """made of the name of the Rust type only"""
    return any(len(x) > 2 and x[:2] == ('t', 'call') and 'type_name' in str(x[2]) for x in iter_terms(v))


def name_fields(v):
    """fields of the queue (other than its configuration) a value is made of"""
    out = set()
    for x in iter_terms(v):
        if len(x) > 3 and x[0] == 't' and x[1] == 'fld' and isinstance(x[2], tuple) and x[2][:3] == ('t', 'actor', 'WorkQueue') \
                and x[3] not in ('config', 'backend'):
            out.add(x[3])
    return out


def unaltered(v):
    """the value without the parts that went through a text function which forgets something"""
    if isinstance(v, tuple):
        if v[:2] == ('t', 'strfn'):
            return ()
        return tuple(unaltered(x) for x in v)
    return v


LOSSY = {'take', 'skip', 'filter', 'split', 'rsplit', 'split_once', 'rsplit_once', 'splitn', 'rsplitn', 'nth', 'take_while', 'skip_while', 'step_by',
         'replace', 'replacen', 'truncate', 'split_whitespace', 'trim_matches', 'strip_prefix', 'strip_suffix', 'trim_start_matches', 'trim_end_matches'}


def cut(v, name):
    """the name only occurs below a function that forgets parts of it"""
    if v == name or not isinstance(v, tuple):
        return False
    if len(v) > 3 and v[:2] == ('t', 'call') and str(v[2]).split('::')[-1] in LOSSY and contains(v, name):
        return True
    if len(v) > 2 and v[0] == 't' and v[1] in LOSSY and contains(v, name):
        return True
    return any(cut(x, name) for x in v)


def contains_actor_name(v):
    return bool(name_fields(v))


def queue_named(W, R):
    """the queue built for a name has that name"""
    try:
        r = W.api('WorkQueue', 'new', (term('qname'), term('backend')))
    except Missing:
        return
    if r:
        for o in r.outs:
            fs = {f for ns in list_names(W).values() for n in ns for f in name_fields(n)}
            v = fld(r.E, o.ret, sorted(fs)[0]) if o.ret[0] == 'o' and len(fs) == 1 else None
            if v == term('qname'):
                R.ok('name-kept')
            elif v is not None and (not murky(v) or cut(v, term('qname'))):
                R.bad('name-kept', 'new', 'a queue asked for under a name is called %s' % show.sv(v), o)
