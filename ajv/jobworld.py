"""Effects of an entry point on an arbitrary job: its record and the status lists its id is in."""
from .world import *


class Unclear(Exception):
    pass


class JW:
    def __init__(self, status, rec, member):
        self.status, self.rec, self.member = status, rec, dict(member)
        self.writes = []       # (record value, event)
        self.ops = []          # (op, role, event)
        self.problems = []

    def lists(self):
        return {r: n for r, n in self.member.items() if n}


def initial(status):
    """the consistent memberships of a job with this status"""
    m = {s: 0 for s in STATUSES}
    if status is None:
        return [m]
    if status == 'Canceled':
        return [m, dict(m, Canceled=1)]
    return [dict(m, **{status: 1})]


def consistent_lists(status, m):
    """None if the id is exactly where its status says, else what is wrong"""
    want = {s: 0 for s in STATUSES}
    if status is not None and status != 'Canceled':
        want[status] = 1
    for s in STATUSES:
        if s == 'Canceled' and status == 'Canceled':
            if m[s] > 1:
                return '%d copies in the Canceled list' % m[s]
            continue
        if m[s] != want[s]:
            return '%d copies in the %s list instead of %d' % (m[s], s, want[s])
    return None


def stored_for(E, o, key):
    """(found?, record term) of the job with this id as the path read it; None if it never read it"""
    for e in flat(o):
        if e.kind == 'be.storage_get' and e.args[1] == key and okres(e):
            if e.res == 'none':
                return (False, None)
            if isinstance(e.res, tuple) and e.res[0] == 'some':
                x = e.res[1]
                if x[0] == 't' and x[1] == 'stored':
                    return (True, term('job', x[3], x[4]))
                r = record(E, x)
                return (True, r)
    return None


def start_statuses(E, o, key):
    """statuses the job may have had when this path was taken (None = no such job)"""
    s = stored_for(E, o, key)
    if s is None:
        return [None] + list(STATUSES), None
    if not s[0]:
        return [None], None
    if s[1] is None:
        raise Unclear('record is not decoded')
    names = status_names(E, o.facts, status_term(E, s[1]))
    if opaque_on(o.facts, status_term(E, s[1]), s[1]):
        raise Unclear('condition on the status')
    return sorted(names), s[1]


def simulate(E, o, key, s0, member, rec0=None, strict=True):
    w = JW(s0, rec0, member)
    env = {}
    if rec0 is not None and s0 is not None:
        env[status_term(E, rec0)] = s0
    for e in flat(o):
        if e.kind == 'loop':
            if has_effect(e):
                raise Unclear('effects inside a loop')
            continue
        if not e.kind.startswith('be.') or not okres(e):
            continue
        m = e.kind[3:]
        if m == 'storage_upsert':
            if e.args[1] != key:
                if murky(e.args[1]) or murky(key):
                    raise Unclear('record key')
                w.problems.append(('other-record', 'writes a record under another key', e))
                continue
            r = record(E, e.args[2])
            if r is None:
                if murky(e.args[2]):
                    raise Unclear('stored value')
                w.problems.append(('not-a-record', 'stores something that is not the job', e))
                continue
            w.rec = r
            ns = status_names(E, o.facts, status_term(E, r), env)
            if murky(status_term(E, r)):
                raise Unclear('stored status')
            w.writes.append((r, e, ns))
            w.status = next(iter(ns)) if len(ns) == 1 else ns
            if len(ns) > 1:
                w.problems.append(('any-status', 'stores a status that is not determined by the job: ' + show.sv(status_term(E, r)), e))
                w.status = None
        elif m in ('queue_push', 'queue_remove'):
            role = E.role(e.args[0])
            if role is None:
                if murky(e.args[0]):
                    raise Unclear('list name')
                w.problems.append(('unknown-list', '%s on a list that stands for no status: %s' % (m, show.sv(e.args[0])), e))
                continue
            if e.args[1] != key:
                if murky(e.args[1]) or murky(key):
                    raise Unclear('list item')
                w.problems.append(('other-id', '%s of another id (%s)' % (m, show.sv(e.args[1])), e))
                continue
            w.ops.append((m, role, e))
            if m == 'queue_push':
                w.member[role] += 1
            else:
                w.member[role] = 0
        elif m == 'queue_move':
            a, b = E.role(e.args[0]), E.role(e.args[1])
            if e.args[0] == e.args[1]:
                continue      # a rotation
            if a is None or b is None or any(x.kind == 'be.queue_get' and x.args[0] == e.args[0] for x in flat(o)):
                raise Unclear('positional move')
            w.problems.append(('positional', 'moves what is at the end of the %s list, which need not be this job' % a, e))
    return w


def worlds(E, o, key, rec=None, only=None):
    """all (start status, membership, resulting world) of a path"""
    if rec is None:
        ss, rec = start_statuses(E, o, key)
    else:
        ss = sorted(status_names(E, o.facts, status_term(E, rec)))
    for s0 in ss:
        if only is not None and s0 not in only:
            continue
        for m in initial(s0):
            yield s0, m, simulate(E, o, key, s0, m, rec)
