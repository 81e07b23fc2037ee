"""Readable rendering of abstract values, events and traces."""
from .ir import last


def sv(v, d=0):
    if not isinstance(v, tuple):
        return str(v)
    if d > 6:
        return '…'
    k = v[0] if v else ''
    if k == 'i':
        out = []
        for t, c in v[2]:
            s = sv(t, d + 1)
            out.append(('+' if c > 0 else '-') + ('' if abs(c) == 1 else str(abs(c)) + '*') + s)
        r = ''.join(out)
        if v[1] or not r:
            r += ('+' if v[1] >= 0 and r else '') + str(v[1])
        return r.lstrip('+')
    if k == 'b':
        return str(v[1]).lower()
    if k == 's':
        return '"' + ''.join(p if isinstance(p, str) else '{' + sv(p, d + 1) + '}' for p in v[1]) + '"'
    if k == 'o':
        fs = ','.join('%s:%s' % (n, sv(x, d + 1)) for n, x in v[3])
        nm = last(v[1])
        if nm == 'Option':
            return 'None' if v[2] == 0 else 'Some(%s)' % fs[2:]
        if nm == 'Result':
            return ('Ok' if v[2] == 0 else 'Err') + '(%s)' % fs[2:]
        b = (' ..' + sv(v[4], d + 1)) if v[4] is not None else ''
        return '%s%s{%s%s}' % (nm, '#%d' % v[2] if v[2] else '', fs, b)
    if k == 'r':
        return '&' + str(v[1])[:40] + ''.join('.' + str(s[-1]) for s in v[2])
    if k == 'vec':
        return '[len %s; %s]' % (sv(v[1], d + 1), sv(v[2], d + 1))
    if k == 't':
        if v[1] == 'fld':
            return sv(v[2], d + 1) + '.' + v[3]
        if v[1] == 'vf':
            return '%s@%s.%s' % (sv(v[2], d + 1), v[3], v[4])
        if v[1] == 'phi':
            return 'phi%d.%s' % (v[2][3], '.'.join(str(x[-1]) if isinstance(x, tuple) else str(x) for x in v[3]))
        if v[1] in ('queue_get', 'queue_move'):
            return '%s#%s' % (v[1], v[-1])
        return v[1] + '(' + ','.join(sv(x, d + 1) for x in v[2:]) + ')'
    if k == 'p':
        if v[1] == 'le0':
            return sv(v[2], d + 1) + '<=0'
        if v[1] == 'eq0':
            return sv(v[2], d + 1) + '==0'
        if v[1] == 'not':
            return '!(' + sv(v[2], d + 1) + ')'
        if v[1] == 'isv':
            return sv(v[2], d + 1) + ' is ' + str(sorted(v[4]))
        return v[1] + '(' + ','.join(sv(x, d + 1) for x in v[2:]) + ')'
    return '(' + ','.join(sv(x, d + 1) for x in v) + ')'


def sf(k, v):
    if k[0] == 'L':
        e = '+'.join(('' if c == 1 else '%d*' % c) + sv(t) for t, c in k[1])
        return '%s<=%s<=%s' % ('' if v[0] is None else v[0], e, '' if v[1] is None else v[1])
    if k[0] == 'V':
        return '%s in %s' % (sv(k[1]), sorted(v))
    return '%s%s' % ('' if v else '!', sv(k[1]) if k[0] == 'B' else str(k)[:80])


def facts(f):
    return [sf(k, v) for k, v in f.items() if k[0] != 'N']


def ev(e, ind=''):
    if e.kind == 'loop':
        li = e.args[1]
        out = [ind + 'loop %s phis=%s' % (e.args[0][1].rsplit('::', 2)[-1], {sv(k): sv(x) for k, x in li.phis.items()})]
        for i, (evs, f, dl) in enumerate(li.segs):
            out.append(ind + '  iteration %d: deltas %s' % (i, {sv(k): sv(x) for k, x in dl.items()}))
            for x in evs:
                out.append(ev(x[0], ind + '    '))
        return '\n'.join(out)
    return ind + '%s(%s)%s' % (e.kind, ', '.join(sv(a) for a in e.args), '' if e.res is None else ' -> ' + sv(e.res))


def outcome(o, withfacts=True):
    out = ['== %s %s' % (o.kind, o.msg if o.kind == 'panic' else sv(o.ret))]
    if withfacts:
        out.append('   facts: ' + '; '.join(facts(o.st.facts)))
    for n in o.nodes():
        out.append(ev(n[1], '   '))
    return '\n'.join(out)
