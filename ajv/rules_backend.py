"""The two back ends against the list and storage contract: C15, C16, C17."""
from .world import *
from .rules_queue import is_ok, is_err, payload
from . import models
from .models import some, NONE

ARGS = {'queue_push': ('q', 'item'), 'queue_move': ('fq', 'tq', 'count', 'fd', 'td'), 'queue_remove': ('q', 'item'),
        'queue_get': ('q', 'count', 'dir'), 'queue_count': ('q',), 'storage_upsert': ('h', 'k', 'v'), 'storage_get': ('h', 'k')}
A = {n: term('a_' + n) for xs in ARGS.values() for n in xs}
LIST_OPS = ('queue_push', 'queue_move', 'queue_remove', 'queue_get', 'queue_count')
UNSIGNED.add(A['count'])


def run(W, ty, m, faults=False, **opts):
    def f():
        bs = W.ir.find_impl('Backend', entry.adt(W.ir, ty), None, m)
        if len(bs) != 1:
            raise Missing('impl Backend for %s: %s' % (ty, m))
        E = W.engine(faults=faults, opts=opts)
        return entry.run_body('%s::%s' % (ty, m), E, bs[0], [entry.ref(term('mem'), 'self')] + [A[x] for x in ARGS[m]])
    return W.memo(('backend', ty, m, faults, tuple(sorted(opts.items()))), f)


def seqitems(v):
    """items of an explicit sequence"""
    if v[0] == 'vec' and v[2][:1] == ('seq',):
        return list(v[2][1:])
    return None


def peel(W):
    n = 3 if getattr(W, 'tier', 'quick') == 'thorough' else 2
    return dict(unroll=n, iterations=2 * n)


def direction(facts, t):
    """'front'/'back' of a direction argument on a path, None when the path holds for both"""
    v = facts.get(('V', t))
    if v is None or len(v) != 1:
        return None
    return ('front', 'back')[next(iter(v))]


def le(a, b):
    return le0(add(a, b, -1))


def lt(a, b):
    return le0(add(add(a, b, -1), const(1)))


def can(facts, *preds):
    return consistent(facts, list(preds))


# ---------------------------------------------------------------- in-memory contents
class Final:
    """lists and tables at the end of a path, relative to those at its start"""

    def __init__(self, E, o):
        self.E, self.o = E, o
        self.ev = [e for e in flat(o)]
        self.roots = set()
        self.keys = set()
        self.had = {}            # (map, key) -> was it there at the start
        self.loops = any(e.kind == 'loop' for e in self.ev)
        self.other = [e for e in self.ev if e.kind == 'm.other']
        for e in self.ev:
            if e.kind in ('m.insert', 'm.remove', 'm.entry') and (e.args[0], e.args[1]) not in self.had and isinstance(e.res, bool):
                self.had[(e.args[0], e.args[1])] = e.res
            if e.kind in ('m.get', 'm.get_mut', 'm.contains', 'm.entry', 'm.insert', 'm.remove'):
                mid = e.args[0]
                if mid[:2] == ('t', 'm'):
                    self.keys.add(mid[3])
                    self.roots.add(mid[2])
                elif mid[:2] != ('t', 'map'):
                    self.keys.add(e.args[1])
                    self.roots.add(mid)
            elif e.kind.startswith('q.') and e.args and e.args[0][:2] == ('t', 'q'):
                self.keys.add(e.args[0][3])
                self.roots.add(e.args[0][2])

    def present(self, mid, key):
        """was the key there at the start (None: both)"""
        if (mid, key) in self.had:
            return self.had[(mid, key)]
        return self.o.facts.get(('B', term('has', mid, key)))

    def now(self, mid, key):
        """is the key there at the end"""
        return self.o.facts.get(('B', term('has', mid, key)))

    def cell(self, mid, key):
        v = self.o.st.cells.get(('ent', mid, key))
        return None if v is None else self.E.resolve(self.o.st, v)

    def start(self, root, key):
        """segments of the list at the start"""
        if self.present(root, key) is False:
            return []
        q = term('q', root, key)
        return [('sl', q, const(0), qlen(q), False)]

    def end(self, root, key):
        """segments of the list at the end, None when not known"""
        if self.now(root, key) is False:
            return []
        v = self.cell(root, key)
        if v is None:
            return self.start(root, key)
        return segments(self.E, v)

    def touched(self, root, key):
        return self.cell(root, key) is not None or (root, key) in self.had


def qlen(q):
    t = term('qlen', q)
    UNSIGNED.add(t)
    return t


def segments(E, v):
    """a list value as segments: ('it', item) or ('sl', base, lo, hi, reversed)"""
    if v[0] == 'o' and v[1] == '#queue':
        q = models.Q(E, v)
        if q.mode != lit(''):
            return None
        a, b = content(q.pre[2]), content(q.post[2])
        if a is None or b is None:
            return None
        return a + [('sl', q.id, q.lo, q.hi, False)] + b
    if v[0] == 'vec':
        return content(v[2])
    return None


def content(c):
    if c[:1] == ('seq',):
        return [('it', x) for x in c[1:]]
    if models.is_slice(c):
        return [('sl', c[2], c[3], c[4], c[5] == TRUE)]
    if c[:2] == ('t', 'concat'):
        out = []
        for x in c[2:]:
            y = content(x)
            if y is None:
                return None
            out += y
        return out
    return None


def seglen(segs):
    n = const(0)
    for x in segs:
        n = add(n, const(1) if x[0] == 'it' else add(x[3], x[2], -1))
    return n


def front(x):
    return term('qitem', x[1], add(x[3], const(-1)) if x[4] else x[2])


def rest(x):
    if x[4]:
        return ('sl', x[1], x[2], add(x[3], const(-1)), True)
    return ('sl', x[1], add(x[2], const(1)), x[3], False)


def reverse(segs):
    return [x if x[0] == 'it' else x[:4] + (not x[4],) for x in reversed(segs)]


def differ(facts, a, b, depth=8):
    """None when the two segment lists are equal in every case, else (how, facts) of a case where they are not,
    ('?', facts) when that is not decided"""
    if not can(facts):
        return None
    a, b = list(a), list(b)
    # drop what is certainly empty or equal
    while True:
        a = [x for x in a if x[0] == 'it' or can(facts, lt(x[2], x[3]))]
        b = [x for x in b if x[0] == 'it' or can(facts, lt(x[2], x[3]))]
        if a and b and a[0] == b[0]:
            a, b = a[1:], b[1:]
            continue
        if a and b and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
            continue
        break
    if not a and not b:
        return None
    if depth <= 0:
        return ('?', facts)
    for x in a + b:
        if x[0] == 'it' and murky(x[1]):
            return ('?', facts)
    if not a or not b:
        x = (a or b)[0]
        if x[0] == 'it':
            return ('length', facts)
        f = with_facts(facts, lt(x[2], x[3]))
        return ('length', f if f is not None else facts)
    x, y = a[0], b[0]
    for z in (x, y):
        if z[0] == 'sl' and can(facts, le(z[3], z[2])):
            # empty in some case: look at both
            f0, f1 = with_facts(facts, le(z[3], z[2])), with_facts(facts, lt(z[2], z[3]))
            for f in (f0, f1):
                if f is not None:
                    r = differ(f, a, b, depth - 1)
                    if r:
                        return r
            return None
    hx = x[1] if x[0] == 'it' else front(x)
    hy = y[1] if y[0] == 'it' else front(y)
    if hx != hy:
        d = differ_items(facts, hx, hy)
        if d is not False:
            return d
    # equal heads: two slices running the same way shrink by the shorter one
    if x[0] == 'sl' and y[0] == 'sl' and x[1] == y[1] and x[4] == y[4]:
        i = 2 if x[4] else 3
        for f, p in ((with_facts(facts, le(x[3], y[3]) if not x[4] else le(y[2], x[2])), 'x'),
                     (with_facts(facts, lt(y[3], x[3]) if not x[4] else lt(x[2], y[2])), 'y')):
            if f is None:
                continue
            if p == 'x':
                left = ('sl', y[1], y[2], x[2], True) if x[4] else ('sl', y[1], x[3], y[3], False)
                r = differ(f, a[1:], [left] + b[1:], depth - 1)
            else:
                left = ('sl', x[1], x[2], y[2], True) if x[4] else ('sl', x[1], y[3], x[3], False)
                r = differ(f, [left] + a[1:], b[1:], depth - 1)
            if r:
                return r
        return None
    a = a[1:] if x[0] == 'it' else [rest(x)] + a[1:]
    b = b[1:] if y[0] == 'it' else [rest(y)] + b[1:]
    return differ(facts, a, b, depth - 1)


def differ_items(facts, x, y):
    """False when two items are the same, else a case where they differ"""
    if x == y:
        return False
    if murky(x) or murky(y):
        return ('?', facts)
    if x[:2] == ('t', 'qitem') and y[:2] == ('t', 'qitem') and x[2] == y[2]:
        for p in (lt(x[3], y[3]), lt(y[3], x[3])):
            if can(facts, p):
                return ('item', with_facts(facts, p) or facts)
        return False
    return ('item', facts)


def with_facts(facts, p):
    s = State()
    s.facts = dict(facts)
    return s.facts if s.assume(p) else None


def names(segs):
    if segs is None:
        return 'unknown'
    out = []
    for x in segs:
        out.append(show.sv(x[1]) if x[0] == 'it' else '%s%s[%s..%s]' % ('rev ' if x[4] else '', show.sv(x[1]), show.sv(x[2]), show.sv(x[3])))
    return ' ++ '.join(out) or 'nothing'


def judge(R, rule, w, what, o, have, want):
    """alarm when a list is not what it has to be; True when it is"""
    if have is None:
        R.unclear(rule, w, what)
        return False
    d = differ(o.facts, have, want)
    if d is None:
        return True
    if d[0] == '?':
        R.unclear(rule, w, what)
    else:
        R.bad(rule, '%s:%s' % (w, what), '%s: %s is %s instead of %s' % (w, what, names(have), names(want)), o)
    return False


def C15(W, R):
    R.rule('push', 'a push adds the item once at the front of its list (or makes it the only item of a new list) and changes nothing else')
    R.rule('move', 'a move takes items from the asked end of the source until the asked number is taken or it is empty, puts exactly these, in order, at the asked end of the target, and returns them')
    R.rule('remove', 'a removal keeps exactly the items that differ from the given one, in order')
    R.rule('get', 'a read returns the items from the asked end in order, as many as asked and available, and changes nothing')
    R.rule('count', 'a count is the length of the list, 0 when there is none')
    R.rule('upsert', 'a write sets exactly the given key of the given table, keeping all else')
    R.rule('read', 'a storage read returns the value of exactly that key of that table, or nothing, and changes nothing')
    R.rule('own', 'no operation touches another list or table, and all list (storage) operations work on the same lists (tables)')
    roots = {}
    for m in ARGS:
        r = run(W, 'InMemory', m, **peel(W))
        if not r:
            R.unclear('own', m, 'too many paths')
            continue
        own = [A[x] for x in ARGS[m] if x in ('q', 'fq', 'tq', 'h')]
        for o in r.outs:
            if not can(o.facts):
                continue
            F = Final(r.E, o)
            bad = [k for k in F.keys if k not in own and not murky(k)]
            if bad:
                R.bad('own', m + ':other', '%s also touches %s' % (m, ', '.join(show.sv(k) for k in bad)), o)
            else:
                R.ok('own')
            for x in F.roots:
                roots.setdefault(m, set()).add(x)
            if is_err(o.ret) and not murky(o.ret):
                R.bad(RULE_OF[m], m + ':error', '%s answers an error' % m, o)
                continue
            if not is_ok(o.ret):
                R.unclear(RULE_OF[m], m, show.sv(o.ret)[:80])
                continue
            wiped = [e for e in F.other if e.args[1] == 'clear' and e.args[0][:2] != ('t', 'map') and not murky(e.args[0])]
            if wiped:
                R.bad(RULE_OF[m], m + ':cleared', '%s drops everything in %s' % (m, show.sv(wiped[0].args[0])), o, wiped[0])
                continue
            if F.loops or F.other:
                R.unclear(RULE_OF[m], m, 'loops' if F.loops else F.other[0].args[1])
                continue
            if len(F.roots) != 1:
                if not F.roots and not r.E.stats['unmodelled']:
                    if m == 'queue_move' and not can(o.facts, lt(const(0), A['count'])) or m == 'queue_get' and not can(o.facts, lt(const(0), A['count'])):
                        R.ok(RULE_OF[m])
                        continue
                    R.bad(RULE_OF[m], m + ':nothing', '%s does not look at the data' % m, o)
                else:
                    R.unclear(RULE_OF[m], m, 'which data')
                continue
            globals()['mem_' + m](R, r.E, o, F, next(iter(F.roots)))
        # all iterations: the same lists, whatever the counts
        r = run(W, 'InMemory', m)
        for o in r.outs if r else ():
            for e, f, p in walk(o.nodes()):
                if e.kind.startswith('q.') and e.args and e.args[0][:2] == ('t', 'q'):
                    if e.args[0][3] in own:
                        R.ok('own')
                    elif not murky(e.args[0][3]):
                        R.bad('own', m + ':list', '%s works on the list %s' % (m, show.sv(e.args[0][3])), o, e)
    for group in (LIST_OPS, ('storage_upsert', 'storage_get')):
        seen = {x for m in group for x in roots.get(m, ())}
        if len(seen) > 1 and not any(murky(x) for x in seen):
            R.bad('own', 'roots:' + group[0], 'the operations work on different data: %s' % ', '.join(sorted(show.sv(x) for x in seen)))
        elif seen:
            R.ok('own')
    trip_counts(W, R)


RULE_OF = {'queue_push': 'push', 'queue_move': 'move', 'queue_remove': 'remove', 'queue_get': 'get', 'queue_count': 'count',
           'storage_upsert': 'upsert', 'storage_get': 'read'}


def trip_counts(W, R, ty='InMemory'):
    """loops over a range do not stop at a fixed number of items, however many are asked"""
    for m in ('queue_move', 'queue_get'):
        r = run(W, ty, m, ranges=True)
        for o in r.outs if r else ():
            for e in flat(o):
                if e.kind == 'range.end' and is_const(e.args[0]) and e.args[0][1] > 0:
                    if can(o.facts, lt(e.args[0], A['count'])):
                        R.bad(RULE_OF[m], m + ':limit', '%s handles at most %s items, however many are asked' % (m, show.sv(e.args[0])), o, e)
                elif e.kind == 'range.end':
                    R.ok(RULE_OF[m])


def mem_queue_push(R, E, o, F, root):
    want = [('it', A['item'])] + F.start(root, A['q'])
    if judge(R, 'push', 'queue_push', 'the list', o, F.end(root, A['q']), want):
        R.ok('push')


def mem_queue_move(R, E, o, F, root):
    w = 'queue_move'
    answer = segments(E, payload(o.ret))
    if answer is None:
        R.unclear('move', w, 'answer')
        return
    src, dst = F.start(root, A['fq']), F.start(root, A['tq'])
    n = seglen(answer)
    total = seglen(src)
    # how many: min(count, length)
    if can(o.facts, lt(A['count'], n)):
        R.bad('move', w + ':too-many', 'a move moves %s items although fewer are asked' % show.sv(n), o)
        return
    if can(o.facts, lt(n, A['count']), lt(n, total)):
        R.bad('move', w + ':too-few', 'a move moves %s items although more are asked and available' % show.sv(n), o)
        return
    if can(o.facts, lt(total, n)):
        R.bad('move', w + ':made-up', 'a move returns more items than the source has', o)
        return
    fd, td = direction(o.facts, A['fd']), direction(o.facts, A['td'])
    good = True
    for f in ('front', 'back') if fd is None else (fd,):
        taken, left = [], []
        if src:
            q, ln = src[0][1], src[0][3]
            if f == 'front':
                taken, left = [('sl', q, const(0), n, False)], [('sl', q, n, ln, False)]
            else:
                taken, left = [('sl', q, add(ln, n, -1), ln, True)], [('sl', q, const(0), add(ln, n, -1), False)]
        good &= judge(R, 'move', w, 'the answer (%s)' % f, o, answer, taken)
        good &= judge(R, 'move', w, 'the source (%s)' % f, o, F.end(root, A['fq']), left)
        for t in ('front', 'back') if td is None else (td,):
            want = reverse(taken) + dst if t == 'front' else dst + taken
            good &= judge(R, 'move', w, 'the target (%s to %s)' % (f, t), o, F.end(root, A['tq']), want)
    if good:
        R.ok('move')


def mem_queue_remove(R, E, o, F, root):
    w = 'queue_remove'
    start, end = F.start(root, A['q']), F.end(root, A['q'])
    v = F.cell(root, A['q'])
    if not start or (v is None and F.now(root, A['q']) is not True):
        # no such list
        if judge(R, 'remove', w, 'a missing list', o, end, []):
            R.ok('remove')
        return
    retains = [e for e in F.ev if e.kind == 'q.retain']
    if v is not None and v[0] == 'o' and v[1] == '#queue' and models.Q(E, v).mode == lit('retained') and len(retains) == 1:
        e = retains[0]
        kept(R, o, e.args[1], e.args[2], e)
        return
    if v is not None and v[0] == 'vec' and v[2][:2] == ('t', 'filter'):
        c = v[2]
        if c[2] == models.slice_(term('q', root, A['q']), const(0), qlen(term('q', root, A['q'])), FALSE):
            kept(R, o, c[3], c[4], None)
        else:
            R.unclear('remove', w, 'filter')
        return
    swapped = [e for e in F.ev if e.kind == 'q.removeat' and e.args[2] != 'remove']
    if swapped:
        R.bad('remove', w + ':order', 'a removal reorders the list (%s)' % swapped[0].args[2], o, swapped[0])
        return
    searches = [e for e in F.ev if e.kind == 'q.search']
    removed = [e for e in F.ev if e.kind == 'q.removeat']
    if searches and all(equality(e.args[2], term('anyitem', e.args[0])) for e in searches):
        lastev = [e for e in F.ev if e.kind in ('q.search', 'q.removeat')][-1]
        if lastev.kind == 'q.search' and lastev.res is None:
            if len([e for e in searches if e.res is not None]) == len(removed):
                R.ok('remove')          # every copy that was found is gone, and there is no other
            else:
                R.unclear('remove', w, 'search')
            return
        if lastev.kind == 'q.removeat' and not F.loops and len(removed) == 1:
            R.bad('remove', w + ':one', 'at most one copy of the item is removed', o, lastev)
            return
        R.unclear('remove', w, 'search')
        return
    if removed or retains or searches or E.stats['unmodelled']:
        R.unclear('remove', w, 'removal')
        return
    if end is None:
        R.unclear('remove', w, 'the list')
        return
    if not can(o.facts, lt(const(0), seglen(start))):
        if judge(R, 'remove', w, 'the list', o, end, []):
            R.ok('remove')
        return
    d = differ(o.facts, end, start)
    if d is None:
        if any(str(k).find('anyitem') >= 0 or str(k).find('qitem') >= 0 for k in o.facts):
            R.unclear('remove', w, 'items are compared one by one')
        else:
            R.bad('remove', w + ':nothing', 'nothing is removed from an existing list', o)
    else:
        R.unclear('remove', w, 'the list')


def equality(cases, item):
    """the predicate is equality with the given item"""
    return len(cases) == 1 and not cases[0][1] and cases[0][0] in eqs(item)


def eqs(item):
    return [('p', 'eq', item, A['item']), ('p', 'eq', A['item'], item)]


def kept(R, o, item, cases, e):
    verdict = retained(item, cases)
    if verdict is True:
        R.ok('remove')
    elif verdict is None:
        R.unclear('remove', 'queue_remove', 'condition %s' % str(cases)[:80])
    else:
        R.bad('remove', 'queue_remove:condition', verdict, o, e)


def retained(item, cases):
    """does the predicate keep exactly the items that differ from the given one?"""
    eq = eqs(item)
    if any(not (isinstance(c, tuple) and len(c) == 2) for c in cases):
        return None
    # by cases: the value of the predicate when the item is the given one, and when it is not
    if len(cases) == 1 and not cases[0][1]:
        v = cases[0][0]
        if v in [neg(x) for x in eq]:
            return True
        if v in eq:
            return 'exactly the other items are removed'
    when = {True: set(), False: set()}
    about = False
    for v, facts in cases:
        for same in (True, False):
            f = dict(facts)
            s = State()
            s.facts = {k: x for k, x in f.items()}
            if not s.assume(eq[0], same) or not s.assume(eq[1], same):
                continue
            about = True
            if v in (TRUE, FALSE):
                when[same].add(v == TRUE)
            elif v in eq:
                when[same].add(same)
            elif v in [neg(x) for x in eq]:
                when[same].add(not same)
            elif same and forced(v, item) is not None:
                when[same].add(forced(v, item))
            else:
                when[same].add(None)
    if when == {True: {False}, False: {True}}:
        return True
    if None not in when[True] and True in when[True]:
        return 'the given item itself can be kept'
    if when[False] and None not in when[False] and False in when[False]:
        return 'other items can be removed'
    vs = [v for v, f in cases]
    if None in when[False] and not any(f for v, f in cases) and len(cases) == 1 and not murky(vs[0]):
        # decided by something else than equality: another item can satisfy it as well
        inner = vs[0][2] if vs[0][0] == 'p' and vs[0][1] == 'not' else vs[0]
        if inner[:2] in (('t', 'eqic'), ('t', 'starts_with'), ('t', 'ends_with'), ('t', 'strcontains'), ('t', 'contains')) or inner[:2] == ('p', 'le0') or inner[:2] == ('p', 'eq0'):
            return 'items are removed by %s instead of equality' % show.sv(inner)[:80]
    return None


def forced(v, item):
    return None


def unchanged(R, rule, w, o, F, root, key):
    """a read leaves its list as it was"""
    if any(e.kind in ('m.insert', 'm.remove') and e.args[0] == root for e in F.ev):
        return True if rule == 'count' else judge(R, rule, w, 'the list after a read', o, F.end(root, key), F.start(root, key))
    return judge(R, rule, w, 'the list after a read', o, F.end(root, key), F.start(root, key))


def mem_queue_get(R, E, o, F, root):
    w = 'queue_get'
    if not unchanged(R, 'get', w, o, F, root, A['q']):
        return
    answer = segments(E, payload(o.ret))
    if answer is None:
        R.unclear('get', w, show.sv(payload(o.ret))[:80])
        return
    src = F.start(root, A['q'])
    n, total = seglen(answer), seglen(src)
    if can(o.facts, lt(A['count'], n)):
        R.bad('get', w + ':too-many', '%s items are returned although fewer are asked' % show.sv(n), o)
        return
    if can(o.facts, lt(n, A['count']), lt(n, total)):
        R.bad('get', w + ':too-few', '%s items are returned although more are asked and available' % show.sv(n), o)
        return
    d = direction(o.facts, A['dir'])
    good = True
    for dd in ('front', 'back') if d is None else (d,):
        want = []
        if src:
            q, ln = src[0][1], src[0][3]
            want = [('sl', q, const(0), n, False)] if dd == 'front' else [('sl', q, add(ln, n, -1), ln, True)]
        good &= judge(R, 'get', w, 'the answer (%s)' % dd, o, answer, want)
    if good:
        R.ok('get')


def mem_queue_count(R, E, o, F, root):
    w = 'queue_count'
    if not unchanged(R, 'count', w, o, F, root, A['q']):
        return
    v = payload(o.ret)
    want = seglen(F.start(root, A['q']))
    if F.present(root, A['q']) is None:
        R.unclear('count', w, 'presence')
    elif v == want or not murky(v) and E.numeric(v) and not (can(o.facts, lt(v, want)) or can(o.facts, lt(want, v))):
        R.ok('count')
    elif murky(v):
        R.unclear('count', w, show.sv(v)[:80])
    else:
        R.bad('count', w, 'the count is %s instead of %s' % (show.sv(v), show.sv(want)), o)


def table(E, v):
    """id of a table value"""
    return E.field(v, None, None, 'id') if v is not None and v[0] == 'o' and v[1] == '#map' else None


def mem_storage_upsert(R, E, o, F, root):
    w = 'storage_upsert'
    h, k = A['h'], A['k']
    if F.now(root, h) is False:
        R.bad('upsert', w + ':removed', 'the table is removed', o)
        return
    v = F.cell(root, h)
    t = table(E, v)
    if v is None or t is None:
        if v is None and F.present(root, h) is False and not E.stats['unmodelled']:
            R.bad('upsert', w + ':nothing', 'the value is not stored', o)
        else:
            R.unclear('upsert', w, 'the table')
        return
    if t[:2] == ('t', 'm') and (t[2], t[3]) != (root, h):
        R.bad('upsert', w + ':table', 'the table becomes %s' % show.sv(t), o)
        return
    if t[:2] == ('t', 'map') and F.present(root, h) is not False:
        R.bad('upsert', w + ':replaced', 'an existing table is replaced', o)
        return
    bad = [e for e in F.ev if e.kind in ('m.insert', 'm.remove') and e.args[0] == t and e.args[1] != k]
    if bad:
        R.unclear('upsert', w, 'key') if murky(bad[0].args[1]) else R.bad('upsert', w + ':key', 'the key %s of %s is changed' % (show.sv(bad[0].args[1]), show.sv(h)), o, bad[0])
        return
    x = F.cell(t, k) if F.now(t, k) is not False else None
    if x == A['v']:
        R.ok('upsert')
    elif E.stats['unmodelled'] or x is not None and murky(x):
        R.unclear('upsert', w, 'value')
    elif x is None or x == term('val', t, k):
        R.bad('upsert', w + ':nothing', 'the value is not stored', o)
    else:
        R.bad('upsert', w + ':value', 'the stored value is %s' % show.sv(x), o)


def mem_storage_get(R, E, o, F, root):
    w = 'storage_get'
    h, k = A['h'], A['k']
    tab = term('m', root, h)
    ch = [e for e in F.ev if e.kind in ('m.insert', 'm.remove') and (e.args[0] == tab or e.args[0] == root and e.kind == 'm.remove')]
    if ch:
        x = F.cell(tab, k)
        if x == term('val', tab, k) and F.now(tab, k) is True:
            pass                          # taken out and put back
        else:
            R.bad('read', w + ':changes', 'a read changes the storage', o, ch[0])
            return
    v = payload(o.ret)
    hh, hk = F.present(root, h), F.present(tab, k)
    if hh is False or hk is False:
        want = NONE
    elif hk is True:
        want = some(term('val', tab, k))
    else:
        if v == NONE and not E.stats['unmodelled']:
            R.bad('read', w + ':nothing', 'nothing is returned without looking for the key', o)
        else:
            R.unclear('read', w, show.sv(v)[:80])
        return
    if v == want:
        R.ok('read')
    elif murky(v):
        R.unclear('read', w, show.sv(v)[:80])
    else:
        R.bad('read', w, 'the answer is %s instead of %s' % (show.sv(v), show.sv(want)), o)


# ---------------------------------------------------------------- C17
def C17(W, R):
    R.rule('no-relock', 'no path acquires a lock it already holds')
    R.rule('no-nesting', 'no path holds two locks at once')
    R.rule('one-acquisition', 'the data an operation reads and changes is accessed under one acquisition of one lock')
    R.rule('no-poison', 'no path panics while it holds a lock')
    R.rule('released', 'no path returns while it holds a lock')
    for m in ARGS:
        for opts in ({}, peel(W)):
            r = run(W, 'InMemory', m, **opts)
            if not r:
                R.unclear('one-acquisition', m, 'too many paths')
                continue
            for o in r.all:
                lock_path(R, r.E, o, m)


def lock_path(R, E, o, m):
    held = []
    acq = {}        # lock -> list of acquisitions, each [(event kinds)]
    cur = None
    for e, f, p in walk(o.nodes()):
        if e.kind == 'relock':
            R.bad('no-relock', m, '%s acquires %s while it already holds it' % (m, show.sv(e.args[0])), o, e)
        elif e.kind == 'lock':
            if held and not any(h[0] == e.args[0] for h in held):
                R.bad('no-nesting', m, '%s acquires %s while it holds %s' % (m, show.sv(e.args[0]), show.sv(held[-1][0])), o, e)
            held.append((e.args[0], e.res))
            cur = [e.args[0], []]
            acq.setdefault(e.args[0], []).append(cur[1])
        elif e.kind == 'unlock':
            held = [h for h in held if h[1] != e.res]
        elif e.kind.startswith('q.') or e.kind.startswith('m.'):
            if e.args and isinstance(e.args[0], tuple) and e.args[0][:2] == ('t', 'map'):
                continue
            if cur is not None and held:
                cur[1].append(e)
        elif e.kind == 'trylock_failed':
            if is_ok(o.ret) if o.ret is not None else False:
                R.bad('one-acquisition', m + ':try', '%s gives up silently when the lock is taken' % m, o, e)
    R.ok('no-relock')
    R.ok('no-nesting')
    for lk, l in acq.items():
        used = [x for x in l if x]
        if len(used) > 1:
            R.bad('one-acquisition', m, '%s accesses %s under %d separate acquisitions: another thread can come in between' % (m, show.sv(lk), len(used)), o, used[1][0])
        else:
            R.ok('one-acquisition')
    if o.kind == 'panic':
        if held:
            R.bad('no-poison', m, '%s can panic while it holds %s: %s' % (m, show.sv(held[-1][0]), getattr(o, 'msg', '')), o)
    else:
        R.ok('no-poison')
        if held:
            R.bad('released', m, '%s returns while %s is held' % (m, show.sv(held[-1][0])), o)
        else:
            R.ok('released')


# ---------------------------------------------------------------- C16
EXPECT = {
    'queue_push': ('lpush', ('q', 'item')),
    'queue_remove': ('lrem', ('q', 0, 'item')),
    'queue_count': ('llen', ('q',)),
    'storage_upsert': ('hset', ('h', 'k', 'v')),
    'storage_get': ('hget', ('h', 'k')),
}
KNOWN_CMDS = ('lpush', 'rpush', 'lpush_exists', 'rpush_exists', 'lpop', 'rpop', 'lrem', 'llen', 'lrange', 'ltrim', 'lindex', 'lset', 'lmove', 'rpoplpush',
              'hset', 'hset_nx', 'hget', 'hdel', 'hexists', 'set', 'get', 'del', 'sadd', 'srem', 'scard', 'zadd', 'hlen', 'append', 'exists', 'getset',
              'set_nx', 'set_ex', 'expire', 'hget_all', 'lpos', 'linsert_before', 'linsert_after', 'strlen', 'brpoplpush', 'blmove')


def cmds(o):
    return [e for e, f, p in walk(o.nodes()) if e.kind.startswith('redis.') and e.kind not in ('redis.get_connection', 'redis.open')]


def C16(W, R):
    R.rule('push', 'a push is one LPUSH of the item on the list')
    R.rule('move', 'a move is one LMOVE between the given ends of the given lists per item, as often as asked, and returns the moved items in order')
    R.rule('remove', 'a removal is an LREM of all copies (count 0)')
    R.rule('get', 'a read is the LRANGE of exactly the asked number of items from the asked end, in order, and none when none is asked')
    R.rule('count', 'a count is the LLEN of the list')
    R.rule('upsert', 'a write is an HSET of the key')
    R.rule('read', 'a storage read is the HGET of the key')
    R.rule('errors', 'every failing connection or command is answered with an error')
    R.rule('direction', 'front is the left end, back the right end, the same for all operations')
    R.rule('client', 'the back end talks to the server it was given')
    for m in ARGS:
        for faults in (False, True):
            r = run(W, 'Redis', m, faults, **peel(W))
            if not r:
                R.unclear(RULE_OF[m], m, 'too many paths')
                continue
            for p in r.panics:
                bad = [e for e, f, _ in walk(p.nodes()) if e.kind.startswith('redis.') and not okres(e)]
                if bad:
                    R.bad('errors', m + ':panic', '%s panics when %s fails' % (m, bad[-1].kind[6:]), p, bad[-1])
                elif 'overflow' in str(p.msg):
                    R.unclear(RULE_OF[m], m, 'arithmetic')
                else:
                    R.bad(RULE_OF[m], m + ':panic', '%s panics: %s' % (m, p.msg), p)
            for o in r.outs:
                failed = [e for e, f, _ in walk(o.nodes()) if e.kind.startswith('redis.') and not okres(e)]
                if failed:
                    if is_err(o.ret):
                        R.ok('errors')
                    elif is_ok(o.ret):
                        R.bad('errors', '%s:%s' % (m, failed[0].kind[6:]), '%s answers success although %s failed' % (m, failed[0].kind[6:]), o, failed[0])
                    else:
                        R.unclear('errors', m, show.sv(o.ret)[:80])
                    continue
                if faults:
                    continue
                redis_path(W, R, r.E, o, m)
    trip_counts(W, R, 'Redis')
    redis_client(W, R)


def arg_ok(got, want):
    w = const(want) if isinstance(want, int) else A[want]
    return got == w


def redis_path(W, R, E, o, m):
    rule = RULE_OF[m]
    cs = cmds(o)
    if is_err(o.ret):
        R.bad(rule, m + ':error', '%s answers an error although nothing failed' % m, o)
        return
    if m in EXPECT:
        want, args = EXPECT[m]
        if not cs:
            if E.stats['unmodelled'] or murky(o.ret):
                R.unclear(rule, m, 'no command')
            else:
                R.bad(rule, m + ':none', '%s sends no command' % m, o)
            return
        extra = [c for c in cs if c.kind[6:] != want]
        main = [c for c in cs if c.kind[6:] == want]
        if not main:
            # the removal of all copies has equivalent forms that are not commands of their own
            if all(c.kind[6:] in KNOWN_CMDS for c in cs) and len(cs) == 1:
                R.bad(rule, '%s:%s' % (m, cs[0].kind[6:]), '%s sends %s instead of %s' % (m, cs[0].kind[6:], want), o, cs[0])
            else:
                R.unclear(rule, m, ', '.join(c.kind for c in cs))
            return
        if len(main) > 1:
            R.bad(rule, m + ':many', '%s sends %s %d times' % (m, want, len(main)), o, main[1])
            return
        bad = [c for c in extra if c.kind[6:] in KNOWN_CMDS and c.kind[6:] not in ('exists', 'llen', 'hexists', 'lrange', 'hget', 'get', 'hlen', 'lindex', 'lpos')]
        if bad:
            R.bad(rule, '%s:also-%s' % (m, bad[0].kind[6:]), '%s also sends %s' % (m, bad[0].kind[6:]), o, bad[0])
            return
        if extra:
            R.unclear(rule, m, ', '.join(c.kind for c in extra))
        c = main[0]
        got = c.args[1:]
        for i, w in enumerate(args):
            if i >= len(got):
                R.unclear(rule, m, 'arguments')
                return
            if arg_ok(got[i], w):
                continue
            if murky(got[i]):
                R.unclear(rule, m, 'argument %d' % i)
            else:
                R.bad(rule, '%s:argument-%d' % (m, i), '%s sends %s(%s)' % (m, want, ', '.join(show.sv(x) for x in got)), o, c)
            return
        R.ok(rule)
        # what is answered
        v = payload(o.ret)
        res = c.res[1] if isinstance(c.res, tuple) and len(c.res) > 1 else None
        if m in ('queue_count', 'storage_get'):
            if v == res or equal_option(o, v, res):
                R.ok(rule)
            elif murky(v):
                R.unclear(rule, m, show.sv(v)[:80])
            else:
                R.bad(rule, m + ':answer', '%s answers %s' % (m, show.sv(v)), o, c)
        return
    if m == 'queue_move':
        redis_move(W, R, E, o, cs)
    else:
        redis_get(W, R, E, o, cs)


def equal_option(o, v, res):
    """Some(x) / None matched back from the same option"""
    if v == NONE and res is not None and o.facts.get(('V', res)) == frozenset([0]):
        return True
    if v is not None and v[0] == 'o' and v[2] == 1 and res is not None:
        x = payload(v)
        return x is not None and x[:2] == ('t', 'vf') and x[2] == res
    return False


def side(E, v):
    """'front'/'back' of a Redis direction"""
    if v[0] == 'o':
        try:
            n = E.ir.variants(v[1])[v[2]]['name']
        except Exception:
            n = ('Left', 'Right')[v[2]] if v[2] in (0, 1) else None
        return {'Left': 'front', 'Right': 'back'}.get(n)
    return None


def redis_move(W, R, E, o, cs):
    m = 'queue_move'
    if any(c.kind not in ('redis.lmove', 'redis.llen', 'redis.rpoplpush') for c in cs):
        c = next(c for c in cs if c.kind not in ('redis.lmove', 'redis.rpoplpush'))
        pops = [c for c in cs if c.kind in ('redis.lpop', 'redis.rpop') and okres(c)]
        if pops:
            R.bad('move', m + ':atomic', 'an item is taken from the source by %s before it is put in the target by another command: a crash or failure in between loses it' % pops[0].kind[6:], o, pops[0])
        else:
            R.unclear('move', m, c.kind)
        return
    fd, td = direction(o.facts, A['fd']), direction(o.facts, A['td'])
    mv = [c for c in cs if c.kind in ('redis.lmove', 'redis.rpoplpush')]
    got, dry = [], False
    for c in mv:
        src, dst, d1, d2 = tuple(c.args[1:5]) if c.kind == 'redis.lmove' else tuple(c.args[1:3]) + ('back', 'front')
        for g, w, what in ((src, A['fq'], 'source'), (dst, A['tq'], 'target')):
            if g != w:
                if murky(g):
                    R.unclear('move', m, what)
                else:
                    R.bad('move', m + ':' + what, 'the %s of the move is %s' % (what, show.sv(g)), o, c)
                return
        for g, w, what in ((d1, fd, 'source'), (d2, td, 'target')):
            s = g if isinstance(g, str) else side(E, g)
            if s is None:
                R.unclear('direction', m, show.sv(g)[:60])
                return
            if s != w:
                if w is None:
                    R.bad('direction', m + ':' + what, 'the %s end is %s whatever end is asked' % (what, s), o, c)
                else:
                    R.bad('direction', m + ':' + what, 'the %s end is %s when %s is asked' % (what, s, w), o, c)
                return
        R.ok('direction')
        res = c.res[1] if isinstance(c.res, tuple) and len(c.res) > 1 else None
        if res is not None and o.facts.get(('V', res)) == frozenset([0]):
            dry = True
        elif res is not None and o.facts.get(('V', res)) == frozenset([1]):
            got.append(term('vf', res, 'Some', '0'))
        elif res is not None and res[0] == 'o':
            if res[2] == 1:
                got.append(payload(res))
            else:
                dry = True
        else:
            got.append(None)
    n = len(mv)
    if can(o.facts, lt(A['count'], const(n))):
        R.bad('move', m + ':too-many', 'a move of fewer items sends %d LMOVE' % n, o)
        return
    if not dry and can(o.facts, lt(const(n), A['count'])):
        if any(c.kind == 'redis.llen' for c in cs):
            R.unclear('move', m, 'bounded by the length')
            return
        R.bad('move', m + ':too-few', 'a move of more than %d items stops after %d LMOVE' % (n, n), o)
        return
    items = seqitems(payload(o.ret))
    if items is None:
        R.unclear('move', m, 'answer')
    elif None in got:
        R.unclear('move', m, 'moved items')
    elif [strip(x) for x in items] != [strip(x) for x in got]:
        if any(murky(x) for x in items):
            R.unclear('move', m, 'answer')
        else:
            R.bad('move', m + ':answer', 'the answer is %s' % show.sv(payload(o.ret)), o)
    else:
        R.ok('move')


def strip(x):
    return x[2] if x[:2] == ('t', 'vf') else x


def redis_get(W, R, E, o, cs):
    m = 'queue_get'
    v = payload(o.ret)
    d = direction(o.facts, A['dir'])
    if not cs:
        it = seqitems(v)
        if it == []:
            if can(o.facts, lt(const(0), A['count'])):
                if E.stats['unmodelled']:
                    R.unclear('get', m, 'no command')
                else:
                    R.bad('get', m + ':none', 'nothing is read although items are asked', o)
            else:
                R.ok('get')
        else:
            R.unclear('get', m, show.sv(v)[:80])
        return
    lr = [c for c in cs if c.kind == 'redis.lrange']
    if len(lr) != 1:
        R.unclear('get', m, ', '.join(c.kind for c in cs))
        return
    extra = [c for c in cs if c.kind != 'redis.lrange' and c.kind[6:] in KNOWN_CMDS and c.kind[6:] not in ('llen', 'exists', 'lindex')]
    if extra:
        R.bad('get', '%s:also-%s' % (m, extra[0].kind[6:]), 'a read also sends %s' % extra[0].kind[6:], o, extra[0])
        return
    c = lr[0]
    key, a, b = c.args[1:4]
    if key != A['q']:
        R.unclear('get', m, 'list') if murky(key) else R.bad('get', m + ':list', 'the list %s is read' % show.sv(key), o, c)
        return
    if d is None:
        R.bad('get', m + ':end', 'the same items are read whatever end is asked', o, c) if not murky(a) else R.unclear('get', m, 'direction')
        return
    n = A['count']
    want = (const(0), add(n, const(-1))) if d == 'front' else (scale(n, -1), const(-1))
    inner = c.res[1] if isinstance(c.res, tuple) and len(c.res) > 1 else None
    if murky(a) or murky(b):
        R.unclear('get', m, 'range')
        return
    if (a, b) != want:
        diff = [add(x, w, -1) for x, w in zip((a, b), want)]
        if all(x[0] in ('c', 'n') or not [t for t in iter_terms(x) if t[:1] == ('t',)] for x in diff) or trunc(v) is None:
            R.bad('get', '%s:%s-range' % (m, d), 'the range read from the %s is %s to %s' % (d, show.sv(a), show.sv(b)), o, c)
        else:
            R.unclear('get', m, 'range %s to %s' % (show.sv(a), show.sv(b)))
        return
    if can(o.facts, le(n, const(0))):
        R.bad('get', m + ':zero', 'when no item is asked, the range %s to %s is read' % (show.sv(a), show.sv(b)), o, c)
        return
    items = inner[2] if inner is not None and inner[0] == 'vec' else inner
    got = v[2] if v[0] == 'vec' else v
    if d == 'front' and got == items:
        R.ok('get')
    elif d == 'back' and got == term('rev', items):
        R.ok('get')
    elif (d == 'back' and got == items) or (d == 'front' and got == term('rev', items)):
        R.bad('get', '%s:%s-order' % (m, d), 'the items from the %s are returned in reverse order' % d, o, c)
    elif murky(v) or got[:2] != ('t', 'rev'):
        R.unclear('get', m, show.sv(v)[:80])
    else:
        R.bad('get', '%s:%s-answer' % (m, d), 'the answer is %s' % show.sv(v), o, c)


def trunc(v):
    """the answer is a part of what was read"""
    for x in iter_terms(v):
        if len(x) > 1 and x[0] == 't' and x[1] in ('slice', 'take', 'truncate', 'prefix', 'split_off', 'drain'):
            return x
    return None


def redis_client(W, R):
    """all commands go to the client the back end was built with"""
    for m in ARGS:
        r = run(W, 'Redis', m, False, **peel(W))
        for o in r.outs if r else ():
            for e, f, _ in walk(o.nodes()):
                if e.kind == 'redis.get_connection':
                    a = e.args[0]
                    if contains_term(a, term('mem')):
                        R.ok('client')
                    elif murky(a):
                        R.unclear('client', m, show.sv(a)[:80])
                    else:
                        R.bad('client', m, '%s connects to %s' % (m, show.sv(a)), o, e)
    try:
        r = W.api('Redis', 'new_with_client', (term('given_client'),))
    except Missing:
        return
    for o in r.outs if r else ():
        if contains_term(o.ret, term('given_client')):
            R.ok('client')
        elif not murky(o.ret):
            R.bad('client', 'new_with_client', 'the client becomes %s' % show.sv(o.ret), o)


def contains_term(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(contains_term(y, x) for y in v)
