"""Abstract values and facts.

Values are hashable tuples:
  ('t', kind, ...)                 opaque value, identified by its provenance (value numbering)
  ('i', c, ((term, coef), ...))    affine integer / instant / duration
  ('b', True|False)                boolean constant
  ('p', ...)                       boolean expression
  ('s', pieces)                    string: literal pieces and opaque pieces
  ('o', path, variant, fields, base)  struct/enum/tuple/closure/coroutine value (fields sorted by name)
  ('r', cell, path)                reference to a location
  ('vec', len, content)            growable sequence; content = ('seq', items...) or a term
  ('fn', key, id)                  function item
  ('d', term, adt)                 discriminant of an opaque enum
"""
from math import gcd

UNIT = ('o', 'tuple', 0, (), None)
TRUE = ('b', True)
FALSE = ('b', False)
MOVED = ('moved',)
UNSIGNED = set()      # opaque terms of unsigned type


class Order:
    """Stable order of terms (first come, first numbered)."""
    def __init__(self):
        self.n = {}

    def __call__(self, t):
        r = self.n.get(t)
        if r is None:
            r = self.n[t] = len(self.n)
        return r


ORD = Order()


def term(*a):
    return ('t',) + a


def mkint(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: ORD(x[0])))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('i', c, items)


def const(c):
    return ('i', c, ())


def lin(v):
    """value -> (c, {term: coef})"""
    if v[0] == 'i':
        return v[1], dict(v[2])
    if v[0] == 'b':
        return (1 if v[1] else 0), {}
    return 0, {v: 1}


def add(a, b, k=1):
    ca, da = lin(a)
    cb, db = lin(b)
    for t, x in db.items():
        da[t] = da.get(t, 0) + k * x
    return mkint(ca + k * cb, da)


def scale(a, k):
    c, d = lin(a)
    return mkint(c * k, {t: x * k for t, x in d.items()})


def is_const(v):
    return v[0] == 'i' and not v[2]


def neg(p):
    if p[0] == 'b':
        return ('b', not p[1])
    if p[0] == 'p' and p[1] == 'not':
        return p[2]
    if p[0] == 'p' and p[1] == 'le0':     # e <= 0  ->  1 - e <= 0
        return le0(add(const(1), p[2], -1))
    return ('p', 'not', p)


def le0(e):
    if is_const(e):
        return ('b', e[1] <= 0)
    return ('p', 'le0', e)


def eq0(e):
    if is_const(e):
        return ('b', e[1] == 0)
    c, d = lin(e)
    items = sorted(d.items(), key=lambda x: ORD(x[0]))
    if items[0][1] < 0:
        e = scale(e, -1)
    return ('p', 'eq0', e)


def mkstr(pieces):
    out = []
    for p in pieces:
        if isinstance(p, tuple) and p[0] == 's':
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '':
                out.append(q)
    if len(out) == 1 and not isinstance(out[0], str):
        return out[0]
    return ('s', tuple(out))


def lit(s):
    return ('s', (s,) if s else ())


def canon_form(d):
    """linear form -> (canonical tuple, sign)"""
    items = sorted(d.items(), key=lambda x: ORD(x[0]))
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    s = g if items[0][1] > 0 else -g
    return tuple((t, k // s) for t, k in items), s


def iter_terms(v, seen=None):
    """all nested tuples of a value"""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            yield x
            stack.extend(x)


def contains(v, sub):
    for x in iter_terms(v):
        if x == sub:
            return True
    return False


class Infeasible(Exception):
    pass


def fm_infeasible(cons, limit=400):
    """cons: list of (const, {t: k}) meaning const + sum k*t <= 0. True if rationally infeasible."""
    cons = [(c, dict(d)) for c, d in cons]
    while True:
        nxt = []
        for c, d in cons:
            d = {t: k for t, k in d.items() if k}
            if not d:
                if c > 0:
                    return True
                continue
            nxt.append((c, d))
        cons = nxt
        if not cons:
            return False
        cnt = {}
        for c, d in cons:
            for t, k in d.items():
                p, n = cnt.get(t, (0, 0))
                cnt[t] = (p + (k > 0), n + (k < 0))
        t = min(cnt, key=lambda t: (cnt[t][0] * cnt[t][1], ORD(t)))
        pos = [x for x in cons if x[1].get(t, 0) > 0]
        ng = [x for x in cons if x[1].get(t, 0) < 0]
        rest = [x for x in cons if not x[1].get(t, 0)]
        for cp, dp in pos:
            for cn, dn in ng:
                kp, kn = dp[t], -dn[t]
                d = {}
                for u, k in dp.items():
                    d[u] = d.get(u, 0) + k * kn
                for u, k in dn.items():
                    d[u] = d.get(u, 0) + k * kp
                d.pop(t, None)
                rest.append((cp * kn + cn * kp, d))
        # dedupe
        seen, out = set(), []
        for c, d in rest:
            key = (c, frozenset(x for x in d.items() if x[1]))
            if key not in seen:
                seen.add(key)
                out.append((c, d))
        if len(out) > limit:
            return False
        cons = out


def _constraints(facts, want):
    """constraints connected to the terms in `want`"""
    allc = []
    for k, v in facts.items():
        if k[0] == 'L':
            lo, hi = v
            d = dict(k[1])
            if hi is not None:
                allc.append((-hi, d))
            if lo is not None:
                allc.append((lo, {t: -x for t, x in d.items()}))
    terms = set(want)
    used = []
    pending = allc
    ch = True
    while ch:
        ch = False
        rest = []
        for c in pending:
            if any(t in terms for t in c[1]):
                used.append(c)
                n = len(terms)
                terms.update(c[1])
                ch = ch or len(terms) > n
            else:
                rest.append(c)
        pending = rest
    for t in terms:
        if t in UNSIGNED:
            used.append((0, {t: -1}))
    return used


def implied_le0(facts, e):
    c, d = lin(e)
    if not d:
        return c <= 0
    f, s = canon_form(d)
    b = facts.get(('L', f))
    if b:
        hi = b[1] if s > 0 else (None if b[0] is None else -b[0])
        if hi is not None and c + abs(s) * hi <= 0:
            return True
    cons = _constraints(facts, d)
    # negation: e >= 1  ->  1 - e <= 0
    cons.append((1 - c, {t: -k for t, k in d.items()}))
    return fm_infeasible(cons)


class State:
    __slots__ = ('cells', 'facts', 'trace', 'ctr', 'held', 'store', 'ghost', 'flags')

    def __init__(self):
        self.cells = {}
        self.facts = {}
        self.trace = None      # (prev, event, facts)
        self.ctr = 0
        self.held = ()
        self.store = ()        # ((key, value), ...) what this turn knows about storage
        self.ghost = ()        # ((name, int), ...)
        self.flags = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.facts = self.facts
        s.trace = self.trace
        s.ctr = self.ctr
        s.held = self.held
        s.store = self.store
        s.ghost = self.ghost
        s.flags = self.flags
        return s

    def fresh(self, kind, *extra):
        self.ctr += 1
        return ('t', kind) + extra + (self.ctr,)

    # ---- ghost counters
    def gget(self, n):
        return dict(self.ghost).get(n, const(0))

    def gset(self, n, v):
        d = dict(self.ghost)
        d[n] = v
        self.ghost = tuple(sorted(d.items()))

    # ---- facts
    def decide(self, p):
        if p[0] == 'b':
            return p[1]
        f = self.facts
        if p[0] == 'p':
            k = p[1]
            if k == 'not':
                r = self.decide(p[2])
                return None if r is None else not r
            if k == 'and':
                a, b = self.decide(p[2]), self.decide(p[3])
                if a is False or b is False:
                    return False
                return True if a and b else None
            if k == 'or':
                a, b = self.decide(p[2]), self.decide(p[3])
                if a or b:
                    return True
                return False if a is False and b is False else None
            if k == 'le0':
                if implied_le0(f, p[2]):
                    return True
                if implied_le0(f, add(const(1), p[2], -1)):
                    return False
                return None
            if k == 'eq0':
                e = p[2]
                c, d = lin(e)
                fm, s = canon_form(d)
                ex = f.get(('N', fm))
                if ex and c % s == 0 and (-c // s) in ex:
                    return False
                if implied_le0(f, add(e, const(1))) or implied_le0(f, add(const(1), e, -1)):
                    return False
                if implied_le0(f, e) and implied_le0(f, scale(e, -1)):
                    return True
                return None
            if k == 'isv':
                cur = f.get(('V', p[2]))
                if cur is None:
                    return None
                if cur <= p[4]:
                    return True
                if not (cur & p[4]):
                    return False
                return None
            if k == 'eq':
                return self._deq(p)
        return f.get(('B', p))

    def _deq(self, p):
        a, b = p[2], p[3]
        if a == b:
            return True
        r = self.facts.get(('B', p))
        if r is not None:
            return r
        if a[0] == 's' and b[0] == 's':
            la, lb = a[1], b[1]
            if all(isinstance(x, str) for x in la + lb):
                return la == lb
            if la and lb:
                if isinstance(la[0], str) and isinstance(lb[0], str):
                    n = min(len(la[0]), len(lb[0]))
                    if la[0][:n] != lb[0][:n]:
                        return False
                if isinstance(la[-1], str) and isinstance(lb[-1], str):
                    n = min(len(la[-1]), len(lb[-1]))
                    if n and la[-1][-n:] != lb[-1][-n:]:
                        return False
        if a[0] == 'o' and b[0] == 'o' and a[1] == b[1] and a[2] != b[2]:
            return False
        return None

    def assume(self, p, val=True):
        """Adds a fact; returns False if the state becomes infeasible."""
        if not val:
            p = neg(p)
        d = self.decide(p)
        if d is not None:
            return d
        f = dict(self.facts)
        self.facts = f
        if p[0] == 'p':
            k = p[1]
            if k == 'le0':
                self._bound(p[2], f)
                return True
            if k == 'eq0':
                self._bound(p[2], f)
                self._bound(scale(p[2], -1), f)
                return True
            if k == 'isv':
                cur = f.get(('V', p[2]))
                f[('V', p[2])] = p[4] if cur is None else cur & p[4]
                return True
            if k == 'and':
                return self.assume(p[2]) and self.assume(p[3])
            if k == 'not':
                q = p[2]
                if q[0] == 'p':
                    if q[1] == 'isv':
                        cur = f.get(('V', q[2]), q[3])
                        f[('V', q[2])] = frozenset(cur) - q[4]
                        return bool(f[('V', q[2])])
                    if q[1] == 'eq0':
                        c, dd = lin(q[2])
                        fm, s = canon_form(dd)
                        if c % s == 0:
                            x = -c // s
                            f[('N', fm)] = f.get(('N', fm), frozenset()) | {x}
                            # tighten at a bound
                            e = q[2]
                            if implied_le0(f, e):
                                self._bound(add(e, const(1)), f)
                            elif implied_le0(f, scale(e, -1)):
                                self._bound(add(const(1), e, -1), f)
                        return True
                    if q[1] == 'or':
                        return self.assume(neg(q[2])) and self.assume(neg(q[3]))
                    if q[1] == 'and':
                        if self.decide(q[2]):
                            return self.assume(neg(q[3]))
                        if self.decide(q[3]):
                            return self.assume(neg(q[2]))
                f[('B', q)] = False
                return True
            if k == 'or':
                if self.decide(p[2]) is False:
                    return self.assume(p[3])
                if self.decide(p[3]) is False:
                    return self.assume(p[2])
        f[('B', p)] = True
        return True

    def _bound(self, e, f):
        """e <= 0"""
        c, d = lin(e)
        fm, s = canon_form(d)
        # s*fm + c <= 0
        lo, hi = f.get(('L', fm), (None, None))
        if s > 0:
            x = (-c) // s
            hi = x if hi is None else min(hi, x)
        else:
            x = -((-c) // (-s))
            lo = x if lo is None else max(lo, x)
        ex = f.get(('N', fm), ())
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        f[('L', fm)] = (lo, hi)


def trace_list(tr, upto=None):
    out = []
    while tr is not None and tr is not upto:
        out.append(tr)
        tr = tr[0]
    out.reverse()
    return out
