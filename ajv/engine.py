"""Path-sensitive abstract interpretation of MIR over the domain of domain.py.

Calls into analysed bodies are followed; calls out of the crate go through models.py. Loops are
solved by fixpoint iteration with widening; what an iteration may do is kept as the set of its
abstract iterations. Nothing is executed and no solver is involved.
"""
from .domain import *
from .ir import last
from . import models


class Budget(Exception):
    pass


class Ev(tuple):
    """('kind', args, result, site) with attribute access"""
    __slots__ = ()
    kind = property(lambda s: s[0])
    args = property(lambda s: s[1])
    res = property(lambda s: s[2])
    site = property(lambda s: s[3])


class Outcome:
    __slots__ = ('kind', 'ret', 'st', 'msg')

    def __init__(self, kind, ret, st, msg=None):
        self.kind, self.ret, self.st, self.msg = kind, ret, st, msg

    @property
    def facts(self):
        return self.st.facts

    def events(self):
        return [n[1] for n in trace_list(self.st.trace)]

    def nodes(self):
        return trace_list(self.st.trace)


class Frame:
    __slots__ = ('body', 'fid')

    def __init__(self, body, fid):
        self.body, self.fid = body, fid


GUARD = '#guard'


def undisc(v):
    return ('d', v[2], v[3]) if v[:2] == ('t', 'discint') and len(v) == 4 else v


def far(v):
    """1 for the last time chrono knows, -1 for the first one, 0 for anything else"""
    if v[0] == 'o' and last(v[1]) == 'DateTime':
        v = dict(v[3]).get('datetime', v)
    if v[0] == 'o' and last(v[1]) == 'NaiveDateTime':
        v = dict(v[3]).get('date', v)
        if v[0] == 'o' and len(v[3]) == 1:
            v = v[3][0][1]
            if v[0] == 'o' and len(v[3]) == 1:
                v = v[3][0][1]
        n = v[3] if v[0] == 't' and v[1] == 'const' and len(v) == 4 else v[1] if is_const(v) else 0
        if isinstance(n, int) and n >= 1 << 31:
            n -= 1 << 32
        if isinstance(n, int) and abs(n >> 13) > 200000:
            return 1 if n > 0 else -1
    return 0


class Engine:
    def __init__(self, ir, faults=False, user_retry='default', max_paths=40000, opts=None):
        self.ir = ir
        self.faults = faults
        self.user_retry = user_retry
        self.max_paths = max_paths
        self.opts = opts or {}
        self.paths = 0
        self.stack = []          # (body, span)
        self.panics = []
        self.stats = {'bodies': set(), 'calls': 0, 'blocks': 0, 'loops': 0, 'unmodelled': {}, 'events': 0}
        self.fns = ir.fns
        self.detached = []

    # ------------------------------------------------------------------ queue names
    def status_path(self):
        if not hasattr(self, '_sp'):
            self._sp = next((p for p in self.ir.adts if last(p) == 'JobStatus'), None)
        return self._sp

    def role(self, name):
        """status a queue name stands for: the status name among its literal pieces"""
        if self.status_path() is None:
            return None
        text = ''
        if name[0] == 's':
            text = '\0'.join(p for p in name[1] if isinstance(p, str))
        hits = [v['name'] for v in self.ir.variants(self.status_path()) if v['name'].lower() in text.lower()]
        return hits[0] if len(hits) == 1 else None

    # ------------------------------------------------------------------ fields
    def field(self, v, adt, variant, name):
        k = v[0]
        if k == 'o':
            for n, x in v[3]:
                if n == name:
                    return x
            if v[4] is not None:
                return self.tfield(v[4], variant if variant is not None else None, name, adt)
            return term('nofield', v[1], name)
        if k == 'vec':
            return term('vecfield', name)
        return self.tfield(v, variant, name, adt)

    def tfield(self, t, variant, name, adt=None):
        if t[0] == 't' and t[1] == 'fld' and False:
            return t
        if variant is not None and adt is not None and self.ir.is_enum(adt):
            vs = self.ir.variants(adt)
            r = term('vf', t, vs[variant]['name'], name)
        else:
            r = term('fld', t, name)
            # a stored record's id field equals the key it is stored under
            if name == 'job_id' and t[0] == 't' and t[1] == 'fld' and t[3 - 1][0] == 't' and t[2][1] == 'job':
                return t[2][2]
        return r

    def mkobj(self, path, variant, fields, base=None):
        fields = tuple(sorted(fields))
        if base is not None:
            en = self.ir.is_enum(path)
            fields = tuple((n, x) for n, x in fields
                           if x != self.tfield(base, variant if en else None, n, path))
            if not fields:
                return base
        elif fields and not path.startswith('#') and path in self.ir.adts:
            # eta: all fields read from one and the same opaque value
            en = self.ir.is_enum(path)
            vs = self.ir.variants(path)
            if len(vs[variant]['fields']) == len(fields):
                n0, x0 = fields[0]
                if x0[0] == 't' and x0[1] in ('fld', 'vf'):
                    t = x0[2]
                    if all(x == self.tfield(t, variant if en else None, n, path) for n, x in fields):
                        return t
        return ('o', path, variant, fields, base)

    def setfield(self, v, adt, variant, name, x):
        if v[0] == 'o':
            fs = tuple((n, y) for n, y in v[3] if n != name) + ((name, x),)
            return self.mkobj(v[1], v[2], fs, v[4]) if v[4] is not None else ('o', v[1], v[2], tuple(sorted(fs)), None)
        path = adt if adt not in ('tuple', 'closure', 'coroutine', None) else 'tuple'
        return self.mkobj(path, variant or 0, ((name, x),), v)

    # ------------------------------------------------------------------ locations
    def cell(self, st, c):
        v = st.cells.get(c)
        if v is None:
            v = term('cell', c)
            st.cells[c] = v
        return v

    def read(self, st, loc):
        v = self.cell(st, loc[0])
        for s in loc[1]:
            v = self.readstep(st, v, s)
        return v

    def readstep(self, st, v, s):
        if s[0] == 'f':
            v = self.through(st, v)
            return self.field(v, s[1], s[2], s[3])
        if s[0] == 'x':
            i = self.at(v, s)
            if i is not None:
                return models.vec_elem(v, i)
            return term('elem', v, s[1:])
        return v

    def at(self, v, s):
        """index of a step into a list whose items are known, None when it is not"""
        if v[0] != 'vec':
            return None
        if len(s) == 2:
            i = s[1]
        elif s[1] == 'cidx':
            i = add(v[1], const(-s[2])) if s[3] else const(s[2])
        else:
            return None
        if models.is_slice(v[2]) or v[2][:1] == ('seq',) and is_const(i) and 0 <= i[1] < len(v[2]) - 1:
            return i
        return None

    def through(self, st, v):
        n = 0
        while v[0] == 'r' and n < 20:
            v = self.read(st, (v[1], v[2]))
            n += 1
        return v

    def write(self, st, loc, x):
        c, path = loc
        if not path:
            st.cells[c] = x
            return
        st.cells[c] = self._set(st, self.cell(st, c), path, x)

    def _set(self, st, v, path, x):
        s = path[0]
        if s[0] == 'f':
            sub = self.field(v, s[1], s[2], s[3])
            nv = x if len(path) == 1 else self._set(st, sub, path[1:], x)
            return self.setfield(v, s[1], s[2], s[3], nv)
        i = self.at(v, s) if s[0] == 'x' and v[0] == 'vec' and v[2][:1] == ('seq',) else None
        if i is not None:
            items = list(v[2])
            sub = items[1 + i[1]]
            if len(path) == 1 or sub[0] != 'r':
                items[1 + i[1]] = x if len(path) == 1 else self._set(st, sub, path[1:], x)
                return ('vec', v[1], tuple(items))
        return term('upd', v, x)

    def loc(self, st, fr, place):
        """location of a place, following references"""
        steps, ty = self.ir.steps(fr.body, place)
        c, path = (fr.fid, place[0]), ()
        for s in steps:
            if s[0] == 'd':
                v = self.read(st, (c, path))
                if v[0] == 'r':
                    c, path = v[1], v[2]
                elif v[0] == 'o' and v[1] == GUARD:
                    r = self.field(v, None, None, 'ref')
                    c, path = r[1], r[2]
            elif s[0] == 'f':
                # a field of something held behind a (transparent) pointer
                v = self.read(st, (c, path))
                if v[0] == 'r':
                    c, path = v[1], v[2]
                path = path + (s,)
            else:
                v = self.read(st, (c, path))
                if v[0] == 'r':
                    c, path = v[1], v[2]
                if s[1] == 'idx':
                    iv = self.read(st, ((fr.fid, s[2]), ()))
                    path = path + (('x', iv),)
                else:
                    path = path + (s,)
        return (c, path), ty

    # ------------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o[0] == 'const':
            return self.constant(st, o[1])
        l, ty = self.loc(st, fr, o[1])
        v = self.read(st, l)
        v = self.coerce(v, ty)
        if o[0] == 'move':
            if not o[1][1]:
                st.cells[(fr.fid, o[1][0])] = MOVED
            elif self.has_guard(v):
                self.write(st, l, MOVED)
        return v

    def coerce(self, v, ty):
        if v[0] == 't' and ty is not None:
            t = self.ir.T[ty]
            if t['k'] == 'prim' and t['s'][0] == 'u' and v not in UNSIGNED:
                UNSIGNED.add(v)
        return v

    def has_guard(self, v):
        if v[0] == 'o':
            if v[1] == GUARD:
                return True
            return any(self.has_guard(x) for _, x in v[3])
        return False

    def constant(self, st, c):
        k = c.get('v')
        t = self.ir.T[c['ty']]
        if k == 'int' or k == 'char':
            return const(c['i'])
        if k == 'bool':
            return ('b', c['b'])
        if k == 'str':
            return lit(c['s'])
        if k == 'bytes':
            return ('bytes', tuple(c['b']))
        if k == 'fn':
            i = id(c)
            self.fns[i] = c
            return ('fn', c.get('res') or c['fn'], i)
        if k == 'static':
            return ('r', ('static', last(c['def'])), ())
        if k == 'zst':
            if t['k'] == 'adt':
                return ('o', t['path'], 0, (), None)
            if t['k'] == 'closure':
                return ('o', 'closure:' + t['def'], 0, (), None)
            return UNIT
        if k == 'bits':
            if t['k'] == 'adt' and self.ir.is_enum(t['path']):
                for i, v in enumerate(self.ir.variants(t['path'])):
                    if (v['discr'] == c['i'] or v['discr'] < 0 and v['discr'] & 255 == c['i'] & 255) and not v['fields']:
                        return ('o', t['path'], i, (), None)
            return term('const', c.get('const'), c['i'])
        if k == 'adt':
            if t['k'] == 'adt':
                vi = max(c['variant'], 0)
                fs = self.ir.variants(t['path'])[vi]['fields']
                return self.mkobj(t['path'], vi, [(fs[i][0], self.constant(st, f)) for i, f in enumerate(c['fields'])])
            if t['k'] == 'array' or t['s'].startswith('['):
                return ('vec', const(len(c['fields'])), ('seq',) + tuple(self.constant(st, f) for f in c['fields']))
            return ('o', 'tuple', 0, tuple(sorted((str(i), self.constant(st, f)) for i, f in enumerate(c['fields']))), None)
        return term('const', c.get('const'), t['s'])

    # ------------------------------------------------------------------ deep resolution
    def resolve(self, st, v, depth=0):
        """value with references replaced by what they point to"""
        if depth > 12:
            return v
        k = v[0]
        if k == 'r':
            return self.resolve(st, self.read(st, (v[1], v[2])), depth + 1)
        if k == 'o':
            if not v[3]:
                return v
            fs = tuple((n, self.resolve(st, x, depth + 1)) for n, x in v[3])
            if v[4] is None:
                return self.mkobj(v[1], v[2], fs)
            return self.mkobj(v[1], v[2], fs, v[4])
        if k == 'vec':
            if v[2][0] == 'seq':
                return ('vec', v[1], ('seq',) + tuple(self.resolve(st, x, depth + 1) for x in v[2][1:]))
        return v

    # ------------------------------------------------------------------ events
    def site(self, span=None):
        names = []
        for b, sp in self.stack:
            if not b.std:
                names.append((b.key, sp))
        return tuple(names)

    def event(self, st, kind, args, res=None):
        self.stats['events'] += 1
        ev = Ev((kind, args, res, self.site()))
        st.trace = (st.trace, ev, st.facts, st.held, st.ghost)
        return ev

    def panic(self, st, msg):
        self.event(st, 'panic', (msg,))
        self.panics.append(Outcome('panic', None, st, msg))

    def split(self, st, p):
        """list of (bool, state)"""
        d = st.decide(p)
        if d is not None:
            return [(d, st)]
        neg_ = p[:2] == ('p', 'not') and p[2][:2] in (('p', 'or'), ('p', 'and'))
        q = p[2] if neg_ else p
        if q[:2] in (('p', 'or'), ('p', 'and')) and len(q) == 4:
            # a stored condition of several parts: one path per deciding part
            out = []
            for v, s in self.split(st, q[2]):
                if v == (q[1] == 'or'):
                    out.append((v != neg_, s))
                else:
                    out += [(v2 != neg_, s2) for v2, s2 in self.split(s, q[3])]
            return out
        a, b = st, st.copy()
        out = []
        if a.assume(p, True):
            out.append((True, a))
        if b.assume(p, False):
            out.append((False, b))
        self.count(len(out) - 1)
        return out

    def count(self, n=1):
        self.paths += n
        if self.paths > self.max_paths:
            raise Budget('more than %d paths' % self.max_paths)

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        """list of (value, state)"""
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            l, ty = self.loc(st, fr, r[2])
            v = self.read(st, l) if not l[1] or True else None
            steps = self.ir.steps(fr.body, r[2])[0]
            # reborrow of a transparent pointer held by value: keep the pointer itself
            if steps and steps[-1][0] == 'd' and not l[1] and l[0] == (fr.fid, r[2][0]) and len(steps) == 1:
                if v[0] in ('t', 's') and v != MOVED:
                    return v
            return ('r', l[0], l[1])
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, fr, r)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if a[0] in ('b', 'p') or self.is_boolty(dty):
                    return neg(a)
                return term('not', a)
            if r[1] == 'Neg':
                return scale(a, -1) if a[0] in ('i', 't') else term('neg', a)
            if r[1] == 'PtrMetadata':
                return models.vec_len(self, st, a)
            return term('un', r[1], a)
        if k == 'discr':
            l, ty = self.loc(st, fr, r[1])
            v = self.through(st, self.read(st, l))
            return self.discr(st, v, self.ir.adt_of(ty) if ty is not None else None)
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == 'tuple':
                return ('o', 'tuple', 0, tuple(sorted((str(i), v) for i, v in enumerate(ops))), None)
            if kind[0] == 'array':
                return ('vec', const(len(ops)), ('seq',) + tuple(ops))
            if kind[0] == 'adt':
                fs = self.ir.variants(kind[1])[kind[2]]['fields']
                return self.mkobj(kind[1], kind[2], [(fs[i][0], v) for i, v in enumerate(ops)])
            if kind[0] == 'closure':
                return ('o', 'closure:' + kind[1], 0, tuple(sorted((str(i), v) for i, v in enumerate(ops))), None)
            if kind[0] == 'coroutine':
                return ('o', 'cor:' + kind[1], 0, tuple(sorted((str(i), v) for i, v in enumerate(ops))), None)
            return term('agg', *ops)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            t = self.ir.T[r[3]]
            if r[1].startswith('IntToInt'):
                if v[0] == 'd':
                    return term('discint', v[1], v[2]) if v[2] else term('discint', v[1])
                if v[0] in ('b', 'p'):
                    if v[0] == 'b':
                        return const(1 if v[1] else 0)
                    return term('boolint', v)
                if t['s'] in ('u8', 'i8', 'u16', 'i16') and not is_const(v):
                    return term('trunc', t['s'], v)
                return v
            return v
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            return ('vec', st.fresh('rep'), term('repeat', v))
        if k == 'tls':
            return ('r', ('static', r[1]), ())
        return term('rv', k)

    def is_boolty(self, ty):
        return ty is not None and self.ir.T[ty]['s'] == 'bool'

    def discr(self, st, v, adt):
        if v[0] == 'o':
            vs = self.ir.variants(v[1])
            if vs and v[2] is not None:
                return const(vs[v[2]]['discr'])
            return const(v[2] or 0)
        if v[0] == 'b':
            return const(1 if v[1] else 0)
        cur = st.facts.get(('V', v))
        if cur is not None and len(cur) == 1 and adt:
            return const(self.ir.variants(adt)[next(iter(cur))]['discr'])
        return ('d', v, adt)

    def isv(self, t, adt, names):
        vs = self.ir.variants(adt)
        allv = frozenset(range(len(vs)))
        return ('p', 'isv', t, allv, frozenset(i for i, v in enumerate(vs) if v['name'] in names))

    def binop(self, st, op, a, b, fr, r):
        over = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        v = None
        if base in ('Eq', 'Ne'):
            p = self.eq(st, a, b)
            v = neg(p) if base == 'Ne' else p
        elif base in ('Lt', 'Le', 'Gt', 'Ge'):
            v = self.extreme(base, a, b, fr, r)
            if v is None:
                v = self.cmp(st, base, a, b)
        elif base in ('Add', 'Sub', 'Mul', 'Offset'):
            if base == 'Mul':
                if is_const(a):
                    v = scale(b, a[1])
                elif is_const(b):
                    v = scale(a, b[1])
                else:
                    x, y = sorted((a, b), key=ORD)
                    v = term('mul', x, y)
            elif self.numeric(a) and self.numeric(b):
                v = add(a, b, 1 if base == 'Add' else -1)
                if base == 'Sub' and over:
                    ty = self.optype(fr, r[2]) or self.optype(fr, r[3])
                    if ty and ty[0] == 'u' and st.decide(le0(scale(v, -1))) is not True:
                        self.event(st, 'underflow', (a, b))
            else:
                v = term('bin', base, a, b)
        elif base in ('BitAnd', 'BitOr', 'BitXor') and (a[0] in ('b', 'p') or b[0] in ('b', 'p')):
            if base == 'BitAnd':
                v = a if b == TRUE else b if a == TRUE else FALSE if FALSE in (a, b) else ('p', 'and', a, b)
            elif base == 'BitOr':
                v = a if b == FALSE else b if a == FALSE else TRUE if TRUE in (a, b) else ('p', 'or', a, b)
            else:
                v = term('xor', a, b)
        elif base == 'Shl':
            if a == const(1):
                v = term('pow2', b)
            else:
                v = term('bin', base, a, b)
        elif base in ('Div', 'Rem') and is_const(a) and is_const(b) and b[1] > 0 and a[1] >= 0:
            v = const(a[1] // b[1] if base == 'Div' else a[1] % b[1])
        else:
            v = term('bin', base, a, b)
        if over:
            return ('o', 'tuple', 0, (('0', v), ('1', FALSE)), None)
        return v

    def extreme(self, op, a, b, fr, r):
        """comparisons with the largest or smallest value of the type of the operands"""
        if is_const(a) == is_const(b):
            return None
        if is_const(a):
            return self.extreme({'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}[op], b, a, fr, r)
        ty = self.optype(fr, r[2]) or self.optype(fr, r[3])
        bits = {'32': 32, '64': 64, 'size': 64, '16': 16, '8': 8}.get((ty or ' ')[1:])
        if bits is None or ty[0] not in 'iu':
            return None
        lo, hi = (0, 2 ** bits - 1) if ty[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        if b[1] == hi and op in ('Gt', 'Le'):
            return ('b', op == 'Le')
        if b[1] == lo and op in ('Lt', 'Ge'):
            return ('b', op == 'Ge')
        if ty[0] == 'u' and a[0] == 'i' and all(c > 0 for t, c in a[2]):
            # a sum of unsigned values is at least its constant
            if b[1] <= a[1] and op in ('Lt', 'Ge'):
                return ('b', op == 'Ge')
            if b[1] < a[1] and op in ('Gt', 'Le'):
                return ('b', op == 'Gt')
        return None

    def lowest(self, a, b, k):
        """may a be taken as <= b, for a constant and a sum of unsigned values that cannot be below it"""
        t = k.c.get('self')
        if t is None or self.ir.T[t]['s'] not in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128'):
            return None
        low = lambda x: x[0] == 'i' and all(c > 0 for t, c in x[2])
        if is_const(a) and not is_const(b) and low(b) and a[1] <= b[1]:
            return True
        if is_const(b) and not is_const(a) and low(a) and b[1] <= a[1]:
            return False
        return None

    def optype(self, fr, o):
        if o[0] == 'const':
            return self.ir.T[o[1]['ty']]['s']
        t = self.ir.steps(fr.body, o[1])[1]
        return self.ir.T[t]['s'] if t is not None else None

    def numeric(self, v):
        return v[0] in ('i', 't')

    def cmp(self, st, op, a, b):
        a, b = self.through(st, a), self.through(st, b)
        a, b = undisc(a), undisc(b)
        if b[0] == 'd' and a[0] != 'd':
            a, b, op = b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}[op]
        if a[0] == 'd' and is_const(b) and a[2]:
            vs = self.ir.variants(a[2])
            f = {'Lt': lambda x: x < b[1], 'Le': lambda x: x <= b[1], 'Gt': lambda x: x > b[1], 'Ge': lambda x: x >= b[1]}[op]
            return ('p', 'isv', a[1], frozenset(range(len(vs))), frozenset(i for i, v in enumerate(vs) if f(v['discr'])))
        fa, fb = far(a), far(b)
        if fa != fb and op in ('Lt', 'Le', 'Gt', 'Ge'):
            return ('b', (fa < fb) == (op in ('Lt', 'Le')))
        if not (self.numeric(a) and self.numeric(b)):
            return term('cmp', op, a, b)
        if op == 'Lt':
            return le0(add(add(a, b, -1), const(1)))
        if op == 'Le':
            return le0(add(a, b, -1))
        if op == 'Gt':
            return le0(add(add(b, a, -1), const(1)))
        return le0(add(b, a, -1))

    def eq(self, st, a, b):
        """predicate for a == b (structural)"""
        a, b = self.through(st, a), self.through(st, b)
        if a == b:
            return TRUE
        a, b = undisc(a), undisc(b)
        if a[0] == 'd' or b[0] == 'd':
            if a[0] != 'd':
                a, b = b, a
            if b[0] == 'd':
                return ('p', 'eq') + tuple(sorted((a, b), key=ORD))
            if is_const(b) and a[2]:
                vs = self.ir.variants(a[2])
                return ('p', 'isv', a[1], frozenset(range(len(vs))),
                        frozenset(i for i, v in enumerate(vs) if v['discr'] == b[1]))
        if a[0] in ('b', 'p') or b[0] in ('b', 'p'):
            if b[0] == 'b':
                return a if b[1] else neg(a)
            if a[0] == 'b':
                return b if a[1] else neg(b)
            return term('beq', a, b)
        if a[0] == 'i' or b[0] == 'i':
            if self.numeric(a) and self.numeric(b):
                return eq0(add(a, b, -1))
        if a[0] == 'o' or b[0] == 'o':
            if a[0] != 'o':
                a, b = b, a
            if b[0] == 'o':
                if a[1] == b[1] and a[2] != b[2]:
                    return FALSE
                if a[1] == b[1] and a[4] is None and b[4] is None:
                    names = {n for n, _ in a[3]} | {n for n, _ in b[3]}
                    p = TRUE
                    for n in sorted(names):
                        q = self.eq(st, self.field(a, a[1], a[2], n), self.field(b, b[1], b[2], n))
                        if q == FALSE:
                            return FALSE
                        p = q if p == TRUE else p if q == TRUE else ('p', 'and', p, q)
                    return p
            elif b[0] == 't' and self.ir.is_enum(a[1]):
                vs = self.ir.variants(a[1])
                cur = st.facts.get(('V', b))
                if cur is not None and a[2] not in cur:
                    return FALSE
                if not a[3] and a[4] is None and not vs[a[2]]['fields']:
                    return ('p', 'isv', b, frozenset(range(len(vs))), frozenset([a[2]]))
                if cur is not None and cur == frozenset([a[2]]):
                    p = TRUE
                    for n, _ in vs[a[2]]['fields']:
                        q = self.eq(st, self.field(a, a[1], a[2], n), self.tfield(b, a[2], n, a[1]))
                        p = q if p == TRUE else p if q == TRUE else ('p', 'and', p, q)
                    return p
                p = ('p', 'isv', b, frozenset(range(len(vs))), frozenset([a[2]]))
                for n, _ in vs[a[2]]['fields']:
                    q = self.eq(st, self.field(a, a[1], a[2], n), self.tfield(b, a[2], n, a[1]))
                    p = ('p', 'and', p, q)
                return p
        x, y = sorted((a, b), key=ORD)
        p = ('p', 'eq', x, y)
        d = st._deq(p)
        return p if d is None else ('b', d)

    # ------------------------------------------------------------------ bodies
    def exec_body(self, body, args, st):
        """list of (ret, state)"""
        self.stats['bodies'].add(body.key)
        st.ctr += 1
        fid = ('f', st.ctr)
        fr = Frame(body, fid)
        for i, a in enumerate(args):
            st.cells[(fid, i + 1)] = a
        self.stack.append([body, body.span])
        try:
            rets, backs, exits = self.explore(fr, 0, st, None)
        finally:
            self.stack.pop()
        out = []
        n = len(body.locals)
        for ret, s in rets:
            for i in range(n):
                s.cells.pop((fid, i), None)
            out.append((ret, s))
        return out

    def explore(self, fr, bb0, st0, loop, first=True):
        """runs from bb0; loop = (head, blocks) restricts to a loop body."""
        rets, backs, exits = [], [], []
        body = fr.body
        loops = self.ir.loops(body)
        work = [(bb0, st0, True)]
        while work:
            bb, st, start = work.pop()
            if loop is not None and not start:
                if bb == loop[0]:
                    backs.append(st)
                    continue
                if bb not in loop[1]:
                    exits.append((bb, st))
                    continue
            if bb in loops and not (start and loop is not None and bb == loop[0]):
                r2, e2 = self.do_loop(fr, bb, loops[bb], st)
                rets.extend(r2)
                for b, s in e2:
                    work.append((b, s, False))
                continue
            for nb, s in self.block(fr, bb, st):
                if nb is None:
                    rets.append(s)
                else:
                    work.append((nb, s, False))
        return rets, backs, exits

    def block(self, fr, bb, st):
        """list of (next bb | None, state | (ret, state))"""
        self.stats['blocks'] += 1
        blk = fr.body.bbs[bb]
        if blk is None:
            return []
        frame = self.stack[-1]
        for s in blk[0]:
            if s[0] == '=':
                frame[1] = s[3]
                steps, dty = self.ir.steps(fr.body, s[1])
                v = self.rvalue(st, fr, s[2], dty)
                self.assign(st, fr, s[1], v)
            elif s[0] == 'setd':
                l, ty = self.loc(st, fr, s[1])
                st.cells[l[0]] = term('setd', s[2])
            elif s[0] == 'dead':
                st.cells.pop((fr.fid, s[1]), None)
        t = blk[1]
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [(None, (self.cell(st, (fr.fid, 0)), st))]
        if k == 'unreachable' or k == 'unsupported':
            return []
        if k == 'drop':
            l, ty = self.loc(st, fr, t[1])
            v = st.cells.get(l[0]) if not l[1] else self.read(st, l)
            if v is not None:
                self.drop(st, v)
            return [(t[2], st)]
        if k == 'assert':
            frame[1] = t[5]
            c = self.operand(st, fr, t[1])
            if t[4].startswith('overflow') or c[0] == 'b':
                if c[0] == 'b' and c[1] != t[2]:
                    self.panic(st, 'assert:' + t[4])
                    return []
                return [(t[3], st)]
            out = []
            for b, s in self.split(st, c):
                if b == t[2]:
                    out.append((t[3], s))
                else:
                    self.panic(s, 'assert:' + t[4])
            return out
        if k == 'yield':
            return [(t[1], st)]
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'call':
            frame[1] = t[5]
            return self.call_term(st, fr, t)
        return []

    def assign(self, st, fr, place, v):
        if not place[1]:
            st.cells[(fr.fid, place[0])] = v
            return
        l, ty = self.loc(st, fr, place)
        self.write(st, l, v)

    def drop(self, st, v):
        if v[0] != 'o':
            return
        if v[1] == GUARD:
            models.unlock(self, st, v)
            return
        for _, x in v[3]:
            self.drop(st, x)

    def switch(self, st, fr, t):
        v = self.through(st, self.operand(st, fr, t[1]))
        tgts, other = t[3], t[4]
        isbool = self.ir.T[t[2]]['s'] == 'bool'
        out = []
        if isbool or v[0] in ('b', 'p'):
            # switch on bool: value 0 = false
            fb = tb = other
            for val, b in tgts:
                if val == 0:
                    fb = b
                else:
                    tb = b
            for b, s in self.split(st, v):
                out.append((tb if b else fb, s))
            return out
        if v[0] == 'i' and not v[2]:
            for val, b in tgts:
                if val == v[1]:
                    return [(b, st)]
            return [(other, st)]
        if v[0] == 'd' and v[2]:
            vs = self.ir.variants(v[2])
            cur = st.facts.get(('V', v[1]), frozenset(range(len(vs))))
            rest = set(cur)
            n = 0
            for val, b in tgts:
                idx = [i for i in cur if vs[i]['discr'] == val]
                if idx:
                    s = st.copy()
                    s.facts = dict(s.facts)
                    s.facts[('V', v[1])] = frozenset(idx)
                    rest -= set(idx)
                    out.append((b, s))
                    n += 1
            if rest and fr.body.bbs[other] and fr.body.bbs[other][1][0] != 'unreachable':
                s = st.copy()
                s.facts = dict(s.facts)
                s.facts[('V', v[1])] = frozenset(rest)
                out.append((other, s))
            self.count(max(0, len(out) - 1))
            return out
        if v[0] == 'd':
            v = term('disc', v[1])
        # integers
        cur = st
        for val, b in tgts:
            r = self.split(cur, eq0(add(v, const(val), -1)))
            nxt = None
            for tr, s in r:
                if tr:
                    out.append((b, s))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append((other, cur))
        return out

    # ------------------------------------------------------------------ calls
    def call_term(self, st, fr, t):
        self.stats['calls'] += 1
        f = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        if f[0] == 'const':
            fv = self.constant(st, f[1])
        else:
            fv = self.operand(st, fr, f)
        argtys = []
        for o in t[2]:
            argtys.append(o[1]['ty'] if o[0] == 'const' else self.ir.steps(fr.body, o[1])[1])
        res = self.call(st, fv, args, t[6], argtys)
        out = []
        if t[4] is None:
            for r, s in res:
                self.panic(s, 'diverge')
            return []
        for r, s in res:
            self.assign(s, fr, t[3], r)
            out.append((t[4], s))
        return out

    def call(self, st, fv, args, dty, argtys=None):
        """calls an abstract function value: list of (ret, state)"""
        fv = self.through(st, fv) if fv[0] == 'r' else fv
        if fv[0] == 'fn':
            return self.call_fn(st, self.fns[fv[2]], args, dty, argtys)
        if fv[0] == 'o' and fv[1].startswith('closure:'):
            return self.call_closure(st, fv, args)
        if fv[0] == 'o' and fv[1].startswith('#model:'):
            return models.call_special(self, st, fv, args)
        # unknown callable
        return models.opaque(self, st, 'call:' + str(fv[0]), args, dty)

    def call_closure(self, st, fv, args, selfref=None):
        body = self.ir.bodies.get(fv[1][8:])
        if body is None:
            return models.opaque(self, st, fv[1], args, None)
        if self.ir.T[body.locals[1]]['k'] == 'ref':
            if selfref is None:
                st.ctr += 1
                c = ('tmp', st.ctr)
                st.cells[c] = fv
                selfref = ('r', c, ())
            a0 = selfref
        else:
            a0 = fv
        return self.exec_body(body, [a0] + list(args), st)

    def call_fn(self, st, c, args, dty, argtys):
        if 'ctor' in c:
            fs = self.ir.variants(c['ctor'])[c['variant']]['fields']
            return [(self.mkobj(c['ctor'], c['variant'], [(fs[i][0], a) for i, a in enumerate(args)]), st)]
        h = self.opts.get('codec')
        if h is not None:
            r = h(self, st, models.Call(self, c, args, dty, argtys))
            if r is not None:
                return r
        m = models.pre(self, c)
        if m is not None:
            r = m(self, st, models.Call(self, c, args, dty, argtys))
            if r is not None:
                return r
        key = c.get('res') or c['fn']
        body = self.ir.bodies.get(key)
        if body is not None and c.get('rkind', 'item') == 'item':
            if not (body.std and self.opts.get('nostd')):
                if body.derived and body.method == 'clone':
                    return [(self.through(st, args[0]), st)]
                if sum(1 for b, _ in self.stack if b is body) >= 2 or len(self.stack) > 40:
                    self.event(st, 'recursion', (key,))
                    return models.opaque(self, st, key, args, dty)
                if body.in_trait and not body.std and not models.inline_default(self, c, body):
                    pass
                else:
                    return self.exec_body(body, args, st)
        m = models.post(self, c)
        if m is not None:
            r = m(self, st, models.Call(self, c, args, dty, argtys))
            if r is not None:
                return r
        self._argtys = argtys
        return models.opaque(self, st, models.canon(self, c)[-1], args, dty, c)

    # ------------------------------------------------------------------ loops
    def do_loop(self, fr, head, blocks, st0):
        """fixpoint over one loop; returns (returns, exits)"""
        self.stats['loops'] += 1
        n = self.written_out(fr, blocks, st0)
        if n is not None:
            np, nd = len(self.panics), len(self.detached)
            rets, exits, front = [], [], [st0.copy()]
            for i in range(n + 1):
                nxt = []
                for s in front:
                    r, b, e = self.explore(fr, head, s, (head, blocks))
                    rets.extend(r)
                    exits.extend(e)
                    nxt.extend(b)
                front = nxt
            if not front:
                return rets, exits
            del self.panics[np:]
            del self.detached[nd:]
        if self.opts.get('unroll') is not None:
            return self.unroll(fr, head, blocks, st0, self.opts['unroll'])
        st0.ctr += 1
        lid = ('L', fr.body.key, head, st0.ctr)
        npan = len(self.panics)
        ndet = len(self.detached)
        # first pass: does it iterate at all?
        mark = (st0.trace, Ev(('loopmark', (lid,), None, ())), st0.facts, st0.held, st0.ghost)
        s = st0.copy()
        s.trace = mark
        rets, backs, exits = self.explore(fr, head, s, (head, blocks))
        if not backs:
            return self._strip(rets, exits, mark, None, st0)
        phi = Phi(self, lid, st0)
        cur = st0
        for it in range(14):
            cur2, changed = phi.step(cur, backs)
            if not changed:
                break
            cur = cur2
            del self.panics[npan:]
            del self.detached[ndet:]
            s = cur.copy()
            s.trace = mark
            rets, backs, exits = self.explore(fr, head, s, (head, blocks))
        else:
            raise Budget('loop does not stabilise in %s' % fr.body.key)
        segs = []
        for b in backs:
            evs = trace_list(b.trace, mark)
            segs.append((tuple((n[1], n[2], n[3], n[4]) for n in evs), b.facts, phi.deltas(cur, b)))
        loopev = Ev(('loop', (lid, LoopInfo(segs, phi.summary(cur), cur.facts)), None, self.site()))
        return self._strip(rets, exits, mark, loopev, st0)

    def written_out(self, fr, blocks, st):
        """number of iterations of a loop over items that are written out in the code"""
        for b in blocks:
            for x in fr.body.bbs[b][0] if fr.body.bbs[b] else ():
                if x[0] == '=' and x[2][0] == 'ref' and x[2][1] and not x[2][2][1]:
                    v = st.cells.get((fr.fid, x[2][2][0]))
                    n = models.explicit(self, v) if v is not None else None
                    if n is not None and n <= 8:
                        return n
        return None

    def unroll(self, fr, head, blocks, st0, n):
        """the first n iterations, exactly; longer paths are cut (only used to confirm violations)"""
        rets, exits, front = [], [], [st0]
        for i in range(n + 1):
            nxt = []
            for s in front:
                r, b, e = self.explore(fr, head, s, (head, blocks))
                rets.extend(r)
                exits.extend(e)
                nxt.extend(self.within(b))
            front = nxt
        self.stats['cut'] = self.stats.get('cut', 0) + len(front)
        return rets, exits

    def within(self, backs):
        """peeled iterations left on these paths"""
        cap = self.opts.get('iterations', 99)
        out = []
        for s in backs:
            n = s.gget('rounds')[1] + 1
            if n <= cap:
                s.gset('rounds', const(n))
                out.append(s)
            else:
                self.stats['cut'] = self.stats.get('cut', 0) + 1
        return out

    def _strip(self, rets, exits, mark, loopev, st0):
        def fix(s):
            evs = trace_list(s.trace, mark)
            tr = st0.trace
            if loopev is not None:
                tr = (tr, loopev, st0.facts, st0.held, st0.ghost)
            for n in evs:
                tr = (tr,) + n[1:]
            s.trace = tr
            return s
        # panics recorded inside the loop keep a consistent trace as well
        for p in self.panics:
            n = p.st.trace
            while n is not None and n is not mark:
                n = n[0]
            if n is mark and mark is not None:
                fix(p.st)
        for r, s in rets:
            fix(s)
        for b, s in exits:
            fix(s)
        return rets, exits


class LoopInfo:
    """what one abstract iteration may do"""
    def __init__(self, segs, phis, facts):
        self.segs = segs          # [(events with facts, back-edge facts, deltas)]
        self.phis = phis
        self.facts = facts

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return 'Loop(%d segs)' % len(self.segs)


class Phi:
    """Loop-head widening. Changed components become phi terms; affine relations with constant,
    equal deltas and candidate bounds that are inductive are kept."""

    def __init__(self, E, lid, st0):
        self.E = E
        self.lid = lid
        self.st0 = st0
        self.init = {}        # phi term -> initial value
        self.dep = {}         # component path -> (basis phi, k)  (value = init + k*(phi - init_phi))
        self.nodep = set()
        self.cands = {}       # inductive facts currently assumed: ('L', form) -> (lo, hi)
        self.dropped = set()
        self.where = {}       # phi term -> component path

    # -- component-wise join; path identifies the component
    def join(self, path, a, b, changed):
        if a == b:
            return a
        if a in self.init and self.where.get(a) == path:
            return a
        if path in self.dep:
            return a
        if a[0] == 'o' and b[0] == 'o' and a[1] == b[1] and a[2] == b[2]:
            names = sorted({n for n, _ in a[3]} | {n for n, _ in b[3]})
            if (a[4] == b[4]) or True:
                fs = []
                for n in names:
                    x = self.E.field(a, a[1], a[2], n)
                    y = self.E.field(b, b[1], b[2], n)
                    fs.append((n, self.join(path + (n,), x, y, changed)))
                if a[4] == b[4]:
                    return self.E.mkobj(a[1], a[2], fs, a[4]) if a[4] is not None else ('o', a[1], a[2], tuple(fs), None)
                vs = self.E.ir.variants(a[1])
                if vs and len(vs[a[2]]['fields']) == len(fs):
                    return ('o', a[1], a[2], tuple(fs), None)
        if a[0] == 'vec' and b[0] == 'vec':
            ln = self.join(path + ('#len',), a[1], b[1], changed)
            ct = self.join(path + ('#items',), a[2], b[2], changed)
            return ('vec', ln, ct)
        changed.append(path)
        t = term('phi', self.lid, path)
        if t == a:
            return a
        self.init[t] = a
        self.where[t] = path
        if path[-1] == '#len' or (a[0] == 'i' and b[0] != 'i' and b in UNSIGNED):
            UNSIGNED.add(t)
        return t

    def components(self, cur, back, comps):
        """pairs (phi term, back value) for all phi components"""
        out = {}

        def rec(path, a, b):
            if a in self.init and self.where.get(a) == path:
                out[a] = b
                return
            if path in self.dep:
                out[path] = (a, b)
                return
            if a == b:
                return
            if a[0] == 'o' and b[0] == 'o' and a[1] == b[1]:
                for n, x in a[3]:
                    rec(path + (n,), x, self.E.field(b, b[1], b[2], n))
            elif a[0] == 'vec' and b[0] == 'vec':
                rec(path + ('#len',), a[1], b[1])
                rec(path + ('#items',), a[2], b[2])
        for c, v in cur.cells.items():
            w = back.cells.get(c)
            if w is not None:
                rec((c,), v, w)
        gb = dict(back.ghost)
        for n, v in cur.ghost:
            rec((('ghost', n),), v, gb.get(n, const(0)))
        return out

    def step(self, cur, backs):
        changed = []
        new = cur.copy()
        for b in backs:
            for c in list(new.cells):
                v = new.cells[c]
                w = b.cells.get(c)
                if w is None or w == MOVED or v == MOVED:
                    continue
                if v != w:
                    new.cells[c] = self.join((c,), v, w, changed)
            g, gb = dict(new.ghost), dict(b.ghost)
            for n in sorted(set(g) | set(gb)):
                x, y = g.get(n, const(0)), gb.get(n, const(0))
                if x != y:
                    g[n] = self.join((('ghost', n),), x, y, changed)
            new.ghost = tuple(sorted(g.items()))
            if b.store != new.store:
                ns = tuple(x for x in new.store if x in b.store)
                if ns != new.store:
                    new.store = ns
                    changed.append('store')
            if b.held != new.held:
                pass
            # facts that no longer hold at the back edge are dropped below via phi only
        if changed:
            new.facts = dict(self.st0.facts)
            self.cands = {}
            return new, True
        # stable component structure: refine with relations and inductive bounds
        comps = [self.components(cur, b, None) for b in backs]
        ch = False
        # broken dependencies
        for path in list(self.dep):
            phi, k = self.dep[path]
            for c in comps:
                pair = c.get(path)
                if pair is None:
                    continue
                da = add(pair[1], pair[0], -1)
                db = add(c.get(phi, phi), phi, -1)
                if add(da, scale(db, k), -1) != const(0):
                    del self.dep[path]
                    self.nodep.add((path, phi, k))
                    t = term('phi', self.lid, path)
                    self.init[t] = self._initval(path)
                    self.where[t] = path
                    self._replace(new, path, t)
                    ch = True
                    break
        if ch:
            new.facts = dict(self.st0.facts)
            self.cands = {}
            return new, True
        # new dependencies among numeric phis
        nums = [p for p in self.init if self.E.numeric(self.init[p]) and self._live(new, p)]
        nums.sort(key=ORD)
        for i, p in enumerate(nums):
            for q in nums[:i]:
                if not (self._live(new, p) and self._live(new, q)):
                    continue
                for k in (1, -1):
                    if (self.where[p], q, k) in self.nodep:
                        continue
                    ok = True
                    nz = False
                    for c in comps:
                        if p not in c or q not in c or not self.E.numeric(c[p]) or not self.E.numeric(c[q]):
                            # unchanged on this path
                            if (p in c) != (q in c):
                                ok = c.get(p, p) == p and c.get(q, q) == q
                                if not ok:
                                    break
                            elif p in c:
                                ok = False
                                break
                            continue
                        dp = add(c[p], p, -1)
                        dq = add(c[q], q, -1)
                        if dq != const(0):
                            nz = True
                        if add(dp, scale(dq, k), -1) != const(0):
                            ok = False
                            break
                    if ok and nz:
                        path = self.where[p]
                        self.dep[path] = (q, k)
                        val = add(self.init[p], scale(add(q, self.init[q], -1), k))
                        self._replace(new, path, val)
                        del self.init[p]
                        new.facts = dict(self.st0.facts)
                        self.cands = {}
                        return new, True
        # inductive bounds
        cands = self._candidates(cur, backs, comps)
        keep = {}
        for key, (lo, hi) in cands.items():
            keep[key] = (lo, hi)
        if keep != self.cands:
            # drop what is not confirmed, assume the rest
            self.cands = keep
            f = dict(self.st0.facts)
            for key, (lo, hi) in keep.items():
                l0, h0 = f.get(key, (None, None))
                f[key] = (lo if l0 is None else (l0 if lo is None else max(l0, lo)),
                          hi if h0 is None else (h0 if hi is None else min(h0, hi)))
            new.facts = f
            self.rounds = getattr(self, 'rounds', 0) + 1
            if self.rounds > 6:
                self.frozen = True
                self.cands = {}
                new.facts = dict(self.st0.facts)
            return new, True
        return new, False

    def _candidates(self, cur, backs, comps):
        if getattr(self, 'frozen', False):
            return {}
        out = {}
        E = self.E
        phis = [p for p in self.init if E.numeric(self.init[p])]
        phiset = set(phis)

        def holds(form, lo, hi):
            """inductive: true initially and preserved by every iteration (given current cands)"""
            c, d = 0, dict(form)
            e0 = const(0)
            for t, k in d.items():
                e0 = add(e0, scale(self.init[t] if t in phiset else t, k))
            if hi is not None and not implied_le0(self.st0.facts, add(e0, const(hi), -1)):
                return False
            if lo is not None and not implied_le0(self.st0.facts, add(const(lo), e0, -1)):
                return False
            for b, cm in zip(backs, comps):
                e1 = const(0)
                for t, k in d.items():
                    v = cm.get(t, t) if t in phiset else t
                    if not E.numeric(v):
                        return False
                    e1 = add(e1, scale(v, k))
                if hi is not None and not implied_le0(b.facts, add(e1, const(hi), -1)):
                    return False
                if lo is not None and not implied_le0(b.facts, add(const(lo), e1, -1)):
                    return False
            return True
        # monotone: phi >= init / phi <= init
        seen = set()
        for p in phis:
            i0 = self.init[p]
            for e in (add(p, i0, -1),):
                c, d = lin(e)
                if not d:
                    continue
                form, s = canon_form(d)
                # e >= 0 : s*form + c >= 0
                ge = (-(c // s), None) if s > 0 else (None, c // -s)
                le = (None, -c // s) if s > 0 else (-(-c // -s), None)
                for lo, hi in (ge, le):
                    if holds(form, lo, hi):
                        out[('L', form)] = self._merge(out.get(('L', form)), lo, hi)
        # guards at the back edge, rewritten to the head
        for b, cm in zip(backs, comps):
            deltas = {}
            for p in phis:
                v = cm.get(p, p)
                if E.numeric(v):
                    deltas[p] = v
            for key, (lo, hi) in b.facts.items() if False else [(k, v) for k, v in b.facts.items() if k[0] == 'L']:
                form = key[1]
                if not any(t in phiset for t, _ in form):
                    continue
                # express form over new values: p = p' - delta  (constant deltas only)
                shift = 0
                ok = True
                for t, k in form:
                    if t in phiset:
                        dlt = add(deltas.get(t, t), t, -1)
                        if not is_const(dlt):
                            ok = False
                            break
                        shift += k * dlt[1]
                    elif any(contains(t, x) for x in ()) :
                        ok = False
                if not ok:
                    continue
                l2 = None if lo is None else lo + shift
                h2 = None if hi is None else hi + shift
                k2 = (form, l2, h2)
                if k2 in seen:
                    continue
                seen.add(k2)
                if l2 is not None and holds(form, l2, None):
                    out[('L', form)] = self._merge(out.get(('L', form)), l2, None)
                if h2 is not None and holds(form, None, h2):
                    out[('L', form)] = self._merge(out.get(('L', form)), None, h2)
        # facts known at the start that mention initial values: form(init) with init -> phi
        return out

    @staticmethod
    def _merge(old, lo, hi):
        if old is None:
            return (lo, hi)
        l, h = old
        return (lo if l is None else l if lo is None else max(l, lo), hi if h is None else h if hi is None else min(h, hi))

    def _live(self, st, p):
        return p in self.init

    def _initval(self, path):
        c = path[0]
        if isinstance(c, tuple) and c[0] == 'ghost':
            v = dict(self.st0.ghost).get(c[1], const(0))
        else:
            v = self.st0.cells.get(c, term('?'))
        for n in path[1:]:
            if n == '#len':
                v = v[1] if v[0] == 'vec' else term('len', v)
            elif n == '#items':
                v = v[2] if v[0] == 'vec' else v
            else:
                v = self.E.field(v, v[1] if v[0] == 'o' else None, v[2] if v[0] == 'o' else None, n)
        return v

    def _replace(self, st, path, val):
        def rec(v, rest):
            if not rest:
                return val
            n = rest[0]
            if n == '#len':
                return ('vec', rec(v[1], rest[1:]), v[2])
            if n == '#items':
                return ('vec', v[1], rec(v[2], rest[1:]))
            fs = tuple(sorted([(m, x) for m, x in v[3] if m != n] +
                              [(n, rec(self.E.field(v, v[1], v[2], n), rest[1:]))]))
            return ('o', v[1], v[2], fs, v[4])
        c = path[0]
        if isinstance(c, tuple) and c[0] == 'ghost':
            g = dict(st.ghost)
            g[c[1]] = rec(g.get(c[1], const(0)), path[1:])
            st.ghost = tuple(sorted(g.items()))
        elif c in st.cells:
            st.cells[c] = rec(st.cells[c], path[1:])

    def deltas(self, cur, b):
        out = {}
        for p, v in self.components(cur, b, None).items():
            if p in self.init:
                if self.E.numeric(v) and self.E.numeric(self.init[p]):
                    out[p] = add(v, p, -1)
                else:
                    out[p] = v
        return out

    def summary(self, cur):
        return dict(self.init)
