"""Rules over the encoding of stored records: the reader is interpreted on the abstract output of the writer."""
import re
from .world import *
from .models import ok, err, some, NONE, OPT, RES, deref, tyname

COARSE = re.compile(r'(ts_seconds|ts_milliseconds|DurationSeconds<|DurationMilliSeconds<|TimestampSeconds<|TimestampMilliSeconds<)')
SER = term('ser')
MAPLIKE = ('struct', 'map')


def enc(kind, *a):
    return term('enc', kind) + a


def is_enc(v):
    return v[:2] == ('t', 'enc')


def text(E, st, v):
    v = E.resolve(st, deref(E, st, v))
    if v[0] == 's' and len(v[1]) <= 1 and all(isinstance(x, str) for x in v[1]):
        return v[1][0] if v[1] else ''
    return None


def newref(st, v):
    c = ('codec', st.fresh('cell'))
    st.cells[c] = v
    return ('r', c, ())


def codec_name(E, c):
    """name of a foreign encoding: module of the function, type it is for"""
    n = c['fn'].rsplit('::', 1)[0]
    ta = c.get('targs') or []
    if 'impl_self' in c:
        n = '%s<%s>' % (tyname(E, c['impl_self']), E.ir.T[ta[0]]['s'] if ta else '')
    return n


def methods(E, v, name):
    """bodies of a visitor method for this visitor value"""
    p = v[1] if v[0] == 'o' else None
    return E.ir.find_impl('Visitor', p, None, name) if p else []


class Stuck(Exception):
    pass


class Codec:
    """hook of the engine: the serde data model"""
    def __call__(self, E, st, k):
        c = k.c
        tr = last(c['trait']) if 'trait' in c else None
        m = c.get('method') or last(c['fn'])
        f = getattr(self, '%s_%s' % (tr, m), None) if tr else None
        if f is not None:
            return f(E, st, k)
        if tr == 'Serializer' and m.startswith('serialize_'):
            return self.prim(E, st, k)
        if tr in ('SerializeStruct', 'SerializeTupleVariant', 'SerializeStructVariant', 'SerializeTupleStruct', 'SerializeTuple', 'SerializeSeq', 'SerializeMap'):
            return self.acc(E, st, k, m)
        if tr == 'Deserializer' and m.startswith('deserialize_'):
            return self.deser(E, st, k, m[12:])
        if tr == 'Serialize' and m == 'serialize':
            return self.okall(self.encode(E, st, c['self'], k.args[0]))
        if tr == 'Deserialize' and m == 'deserialize':
            return self.decode(E, st, c['self'], self.node(E, st, k.args[0]))
        if tr == 'Error' and c['trait'].startswith('serde'):
            return [(term('serde_error', m, tuple(E.resolve(st, a) for a in k.args[:1])), st)]
        if m == 'missing_field' and 'serde' in c['fn']:
            t = E.ir.T[c['targs'][0]]
            if t['k'] == 'adt' and last(t['path']) == 'Option':
                return [(ok(NONE), st)]
            return [(err(term('serde_error', m, text(E, st, k.args[0]))), st)]
        if tr is None and not self.local(E, c):
            if SER in k.args:
                v = [E.resolve(st, deref(E, st, a)) for a in k.args if a != SER]
                if len(v) == 1:
                    return [(ok(enc('leaf', codec_name(E, c), v[0])), st)]
            for a in k.args:
                if a[:2] == ('t', 'de'):
                    return self.foreign(E, st, codec_name(E, c), self.node(E, st, a))
        return None

    def local(self, E, c):
        return (c.get('res') or c['fn']) in E.ir.bodies and not E.ir.bodies[c.get('res') or c['fn']].std

    def okall(self, rs):
        return [(ok(n), s) for n, s in rs]

    # ---------------------------------------------------------------- writer
    def encode(self, E, st, ty, v):
        """[(node, state)]"""
        ty = E.ir.strip_ref(ty)
        v = E.resolve(st, deref(E, st, v))
        p = E.ir.adt_of(ty)
        while p and last(p) in ('Box', 'Arc', 'Rc', 'Cow'):
            ty = E.ir.T[ty]['args'][0]
            p = E.ir.adt_of(ty)
        if p in E.ir.local_adts:
            if '::serialize::' in p:
                out = []
                for b in E.ir.find_impl('Serialize', p, None, 'serialize')[:1]:
                    for r, s in E.exec_body(b, [newref(st, v), SER], st):
                        if r[0] == 'o' and r[1] == RES and r[2] == 0:
                            out.append((r[3][0][1], s))
                        else:
                            raise Stuck('writer')
                return out
            return [(enc('rec', p, v), st)]
        return [(enc('leaf', E.ir.T[ty]['s'], v), st)]

    def prim(self, E, st, k):
        m = k.c['method'][10:]
        a = k.args
        if m in ('struct', 'tuple_struct', 'tuple', 'seq', 'map'):
            return [(ok(term('acc', m, None, ())), st)]
        if m == 'unit_variant':
            return [(ok(enc('variant', text(E, st, a[3]), 'unit', None)), st)]
        if m == 'newtype_variant':
            return [(ok(enc('variant', text(E, st, a[3]), 'newtype', n)), s) for n, s in self.encode(E, st, k.targ(1), a[4])]
        if m in ('tuple_variant', 'struct_variant'):
            return [(ok(term('acc', m, text(E, st, a[3]), ())), st)]
        if m == 'newtype_struct':
            return self.okall(self.encode(E, st, k.targ(1), a[2]))
        if m == 'some':
            return self.okall(self.encode(E, st, k.targ(1), a[1]))
        if m in ('none', 'unit', 'unit_struct'):
            return [(ok(enc('null')), st)]
        if len(a) == 2:
            return [(ok(enc('prim', m, E.resolve(st, deref(E, st, a[1])))), st)]
        raise Stuck('writer ' + m)

    def acc(self, E, st, k, m):
        a = k.args
        if m == 'end':
            v = deref(E, st, a[0])
            if v[:2] != ('t', 'acc'):
                raise Stuck('writer')
            if v[2] in ('tuple_variant', 'struct_variant'):
                return [(ok(enc('variant', v[3], v[2][:-8], v[4])), st)]
            return [(ok(enc(v[2], v[4])), st)]
        r = a[0]
        v = deref(E, st, r)
        if v[:2] != ('t', 'acc') or r[0] != 'r':
            raise Stuck('writer')
        while E.read(st, (r[1], r[2]))[0] == 'r':
            r = E.read(st, (r[1], r[2]))
        if m == 'skip_field':
            return [(ok(UNIT), st)]
        if m == 'serialize_field' and len(a) == 3 or m == 'serialize_entry':
            name, ty, x = text(E, st, a[1]), k.targ(len(k.c['targs']) - 1), a[2]
            if name is None:
                raise Stuck('name of a field')
        elif m in ('serialize_field', 'serialize_element'):
            name, ty, x = None, k.targ(1), a[1]
        else:
            raise Stuck('writer ' + m)
        out = []
        for n, s in self.encode(E, st, ty, x):
            E.write(s, (r[1], r[2]), term('acc', v[2], v[3], v[4] + ((name, n),)))
            out.append((ok(UNIT), s))
        return out

    # ---------------------------------------------------------------- reader
    def node(self, E, st, v):
        v = deref(E, st, v)
        if v[:2] == ('t', 'de'):
            return v[2]
        raise Stuck('reader')

    def foreign(self, E, st, name, n):
        if n[2] == 'leaf':
            if n[3] == name:
                return [(ok(term('coarse', name, n[4]) if COARSE.search(name) else n[4]), st)]
            return [(ok(term('recoded', n[3], name, n[4])), st)]
        if n[2] == 'prim':
            raise Stuck('encoding written by hand')
        return [(err(term('serde_error', 'shape', name)), st)]

    def decode(self, E, st, ty, n):
        """[(Result, state)]"""
        t = E.ir.T[ty]
        p = E.ir.adt_of(ty)
        if p and last(p) == 'IgnoredAny':
            return [(ok(UNIT), st)]
        while p and last(p) in ('Box', 'Arc', 'Rc', 'Cow'):
            ty = t['args'][0]
            t = E.ir.T[ty]
            p = E.ir.adt_of(ty)
        if t['k'] == 'adt' and last(p) == 'PhantomData':
            return [(ok(UNIT), st)]
        if n[2] == 'rec':
            if p == n[3]:
                return [(ok(n[4]), st)]
            if p in E.ir.local_adts and '::deserialize' not in p:
                return [(ok(term('recoded', last(n[3]), last(p), n[4])), st)]
        if p in E.ir.local_adts:
            bs = E.ir.find_impl('Deserialize', p, None, 'deserialize')
            if len(bs) != 1:
                raise Stuck('reader of ' + p)
            return E.exec_body(bs[0], [term('de', n)], st)
        if n[2] == 'leaf':
            if n[3] == t['s']:
                return [(ok(n[4]), st)]
            if t['k'] == 'adt' or '::' in n[3]:
                # a foreign encoding on one side only
                return [(ok(term('recoded', n[3], t['s'], n[4])), st)]
            raise Stuck('%s read as %s' % (n[3], t['s']))
        if n[2] == 'prim' and n[3] == t['s']:
            return [(ok(n[4]), st)]
        if n[2] == 'name':
            raise Stuck('name')
        raise Stuck('reader of ' + t['s'])

    def visit(self, E, st, vis, name, arg):
        vis = E.resolve(st, deref(E, st, vis))
        bs = methods(E, vis, name)
        if not bs:
            if vis[0] != 'o':
                raise Stuck('visitor')
            return [(err(term('serde_error', 'invalid_type', name)), st)]
        return E.exec_body(bs[0], [vis, arg], st)

    def deser(self, E, st, k, m):
        n = self.node(E, st, k.args[0])
        vis = k.args[-1]
        if n[2] == 'name':
            return self.visit(E, st, vis, 'visit_str', lit(n[3]))
        if n[2] in MAPLIKE:
            return self.visit(E, st, vis, 'visit_map', term('items', n[3], 0))
        if n[2] in ('seq', 'tuple', 'tuple_struct'):
            return self.visit(E, st, vis, 'visit_seq', term('items', n[3], 0))
        if n[2] == 'variant':
            if m == 'enum':
                return self.visit(E, st, vis, 'visit_enum', term('variant', n))
            raise Stuck('enum read as ' + m)
        if m == 'newtype_struct' and n[2] in ('leaf', 'rec', 'prim'):
            return self.visit(E, st, vis, 'visit_newtype_struct', term('de', n))
        raise Stuck('reader ' + m)

    def items(self, E, st, a):
        r = a
        v = deref(E, st, r)
        if v[:2] != ('t', 'items') or r[0] != 'r':
            raise Stuck('reader')
        while E.read(st, (r[1], r[2]))[0] == 'r':
            r = E.read(st, (r[1], r[2]))
        return r, v[2], v[3]

    def MapAccess_next_key(self, E, st, k):
        r, it, i = self.items(E, st, k.args[0])
        if i >= len(it):
            return [(ok(NONE), st)]
        return self.lift(self.decode(E, st, k.targ(1), enc('name', it[i][0])))

    def lift(self, rs):
        out = []
        for v, s in rs:
            if v[0] == 'o' and v[1] == RES:
                out.append((ok(some(v[3][0][1])) if v[2] == 0 else v, s))
            else:
                raise Stuck('reader')
        return out

    def MapAccess_next_value(self, E, st, k):
        r, it, i = self.items(E, st, k.args[0])
        if i >= len(it):
            raise Stuck('reader')
        E.write(st, (r[1], r[2]), term('items', it, i + 1))
        return self.decode(E, st, k.targ(1), it[i][1])

    def SeqAccess_next_element(self, E, st, k):
        r, it, i = self.items(E, st, k.args[0])
        if i >= len(it):
            return [(ok(NONE), st)]
        E.write(st, (r[1], r[2]), term('items', it, i + 1))
        return self.lift(self.decode(E, st, k.targ(1), it[i][1]))

    def EnumAccess_variant(self, E, st, k):
        v = deref(E, st, k.args[0])
        if v[:2] != ('t', 'variant'):
            raise Stuck('reader')
        out = []
        for x, s in self.decode(E, st, k.targ(1), enc('name', v[2][3])):
            if not (x[0] == 'o' and x[1] == RES):
                raise Stuck('reader')
            out.append((ok(('o', 'tuple', 0, (('0', x[3][0][1]), ('1', v)), None)) if x[2] == 0 else x, s))
        return out

    def shape(self, E, st, k, want):
        v = deref(E, st, k.args[0])
        if v[:2] != ('t', 'variant'):
            raise Stuck('reader')
        n = v[2]
        return n if n[4] == want else None

    def bad_shape(self, st, want):
        return [(err(term('serde_error', 'shape', want)), st)]

    def VariantAccess_unit_variant(self, E, st, k):
        n = self.shape(E, st, k, 'unit')
        return [(ok(UNIT), st)] if n else self.bad_shape(st, 'unit')

    def VariantAccess_newtype_variant(self, E, st, k):
        n = self.shape(E, st, k, 'newtype')
        return self.decode(E, st, k.targ(1), n[5]) if n else self.bad_shape(st, 'newtype')

    def VariantAccess_tuple_variant(self, E, st, k):
        n = self.shape(E, st, k, 'tuple')
        return self.visit(E, st, k.args[2], 'visit_seq', term('items', n[5], 0)) if n else self.bad_shape(st, 'tuple')

    def VariantAccess_struct_variant(self, E, st, k):
        n = self.shape(E, st, k, 'struct')
        return self.visit(E, st, k.args[2], 'visit_map', term('items', n[5], 0)) if n else self.bad_shape(st, 'struct')


# ---------------------------------------------------------------- C20
def record_types(ir, root):
    """the local types a stored job is made of"""
    out, work = [], [root]
    while work:
        p = work.pop()
        if p in out:
            continue
        out.append(p)
        for v in ir.variants(p):
            for f in v['fields']:
                ts = [f[1]]
                while ts:
                    t = ir.T[ts.pop()]
                    if t['k'] == 'adt':
                        if t['path'] in ir.local_adts:
                            work.append(t['path'])
                        ts.extend(t['args'])
                    elif t['k'] in ('ref', 'ptr', 'slice', 'array'):
                        ts.append(t['t'])
    return out


def explain(v):
    for x in iter_terms(v):
        if len(x) > 1 and x[0] == 't' and x[1] == 'serde_error':
            return '%s %s' % (x[2], show_arg(x[3]))
    return 'an error'


def show_arg(a):
    if isinstance(a, tuple) and a and isinstance(a[0], tuple) and a[0][0] == 's':
        return ''.join(str(x) for x in a[0][1])
    return a if isinstance(a, str) else ''


def C20(W, R):
    R.rule('readable', 'every value of every type of a stored record that the writer produces is accepted by the reader')
    R.rule('same-value', 'the reader puts what the writer wrote for a field into the same field (same name, variant, position and unit; nothing is skipped or replaced by a default)')
    R.rule('precision', 'instants and durations are stored with a precision of microseconds or better')
    ir = W.ir
    for p in sorted(record_types(ir, entry.adt(ir, 'Job'))):
        ws = ir.find_impl('Serialize', p, None, 'serialize')
        rs = ir.find_impl('Deserialize', p, None, 'deserialize')
        if not ws or not rs:
            R.unclear('readable', last(p), 'no encoding of its own')
            continue
        roundtrip(W, R, p, ws[0], rs[0])


def roundtrip(W, R, p, ws, rd):
    ir = W.ir
    enum = ir.is_enum(p)
    for i, v in enumerate(ir.variants(p)):
        where = last(p) + ('::' + v['name'] if enum else '')
        E = W.engine(opts=dict(unroll=40, iterations=40, codec=Codec()))
        st = State()
        rec = term('rec', p)
        if enum and not st.assume(E.isv(rec, p, [v['name']])):
            continue
        try:
            n = 0
            for w, s in E.exec_body(ws, [newref(st, rec), SER], st):
                if w[0] == 'o' and w[1] == RES and w[2] == 1:
                    R.bad('readable', where + ':write', 'a %s is never written: %s' % (where, explain(w)), Outcome('return', w, s))
                    continue
                if not (w[0] == 'o' and w[1] == RES and is_enc(w[3][0][1])):
                    raise Stuck('written value')
                node = w[3][0][1]
                for r, s2 in E.exec_body(rd, [term('de', node)], s):
                    n += 1
                    judge(E, R, where, p, i, v, rec, E.resolve(s2, r), Outcome('return', r, s2))
            if not n:
                R.unclear('readable', where, 'no path')
        except Stuck as x:
            R.unclear('readable', where, x)
        except Budget as x:
            R.unclear('readable', where, x)


def equal(E, st, got, want):
    if got == want:
        return True
    if got[0] == 'o' and not got[3] and got[4] is None and E.ir.variants(got[1]):
        return st.decide(E.isv(want, got[1], [E.ir.variants(got[1])[got[2]]['name']])) is True
    if got[0] in 'ib':
        return st.decide(eq0(add(got, want, -1))) is True
    return False


UNIT_OF = {'timestamp': 's', 'timestamp_millis': 'ms', 'timestamp_micros': 'us', 'timestamp_nanos_opt': 'ns', 'num_seconds': 's', 'num_milliseconds': 'ms',
           'num_microseconds': 'us', 'num_nanoseconds': 'ns', 'as_secs': 's', 'as_millis': 'ms', 'as_micros': 'us', 'as_nanos': 'ns'}
MAKE = {'from_timestamp': 's', 'from_timestamp_millis': 'ms', 'from_timestamp_micros': 'us', 'from_timestamp_nanos': 'ns', 'timestamp_opt': 's',
        'timestamp_millis_opt': 'ms', 'timestamp_micros_opt': 'us', 'timestamp_micros': 'us', 'timestamp_nanos': 'ns', 'seconds': 's', 'try_seconds': 's',
        'milliseconds': 'ms', 'try_milliseconds': 'ms', 'microseconds': 'us', 'nanoseconds': 'ns', 'from_secs': 's', 'from_millis': 'ms',
        'from_micros': 'us', 'from_nanos': 'ns'}


def by_hand(got, want):
    """(unit written, unit read) of an instant or duration converted by local code"""
    r, w = set(), set()
    for x in iter_terms(got):
        if len(x) > 2 and x[0] == 't':
            n = x[2] if x[1] == 'call' and isinstance(x[2], str) else x[1]
            n = last(n) if isinstance(n, str) else None
            if want in x[2:] or any(isinstance(y, tuple) and want in y for y in x[2:]):
                w.add(UNIT_OF.get(n))
            elif n in MAKE:
                r.add(MAKE[n])
    return (w.pop() if len(w) == 1 else None), (r.pop() if len(r) == 1 else None)


def judge(E, R, where, p, i, v, rec, r, o):
    if not (r[0] == 'o' and r[1] == RES):
        R.unclear('readable', where, 'what is read')
        return
    if r[2] == 1:
        if murky(r):
            R.unclear('readable', where, 'what is read')
        else:
            R.bad('readable', where, 'a written %s is rejected when it is read: %s' % (where, explain(r)), o)
        return
    R.ok('readable')
    x = r[3][0][1]
    if x[:2] == ('t', 'recoded'):
        R.bad('same-value', where, 'a %s is read as something else' % where, o)
        return
    if E.ir.is_enum(p):
        if x[0] == 'o' and x[2] != i:
            R.bad('same-value', where, 'a written %s is read as %s' % (where, E.ir.variants(p)[x[2]]['name']), o)
            return
        if x[0] != 'o' and x != rec:
            R.unclear('same-value', where, 'what is read')
            return
    for f in v['fields']:
        want = E.tfield(rec, i if E.ir.is_enum(p) else None, f[0], p)
        got = want if x == rec else E.field(x, p, i, f[0])
        name = '%s.%s' % (where, f[0])
        if equal(E, o.st, got, want):
            R.ok('same-value')
            R.ok('precision')
        elif got[:2] == ('t', 'coarse') and got[3] == want:
            R.bad('precision', name, '%s is stored with %s, which drops everything below its unit' % (name, got[2]), o)
        elif got[:2] == ('t', 'recoded'):
            R.bad('same-value', name, '%s is written with %s and read with %s' % (name, got[2], got[3]), o)
        elif by_hand(got, want)[0] and by_hand(got, want)[1]:
            w, r = by_hand(got, want)
            if w != r:
                R.bad('same-value', name, '%s is written in %s and read as %s' % (name, w, r), o)
            elif w in ('s', 'ms'):
                R.bad('precision', name, '%s is stored in %s, which drops everything below' % (name, w), o)
            else:
                R.ok('same-value')
                R.ok('precision')
        elif murky(got) or got[:2] == ('t', 'rec?'):
            R.unclear('same-value', name, show.sv(got)[:60])
        else:
            R.bad('same-value', name, '%s is read as %s' % (name, show.sv(got)[:80]), o)
