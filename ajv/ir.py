"""Loads the MIR dump of one crate and prepares it for the analysis: types, ADTs, impls, CFG, loops."""
import json


def last(path):
    """Last path segment without generic arguments."""
    p = path.split('<')[0] if not path.startswith('<') else path
    return p.rsplit('::', 1)[-1]


class Body:
    __slots__ = ('key', 'name', 'kind', 'argc', 'cor', 'span', 'std', 'vis', 'parent', 'impl_self', 'impl_trait',
                 'trait_args', 'in_trait', 'method', 'derived', 'locals', 'names', 'bbs', '_loops', '_steps', 'argnames')

    def __init__(self, d):
        self.key = d['key']
        self.name = d['name']
        self.kind = d['kind']
        self.argc = d['argc']
        self.cor = d['coroutine']
        self.span = d['span']
        self.std = d['std']
        self.vis = d.get('vis')
        self.parent = d.get('parent')
        self.impl_self = d.get('impl_self')
        self.impl_trait = d.get('impl_trait')
        self.trait_args = d.get('trait_args')
        self.in_trait = d.get('in_trait')
        self.method = d.get('method')
        self.derived = d.get('derived', False)
        self.locals = d['locals']
        self.names = d['names']
        self.bbs = d['bbs']
        self._loops = None
        self._steps = {}
        self.argnames = {}
        for n, p in self.names:
            if not p[1] and 1 <= p[0] <= self.argc:
                self.argnames.setdefault(p[0], n)

    @property
    def short(self):
        return self.name


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[3]] + [t[4]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[3]]
    if k == 'yield':
        return [t[1]]
    return []


class IR:
    def __init__(self, path):
        self.fns = {}
        with open(path) as f:
            d = json.load(f)
        self.crate = d['crate']
        self.T = d['types']
        self.adts = d['adts']
        self.statics = dict(d['statics'])
        self.impls = d['impls']
        self.local_adts = {p for p, a in self.adts.items() if a.get('local')}
        self.canonical()
        self.bodies = {}
        for b in d['bodies']:
            bd = Body(b)
            self.bodies.setdefault(bd.key, bd)

    def canonical(self):
        """Private fields are found by their type: their names are no part of any property."""
        ints = ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'usize', 'isize')
        want = {
            'WorkQueue': {'name': lambda s: 'String' in s or s.endswith('str'), 'config': lambda s: s.endswith('WorkQueueConfig'), 'backend': lambda s: 'Backend' in s},
            'AJ': {'backend': lambda s: 'Backend' in s},
            'PluginCenter': {'plugins': lambda s: 'JobPluginWrapper' in s},
            'JobPluginWrapper': {'hook': lambda s: 'JobPlugin ' in s or s.endswith('JobPlugin'), 'job_type_ids': lambda s: 'TypeId' in s},
            'Retry': {'retried_times': lambda s: s in ints, 'max_retries': lambda s: 'Option<' in s, 'strategy': lambda s: s.endswith('RetryStrategy')},
        }
        for path, a in self.adts.items():
            w = want.get(last(path))
            if not w or not a.get('local') or a['kind'] != 'struct':
                continue
            fs = a['variants'][0]['fields']
            names = [f[0] for f in fs]
            for c, pred in w.items():
                if c in names:
                    continue
                hit = [f for f in fs if f[0] not in w and pred(self.T[f[1]]['s'])]
                if len(hit) == 1:
                    hit[0][0] = c

    # ---- types
    def ty(self, i):
        return self.T[i] if i is not None else {'k': 'other', 's': '?'}

    def adt_of(self, i):
        t = self.ty(i)
        return t['path'] if t['k'] == 'adt' else None

    def strip_ref(self, i):
        t = self.ty(i)
        while t['k'] in ('ref', 'ptr'):
            i = t['t']
            t = self.ty(i)
        return i

    def variants(self, path):
        a = self.adts.get(path)
        return a['variants'] if a else None

    def is_enum(self, path):
        a = self.adts.get(path)
        return bool(a) and a['kind'] == 'enum'

    # ---- places
    def steps(self, body, place):
        """Resolved projection steps of a place: ('d',), ('f', adt, variant_index, name), ('x', ...)."""
        k = id(place)
        r = body._steps.get(k)
        if r is not None:
            return r
        ty = body.locals[place[0]]
        var = None
        out = []
        for e in place[1]:
            t = self.ty(ty)
            if e[0] == 'deref':
                out.append(('d',))
                if t['k'] in ('ref', 'ptr'):
                    ty = t['t']
                elif t['k'] == 'adt' and t['args']:
                    ty = t['args'][0]
                else:
                    ty = None
                var = None
            elif e[0] == 'dc':
                var = e[1]
            elif e[0] == 'f':
                name = str(e[1])
                adt = t['k']
                if t['k'] == 'adt':
                    adt = t['path']
                    vs = self.variants(adt)
                    try:
                        name = vs[var or 0]['fields'][e[1]][0]
                    except (TypeError, IndexError):
                        pass
                out.append(('f', adt, var, name))
                ty = e[2]
                var = None
            elif e[0] == 'nop':
                pass
            else:
                out.append(('x',) + tuple(e))
                ty = t.get('t')
                var = None
        r = (out, ty)
        body._steps[k] = r
        return r

    # ---- loops
    def loops(self, body):
        """head -> set of blocks of the natural loop."""
        if body._loops is not None:
            return body._loops
        n = len(body.bbs)
        sc = [succs(b[1]) if b else [] for b in body.bbs]
        sc = [[s for s in x if body.bbs[s]] for x in sc]
        # reachable + reverse postorder
        order, seen, st = [], set(), [(0, iter(sc[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(sc[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        preds = {b: [] for b in order}
        for b in order:
            for s in sc[b]:
                preds[s].append(b)
        dom = {b: None for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in preds[b] if dom[p] is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in order:
            for s in sc[b]:
                if s in dom[b]:
                    body_set = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body_set:
                            continue
                        body_set.add(x)
                        work.extend(preds[x])
        body._loops = loops
        return loops

    # ---- lookups
    def find_impl(self, trait_last, self_path=None, targ_path=None, method=None):
        """Body of `method` in `impl Trait<targ> for Self` (matched on ADT paths)."""
        out = []
        for im in self.impls:
            tr = im.get('trait')
            if not tr or last(tr) != trait_last:
                continue
            if self_path is not None and self.adt_of(im['self']) != self_path:
                continue
            if targ_path is not None:
                ta = im.get('targs', [])
                if len(ta) < 2 or self.adt_of(ta[1]) != targ_path:
                    continue
            for nm, key in im['items']:
                if nm == method and key in self.bodies:
                    out.append(self.bodies[key])
        return out

    def fn(self, suffix):
        """Free function or method by trailing path of its printed name, e.g. 'aj::AJ::start'."""
        out = []
        for b in self.bodies.values():
            if b.std or b.kind == 'Closure':
                continue
            if _norm(b.name) == suffix:
                out.append(b)
        return out


def _norm(name):
    """printed name without generics: queue::WorkQueue::<M>::enqueue -> queue::WorkQueue::enqueue;
    <impl job::Job<M>>::run -> job::Job::run"""
    out, i, n = [], 0, len(name)
    s = name
    if s.startswith('<impl ') or '::<impl ' in s:
        k = s.index('<impl ')
        depth = 0
        for j in range(k, n):
            if s[j] == '<':
                depth += 1
            elif s[j] == '>' and s[j - 1] != '-':
                depth -= 1
                if depth == 0:
                    break
        inner = s[k + 6:j]
        if ' for ' in inner:
            return name
        s = inner + s[j + 1:]
    depth = 0
    res = ''
    if s.startswith('<'):
        return name
    for i, c in enumerate(s):
        if c == '<':
            depth += 1
        elif c == '>' and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            res += c
    return res.replace('::::', '::').rstrip(':')
