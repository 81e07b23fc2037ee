"""Models of everything outside the analysed crates: std containers, strings, formatting, time, futures,
actix, dashmap, serde_json, redis, cron. A model returns a list of (result, state) or None (not mine)."""
from .domain import *
from .ir import last

OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = ('o', OPT, 0, (), None)


def some(v):
    return ('o', OPT, 1, (('0', v),), None)


def ok(v):
    return ('o', RES, 0, (('0', v),), None)


def err(v):
    return ('o', RES, 1, (('0', v),), None)


def obj(path, **kw):
    return ('o', path, 0, tuple(sorted(kw.items())), None)


class Call:
    __slots__ = ('E', 'c', 'args', 'dty', 'argtys')

    def __init__(self, E, c, args, dty, argtys):
        self.E, self.c, self.args, self.dty, self.argtys = E, c, args, dty, argtys

    def targ(self, i):
        ta = self.c.get('targs', [])
        return ta[i] if i < len(ta) else None


def tyname(E, i):
    t = E.ir.ty(i)
    k = t['k']
    if k == 'adt':
        return last(t['path'])
    if k in ('ref', 'ptr'):
        return tyname(E, t['t'])
    if k == 'slice':
        return 'slice'
    if k == 'array' or t['s'].startswith('[') and ';' in t['s']:
        return 'array'
    if k == 'dyn':
        return 'dyn ' + last(t['trait'])
    if k == 'param':
        return 'param'
    if k in ('tuple', 'closure', 'coroutine'):
        return k
    return t['s']


_canon = {}


def canon(E, c):
    k = id(c)
    r = _canon.get(k)
    if r is not None and r[0] is c:
        return r[1]
    if 'trait' in c:
        tr, m = last(c['trait']), c['method']
        n = ['%s as %s::%s' % (tyname(E, c['self']), tr, m), '%s::%s' % (tr, m)]
    elif 'impl_self' in c:
        n = ['%s::%s' % (tyname(E, c['impl_self']), c['method'])]
    else:
        p = c['fn'].split('::')
        n = ['%s@%s' % (p[-1], p[0]), p[-1]]
        n = [n[0]]
    _canon[k] = (c, n)
    return n


PRE = {}
POST = {}


def reg(table, *names):
    def d(f):
        for n in names:
            table[n] = f
        return f
    return d


def pre(E, c):
    for n in canon(E, c):
        m = PRE.get(n)
        if m:
            return m
    return None


def post(E, c):
    for n in canon(E, c):
        m = POST.get(n)
        if m:
            return m
    if c['fn'].startswith('redis::') or (c.get('trait') or '').startswith('redis::'):
        return redis_call
    return None


def inline_default(E, c, body):
    """default bodies of the crate's own traits"""
    t = last(body.in_trait)
    if t == 'Executable':
        if body.method == 'retry_at':
            return E.user_retry == 'default'
        return False
    if t == 'JobPlugin':
        return False
    return True


def ret(v, st):
    return [(v, st)]


def pure_args(E, st, args):
    return tuple(E.resolve(st, a) for a in args)


def havoc(E, st, loc, why):
    E.write(st, loc, st.fresh('hv', why))


def opaque(E, st, name, args, dty, c=None):
    """unknown function: pure in its arguments unless it takes &mut"""
    u = E.stats['unmodelled']
    u[name] = u.get(name, 0) + 1
    muts = []
    if c is not None:
        pass
    if dty is not None and E.ir.T[dty]['s'] == '!':
        E.panic(st, 'diverge:' + name)
        return []
    for a in args:
        if a[0] == 'r' and mutable_arg(E, c, args, a):
            muts.append(a)
    ra = pure_args(E, st, args)
    if muts:
        v = st.fresh('call', name, ra)
        for m in muts:
            havoc(E, st, (m[1], m[2]), name)
    else:
        v = term('call', name, ra)
    return ret(wrap_ty(E, st, v, dty), st)


def mutable_arg(E, c, args, a):
    if c is None:
        return False
    i = args.index(a)
    ty = E._argtys[i] if getattr(E, '_argtys', None) and i < len(E._argtys) else None
    return ty is not None and E.ir.T[ty]['k'] == 'ref' and E.ir.T[ty]['mut']


def wrap_ty(E, st, v, dty):
    if dty is None:
        return v
    t = E.ir.T[dty]
    if t['s'] == '()':
        return UNIT
    if t['k'] == 'ref':
        c = ('pt', v)
        if c not in st.cells:
            st.cells[c] = v
        return ('r', c, ())
    return E.coerce(v, dty)


# ---------------------------------------------------------------- helpers
def deref(E, st, v):
    v = E.through(st, v)
    if v[0] == 'o' and v[1] == '#guard':
        return E.through(st, E.field(v, None, None, 'ref'))
    return v


def is_ref(v):
    return v[0] == 'r'


def argref(E, st, v):
    """innermost location a (possibly nested) reference designates"""
    n = 0
    while v[0] == 'r' and n < 20:
        x = E.read(st, (v[1], v[2]))
        if x[0] == 'o' and x[1] == '#guard':
            x = E.field(x, None, None, 'ref')
        if x[0] != 'r':
            return v
        v = x
        n += 1
    if v[0] == 'o' and v[1] == '#guard':
        return argref(E, st, E.field(v, None, None, 'ref'))
    return v


def newcell(E, st, v, tag='tmp'):
    st.ctr += 1
    c = (tag, st.ctr)
    st.cells[c] = v
    return ('r', c, ())


def fork(E, st, *alts):
    """alts: functions state -> result or None"""
    out = []
    E.count(len(alts) - 1)
    for i, f in enumerate(alts):
        s = st if i == len(alts) - 1 else st.copy()
        r = f(s)
        if r is None:
            continue
        if isinstance(r, list):
            out.extend(r)
        else:
            out.append((r, s))
    return out


def split_opt(E, st, v):
    """Option value -> [(payload|None, state)]"""
    v = deref(E, st, v)
    if v[0] == 'o' and v[1] == OPT:
        return [(E.field(v, OPT, 1, '0') if v[2] == 1 else None, st)]
    out = []
    for b, s in E.split(st, E.isv(v, OPT, ('Some',))):
        out.append((E.tfield(v, 1, '0', OPT) if b else None, s))
    return out


def split_res(E, st, v):
    """Result value -> [(is_ok, payload, state)]"""
    v = deref(E, st, v)
    if v[0] == 'o' and v[1] == RES:
        return [(v[2] == 0, E.field(v, RES, v[2], '0'), st)]
    out = []
    for b, s in E.split(st, E.isv(v, RES, ('Ok',))):
        out.append((b, E.tfield(v, 0 if b else 1, '0', RES), s))
    return out


# ---------------------------------------------------------------- identity-like
@reg(PRE, 'Deref::deref', 'DerefMut::deref_mut')
def m_deref(E, st, k):
    a = k.args[0]
    # lazy statics
    sp = E.ir.adt_of(E.ir.strip_ref(k.c['self']))
    if sp and sp in E.ir.statics:
        nm = last(sp)
        c = ('static', nm)
        if c not in st.cells or st.cells[c][0] != 't':
            st.cells[c] = term('static', nm)
        return ret(('r', c, ()), st)
    body = E.ir.bodies.get(k.c.get('res'))
    if body is not None and not body.std:
        return None
    if a[0] == 'r':
        v = E.read(st, (a[1], a[2]))
        if v[0] == 'o' and v[1] == '#guard':
            return ret(E.field(v, None, None, 'ref'), st)
        if v[0] == 'r':
            return ret(v, st)
    elif a[0] == 'o' and a[1] == '#guard':
        return ret(E.field(a, None, None, 'ref'), st)
    return ret(a, st)


@reg(PRE, 'Ref::value', 'RefMut::value', 'RefMut::value_mut')
def m_guard_value(E, st, k):
    a = k.args[0]
    v = E.read(st, (a[1], a[2])) if a[0] == 'r' else a
    if v[0] == 'o' and v[1] == '#guard':
        return ret(E.field(v, None, None, 'ref'), st)
    return None


@reg(PRE, 'AsRef::as_ref', 'Borrow::borrow', 'AsMut::as_mut', 'BorrowMut::borrow_mut', 'String::as_str', 'String::as_mut_str',
     'String::as_bytes', 'str::as_bytes', 'Vec::as_slice', 'Vec::as_mut_slice', 'Pin::new_unchecked', 'Pin::new', 'Pin::as_mut', 'Pin::get_mut',
     'Pin::get_unchecked_mut', 'Box::new', 'Box::pin', 'Arc::new', 'Rc::new', 'IntoFuture::into_future', 'must_use@core',
     'black_box@core', 'Cow::into_owned', 'String::into_boxed_str', 'String::into_bytes', 'Box::leak', 'Arc::clone', 'Vec::into_boxed_slice',
     'identity@core', 'slice::into_vec', 'wrap_future@actix', 'IntoActorFuture::into_actor', 'WrapFuture::into_actor', 'AssertUnwindSafe::new',
     'Arc::from', 'Box::into_inner', 'ManuallyDrop::new', 'FutureExt::boxed_local', 'FutureExt::boxed', 'Arc::as_ref', 'Box::into_pin',
     'ToString::to_string', 'ToOwned::to_owned', 'slice::to_vec', 'String::clone', 'str::to_string', 'str::to_owned', 'String::into_string',
     'Vec::into_iter_placeholder', 'Cell::new', 'RefCell::new', 'Mutex::new', 'RwLock::new', 'OnceLock::new_placeholder', 'Some')
def m_id(E, st, k):
    n = canon(E, k.c)[-1]
    a = k.args[0]
    body = E.ir.bodies.get(k.c.get('res'))
    if body is not None and not body.std and n not in ('Deref::deref',):
        return None
    if n == 'ToString::to_string' and k.c.get('self') is not None:
        t = E.ir.ty(E.ir.strip_ref(k.c['self']))
        v = deref(E, st, a)
        if t['s'] in ('str', 'alloc::string::String') or v[0] == 's':
            return ret(v, st)
        if t['k'] == 'adt' and last(t['path']) == 'Uuid':
            return ret(v, st)
        if v[0] == 'i' and not v[2]:
            return ret(lit(str(v[1])), st)
        return ret(term('display', E.resolve(st, v)), st)
    if n in ('ToOwned::to_owned', 'slice::to_vec', 'Arc::clone', 'Cow::into_owned'):
        return ret(deref(E, st, a), st)
    if n in ('Mutex::new', 'RwLock::new'):
        return ret(obj('#mutex', content=a), st)
    return ret(a, st)


@reg(PRE, 'Clone::clone', 'Clone::clone_from')
def m_clone(E, st, k):
    body = E.ir.bodies.get(k.c.get('res'))
    if body is not None and not body.std and not body.derived:
        return None
    return ret(deref(E, st, k.args[0]), st)


@reg(PRE, 'Option::cloned', 'Option::copied', 'Option::as_ref', 'Option::as_deref', 'Option::as_mut', 'Option::as_deref_mut',
     'Option::clone_placeholder')
def m_optref(E, st, k):
    a = k.args[0]
    m = k.c['method']
    if m in ('cloned', 'copied'):
        v = deref(E, st, a)
        if v[0] == 'o' and v[1] == OPT and v[2] == 1:
            return ret(some(deref(E, st, E.field(v, OPT, 1, '0'))), st)
        return ret(v, st)
    # Option<T> -> Option<&T>
    r = argref(E, st, a)
    v = deref(E, st, a)
    if r[0] != 'r':
        return ret(v, st)
    out = []
    for p, s in split_opt(E, st, v):
        if p is None:
            out.append((NONE, s))
        else:
            # make sure the cell holds a known Some so that writes through the reference are seen
            out.append((some(('r', r[1], r[2] + (('f', OPT, 1, '0'),))), s))
    return out


@reg(PRE, 'Result::as_ref', 'Result::as_mut')
def m_resref(E, st, k):
    r = argref(E, st, k.args[0])
    if r[0] != 'r':
        return ret(deref(E, st, k.args[0]), st)
    out = []
    for okk, p, s in split_res(E, st, deref(E, st, k.args[0])):
        i = 0 if okk else 1
        out.append(((ok if okk else err)(('r', r[1], r[2] + (('f', RES, i, '0'),))), s))
    return out


# ---------------------------------------------------------------- conversions
def from_impl(E, src, dst):
    """local `impl From<src> for dst`"""
    for im in E.ir.impls:
        if im.get('trait') and last(im['trait']) == 'From' and len(im['targs']) == 2:
            if E.ir.T[im['targs'][0]]['s'] == E.ir.T[dst]['s'] and E.ir.T[im['targs'][1]]['s'] == E.ir.T[src]['s']:
                for n, key in im['items']:
                    if n == 'from' and key in E.ir.bodies:
                        return E.ir.bodies[key]
    return None


def convert(E, st, v, src, dst):
    if E.ir.T[src]['s'] == E.ir.T[dst]['s']:
        return ret(v, st)
    b = from_impl(E, src, dst)
    if b is not None:
        return E.exec_body(b, [v], st)
    d = tyname(E, dst)
    s = tyname(E, src)
    strs = ('str', 'String', 'Arc', 'Box', 'Cow', 'Rc', 'slice', 'Vec', 'VecDeque', 'Option', 'PathBuf', 'char')
    if d == 'Option':
        return ret(some(v), st)
    if d in ('HashMap', 'BTreeMap'):
        w = as_vec(E, st, deref(E, st, v))
        if w[2][:1] == ('seq',):
            return map_of(E, st, w[2][1:])
        return ret(term('conv', d, E.resolve(st, v)), st)
    if d in strs or s in strs:
        return ret(deref(E, st, v) if s in ('str', 'String') else v, st)
    if E.ir.T[dst]['k'] == 'prim':
        return ret(v, st)
    return ret(term('conv', d, E.resolve(st, v)), st)


@reg(PRE, 'Into::into')
def m_into(E, st, k):
    src, dst = k.targ(0), k.targ(1)
    b = E.ir.bodies.get(k.c.get('res'))
    if b is not None and not b.std:
        return None
    return convert(E, st, k.args[0], src, dst)


@reg(PRE, 'From::from')
def m_from(E, st, k):
    b = E.ir.bodies.get(k.c.get('res'))
    if b is not None and not b.std:
        return None
    return convert(E, st, k.args[0], k.targ(1), k.targ(0))


@reg(PRE, 'TryFrom::try_from', 'TryInto::try_into')
def m_tryfrom(E, st, k):
    v = k.args[0]
    if v[0] == 'i' and not v[2]:
        return ret(ok(v), st)
    if E.opts.get('conv_fail', True):
        p = term('fits', E.resolve(st, v), E.ir.T[k.dty]['s'] if k.dty is not None else '')
        return [(ok(v) if b else err(term('converr', v)), s) for b, s in E.split(st, p)]
    return ret(ok(v), st)


@reg(PRE, 'FromResidual::from_residual')
def m_residual(E, st, k):
    st_ty, res_ty = E.ir.ty(k.targ(0)), E.ir.ty(k.targ(1))
    n = last(st_ty['path']) if st_ty['k'] == 'adt' else ''
    v = deref(E, st, k.args[0])
    if n == 'Option':
        return ret(NONE, st)
    if n == 'Result' and res_ty['k'] == 'adt' and last(res_ty['path']) == 'Result':
        e = E.field(v, RES, 1, '0')
        return [(err(x), s) for x, s in convert(E, st, e, res_ty['args'][1], st_ty['args'][1])]
    return None


@reg(PRE, 'Try::branch')
def m_branch(E, st, k):
    v = k.args[0]
    CF = 'core::ops::control_flow::ControlFlow'
    n = tyname(E, k.c['self'])
    if n == 'Option':
        out = []
        for p, s in split_opt(E, st, v):
            out.append((('o', CF, 0, (('0', p),), None) if p is not None else ('o', CF, 1, (('0', NONE),), None), s))
        return out
    if n == 'Result':
        out = []
        for okk, p, s in split_res(E, st, v):
            out.append((('o', CF, 0, (('0', p),), None) if okk else ('o', CF, 1, (('0', err(p)),), None), s))
        return out
    return None


@reg(PRE, 'Try::from_output')
def m_from_output(E, st, k):
    n = tyname(E, k.c['self'])
    if n == 'Option':
        return ret(some(k.args[0]), st)
    if n == 'Result':
        return ret(ok(k.args[0]), st)
    return None


# ---------------------------------------------------------------- calls through values
@reg(PRE, 'FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_callonce(E, st, k):
    f = k.args[0]
    tup = E.through(st, k.args[1])
    args = [x for _, x in sorted(tup[3], key=lambda p: int(p[0]))] if tup[0] == 'o' else [tup]
    fv = E.through(st, f)
    if fv[0] == 'o' and fv[1].startswith('closure:'):
        return E.call_closure(st, fv, args, f if f[0] == 'r' else None)
    return E.call(st, fv, args, k.dty)


def callf(E, st, f, args):
    fv = E.through(st, f)
    if fv[0] == 'o' and fv[1].startswith('closure:'):
        return E.call_closure(st, fv, args, f if f[0] == 'r' else None)
    return E.call(st, fv, args, None)


def call_special(E, st, fv, args):
    return opaque(E, st, fv[1], args, None)


@reg(PRE, 'catch_unwind@std')
def m_catch(E, st, k):
    E.event(st, 'iso_begin', ())
    out = []
    for r, s in callf(E, st, k.args[0], []):
        E.event(s, 'iso_end', ())
        out.append((ok(r), s))
    return out


@reg(PRE, 'swap@core', 'replace@core', 'take@core', 'drop@core', 'forget@core')
def m_mem(E, st, k):
    n = canon(E, k.c)[-1].split('@')[0]
    a = k.args[0]
    if n == 'drop':
        E.drop(st, a)
        return ret(UNIT, st)
    if n == 'forget':
        return ret(UNIT, st)
    r = argref(E, st, a)
    if r[0] != 'r':
        return None
    old = E.read(st, (r[1], r[2]))
    if n == 'replace':
        E.write(st, (r[1], r[2]), k.args[1])
        return ret(old, st)
    if n == 'swap':
        q = argref(E, st, k.args[1])
        E.write(st, (r[1], r[2]), E.read(st, (q[1], q[2])))
        E.write(st, (q[1], q[2]), old)
        return ret(UNIT, st)
    if n == 'take':
        E.write(st, (r[1], r[2]), default_of(E, st, k.targ(0)))
        return ret(old, st)


@reg(PRE, 'Option::take', 'Option::replace', 'Option::insert', 'Option::get_or_insert_with', 'Option::get_or_insert')
def m_opttake(E, st, k):
    r = argref(E, st, k.args[0])
    if r[0] != 'r':
        return None
    old = E.read(st, (r[1], r[2]))
    m = k.c['method']
    if m == 'take':
        E.write(st, (r[1], r[2]), NONE)
        return ret(old, st)
    if m == 'replace':
        E.write(st, (r[1], r[2]), some(k.args[1]))
        return ret(old, st)
    loc = ('r', r[1], r[2] + (('f', OPT, 1, '0'),))
    if m == 'insert':
        E.write(st, (r[1], r[2]), some(k.args[1]))
        return ret(loc, st)
    out = []
    for p, s in split_opt(E, st, old):
        if p is not None:
            out.append((loc, s))
        elif m == 'get_or_insert':
            E.write(s, (r[1], r[2]), some(k.args[1]))
            out.append((loc, s))
        else:
            for x, s2 in callf(E, s, k.args[1], []):
                E.write(s2, (r[1], r[2]), some(x))
                out.append((loc, s2))
    return out


def default_of(E, st, ty):
    t = E.ir.ty(ty)
    if t['s'] == 'bool':
        return FALSE
    if t['k'] == 'prim':
        return lit('') if t['s'] == 'str' else const(0)
    n = tyname(E, ty)
    if n == 'Option':
        return NONE
    if n == 'String':
        return lit('')
    if n in ('Vec', 'VecDeque'):
        return ('vec', const(0), ('seq',))
    if n in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'DashMap'):
        return obj('#map', id=st.fresh('map'), init=lit('empty'))
    if n in ('Mutex', 'RwLock'):
        return obj('#mutex', content=default_of(E, st, t['args'][0]))
    if n in ('Arc', 'Box', 'Rc'):
        return default_of(E, st, t['args'][0])
    if n == 'PhantomData':
        return ('o', t['path'], 0, (), None)
    return term('default', t['s'])


@reg(PRE, 'Default::default')
def m_default(E, st, k):
    b = E.ir.bodies.get(k.c.get('res'))
    if b is not None and not b.std:
        return None
    ty = k.c['self'] if E.ir.ty(k.c['self'])['k'] != 'param' else k.dty
    n = tyname(E, ty)
    t = E.ir.ty(ty)
    if n in ('Arc', 'Box', 'Rc') and t.get('args'):
        for im in E.ir.find_impl('Default', E.ir.adt_of(t['args'][0]), None, 'default') if E.ir.adt_of(t['args'][0]) else []:
            return E.exec_body(im, [], st)
    return ret(default_of(E, st, ty), st)


@reg(PRE, 'Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_uordef(E, st, k):
    ty = k.targ(0)
    if E.ir.ty(ty)['k'] == 'param' or (E.ir.adt_of(ty) and E.ir.find_impl('Default', E.ir.adt_of(ty), None, 'default')):
        return None
    if canon(E, k.c)[0].startswith('Option'):
        return [(p if p is not None else default_of(E, s, ty), s) for p, s in split_opt(E, st, k.args[0])]
    return [(p if okk else default_of(E, s, ty), s) for okk, p, s in split_res(E, st, k.args[0])]


# ---------------------------------------------------------------- comparison
@reg(PRE, 'Level as PartialOrd::le', 'Level as PartialOrd::lt', 'Level as PartialOrd::ge', 'Level as PartialOrd::gt',
     'log_enabled@log', 'LevelFilter as PartialOrd::le', 'LevelFilter as PartialOrd::ge', 'LevelFilter as PartialOrd::gt',
     'LevelFilter as PartialOrd::lt')
def m_loglevel(E, st, k):
    # logging is not part of the observable behaviour analysed here: take the "not logged" branch
    # (only the search for panics also looks at the arguments of log lines)
    return ret(TRUE if E.opts.get('logs') else FALSE, st)


def local_nonderived(E, k):
    b = E.ir.bodies.get(k.c.get('res'))
    return b is not None and not b.std and not b.derived


@reg(PRE, 'PartialEq::eq', 'PartialEq::ne', 'str::eq_ignore_ascii_case')
def m_eq(E, st, k):
    if local_nonderived(E, k):
        return None
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    a, b = E.resolve(st, a), E.resolve(st, b)
    if k.c['method'] == 'eq_ignore_ascii_case':
        return ret(term('eqic', a, b) if a != b else TRUE, st)
    p = E.eq(st, a, b)
    return ret(neg(p) if k.c['method'] == 'ne' else p, st)


@reg(PRE, 'PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(E, st, k):
    if local_nonderived(E, k):
        return None
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[k.c['method']]
    if a[0] == 'o' and b[0] == 'o' and not a[3] and not b[3] and a[1] == b[1]:
        x, y = a[2], b[2]
        return ret(('b', {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]), st)
    # Option<T> against Some(x): None is smaller than everything
    if (a[0] == 'o' and a[1] == OPT) or (b[0] == 'o' and b[1] == OPT):
        out = []
        for pa, s in split_opt(E, st, a):
            for pb, s2 in split_opt(E, s, b):
                if pa is not None and pb is not None:
                    out.append((E.cmp(s2, op, deref(E, s2, pa), deref(E, s2, pb)), s2))
                else:
                    x, y = int(pa is not None), int(pb is not None)
                    out.append((('b', {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]), s2))
        return out
    return ret(E.cmp(st, op, a, b), st)


ORDERING = 'core::cmp::Ordering'


@reg(PRE, 'Ord::cmp', 'PartialOrd::partial_cmp')
def m_cmp(E, st, k):
    if local_nonderived(E, k):
        return None
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    if not (E.numeric(a) and E.numeric(b)):
        return None
    out = []

    def mk(i):
        v = ('o', ORDERING, i, (), None)
        return some(v) if k.c['method'] == 'partial_cmp' else v
    for lt, s in E.split(st, E.cmp(st, 'Lt', a, b)):
        if lt:
            out.append((mk(0), s))
            continue
        for e, s2 in E.split(s, eq0(add(a, b, -1))):
            out.append((mk(1 if e else 2), s2))
    return out


@reg(PRE, 'Ord::max', 'Ord::min', 'max@core', 'min@core')
def m_minmax(E, st, k):
    a, b = k.args[0], k.args[1]
    n = k.c['method'] if 'method' in k.c else canon(E, k.c)[-1].split('@')[0]
    da, db = deref(E, st, a), deref(E, st, b)
    if not (E.numeric(da) and E.numeric(db)):
        return None
    out = []
    low = E.lowest(da, db, k)
    for le, s in [(low, st)] if low is not None else E.split(st, E.cmp(st, 'Le', da, db)):
        out.append(((a if le else b) if n == 'min' else (b if le else a), s))
    return out


@reg(PRE, 'Ord::clamp')
def m_clamp(E, st, k):
    v, lo, hi = k.args
    out = []
    for b, s in E.split(st, E.cmp(st, 'Lt', v, lo)):
        if b:
            out.append((lo, s))
            continue
        for c, s2 in E.split(s, E.cmp(s, 'Gt', v, hi)):
            out.append((hi if c else v, s2))
    return out


@reg(POST, 'Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def m_ordis(E, st, k):
    v = deref(E, st, k.args[0])
    if v[0] != 'o':
        return None
    i = v[2] - 1
    return ret(('b', {'is_lt': i < 0, 'is_le': i <= 0, 'is_gt': i > 0, 'is_ge': i >= 0, 'is_eq': i == 0, 'is_ne': i != 0}[k.c['method']]), st)


# ---------------------------------------------------------------- integers
INTS = ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize')


def reg_int(*ms):
    def d(f):
        for t in INTS:
            for m in ms:
                PRE['%s::%s' % (t, m)] = f
        return f
    return d


def int_ty(E, k):
    return E.ir.T[k.c['impl_self']]['s']


def in_range(ty):
    bits = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128, 'size': 64}[ty[1:]]
    if ty[0] == 'u':
        return 0, 2 ** bits - 1
    return -2 ** (bits - 1), 2 ** (bits - 1) - 1


@reg_int('saturating_sub', 'checked_sub', 'wrapping_sub', 'saturating_add', 'checked_add', 'wrapping_add', 'saturating_mul',
         'checked_mul', 'wrapping_mul', 'abs_diff', 'overflowing_add')
def m_arith(E, st, k):
    m = k.c['method']
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    ty = int_ty(E, k)
    if m == 'abs_diff':
        return [(add(a, b, -1) if x else add(b, a, -1), s) for x, s in E.split(st, E.cmp(st, 'Ge', a, b))]
    kind, op = m.split('_')
    if op == 'mul':
        if is_const(a):
            v = scale(b, a[1])
        elif is_const(b):
            v = scale(a, b[1])
        else:
            x, y = sorted((a, b), key=ORD)
            v = term('mul', x, y)
        if is_const(v):
            lo, hi = in_range(ty)
            inr = lo <= v[1] <= hi
            if kind == 'checked':
                return ret(some(v) if inr else NONE, st)
            return ret(v if inr else const(hi), st)
        p = term('overflow', ty, v)
        if kind == 'wrapping':
            return ret(v, st)
        return [((NONE if kind == 'checked' else const(in_range(ty)[1])) if o else (some(v) if kind == 'checked' else v), s)
                for o, s in E.split(st, p)]
    v = add(a, b, 1 if op == 'add' else -1)
    lo, hi = in_range(ty)
    if op == 'sub' and ty[0] == 'u':
        out = []
        for neg_, s in E.split(st, le0(add(v, const(1)))):      # v <= -1
            if neg_:
                out.append(({'saturating': const(0), 'checked': NONE}.get(kind, term('wrap', v)), s))
            else:
                out.append((some(v) if kind == 'checked' else v, s))
        return out
    # additions: overflow of machine integers is only a possibility for saturating/checked forms
    if is_const(v):
        inr = lo <= v[1] <= hi
        if kind == 'checked':
            return ret(some(v) if inr else NONE, st)
        return ret(v if inr else const(hi), st)
    if kind == 'checked':
        p = term('overflow', ty, v)
        return [(NONE if o else some(v), s) for o, s in E.split(st, p)]
    return ret(v, st)


@reg_int('pow', 'checked_pow', 'saturating_pow', 'wrapping_pow', 'checked_shl', 'overflowing_pow')
def m_pow(E, st, k):
    m = k.c['method']
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    ty = int_ty(E, k)
    lo, hi = in_range(ty)
    if m == 'checked_shl':
        a, m = (const(2), 'checked_pow') if a == const(1) else (a, m)
    if is_const(a) and is_const(b) and 0 <= b[1] < 200:
        v = a[1] ** b[1]
        if v <= hi:
            return ret(some(const(v)) if m.startswith('checked') else const(v), st)
        if m.startswith('checked'):
            return ret(NONE, st)
        if m == 'saturating_pow':
            return ret(const(hi), st)
        E.panic(st, 'overflow:pow')
        return []
    v = term('pow2', b) if a == const(2) else term('pow', a, b)
    # largest exponent that fits
    lim = None
    if a == const(2):
        lim = hi.bit_length() - 1
    p = E.cmp(st, 'Gt', b, const(lim)) if lim is not None and E.numeric(b) else term('overflow', ty, v)
    out = []
    for o, s in E.split(st, p):
        if not o:
            out.append((some(v) if m.startswith('checked') else v, s))
        elif m.startswith('checked'):
            out.append((NONE, s))
        elif m == 'saturating_pow':
            out.append((const(hi), s))
        elif m == 'wrapping_pow':
            out.append((term('wrap', v), s))
        else:
            # exponent beyond the type's range: debug builds panic, release builds wrap
            E.event(s, 'overflow', (v, ty))
            out.append((v, s))
    return out


@reg_int('abs', 'unsigned_abs')
def m_abs(E, st, k):
    a = deref(E, st, k.args[0])
    return [(scale(a, -1) if n else a, s) for n, s in E.split(st, le0(add(a, const(1))))]


@reg_int('div_ceil')
def m_divceil(E, st, k):
    a, n = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    if int_ty(E, k)[0] != 'u' or not is_const(n) or n[1] < 1 or not E.numeric(a):
        return None
    out = []
    for z, s in E.split(st, eq0(a)):
        if z:
            out.append((const(0), s))
            continue
        t = term('div_ceil', a, n)
        UNSIGNED.add(t)
        s.assume(le0(add(const(1), t, -1)))
        s.assume(le0(add(t, a, -1)))
        out.append((t, s))
    return out


@reg_int('is_positive', 'is_negative')
def m_pos(E, st, k):
    a = deref(E, st, k.args[0])
    return ret(E.cmp(st, 'Gt' if k.c['method'] == 'is_positive' else 'Lt', a, const(0)), st)


@reg(PRE, 'discriminant_value@core')
def m_discr(E, st, k):
    v = deref(E, st, k.args[0])
    ty = E.ir.strip_ref(k.targ(0))
    return ret(E.discr(st, v, E.ir.adt_of(ty)), st)


@reg(PRE, 'discriminant@core')
def m_discr2(E, st, k):
    return m_discr(E, st, k)


# ---------------------------------------------------------------- operators
def lin_op(E, st, k, sign):
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    if a[0] == 's' or sign == 1 and tyname(E, k.c['self']) == 'String':
        return ret(mkstr([a, b]), st)
    if E.numeric(a) and E.numeric(b):
        if tyname(E, k.c['self']) == 'String':
            return ret(mkstr([a, b]), st)
        return ret(add(a, b, sign), st)
    return None


@reg(PRE, 'Add::add')
def m_add(E, st, k):
    return None if local_nonderived(E, k) else lin_op(E, st, k, 1)


@reg(PRE, 'Sub::sub')
def m_sub(E, st, k):
    return None if local_nonderived(E, k) else lin_op(E, st, k, -1)


@reg(PRE, 'AddAssign::add_assign', 'SubAssign::sub_assign')
def m_addassign(E, st, k):
    if local_nonderived(E, k):
        return None
    r = argref(E, st, k.args[0])
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    if a[0] == 's' or tyname(E, k.c['self']) == 'String':
        v = mkstr([a, b])
    else:
        v = add(a, b, 1 if k.c['method'] == 'add_assign' else -1)
    E.write(st, (r[1], r[2]), v)
    return ret(UNIT, st)


def mul_vals(a, b):
    if is_const(a):
        return scale(b, a[1])
    if is_const(b):
        return scale(a, b[1])
    x, y = sorted((a, b), key=ORD)
    return term('mul', x, y)


@reg(PRE, 'Mul::mul')
def m_mul(E, st, k):
    if local_nonderived(E, k):
        return None
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    if E.numeric(a) and E.numeric(b):
        if not (is_const(a) or is_const(b)):
            E.event(st, 'mul_unchecked', (a, b))
        return ret(mul_vals(a, b), st)
    return None


@reg(PRE, 'Neg::neg')
def m_neg(E, st, k):
    return ret(scale(deref(E, st, k.args[0]), -1), st)


@reg(PRE, 'Not::not')
def m_not(E, st, k):
    return ret(neg(deref(E, st, k.args[0])), st)


# ---------------------------------------------------------------- time
@reg(PRE, 'Utc::now', 'Instant::now', 'SystemTime::now', 'Local::now')
def m_now(E, st, k):
    t = st.fresh('now')
    E.event(st, 'clock', (), t)
    return ret(t, st)


UNITS = {'nanoseconds': None, 'microseconds': 1, 'milliseconds': 10 ** 3, 'seconds': 10 ** 6, 'minutes': 60 * 10 ** 6,
         'hours': 3600 * 10 ** 6, 'days': 86400 * 10 ** 6, 'weeks': 7 * 86400 * 10 ** 6}
for _u, _m in UNITS.items():
    def _mk(mult):
        def f(E, st, k):
            a = deref(E, st, k.args[0])
            v = scale(a, mult) if mult else term('nanos', a)
            if k.c['method'].startswith('try_'):
                if is_const(a):
                    return ret(some(v), st)
                p = term('overflow', 'dur', v)
                return [(NONE if o else some(v), s) for o, s in E.split(st, p)]
            return ret(v, st)
        return f
    PRE['TimeDelta::' + _u] = _mk(_m)
    PRE['TimeDelta::try_' + _u] = _mk(_m)
for _n, _m in (('from_secs', 10 ** 6), ('from_millis', 10 ** 3), ('from_micros', 1)):
    def _mk2(mult):
        return lambda E, st, k: ret(scale(deref(E, st, k.args[0]), mult), st)
    PRE['Duration::' + _n] = _mk2(_m)
for _n, _m in (('num_seconds', 's'), ('num_milliseconds', 'ms'), ('as_secs', 's'), ('as_millis', 'ms'), ('num_microseconds', 'us')):
    def _mk3(u):
        return lambda E, st, k: ret(term('dur', u, deref(E, st, k.args[0])), st)
    PRE['TimeDelta::' + _n] = _mk3(_m)
    PRE['Duration::' + _n] = _mk3(_m)


@reg(PRE, 'TimeDelta::zero', 'TimeDelta::default')
def m_durzero(E, st, k):
    return ret(const(0), st)


@reg(PRE, 'TimeDelta::to_std', 'TimeDelta::from_std')
def m_tostd(E, st, k):
    a = deref(E, st, k.args[0])
    if k.c['method'] == 'to_std':
        return [(ok(a) if b else err(term('range', a)), s) for b, s in E.split(st, E.cmp(st, 'Ge', a, const(0)))]
    return ret(ok(a), st)


@reg(PRE, 'DateTime::checked_add_signed', 'DateTime::checked_sub_signed', 'TimeDelta::checked_add', 'TimeDelta::checked_sub',
     'TimeDelta::checked_mul', 'Duration::checked_add', 'Duration::checked_mul', 'Instant::checked_add')
def m_chk(E, st, k):
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    m = k.c['method']
    v = mul_vals(a, b) if 'mul' in m else add(a, b, -1 if 'sub' in m else 1)
    p = term('overflow', 'time', v)
    return [(NONE if o else some(v), s) for o, s in E.split(st, p)]


@reg(PRE, 'Duration::saturating_sub', 'Duration::checked_sub', 'Duration::saturating_add', 'Duration::saturating_mul')
def m_dursat(E, st, k):
    a, b = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    m = k.c['method']
    if 'sub' not in m:
        return ret(mul_vals(a, b) if 'mul' in m else add(a, b), st)
    v = add(a, b, -1)
    return [((const(0) if m[0] == 's' else NONE) if neg_ else v if m[0] == 's' else some(v), s)
            for neg_, s in E.split(st, le0(add(v, const(1))))]


@reg(PRE, 'DateTime::signed_duration_since', 'Instant::duration_since', 'DateTime::sub_placeholder')
def m_since(E, st, k):
    return ret(add(deref(E, st, k.args[0]), deref(E, st, k.args[1]), -1), st)


@reg(PRE, 'DateTime::timestamp_millis', 'DateTime::timestamp', 'DateTime::timestamp_micros', 'DateTime::timestamp_nanos_opt')
def m_ts(E, st, k):
    a, m = deref(E, st, k.args[0]), k.c['method']
    v = term(m, a)
    if a[:2] == ('t', 'at') and a[2] == lit(m) and (len(a) < 5 or a[4] == const(0)):
        v = a[3]
    return ret(some(v) if k.c['method'].endswith('_opt') else v, st)


@reg(PRE, 'DateTime::timestamp_subsec_millis', 'DateTime::timestamp_subsec_micros')
def m_subsec(E, st, k):
    a = deref(E, st, k.args[0])
    n = {'millis': 1000, 'micros': 10 ** 6}[k.c['method'][17:]]
    return ret(add(term('timestamp_' + k.c['method'][17:], a), scale(term('timestamp', a), n), -1), st)


@reg(PRE, 'eq@core')
def m_ptreq(E, st, k):
    a, b = k.args[0], k.args[1]
    if a[0] != 'r' or b[0] != 'r':
        return None
    return ret(('b', a == b), st)


AT = {'timestamp_opt': 'timestamp', 'timestamp_millis_opt': 'timestamp_millis', 'timestamp_micros': 'timestamp_micros',
      'from_timestamp': 'timestamp', 'from_timestamp_millis': 'timestamp_millis', 'from_timestamp_micros': 'timestamp_micros'}


@reg(PRE, 'TimeZone::timestamp_opt', 'TimeZone::timestamp_millis_opt', 'TimeZone::timestamp_micros', 'DateTime::from_timestamp',
     'DateTime::from_timestamp_millis', 'DateTime::from_timestamp_micros')
def m_at(E, st, k):
    m = k.c['method']
    xs = [deref(E, st, x) for x in k.args[0 if m.startswith('from') else 1:]]
    for x in iter_terms(tuple(xs)):
        if len(x) > 2 and x[:2] == ('t', AT[m]) and x[2][:2] == ('t', 'now'):
            break
    else:
        return None                 # not of a clock: it may be out of range
    v = term('at', lit(AT[m]), *xs)
    return ret(some(v) if m.startswith('from') else term('local', v), st)


@reg(PRE, 'LocalResult::unwrap', 'LocalResult::single', 'LocalResult::earliest', 'LocalResult::latest')
def m_local(E, st, k):
    a = deref(E, st, k.args[0])
    if a[:2] != ('t', 'local'):
        return None
    return ret(a[2] if k.c['method'] == 'unwrap' else some(a[2]), st)


@reg(PRE, 'DateTime::with_timezone', 'DateTime::to_utc')
def m_tz(E, st, k):
    return ret(deref(E, st, k.args[0]), st)


@reg(PRE, 'Schedule::after', 'Schedule::after_owned')
def m_after(E, st, k):
    E.event(st, 'events', (E.resolve(st, k.args[1]),))
    return ret(obj('#it', kind=lit('cron'), src=term('cron', E.resolve(st, k.args[0]), E.resolve(st, k.args[1]))), st)


@reg(PRE, 'Schedule::upcoming', 'Schedule::upcoming_owned')
def m_upcoming(E, st, k):
    t = st.fresh('now')
    E.event(st, 'clock', (), t)
    E.event(st, 'events', (t,))
    return ret(obj('#it', kind=lit('cron'), src=term('cron', E.resolve(st, k.args[0]), t)), st)


@reg(PRE, 'str::starts_with', 'str::ends_with', 'str::contains')
def m_strpred(E, st, k):
    a, b = E.resolve(st, deref(E, st, k.args[0])), E.resolve(st, deref(E, st, k.args[1]))
    if a == b:
        return ret(TRUE, st)
    if a[0] == 's' and b[0] == 's' and all(isinstance(x, str) for x in a[1] + b[1]):
        x, y = ''.join(a[1]), ''.join(b[1])
        return ret(('b', {'starts_with': x.startswith(y), 'ends_with': x.endswith(y), 'contains': y in x}[k.c['method']]), st)
    return ret(term({'contains': 'strcontains'}.get(k.c['method'], k.c['method']), a, b), st)


@reg(PRE, 'FromStr::from_str', 'str::parse')
def m_fromstr(E, st, k):
    if local_nonderived(E, k):
        return None
    ty = k.dty
    return ret(term('parse', E.ir.T[ty]['s'], E.resolve(st, k.args[0])), st)


# ---------------------------------------------------------------- formatting
@reg(PRE, 'Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def m_fmtarg(E, st, k):
    v = E.resolve(st, k.args[0])
    ty = k.targ(0)
    t = E.ir.ty(E.ir.strip_ref(ty)) if ty is not None else {'k': 'other', 's': '?'}
    m = k.c['method']
    if m in ('new_debug', 'new_display') and v[0] == 't' and t['k'] == 'adt' and E.ir.is_enum(t['path']) and t['path'] in E.ir.local_adts:
        vs = E.ir.variants(t['path'])
        cur = st.facts.get(('V', v), frozenset(range(len(vs))))
        if 1 < len(cur) <= 8 and all(not x['fields'] for x in vs):
            out = []
            E.count(len(cur) - 1)
            for i in sorted(cur):
                s = st.copy()
                s.facts = dict(s.facts)
                s.facts[('V', v)] = frozenset([i])
                x = ('o', t['path'], i, (), None)
                txt = debug_str(E, s, x, t) if m == 'new_debug' else (display_local(E, s, x, t) or term('display', x))
                out.append((obj('#fmtarg', v=txt), s))
            return out
    if m == 'new_debug':
        s = debug_str(E, st, v, t)
    elif m == 'new_display':
        if v[0] == 'i' and not v[2]:
            s = lit(str(v[1]))
        elif t['s'] in ('str', 'alloc::string::String') or v[0] == 's' or (t['k'] == 'adt' and last(t['path']) in ('Arc', 'Box', 'Rc', 'Cow')):
            s = v
        else:
            s = display_local(E, st, v, t)
            if s is None:
                s = term('display', v)
    else:
        s = term(m, v)
    return ret(obj('#fmtarg', v=s), st)


def display_local(E, st, v, t):
    """a local, hand-written Display of a unit-only enum whose variant is known: the literal it writes"""
    if t['k'] != 'adt':
        return None
    return variant_literal(E, st, v, t['path'], 'Display')


def variant_literal(E, st, v, path, trait):
    """literal written by `fmt` for a known unit variant of a local enum"""
    b = E.ir.find_impl(trait, path, None, 'fmt')
    if not b:
        return None
    if b[0].derived and trait == 'Debug' and v[0] == 'o':
        return lit(E.ir.variants(path)[v[2]]['name'])
    s = st.copy()
    f = ('r', ('fmtbuf', 0), ())
    s.cells[('fmtbuf', 0)] = obj('#fmtbuf', s=lit(''))
    r = newcell(E, s, v)
    np = len(E.panics)
    try:
        outs = E.exec_body(b[0], [r, f], s)
    except Exception:
        outs = []
    del E.panics[np:]
    lits = set()
    for rv, s2 in outs:
        x = E.field(s2.cells.get(('fmtbuf', 0), UNIT), None, None, 's')
        lits.add(x)
    if len(lits) == 1:
        x = lits.pop()
        if x[0] == 's':
            return x
    return None


def debug_str(E, st, v, t):
    if t['k'] == 'adt':
        if v[0] == 't':
            cur = st.facts.get(('V', v))
            if cur is not None and len(cur) == 1:
                i = next(iter(cur))
                if not E.ir.variants(t['path'])[i]['fields']:
                    v = ('o', t['path'], i, (), None)
        if v[0] == 'o' and v[1] == t['path'] and not v[3]:
            s = variant_literal(E, st, v, t['path'], 'Debug')
            if s is not None:
                return s
    return term('debug', v)


@reg(PRE, 'Formatter::write_str', 'Write::write_str', 'Formatter::pad')
def m_write_str(E, st, k):
    r = argref(E, st, k.args[0])
    v = E.read(st, (r[1], r[2])) if r[0] == 'r' else None
    s = E.resolve(st, k.args[1])
    if v is not None and v[0] == 'o' and v[1] == '#fmtbuf':
        E.write(st, (r[1], r[2]), obj('#fmtbuf', s=mkstr([E.field(v, None, None, 's'), s])))
        return ret(ok(UNIT), st)
    if v is not None and (v[0] == 's' or tyname(E, k.c.get('self', k.dty)) == 'String'):
        E.write(st, (r[1], r[2]), mkstr([v, s]))
        return ret(ok(UNIT), st)
    return None


@reg(PRE, 'Formatter::write_fmt', 'Write::write_fmt')
def m_write_fmt(E, st, k):
    return m_write_str(E, st, k)


def decode_template(b):
    """literal pieces and argument markers of core::fmt::Arguments"""
    out, i = [], 0
    n = len(b)
    while i < n:
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i + 1:i + 1 + x]).decode('utf8', 'replace'))
            i += 1 + x
        elif x == 0x80:
            ln = b[i + 1] | (b[i + 2] << 8)
            out.append(bytes(b[i + 3:i + 3 + ln]).decode('utf8', 'replace'))
            i += 3 + ln
        else:
            i += 1
            opt = x & 0x3f
            if x == 0xC0:
                out.append(None)
                continue
            # options: flags u32, width u16, precision u16, argument index u16
            idx = None
            if opt & 1:
                i += 4
            if opt & 2:
                i += 2
            prec = None
            if opt & 4:
                prec = b[i] | (b[i + 1] << 8)
                i += 2
            if opt & 8:
                idx = b[i] | (b[i + 1] << 8)
                i += 2
            out.append(None if idx is None and prec is None else ('arg', idx, prec))
    return out


@reg(PRE, 'Arguments::new')
def m_fmtnew(E, st, k):
    t = E.through(st, k.args[0])
    a = E.through(st, k.args[1])
    if t[0] != 'bytes' or a[0] != 'vec' or a[2][0] != 'seq':
        return ret(st.fresh('fmt'), st)
    items = [E.field(E.through(st, x), None, None, 'v') for x in a[2][1:]]
    pieces, n = [], 0
    for p in decode_template(list(t[1])):
        if p is None:
            pieces.append(items[n] if n < len(items) else term('fmtarg?'))
            n += 1
        elif isinstance(p, tuple):
            n = p[1] if p[1] is not None else n
            x = items[n] if n < len(items) else term('fmtarg?')
            pieces.append(x if p[2] is None else term('strfn', lit('precision'), x))
            n += 1
        else:
            pieces.append(p)
    return ret(mkstr(pieces), st)


@reg(PRE, 'Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def m_fmtstr(E, st, k):
    return ret(E.resolve(st, k.args[0]), st)


@reg(PRE, 'format@alloc', 'format_inner@alloc')
def m_format(E, st, k):
    return ret(E.resolve(st, k.args[0]), st)


@reg(PRE, 'panic_fmt@core', 'panic@core', 'panic_display@core', 'begin_panic@std', 'panic_explicit@core', 'unwrap_failed@core',
     'expect_failed@core', 'unreachable_display@core', 'assert_failed@core', 'panic_nounwind@core', 'panic_any@std', 'panic_str_2015@core',
     'unwrap_failed_inner@core')
def m_panic(E, st, k):
    E.panic(st, canon(E, k.c)[-1])
    return []


@reg(PRE, 'exit@std', 'abort@std', 'process_exit')
def m_exit(E, st, k):
    E.panic(st, 'exit')
    return []


@reg(PRE, 'log@log', 'loc@log', 'max_level@log', 'enabled@log', '_print@std', '_eprint@std')
def m_log(E, st, k):
    return ret(wrap_ty(E, st, term('log'), k.dty), st)


# ---------------------------------------------------------------- strings
@reg(PRE, 'String::new')
def m_strnew(E, st, k):
    return ret(lit(''), st)


@reg(PRE, 'String::with_capacity')
def m_strcap(E, st, k):
    return ret(lit(''), st)


@reg(PRE, 'String::push_str', 'String::push')
def m_pushstr(E, st, k):
    r = argref(E, st, k.args[0])
    b = E.resolve(st, k.args[1])
    if k.c['method'] == 'push':
        b = lit(chr(b[1])) if b[0] == 'i' and not b[2] else term('chr', b)
    E.write(st, (r[1], r[2]), mkstr([deref(E, st, k.args[0]), b]))
    return ret(UNIT, st)


@reg(PRE, 'String::len', 'str::len')
def m_strlen(E, st, k):
    v = deref(E, st, k.args[0])
    if v[0] == 's':
        c = sum(len(p.encode()) for p in v[1] if isinstance(p, str))
        e = const(c)
        for p in v[1]:
            if not isinstance(p, str):
                t = term('strlen', p)
                UNSIGNED.add(t)
                e = add(e, t)
        return ret(e, st)
    t = term('strlen', v)
    UNSIGNED.add(t)
    return ret(t, st)


@reg(PRE, 'String::is_empty', 'str::is_empty')
def m_strempty(E, st, k):
    r = m_strlen(E, st, k)
    return ret(eq0(r[0][0]), st)


@reg(PRE, 'concat@alloc', 'slice::concat', 'slice::join')
def m_concat(E, st, k):
    v = deref(E, st, k.args[0])
    if v[0] == 'vec' and v[2][0] == 'seq':
        ps = [E.resolve(st, x) for x in v[2][1:]]
        if k.c.get('method') == 'join':
            sep = E.resolve(st, k.args[1])
            out = []
            for i, p in enumerate(ps):
                if i:
                    out.append(sep)
                out.append(p)
            ps = out
        return ret(mkstr(ps), st)
    return None


# ---------------------------------------------------------------- sequences
def as_vec(E, st, v):
    """(len, content)"""
    if v[0] == 'vec':
        return v
    t = term('len', v)
    UNSIGNED.add(t)
    return ('vec', t, v)


def vec_len(E, st, v):
    v = deref(E, st, v)
    return as_vec(E, st, v)[1]


SEQ = ('Vec', 'VecDeque', 'slice')


def reg_seq(*ms):
    def d(f):
        for t in SEQ:
            for m in ms:
                PRE['%s::%s' % (t, m)] = f
        return f
    return d


@reg_seq('new', 'with_capacity')
def m_vnew(E, st, k):
    return ret(('vec', const(0), ('seq',)), st)


@reg(PRE, 'from_elem@alloc')
def m_fromelem(E, st, k):
    return ret(('vec', k.args[1], term('repeat', k.args[0])), st)


@reg(PRE, 'box_new@alloc', 'box_assume_init_into_vec_unsafe@alloc', 'write_box_via_move@alloc', 'new_uninit@alloc')
def m_boxnew(E, st, k):
    n = canon(E, k.c)[-1]
    if n.startswith('box_new'):
        return ret(k.args[0], st)
    if n.startswith('write_box'):
        return ret(k.args[1], st)
    if n.startswith('box_assume'):
        v = deref(E, st, k.args[0])
        while v[0] == 'o' and last(v[1]) in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling'):
            v = E.field(v, v[1], v[2], 'value' if any(f == 'value' for f, _ in v[3]) else v[3][0][0] if v[3] else '0')
        return ret(v, st)
    return None


@reg(PRE, 'Box::new_uninit')
def m_newuninit(E, st, k):
    return ret(term('uninit'), st)


@reg_seq('len')
def m_vlen(E, st, k):
    v = deref(E, st, k.args[0])
    if is_container(v):
        return ret(container_len(E, st, k.args[0], v), st)
    return ret(vec_len(E, st, k.args[0]), st)


@reg_seq('is_empty')
def m_vempty(E, st, k):
    r = m_vlen(E, st, k)
    n = r[0][0]
    if n[0] == 't' or n[0] == 'i':
        return ret(le0(n), r[0][1])
    return ret(eq0(n), r[0][1])


EMPTY = ('vec', const(0), ('seq',))


def is_container(v):
    """a list of the in-memory back end: content = pre ++ base[lo..hi) ++ post, where base is what the list held on entry;
    mode tells how far that is known ('' exactly, else not)"""
    return v[0] == 'o' and v[1] == '#queue'


def q_base(qid):
    t = term('qlen', qid)
    UNSIGNED.add(t)
    return obj('#queue', id=qid, lo=const(0), hi=t, pre=EMPTY, post=EMPTY, mode=lit(''))


class Q:
    """view of a container value"""

    def __init__(self, E, v):
        self.E = E
        for n in ('id', 'lo', 'hi', 'pre', 'post', 'mode'):
            setattr(self, n, E.field(v, None, None, n))

    @property
    def exact(self):
        return self.mode == lit('') and all(x[0] == 'vec' and x[2][:1] == ('seq',) for x in (self.pre, self.post))

    @property
    def pure(self):
        return self.exact and self.pre == EMPTY and self.post == EMPTY

    @property
    def len(self):
        return add(add(self.pre[1], self.post[1]), add(self.hi, self.lo, -1))

    def write(self, st, a, **kw):
        r = argref(self.E, st, a)
        f = {n: kw.get(n, getattr(self, n)) for n in ('id', 'lo', 'hi', 'pre', 'post', 'mode')}
        if r[0] == 'r':
            self.E.write(st, (r[1], r[2]), obj('#queue', **f))

    def lost(self, st, a, why):
        self.write(st, a, mode=lit(why))

    @property
    def content(self):
        if self.pure:
            return slice_(self.id, self.lo, self.hi, FALSE)
        if self.exact:
            return term('concat', self.pre[2], slice_(self.id, self.lo, self.hi, FALSE), self.post[2])
        return term('queue', self.id, self.mode)

    def elem(self, i):
        if self.pure:
            return term('qitem', self.id, add(self.lo, i))
        if self.exact and is_const(i):
            n = i[1]
            pre, post = self.pre[2][1:], self.post[2][1:]
            if n < len(pre):
                return pre[n]
        return term('q?item', self.id, i)


def slice_(base, lo, hi, rev):
    return term('slice', base, lo, hi, rev)


def is_slice(c):
    return c[:2] == ('t', 'slice')


def slice_len(c):
    return add(c[4], c[3], -1)


def slice_elem(c, i):
    if c[5] == TRUE:
        return term('qitem', c[2], add(add(c[4], const(-1)), i, -1))
    return term('qitem', c[2], add(c[3], i))


def slice_cut(E, st, c, n):
    """[(first n, rest, state)] of a slice, n limited to its length"""
    out = []
    for le, s in E.split(st, E.cmp(st, 'Le', n, slice_len(c))):
        m = n if le else slice_len(c)
        if c[5] == TRUE:
            mid = add(c[4], m, -1)
            out.append((slice_(c[2], mid, c[4], TRUE), slice_(c[2], c[3], mid, TRUE), s))
        else:
            mid = add(c[3], m)
            out.append((slice_(c[2], c[3], mid, FALSE), slice_(c[2], mid, c[4], FALSE), s))
    return out


def container_len(E, st, a, v):
    q = Q(E, v)
    E.event(st, 'q.len', (q.id,))
    if not q.exact:
        t = st.fresh('qlen?', q.id)
        UNSIGNED.add(t)
        return t
    return q.len


def range_bounds(E, st, v, n):
    """(start, end) of a range value over a sequence of length n"""
    if v[0] == 'o' and v[1] == '#it' and kind_of(E, v) == 'range':
        return itf(E, v, 'a'), itf(E, v, 'b')
    nm = last(v[1]) if v[0] == 'o' else ''
    if nm == 'RangeFull':
        return const(0), n
    if nm == 'Range':
        return E.field(v, v[1], None, 'start'), E.field(v, v[1], None, 'end')
    if nm == 'RangeTo':
        return const(0), E.field(v, v[1], None, 'end')
    if nm == 'RangeFrom':
        return E.field(v, v[1], None, 'start'), n
    if nm == 'RangeToInclusive':
        return const(0), add(E.field(v, v[1], None, 'end'), const(1))
    return None


def q_in_range(E, st, i, n, what):
    """states in which i <= n; the others panic"""
    out = []
    for le, s in E.split(st, E.cmp(st, 'Le', i, n)):
        if le:
            out.append(s)
        else:
            E.panic(s, what)
    return out


def pred_cases(E, st, f, x, byref=True):
    """the results of a predicate on an arbitrary element, None when it has effects"""
    s = st.copy()
    n0 = s.trace
    np = len(E.panics)
    rr = []
    for r, s2 in callf(E, s, f, [newcell(E, s, x) if byref else x]):
        r = E.resolve(s2, deref(E, s2, r))
        p = r if r[0] in ('b', 'p', 't') else term('b?', r)
        newf = tuple(sorted(((kk, vv) for kk, vv in s2.facts.items() if st.facts.get(kk) != vv), key=repr))
        rr.append((p, newf))
        if s2.trace is not n0:
            rr.append((term('effect'), ()))
    del E.panics[np:]
    return tuple(rr)


@reg_seq('push', 'push_back', 'push_front')
def m_push(E, st, k):
    m = k.c['method']
    v = deref(E, st, k.args[0])
    x = k.args[1]
    if is_container(v):
        q = Q(E, v)
        side = 'front' if m == 'push_front' else 'back'
        E.event(st, 'q.push', (q.id, side, E.resolve(st, x)))
        f = 'pre' if side == 'front' else 'post'
        w = getattr(q, f)
        c = (('seq', x) + w[2][1:] if side == 'front' else w[2] + (x,)) if w[2][:1] == ('seq',) else w[2]
        q.write(st, k.args[0], **{f: ('vec', add(w[1], const(1)), c)})
        return ret(UNIT, st)
    v = as_vec(E, st, v)
    r = argref(E, st, k.args[0])
    if v[2][0] == 'seq':
        items = list(v[2][1:])
        items = [x] + items if m == 'push_front' else items + [x]
        nc = ('seq',) + tuple(items)
    elif E.opts.get('unroll') is not None and v[2][:1] == ('t',) and v[2][1] in ('slice', 'concat'):
        nc = term('concat', v[2], ('seq', x)) if m != 'push_front' else term('concat', ('seq', x), v[2])
    else:
        nc = v[2]
    E.event(st, 'vec.push', (v[2] if v[2][0] != 'seq' else ('loc', r[1], r[2]), m, E.resolve(st, x), v[1]))
    if r[0] == 'r':
        E.write(st, (r[1], r[2]), ('vec', add(v[1], const(1)), nc))
    return ret(UNIT, st)


@reg_seq('pop', 'pop_back', 'pop_front')
def m_pop(E, st, k):
    m = k.c['method']
    v = deref(E, st, k.args[0])
    if is_container(v):
        return q_pop(E, st, k.args[0], v, 'front' if m == 'pop_front' else 'back')
    v = as_vec(E, st, v)
    r = argref(E, st, k.args[0])
    if v[2][0] == 'seq':
        items = list(v[2][1:])
        if not items:
            return ret(NONE, st)
        x = items.pop(0) if m == 'pop_front' else items.pop()
        E.write(st, (r[1], r[2]), ('vec', const(len(items)), ('seq',) + tuple(items)))
        return ret(some(x), st)
    out = []
    for e, s in E.split(st, eq0(v[1])):
        if e:
            out.append((NONE, s))
        else:
            x = s.fresh('elem', v[2])
            E.event(s, 'next', (v[2],), x)
            if r[0] == 'r':
                E.write(s, (r[1], r[2]), ('vec', add(v[1], const(1), -1), v[2]))
            out.append((some(x), s))
    return out


def q_pop(E, st, a, v, side):
    q = Q(E, v)
    if not q.exact:
        def some_(s):
            x = s.fresh('popped', q.id, side)
            E.event(s, 'q.pop', (q.id, side), x)
            return some(x)

        def none_(s):
            E.event(s, 'q.pop', (q.id, side), None)
            return NONE
        return fork(E, st, some_, none_)
    near, far = ('pre', 'post') if side == 'front' else ('post', 'pre')

    def from_items(s, f):
        w = getattr(q, f)
        it = w[2][1:]
        x, rest = (it[0], it[1:]) if side == 'front' else (it[-1], it[:-1])
        E.event(s, 'q.pop', (q.id, side), x)
        q.write(s, a, **{f: ('vec', const(len(rest)), ('seq',) + rest)})
        return some(x)
    if len(getattr(q, near)[2]) > 1:
        return [(from_items(st, near), st)]
    out = []
    for ne, s in E.split(st, E.cmp(st, 'Lt', q.lo, q.hi)):
        if ne:
            x = term('qitem', q.id, q.lo if side == 'front' else add(q.hi, const(-1)))
            E.event(s, 'q.pop', (q.id, side), x)
            q.write(s, a, **({'lo': add(q.lo, const(1))} if side == 'front' else {'hi': add(q.hi, const(-1))}))
            out.append((some(x), s))
        elif len(getattr(q, far)[2]) > 1:
            out.append((from_items(s, far), s))
        else:
            E.event(s, 'q.pop', (q.id, side), None)
            out.append((NONE, s))
    return out


@reg_seq('clear')
def m_clear(E, st, k):
    v = deref(E, st, k.args[0])
    if is_container(v):
        q = Q(E, v)
        E.event(st, 'q.other', (q.id, 'clear'))
        q.write(st, k.args[0], hi=q.lo, pre=EMPTY, post=EMPTY, mode=lit(''))
        return ret(UNIT, st)
    r = argref(E, st, k.args[0])
    E.write(st, (r[1], r[2]), ('vec', const(0), ('seq',)))
    return ret(UNIT, st)


@reg_seq('truncate')
def m_truncate(E, st, k):
    v = deref(E, st, k.args[0])
    if is_container(v):
        q = Q(E, v)
        n = k.args[1]
        out = []
        if not q.exact:
            E.event(st, 'q.other', (q.id, 'truncate', n))
            q.lost(st, k.args[0], '?')
            return ret(UNIT, st)
        for le, s in E.split(st, E.cmp(st, 'Le', q.len, n)):
            E.event(s, 'q.other', (q.id, 'truncate', n))
            if not le:
                npre = const(len(q.pre[2]) - 1)
                for ge, s2 in E.split(s, E.cmp(s, 'Le', npre, n)):
                    if not ge:
                        q.lost(s2, k.args[0], '?')
                        out.append((UNIT, s2))
                        continue
                    m = add(n, npre, -1)           # items kept after pre
                    for inn, s3 in E.split(s2, E.cmp(s2, 'Le', m, add(q.hi, q.lo, -1))):
                        if inn:
                            q.write(s3, k.args[0], hi=add(q.lo, m), post=EMPTY)
                        else:
                            q.lost(s3, k.args[0], '?')
                        out.append((UNIT, s3))
            else:
                out.append((UNIT, s))
        return out
    v = as_vec(E, st, v)
    r = argref(E, st, k.args[0])
    out = []
    if is_slice(v[2]):
        for fst, _, s in slice_cut(E, st, v[2], k.args[1]):
            E.write(s, (r[1], r[2]), ('vec', slice_len(fst), fst))
            out.append((UNIT, s))
        return out
    for le, s in E.split(st, E.cmp(st, 'Le', v[1], k.args[1])):
        if not le:
            E.write(s, (r[1], r[2]), ('vec', k.args[1], term('trunc', v[2])))
        out.append((UNIT, s))
    return out


@reg_seq('reverse')
def m_reverse(E, st, k):
    r = argref(E, st, k.args[0])
    v = deref(E, st, k.args[0])
    if is_container(v):
        E.event(st, 'q.other', (E.field(v, None, None, 'id'), 'reverse'))
        Q(E, v).lost(st, k.args[0], 'reversed')
        return ret(UNIT, st)
    v = as_vec(E, st, v)
    if v[2][0] == 'seq':
        nv = ('vec', v[1], ('seq',) + tuple(reversed(v[2][1:])))
    else:
        nv = ('vec', v[1], rev_content(v[2]))
    if r[0] == 'r':
        E.write(st, (r[1], r[2]), nv)
    return ret(UNIT, st)


def rev_content(c):
    if is_slice(c):
        return slice_(c[2], c[3], c[4], neg(c[5]))
    if c[:1] == ('seq',):
        return ('seq',) + tuple(reversed(c[1:]))
    if c[:2] == ('t', 'concat'):
        return term('concat', *[rev_content(x) for x in reversed(c[2:])])
    return c[2] if c[0] == 't' and c[1] == 'rev' else term('rev', c)


@reg_seq('first', 'last', 'front', 'back', 'front_mut', 'back_mut')
def m_first(E, st, k):
    v = deref(E, st, k.args[0])
    m = k.c['method'].replace('_mut', '')
    if is_container(v):
        qid = E.field(v, None, None, 'id')
        side = 'front' if m in ('first', 'front') else 'back'
        q = Q(E, v)
        if not q.pure:
            x = term('peek', qid, side, st.fresh('ver'))
            return fork(E, st, lambda s: (E.event(s, 'q.peek', (qid, side), x), some(x))[1], lambda s: NONE)
        out = []
        for ne, s in E.split(st, E.cmp(st, 'Lt', q.lo, q.hi)):
            x = term('qitem', qid, q.lo if side == 'front' else add(q.hi, const(-1)))
            E.event(s, 'q.peek', (qid, side), x if ne else None)
            out.append((some(x) if ne else NONE, s))
        return out
    v = as_vec(E, st, v)
    if v[2][0] == 'seq':
        it = v[2][1:]
        return ret(some(it[0] if m in ('first', 'front') else it[-1]) if it else NONE, st)
    out = []
    for e, s in E.split(st, eq0(v[1])):
        if e:
            out.append((NONE, s))
        elif is_slice(v[2]):
            out.append((some(slice_elem(v[2], const(0) if m in ('first', 'front') else add(v[1], const(-1)))), s))
        else:
            out.append((some(term('elem', v[2], m)), s))
    return out


@reg_seq('get', 'get_mut')
def m_vget(E, st, k):
    v = deref(E, st, k.args[0])
    i = deref(E, st, k.args[1])
    if is_container(v):
        q = Q(E, v)
        qid = q.id
        x = q.elem(i)
        n = container_len(E, st, k.args[0], v)
        out = []
        for b, s in E.split(st, E.cmp(st, 'Lt', i, n) if E.numeric(i) else term('inb', i)):
            if b:
                E.event(s, 'q.get', (qid, i), x)
            out.append((some(x) if b else NONE, s))
        return out
    v = as_vec(E, st, v)
    if E.numeric(i):
        out = []
        for b, s in E.split(st, E.cmp(st, 'Lt', i, v[1])):
            out.append((some(vec_elem(v, i)) if b else NONE, s))
        return out
    return None


def vec_elem(v, i):
    if is_slice(v[2]):
        return slice_elem(v[2], i)
    if v[2][:1] == ('seq',) and is_const(i) and 0 <= i[1] < len(v[2]) - 1:
        return v[2][1 + i[1]]
    return term('elem', v[2], i)


def is_strty(E, k):
    return tyname(E, k.argtys[0]) in ('str', 'String')


def str_cut(E, st, k, i, val):
    """a part of a text by position: panics when the text is shorter"""
    b = (const(0), i) if E.numeric(i) else range_bounds(E, st, i, None)
    ends = [x for x in b or () if x is not None and is_const(x) and x[1] > 0]
    if not ends:
        return ret(val(st), st)
    n = m_strlen(E, st, k)[0][0]
    out = []
    v = E.resolve(st, deref(E, st, k.args[0]))
    given = v[0] == 't' and v[1] in ('fld', 'vf')
    for s in q_in_range(E, st, max(ends, key=lambda x: x[1]), n, 'position beyond the end of the text'):
        # a text given by the user may have a longer character there, unless something was asked about it
        if given and not any(key[0] == 'B' and v in iter_terms(key[1]) for key in s.facts):
            E.panic(s.copy(), 'position inside a character of the text')
        out.append((val(s), s))
    return out


@reg(PRE, 'str::is_char_boundary', 'str::is_ascii')
def m_boundary(E, st, k):
    return ret(term(k.c['method'], E.resolve(st, deref(E, st, k.args[0])), *[E.resolve(st, x) for x in k.args[1:]]), st)


@reg(PRE, 'str::split_at')
def m_splitat(E, st, k):
    v, i = E.resolve(st, deref(E, st, k.args[0])), deref(E, st, k.args[1])
    return str_cut(E, st, k, i, lambda s: ('o', 'tuple', 0, (('0', term('index', v, term('to', i))), ('1', term('index', v, term('from', i)))), None))


@reg(PRE, 'Index::index', 'IndexMut::index_mut')
def m_index(E, st, k):
    v = deref(E, st, k.args[0])
    i = deref(E, st, k.args[1])
    if is_container(v):
        q = Q(E, v)
        if not E.numeric(i):
            return ret(term('index', q.content, E.resolve(st, i)), st)
        n = container_len(E, st, k.args[0], v)
        out = []
        for s in q_in_range(E, st, add(i, const(1)), n, 'index out of bounds'):
            x = q.elem(i)
            E.event(s, 'q.get', (q.id, i), x)
            out.append((x, s))
        return out
    if v[0] == 'vec' and E.numeric(i):
        if is_const(i):
            return [(vec_elem(v, i), s) for s in q_in_range(E, st, add(i, const(1)), v[1], 'index out of bounds')]
        return ret(vec_elem(v, i), st)
    if v[0] in ('s', 't') and is_strty(E, k):
        return str_cut(E, st, k, i, lambda s: term('index', E.resolve(s, v), E.resolve(s, i)))
    if v[0] == 'vec':
        b = range_bounds(E, st, i, v[1])
        if b and v[2][:1] == ('seq',) and is_const(b[0]) and is_const(b[1]):
            it = v[2][1:][b[0][1]:b[1][1]]
            return ret(('vec', const(len(it)), ('seq',) + it), st)
    return ret(term('index', E.resolve(st, v), E.resolve(st, i)), st)


@reg_seq('contains')
def m_vcontains(E, st, k):
    v = deref(E, st, k.args[0])
    x = E.resolve(st, k.args[1])
    if is_container(v):
        q = Q(E, v)
        if q.exact and q.len == const(0):
            return ret(FALSE, st)
        y = term('anyitem', q.id)
        return q_search(E, st, q.id, 'contains', ((E.eq(st, y, x), ()),), TRUE, FALSE)
    v = as_vec(E, st, v)
    if v[2] == ('seq',):
        return ret(FALSE, st)
    if v[2][0] == 'seq':
        p = FALSE
        for y in v[2][1:]:
            q = E.eq(st, E.resolve(st, y), x)
            p = q if p == FALSE else ('p', 'or', p, q)
        return ret(p, st)
    return ret(term('contains', v[2], x), st)


def q_search(E, st, qid, m, cases, yes, no):
    """a search of a list: found or not"""
    s1 = st.copy()
    y = yes(s1) if callable(yes) else yes
    E.event(s1, 'q.search', (qid, m, cases), y)
    E.event(st, 'q.search', (qid, m, cases), None)
    E.count(1)
    return [(y, s1), (no, st)]


@reg_seq('retain', 'retain_mut')
def m_retain(E, st, k):
    v = deref(E, st, k.args[0])
    if is_container(v):
        qid = E.field(v, None, None, 'id')
        q = Q(E, v)
        x = term('anyitem', qid)
        rr = pred_cases(E, st, k.args[1], x)
        E.event(st, 'q.retain', (qid, x, rr))
        q.write(st, k.args[0], mode=lit('?') if not q.pure or q.lo != const(0) or q.hi != term('qlen', qid) else lit('retained'))
        return ret(UNIT, st)
    r = argref(E, st, k.args[0])
    if r[0] == 'r':
        E.write(st, (r[1], r[2]), ('vec', st.fresh('len'), st.fresh('retained', as_vec(E, st, v)[2])))
    return ret(UNIT, st)


@reg_seq('remove', 'swap_remove_back', 'swap_remove_front')
def m_vremove(E, st, k):
    v = deref(E, st, k.args[0])
    if is_container(v):
        q = Q(E, v)
        i = deref(E, st, k.args[1])
        x = q.elem(i)
        swap = k.c['method'] != 'remove'
        E.event(st, 'q.removeat', (q.id, i, k.c['method']), x)
        if q.pure and not swap:
            out = []
            for inn, s in E.split(st, E.cmp(st, 'Lt', i, q.len)):
                if not inn:
                    out.append((NONE, s))
                    continue
                for fst, s2 in E.split(s, eq0(i)):
                    if fst:
                        q.write(s2, k.args[0], lo=add(q.lo, const(1)))
                        out.append((some(x), s2))
                        continue
                    for lst, s3 in E.split(s2, eq0(add(add(i, const(1)), q.len, -1))):
                        if lst:
                            q.write(s3, k.args[0], hi=add(q.hi, const(-1)))
                        else:
                            q.lost(s3, k.args[0], 'cut')
                        out.append((some(x), s3))
            return out
        q.lost(st, k.args[0], 'swapped' if swap else 'cut')
        return fork(E, st, lambda s: some(x), lambda s: NONE)
    v = as_vec(E, st, v)
    r = argref(E, st, k.args[0])
    i = deref(E, st, k.args[1])
    if v[2][0] == 'seq' and is_const(i) and k.c['method'] == 'remove' and r[0] == 'r' and 0 <= i[1] < len(v[2]) - 1:
        items = list(v[2][1:])
        x = items.pop(i[1])
        E.write(st, (r[1], r[2]), ('vec', const(len(items)), ('seq',) + tuple(items)))
        return ret(x if canon(E, k.c)[0].startswith('Vec::') else some(x), st)
    if v[2][0] != 'seq' and r[0] == 'r' and k.c['method'] == 'remove' and E.numeric(i) and (i == const(0) or i == add(v[1], const(-1))):
        out = []
        isvec = canon(E, k.c)[0].startswith('Vec::')
        for e, s in E.split(st, eq0(v[1])):
            if e:
                if isvec:
                    E.panic(s, 'removal index out of bounds')
                else:
                    out.append((NONE, s))
                continue
            x = s.fresh('elem', v[2])
            E.event(s, 'next', (v[2],), x)
            E.write(s, (r[1], r[2]), ('vec', add(v[1], const(1), -1), v[2]))
            out.append((x if isvec else some(x), s))
        return out
    return None


@reg(PRE, 'array::map', 'slice::map')
def m_amap(E, st, k):
    v = deref(E, st, k.args[0])
    if v[0] != 'vec' or v[2][0] != 'seq':
        return None
    paths = [((), st)]
    for x in v[2][1:]:
        paths = [(xs + (y,), s2) for xs, s in paths for y, s2 in callf(E, s, k.args[1], [x])]
    return [(('vec', v[1], ('seq',) + xs), s) for xs, s in paths]


@reg_seq('insert')
def m_vinsert(E, st, k):
    v = deref(E, st, k.args[0])
    if is_container(v):
        q, i, x = Q(E, v), deref(E, st, k.args[1]), k.args[2]
        side = 'front' if i == const(0) else 'back' if q.exact and i == q.len else None
        if side is None:
            return None
        E.event(st, 'q.push', (q.id, side, E.resolve(st, x)))
        f = 'pre' if side == 'front' else 'post'
        w = getattr(q, f)
        c = (('seq', x) + w[2][1:] if side == 'front' else w[2] + (x,)) if w[2][:1] == ('seq',) else w[2]
        q.write(st, k.args[0], **{f: ('vec', add(w[1], const(1)), c)})
        return ret(UNIT, st)
    v = as_vec(E, st, v)
    r = argref(E, st, k.args[0])
    i = deref(E, st, k.args[1])
    if v[2][0] == 'seq' and is_const(i) and r[0] == 'r' and 0 <= i[1] <= len(v[2]) - 1:
        items = list(v[2][1:])
        items.insert(i[1], k.args[2])
        E.write(st, (r[1], r[2]), ('vec', const(len(items)), ('seq',) + tuple(items)))
        return ret(UNIT, st)
    return None


@reg_seq('extend_from_slice', 'append')
def m_extendslice(E, st, k):
    return extend(E, st, k.args[0], k.args[1])


@reg(PRE, 'Extend::extend')
def m_extend(E, st, k):
    return extend(E, st, k.args[0], k.args[1])


def extend(E, st, dst, src):
    v = deref(E, st, dst)
    s = deref(E, st, src)
    if s[0] == 'o' and s[1] == OPT:
        return [x for p, s1 in split_opt(E, st, s)
                for x in (extend(E, s1, dst, ('vec', const(1), ('seq', p))) if p is not None else ret(UNIT, s1))]
    if is_container(v):
        out = []
        for cont, s2 in drain(E, st, s, 'extend') if s[0] == 'o' and s[1] == '#it' else [(as_vec(E, st, s), st)]:
            q = Q(E, deref(E, s2, dst))
            if cont[2][:1] == ('seq',):
                for x in cont[2][1:]:
                    E.event(s2, 'q.push', (q.id, 'back', E.resolve(s2, x)))
                q.write(s2, dst, post=('vec', add(q.post[1], cont[1]), q.post[2] + cont[2][1:] if q.post[2][:1] == ('seq',) else q.post[2]))
            else:
                E.event(s2, 'q.extend', (q.id, cont[2]))
                q.write(s2, dst, post=('vec', add(q.post[1], cont[1]), cont[2] if q.post == EMPTY else term('concat', q.post[2], cont[2])))
            out.append((UNIT, s2))
        return out
    v = as_vec(E, st, v)
    r = argref(E, st, dst)
    if s[0] == 'o' and s[1] == '#it':
        outs = drain(E, st, s, 'extend')
        res = []
        for cont, s2 in outs:
            nc = cont[2] if v[2] == ('seq',) else term('concat', v[2], cont[2])
            E.write(s2, (r[1], r[2]), ('vec', add(v[1], cont[1]), nc))
            res.append((UNIT, s2))
        return res
    sv = as_vec(E, st, s)
    if v[2][0] == 'seq' and sv[2][0] == 'seq':
        nc = v[2] + sv[2][1:]
    else:
        nc = sv[2] if v[2] == ('seq',) else term('concat', v[2], sv[2])
    E.write(st, (r[1], r[2]), ('vec', add(v[1], sv[1]), nc))
    return ret(UNIT, st)


# ---------------------------------------------------------------- iterators
def mkit(kind, **kw):
    return obj('#it', kind=lit(kind), **kw)


def itf(E, v, n):
    return E.field(v, None, None, n)


def kind_of(E, v):
    return itf(E, v, 'kind')[1][0]


RANGE = 'core::ops::range::Range'


@reg(PRE, 'IntoIterator::into_iter', 'slice::iter', 'slice::iter_mut', 'Vec::iter', 'VecDeque::iter', 'VecDeque::iter_mut', 'Vec::drain',
     'VecDeque::drain', 'Option::into_iter', 'Option::iter', 'Result::into_iter', 'Result::iter', 'HashMap::iter', 'HashMap::keys', 'HashMap::values', 'HashSet::iter',
     'BTreeMap::iter', 'DashMap::iter')
def m_intoiter(E, st, k):
    a = k.args[0]
    v = deref(E, st, a)
    if v[0] == 'o' and v[1] == '#it':
        return ret(a if k.c.get('method') != 'into_iter' or a[0] != 'r' else a, st)
    if v[0] == 'o' and last(v[1]) in ('Range', 'RangeInclusive', 'RangeFrom') and not v[1].startswith('#'):
        return ret(range_it(E, st, v), st)
    if v[0] == 'o' and v[1] == OPT:
        if v[2] == 0:
            return ret(mkit('seq', src=('vec', const(0), ('seq',))), st)
        return ret(mkit('once', v=E.field(v, OPT, 1, '0')), st)
    if k.argtys and tyname(E, k.argtys[0]) == 'Result' and (v[0] in 'td' or v[:2] == ('o', RES)):
        out = []
        for okk, p, s in split_res(E, st, v):
            x = p if k.c.get('method') == 'into_iter' and a[0] != 'r' else newcell(E, s, p) if okk else None
            out.append((mkit('once', v=x) if okk else mkit('seq', src=('vec', const(0), ('seq',))), s))
        return out
    if v[0] in 'td' and k.argtys and tyname(E, k.argtys[0]) == 'Option':
        out = []
        for p, s in split_opt(E, st, v):
            if p is None:
                out.append((mkit('seq', src=('vec', const(0), ('seq',))), s))
            else:
                out.append((mkit('once', v=p if k.c.get('method') == 'into_iter' and a[0] != 'r' else newcell(E, s, p)), s))
        return out
    if is_container(v):
        q = Q(E, v)
        E.event(st, 'q.iter', (q.id,))
        n = container_len(E, st, a, v)
        if k.c.get('method') == 'drain':
            return q_drain(E, st, k, q, n)
        if k.c.get('method') == 'iter_mut':
            E.event(st, 'q.other', (q.id, 'iter_mut'))
            q.lost(st, a, '?')
        return ret(mkit('seq', src=('vec', n, q.content)), st)
    if k.c.get('method') == 'drain' and v[0] == 'vec':
        r = argref(E, st, a)
        bs = range_bounds(E, st, deref(E, st, k.args[1]), v[1])
        if bs is None or not (bs[0] == const(0) and bs[1] == v[1]):
            if bs is not None and v[2][0] == 'seq' and is_const(bs[0]) and is_const(bs[1]) and r[0] == 'r' and 0 <= bs[0][1] <= bs[1][1] < len(v[2]):
                x, y, items = bs[0][1], bs[1][1], v[2][1:]
                left, got = items[:x] + items[y:], items[x:y]
                E.write(st, (r[1], r[2]), ('vec', const(len(left)), ('seq',) + left))
                return ret(mkit('seq', src=('vec', const(len(got)), ('seq',) + got)), st)
            if r[0] == 'r':
                E.write(st, (r[1], r[2]), ('vec', st.fresh('len'), st.fresh('left', v[2])))
            return ret(mkit('seq', src=('vec', st.fresh('len'), st.fresh('drained', v[2]))), st)
        if r[0] == 'r':
            E.write(st, (r[1], r[2]), ('vec', const(0), ('seq',)))
    return ret(mkit('seq', src=as_vec(E, st, v)), st)


@reg(PRE, 'VecDeque::range')
def m_qrange(E, st, k):
    v = deref(E, st, k.args[0])
    if not is_container(v):
        return None
    q = Q(E, v)
    n = container_len(E, st, k.args[0], v)
    bs = range_bounds(E, st, deref(E, st, k.args[1]), n)
    if bs is None or not q.pure:
        return None
    x, y = bs
    E.event(st, 'q.iter', (q.id,))
    out = []
    for s in q_in_range(E, st, y, n, 'range end out of bounds'):
        for s2 in q_in_range(E, s, x, y, 'range start after its end'):
            out.append((mkit('seq', src=('vec', add(y, x, -1), slice_(q.id, add(q.lo, x), add(q.lo, y), FALSE))), s2))
    return out


def q_drain(E, st, k, q, n):
    a = k.args[0]
    bs = range_bounds(E, st, deref(E, st, k.args[1]), n)
    E.event(st, 'q.other', (q.id, 'drain'))
    if bs is None or not q.pure:
        q.lost(st, a, '?')
        return ret(mkit('seq', src=('vec', st.fresh('len'), st.fresh('drained', q.id))), st)
    x, y = bs
    out = []
    for s in q_in_range(E, st, y, n, 'range end out of bounds'):
        for s2 in q_in_range(E, s, x, y, 'range start after its end'):
            lo, hi = add(q.lo, x), add(q.lo, y)
            if x == const(0):
                q.write(s2, a, lo=hi)
            elif y == n:
                q.write(s2, a, hi=lo)
            else:
                q.lost(s2, a, 'cut')
            out.append((mkit('seq', src=('vec', add(y, x, -1), slice_(q.id, lo, hi, FALSE))), s2))
    return out


@reg(PRE, 'VecDeque::split_off')
def m_splitoff(E, st, k):
    v = deref(E, st, k.args[0])
    if not is_container(v):
        return None
    q = Q(E, v)
    E.event(st, 'q.other', (q.id, 'split_off'))
    if not q.pure:
        q.lost(st, k.args[0], '?')
        return ret(('vec', st.fresh('len'), st.fresh('drained', q.id)), st)
    i = k.args[1]
    out = []
    for s in q_in_range(E, st, i, q.len, 'split_off out of bounds'):
        mid = add(q.lo, i)
        q.write(s, k.args[0], hi=mid)
        out.append((('vec', add(q.hi, mid, -1), slice_(q.id, mid, q.hi, FALSE)), s))
    return out


@reg(PRE, 'VecDeque::insert', 'VecDeque::swap', 'VecDeque::rotate_left', 'VecDeque::rotate_right', 'VecDeque::make_contiguous', 'VecDeque::resize',
     'VecDeque::capacity')
def m_qother(E, st, k):
    v = deref(E, st, k.args[0])
    if not is_container(v):
        return None
    q = Q(E, v)
    if k.c['method'] == 'capacity':
        t = term('capacity', q.id)
        UNSIGNED.add(t)
        return ret(t, st)
    E.event(st, 'q.other', (q.id, k.c['method']))
    q.lost(st, k.args[0], '?')
    return ret(UNIT, st)


def range_it(E, st, v):
    n = last(v[1])
    if n == 'Range':
        return mkit('range', a=E.field(v, v[1], None, 'start'), b=E.field(v, v[1], None, 'end'), rev=FALSE)
    if n == 'RangeInclusive':
        return mkit('range', a=E.field(v, v[1], None, 'start'), b=add(E.field(v, v[1], None, 'end'), const(1)), rev=FALSE)
    t = st.fresh('inf')
    UNSIGNED.add(t)
    return mkit('range', a=E.field(v, v[1], None, 'start'), b=add(E.field(v, v[1], None, 'start'), t), rev=FALSE)


@reg(PRE, 'Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains', 'RangeBounds::contains')
def m_rcontains(E, st, k):
    v, x = deref(E, st, k.args[0]), deref(E, st, k.args[1])
    x = deref(E, st, x) if x[0] == 'r' else x
    if v[0] != 'o' or not E.numeric(x):
        return None
    n = last(v[1])
    lo = hi = None
    if v[1] == '#it' and kind_of(E, v) == 'range':
        lo, hi = itf(E, v, 'a'), ('Lt', itf(E, v, 'b'))
    elif n == 'Range':
        lo, hi = E.field(v, v[1], None, 'start'), ('Lt', E.field(v, v[1], None, 'end'))
    elif n == 'RangeInclusive':
        lo, hi = E.field(v, v[1], None, 'start'), ('Le', E.field(v, v[1], None, 'end'))
    elif n == 'RangeFrom':
        lo = E.field(v, v[1], None, 'start')
    elif n in ('RangeTo', 'RangeToInclusive'):
        hi = ('Lt' if n == 'RangeTo' else 'Le', E.field(v, v[1], None, 'end'))
    else:
        return None
    if lo is not None:
        lo = deref(E, st, lo)
    if hi is not None:
        hi = (hi[0], deref(E, st, hi[1]))
    if (lo is not None and not E.numeric(lo)) or (hi is not None and not E.numeric(hi[1])):
        return None
    out = []
    for a, s in (E.split(st, E.cmp(st, 'Le', lo, x)) if lo is not None and lo != const(-2 ** 31) else [(True, st)]):
        if not a or hi is None:
            out.append((('b', a), s))
            continue
        for b, s2 in E.split(s, E.cmp(s, hi[0], x, hi[1])):
            out.append((('b', b), s2))
    return out


@reg(PRE, 'RangeInclusive::new')
def m_rincl(E, st, k):
    return ret(mkit('range', a=k.args[0], b=add(k.args[1], const(1)), rev=FALSE), st)


@reg(PRE, 'once@core', 'empty@core', 'repeat@core', 'repeat_with@core', 'from_fn@core')
def m_once(E, st, k):
    n = canon(E, k.c)[-1].split('@')[0]
    if n == 'once':
        return ret(mkit('once', v=k.args[0]), st)
    if n == 'empty':
        return ret(mkit('seq', src=('vec', const(0), ('seq',))), st)
    if n == 'from_fn':
        return ret(mkit('fromfn', f=k.args[0]), st)
    return None


@reg(PRE, 'Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::take_while', 'Iterator::map_while', 'Iterator::inspect',
     'Iterator::skip_while', 'Iterator::flat_map')
def m_itf(E, st, k):
    m = k.c['method']
    if not is_it(E, st, k.args[0]):
        return None
    return ret(mkit(m, src=to_it(E, st, k.args[0]), f=k.args[1]), st)


def is_it(E, st, a):
    v = deref(E, st, a)
    return (v[0] == 'o' and (v[1] == '#it' or last(v[1]) in ('Range', 'RangeInclusive'))) or v[0] == 'vec' or v[0] == 't'


def to_it(E, st, a):
    v = deref(E, st, a)
    if v[0] == 'o' and v[1] == '#it':
        return v
    if v[0] == 'o' and last(v[1]) in ('Range', 'RangeInclusive', 'RangeFrom'):
        return range_it(E, st, v)
    return mkit('seq', src=as_vec(E, st, v))


@reg(PRE, 'Iterator::flatten')
def m_flatten(E, st, k):
    """of at most one inner sequence"""
    if not is_it(E, st, k.args[0]):
        return None
    v = to_it(E, st, k.args[0])
    n = explicit(E, v)
    if n is None or n > 1:
        return None
    out = []
    for x, nv, s in it_next(E, st, v):
        if x is None:
            out.append((mkit('seq', src=('vec', const(0), ('seq',))), s))
            continue
        x = deref(E, s, x)
        if x[0] == 'o' and x[1] == '#it':
            out.append((x, s))
        elif x[0] == 'vec':
            out.append((mkit('seq', src=x), s))
        elif x[:2] == ('o', OPT):
            out.append((mkit('once', v=E.field(x, OPT, 1, '0')) if x[2] else mkit('seq', src=('vec', const(0), ('seq',))), s))
        elif is_container(x):
            return None
        else:
            out.append((mkit('seq', src=as_vec(E, s, x)), s))
    return out


@reg(PRE, 'Iterator::cloned', 'Iterator::copied', 'Iterator::fuse', 'Iterator::by_ref', 'Iterator::peekable', 'Iterator::into_iter')
def m_itid(E, st, k):
    if not is_it(E, st, k.args[0]):
        return None
    if k.c['method'] == 'by_ref':
        return ret(k.args[0], st)
    return ret(to_it(E, st, k.args[0]), st)


@reg(PRE, 'Iterator::rev')
def m_rev(E, st, k):
    v = to_it(E, st, k.args[0])
    kd = kind_of(E, v)
    if kd == 'range':
        return ret(mkit('range', a=itf(E, v, 'a'), b=itf(E, v, 'b'), rev=neg(itf(E, v, 'rev'))), st)
    if kd == 'seq':
        s = itf(E, v, 'src')
        c = ('seq',) + tuple(reversed(s[2][1:])) if s[2][0] == 'seq' else rev_content(s[2])
        return ret(mkit('seq', src=('vec', s[1], c)), st)
    return ret(mkit('rev', src=v), st)


@reg(PRE, 'Iterator::take', 'Iterator::skip', 'Iterator::step_by')
def m_take(E, st, k):
    v = to_it(E, st, k.args[0])
    m = k.c['method']
    if m in ('take', 'skip') and kind_of(E, v) == 'seq' and itf(E, v, 'src')[2][0] == 'seq':
        E.event(st, 'it.' + m, (E.resolve(st, itf(E, v, 'src')), k.args[1]))
    if m in ('take', 'skip') and kind_of(E, v) == 'seq' and is_slice(itf(E, v, 'src')[2]):
        out = []
        for fst, rest, s in slice_cut(E, st, itf(E, v, 'src')[2], k.args[1]):
            c = fst if m == 'take' else rest
            out.append((mkit('seq', src=('vec', slice_len(c), c)), s))
        return out
    if m == 'skip' and is_const(k.args[1]) and 0 <= k.args[1][1] <= 8:
        work = [(v, st, k.args[1][1])]
        out = []
        while work:
            it, s, n = work.pop()
            if n == 0:
                out.append((it, s))
                continue
            for x, it2, s2 in it_next(E, s, it):
                if x is None:
                    out.append((it2, s2))
                else:
                    work.append((it2, s2, n if x is SKIP else n - 1))
        return out
    return ret(mkit(m, src=v, n=k.args[1]), st)


@reg(PRE, 'Iterator::enumerate')
def m_enum(E, st, k):
    return ret(mkit('enumerate', src=to_it(E, st, k.args[0]), n=const(0)), st)


@reg(PRE, 'Iterator::zip', 'Iterator::chain')
def m_zip(E, st, k):
    return ret(mkit(k.c['method'], src=to_it(E, st, k.args[0]), b=to_it(E, st, k.args[1])), st)


def it_next(E, st, v):
    """[(item|None, iterator', state)]"""
    kd = kind_of(E, v)
    if kd == 'once':
        return [(itf(E, v, 'v'), mkit('seq', src=('vec', const(0), ('seq',))), st)]
    if kd == 'cron':
        src = itf(E, v, 'src')
        # events further on (after a loop over the schedule) are not told apart
        known = src[:2] == ('t', 'cron')
        t = term('cron_next', src[2], src[3]) if known else st.fresh('cron?', src)
        out = []
        for p, s in split_opt(E, st, t):
            nv = mkit('cron', src=term('cron', src[2], p)) if p is not None and known else v
            if p is not None and known and E.numeric(src[3]):
                s.assume(E.cmp(s, 'Lt', src[3], p))      # events lie after the time asked for
            out.append((p, nv, s))
        return out
    if kd == 'range':
        a, b, rv = itf(E, v, 'a'), itf(E, v, 'b'), itf(E, v, 'rev')
        out = []
        for c, s in E.split(st, E.cmp(st, 'Lt', a, b)):
            if not c:
                if E.opts.get('ranges'):
                    E.event(s, 'range.end', (b,))
                out.append((None, v, s))
            elif rv == TRUE:
                nb = add(b, const(1), -1)
                out.append((nb, mkit('range', a=a, b=nb, rev=rv), s))
            else:
                out.append((a, mkit('range', a=add(a, const(1)), b=b, rev=rv), s))
        return out
    if kd == 'seq':
        src = itf(E, v, 'src')
        if src[2][0] == 'seq':
            items = src[2][1:]
            if not items:
                return [(None, v, st)]
            return [(items[0], mkit('seq', src=('vec', const(len(items) - 1), ('seq',) + items[1:])), st)]
        out = []
        c = src[2]
        if E.opts.get('unroll') is not None and is_slice(c):
            for ne, s in E.split(st, E.cmp(st, 'Lt', c[3], c[4])):
                if not ne:
                    out.append((None, v, s))
                    continue
                x = slice_elem(c, const(0))
                E.event(s, 'next', (c,), x)
                nc = slice_(c[2], c[3], add(c[4], const(-1)), TRUE) if c[5] == TRUE else slice_(c[2], add(c[3], const(1)), c[4], FALSE)
                out.append((x, mkit('seq', src=('vec', slice_len(nc), nc)), s))
            return out
        s = st.copy()
        if s.assume(eq0(src[1]), False):
            x = s.fresh('elem', c)
            E.event(s, 'next', (c,), x)
            if E.opts.get('unroll') is not None:      # peeled iterations count the items
                out.append((x, mkit('seq', src=('vec', add(src[1], const(1), -1), c)), s))
                if st.assume(eq0(src[1])):
                    out.append((None, v, st))
                E.count(1)
                return out
            out.append((x, v, s))
        out.append((None, v, st))
        E.count(1)
        return out
    if kd == 'fromfn':
        out = []
        for r, s in callf(E, st, itf(E, v, 'f'), []):
            for p, s2 in split_opt(E, s, r):
                out.append((p, v, s2))
        return out
    if kd in ('map', 'inspect', 'filter', 'filter_map', 'take_while', 'map_while', 'skip_while', 'flat_map'):
        f = itf(E, v, 'f')
        out = []
        for x, src, s in it_next(E, st, itf(E, v, 'src')):
            nv = mkit(kd, src=src, f=f)
            if x is None:
                out.append((None, nv, s))
                continue
            if kd == 'map':
                for r, s2 in callf(E, s, f, [x]):
                    out.append((r, nv, s2))
            elif kd == 'inspect':
                for r, s2 in callf(E, s, f, [newcell(E, s, x)]):
                    out.append((x, nv, s2))
            elif kd == 'filter':
                for r, s2 in callf(E, s, f, [newcell(E, s, x)]):
                    for b, s3 in E.split(s2, deref(E, s2, r)):
                        out.append((x if b else SKIP, nv, s3))
            elif kd == 'filter_map':
                for r, s2 in callf(E, s, f, [x]):
                    for p, s3 in split_opt(E, s2, r):
                        out.append((p if p is not None else SKIP, nv, s3))
            elif kd == 'map_while':
                for r, s2 in callf(E, s, f, [x]):
                    for p, s3 in split_opt(E, s2, r):
                        out.append((p, nv, s3))
            elif kd == 'skip_while' and x is not SKIP:
                for r, s2 in callf(E, s, f, [newcell(E, s, x)]):
                    for b, s3 in E.split(s2, deref(E, s2, r)):
                        out.append((SKIP, nv, s3) if b else (x, src, s3))
            elif kd == 'take_while':
                for r, s2 in callf(E, s, f, [newcell(E, s, x)]):
                    for b, s3 in E.split(s2, deref(E, s2, r)):
                        out.append((x if b else None, nv, s3))
            else:
                out.append((s.fresh('elem', kd), nv, s))
        return out
    if kd == 'take':
        n = itf(E, v, 'n')
        out = []
        for z, s in E.split(st, le0(n)):
            if z:
                out.append((None, v, s))
                continue
            for x, src, s2 in it_next(E, s, itf(E, v, 'src')):
                nn = n if x is SKIP else add(n, const(1), -1)
                out.append((x, mkit('take', src=src, n=nn), s2))
        return out
    if kd == 'skip':
        out = []
        for x, src, s2 in it_next(E, st, itf(E, v, 'src')):
            out.append((x, mkit('skip', src=src, n=itf(E, v, 'n')), s2))
        return out
    if kd == 'enumerate':
        out = []
        n = itf(E, v, 'n')
        for x, src, s2 in it_next(E, st, itf(E, v, 'src')):
            if x is None or x is SKIP:
                out.append((x, mkit('enumerate', src=src, n=n), s2))
            else:
                out.append((('o', 'tuple', 0, (('0', n), ('1', x)), None), mkit('enumerate', src=src, n=add(n, const(1))), s2))
        return out
    if kd == 'chain':
        out = []
        for x, src, s2 in it_next(E, st, itf(E, v, 'src')):
            if x is None:
                out.extend(it_next(E, s2, itf(E, v, 'b')))
            else:
                out.append((x, mkit('chain', src=src, b=itf(E, v, 'b')), s2))
        return out
    # rev of a mapped iterator, zip, step_by ...: an arbitrary element
    x = st.fresh('elem', term('it', E.resolve(st, v)))
    s = st.copy()
    E.event(s, 'next', (term('it', E.resolve(s, v)),), x)
    return [(x, v, s), (None, v, st)]


SKIP = ('skip',)


@reg(PRE, 'Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(E, st, k):
    b = E.ir.bodies.get(k.c.get('res'))
    if b is not None and not b.std:
        return None
    a = k.args[0]
    r = argref(E, st, a)
    v = deref(E, st, a)
    if not (v[0] == 'o' and v[1] == '#it'):
        if not is_it(E, st, a):
            return None
        v = to_it(E, st, a)
    if k.c['method'] == 'next_back' and kind_of(E, v) == 'range':
        v2 = mkit('range', a=itf(E, v, 'a'), b=itf(E, v, 'b'), rev=neg(itf(E, v, 'rev')))
        out = []
        for x, nv, s in it_next(E, st, v2):
            nv = mkit('range', a=itf(E, nv, 'a'), b=itf(E, nv, 'b'), rev=itf(E, v, 'rev'))
            if r[0] == 'r':
                E.write(s, (r[1], r[2]), nv)
            out.append((NONE if x is None else some(x), s))
        return out
    out = []
    work = [(v, st, 0)]
    while work:
        v, s0, n = work.pop()
        for x, nv, s in it_next(E, s0, v):
            if x is SKIP:
                # an element was filtered out: go on (bounded; afterwards forget what it did)
                if n < 1:
                    work.append((nv, s, n + 1))
                continue
            if r[0] == 'r':
                E.write(s, (r[1], r[2]), nv)
            out.append((NONE if x is None else some(x), s))
    return out


def of_events(E, v):
    """an iterator over the events of a schedule"""
    while v[0] == 'o' and v[1] == '#it':
        kd = kind_of(E, v)
        if kd == 'cron':
            return True
        if kd not in ('map', 'inspect', 'filter', 'filter_map', 'take_while', 'map_while', 'skip_while', 'enumerate', 'take', 'skip'):
            return False
        v = itf(E, v, 'src')
    return False


@reg(PRE, 'Peekable::peek')
def m_peek(E, st, k):
    r, v = argref(E, st, k.args[0]), deref(E, st, k.args[0])
    if not (v[0] == 'o' and v[1] == '#it' and r[0] == 'r'):
        return None
    if kind_of(E, v) == 'chain' and kind_of(E, itf(E, v, 'src')) == 'once':
        return ret(some(newcell(E, st, itf(E, itf(E, v, 'src'), 'v'))), st)
    if not of_events(E, v):
        return None
    out = []
    for x, nv, s in it_next(E, st, v):
        if x is SKIP:
            return None
        if x is None:
            E.write(s, (r[1], r[2]), nv)
            out.append((NONE, s))
        else:
            E.write(s, (r[1], r[2]), mkit('chain', src=mkit('once', v=x), b=nv))
            out.append((some(newcell(E, s, x)), s))
    return out


def explicit(E, v):
    """number of items of an iterator over items that are written out (an upper bound), or None"""
    if v[0] != 'o' or v[1] != '#it':
        return None
    kd = kind_of(E, v)
    if kd == 'once':
        return 1
    if kd == 'seq':
        c = itf(E, v, 'src')[2]
        return len(c) - 1 if c[0] == 'seq' else None
    if kd == 'take' and of_events(E, v) and is_const(itf(E, v, 'n')) and itf(E, v, 'n')[1] <= 4:
        return max(0, itf(E, v, 'n')[1])
    if kd in ('map', 'inspect', 'filter', 'filter_map', 'take_while', 'map_while', 'enumerate', 'take'):
        return explicit(E, itf(E, v, 'src'))
    if kd == 'chain':
        a, b = explicit(E, itf(E, v, 'src')), explicit(E, itf(E, v, 'b'))
        return None if a is None or b is None else a + b
    return None


def iterate(E, st, v, body, name):
    """fixpoint over `for x in v { body }`; body(state, x) -> [(stop_value|None, state)].
    Returns [(stop_value|None, state)] — None means the iterator was exhausted."""
    from .engine import Phi, LoopInfo, Ev
    st.ctr += 1
    lid = ('L', name, 0, st.ctr)
    itc = ('iter', st.ctr)
    st.cells[itc] = v
    mark = (st.trace, Ev(('loopmark', (lid,), None, ())), st.facts, st.held, st.ghost)
    npan = len(E.panics)

    def once(s0):
        backs, outs = [], []
        s = s0.copy()
        s.trace = mark
        for x, nv, s1 in it_next(E, s, s.cells[itc]):
            s1.cells[itc] = nv
            if x is None:
                outs.append((None, s1))
                continue
            if x is SKIP:
                backs.append(s1)
                continue
            for stop, s2 in body(s1, x):
                if stop is None:
                    backs.append(s2)
                else:
                    outs.append((stop, s2))
        return backs, outs
    n = explicit(E, v)
    if n is not None and n <= 8:
        front, done = [st], []
        while front:
            nxt = []
            for s0 in front:
                mark = s0.trace
                b, o = once(s0)
                done.extend(o)
                nxt.extend(b)
            front = nxt
        return done
    if E.opts.get('unroll') is not None:
        mark = st.trace
        front, done = [st], []
        for i in range(E.opts['unroll'] + 1):
            nxt = []
            for s0 in front:
                mark = s0.trace
                b, o = once(s0)
                done.extend(o)
                nxt.extend(E.within(b))
            front = nxt
        E.stats['cut'] = E.stats.get('cut', 0) + len(front)
        return done
    backs, outs = once(st)
    if not backs:
        _, outs = E._strip([], outs, mark, None, st)
        return outs
    phi = Phi(E, lid, st)
    cur = st
    for i in range(14):
        cur2, ch = phi.step(cur, backs)
        if not ch:
            break
        cur = cur2
        del E.panics[npan:]
        backs, outs = once(cur)
    else:
        from .engine import Budget
        raise Budget('iteration does not stabilise: ' + name)
    segs = []
    for b in backs:
        evs = trace_list(b.trace, mark)
        segs.append((tuple((n[1], n[2], n[3], n[4]) for n in evs), b.facts, phi.deltas(cur, b)))
    loopev = None
    loopev = Ev(('loop', (lid, LoopInfo(segs, phi.summary(cur), cur.facts)), None, E.site()))
    # expose stop values as exits
    _, outs = E._strip([], outs, mark, loopev, st)
    return outs


def drain(E, st, v, name):
    """collect an iterator: [(vec value, state)]"""
    kd = kind_of(E, v)
    if kd == 'seq':
        return [(itf(E, v, 'src'), st)]
    # purely structural adaptors over an opaque sequence keep a canonical content
    c = canon_seq(E, st, v)
    if c is not None:
        return [(c, st)]
    res = newcell(E, st, ('vec', const(0), ('seq',)), 'acc')
    loc = res[1]

    def body(s, x):
        w = s.cells[loc]
        E.event(s, 'vec.push', (w[2] if w[2][0] != 'seq' else ('loc', loc, ()), 'push', E.resolve(s, x), w[1]))
        nc = w[2] + (x,) if w[2][0] == 'seq' else w[2]
        s.cells[loc] = ('vec', add(w[1], const(1)), nc)
        return [(None, s)]
    return [(s.cells[loc], s) for _, s in iterate(E, st, v, body, name)]


def canon_seq(E, st, v):
    """canonical content of take/skip/rev/range-free chains over opaque sequences"""
    kd = kind_of(E, v)
    if kd == 'seq':
        return itf(E, v, 'src')
    if kd in ('take', 'skip'):
        s = canon_seq(E, st, itf(E, v, 'src'))
        if s is None or s[2][0] == 'seq':
            return None
        t = term(kd, s[2], itf(E, v, 'n'))
        ln = term('len', t)
        UNSIGNED.add(ln)
        return ('vec', ln, t)
    if kd == 'rev':
        s = canon_seq(E, st, itf(E, v, 'src'))
        if s is None or s[2][0] == 'seq':
            return None
        return ('vec', s[1], rev_content(s[2]))
    if kd == 'filter':
        s = canon_seq(E, st, itf(E, v, 'src'))
        if s is None or not is_slice(s[2]):
            return None
        x = term('anyitem', s[2][2])
        rr = pred_cases(E, st, itf(E, v, 'f'), newcell(E, st, x))
        if any(r[0] == term('effect') for r in rr):
            return None
        t = term('filter', s[2], x, rr)
        UNSIGNED.add(term('len', t))
        return ('vec', term('len', t), t)
    if kd == 'map':
        f = E.through(st, itf(E, v, 'f'))
        src = itf(E, v, 'src')
        s = canon_seq(E, st, src)
        if s is None or s[2][0] == 'seq':
            return None
        x = term('any', s[2])
        s2 = st.copy()
        n0 = s2.trace
        outs = callf(E, s2, f, [x])
        if len(outs) == 1 and outs[0][1].trace is n0 and E.resolve(outs[0][1], outs[0][0]) == x:
            return s
        return None
    return None


@reg(PRE, 'Iterator::collect', 'FromIterator::from_iter')
def m_collect(E, st, k):
    if not is_it(E, st, k.args[0]):
        return None
    v = to_it(E, st, k.args[0])
    n = tyname(E, k.dty) if k.dty is not None else 'Vec'
    if n in ('Result', 'Option'):
        return collect_try(E, st, v, n)
    if n in ('HashMap', 'BTreeMap') and kind_of(E, v) == 'seq' and itf(E, v, 'src')[2][:1] == ('seq',):
        return map_of(E, st, itf(E, v, 'src')[2][1:])
    return drain(E, st, v, 'collect')


def collect_try(E, st, v, n):
    res = newcell(E, st, ('vec', const(0), ('seq',)), 'acc')
    loc = res[1]

    def body(s, x):
        out = []
        if n == 'Result':
            alts = split_res(E, s, x)
        else:
            alts = [(p is not None, p, s1) for p, s1 in split_opt(E, s, x)]
        for okk, p, s1 in alts:
            if not okk:
                out.append((err(p) if n == 'Result' else NONE, s1))
                continue
            w = s1.cells[loc]
            E.event(s1, 'vec.push', (w[2] if w[2][0] != 'seq' else ('loc', loc, ()), 'push', E.resolve(s1, p), w[1]))
            s1.cells[loc] = ('vec', add(w[1], const(1)), w[2] + (p,) if w[2][0] == 'seq' else w[2])
            out.append((None, s1))
        return out
    out = []
    for stop, s in iterate(E, st, v, body, 'collect'):
        if stop is None:
            out.append(((ok if n == 'Result' else some)(s.cells[loc]), s))
        else:
            out.append((stop, s))
    return out


@reg(PRE, 'Iterator::for_each', 'Iterator::try_for_each', 'Iterator::any', 'Iterator::all', 'Iterator::find', 'Iterator::find_map',
     'Iterator::position', 'Iterator::count', 'Iterator::last', 'Iterator::fold', 'Iterator::try_fold', 'Iterator::nth', 'Iterator::sum',
     'Iterator::max', 'Iterator::min')
def m_consume(E, st, k):
    m = k.c['method']
    if not is_it(E, st, k.args[0]):
        return None
    v = to_it(E, st, k.args[0])
    f = k.args[1] if len(k.args) > 1 else None
    if m in ('any', 'all', 'find', 'position') and kind_of(E, v) == 'seq' and itf(E, v, 'src')[2] == ('seq',):
        return ret({'any': FALSE, 'all': TRUE}.get(m, NONE), st)

    if m in ('any', 'position', 'find') and kind_of(E, v) == 'seq' and itf(E, v, 'src')[2][:2] in (('t', 'slice'), ('t', 'queue')):
        c = itf(E, v, 'src')[2]
        x = term('anyitem', c[2])
        if c[1] == 'queue':
            c = slice_(c[2] if m != 'find' else st.fresh('queue', c[2]), const(0), itf(E, v, 'src')[1], FALSE)
        cases = pred_cases(E, st, f, newcell(E, st, x) if m == 'find' else x, m == 'find')

        def yes(s):
            if m == 'any':
                return TRUE
            i = s.fresh('pos', c[2])
            UNSIGNED.add(i)
            s.assume(E.cmp(s, 'Lt', i, slice_len(c)))
            return some(i if m == 'position' else slice_elem(c, i))
        return q_search(E, st, c[2], m, cases, yes, FALSE if m == 'any' else NONE)

    def boolcall(s, x, byref):
        out = []
        for r, s1 in callf(E, s, f, [newcell(E, s, x) if byref else x]):
            out.extend(E.split(s1, deref(E, s1, r)))
        return out
    if m == 'for_each':
        def body(s, x):
            return [(None, s1) for _, s1 in callf(E, s, f, [x])]
        return [(UNIT, s) for _, s in iterate(E, st, v, body, m)]
    if m == 'try_for_each':
        n = tyname(E, k.dty)

        def body(s, x):
            out = []
            for r, s1 in callf(E, s, f, [x]):
                if n == 'Option':
                    out.extend((None if p is not None else NONE, s2) for p, s2 in split_opt(E, s1, r))
                else:
                    out.extend((None if okk else err(p), s2) for okk, p, s2 in split_res(E, s1, r))
            return out
        return [((some(UNIT) if n == 'Option' else ok(UNIT)) if x is None else x, s) for x, s in iterate(E, st, v, body, m)]
    if m in ('any', 'all'):
        want = m == 'any'

        def body(s, x):
            return [(('b', want) if b == want else None, s1) for b, s1 in boolcall(s, x, False)]
        return [(('b', not want) if x is None else x, s) for x, s in iterate(E, st, v, body, m)]
    if m == 'find':
        def body(s, x):
            return [(some(x) if b else None, s1) for b, s1 in boolcall(s, x, True)]
        if kind_of(E, v) == 'cron' and itf(E, v, 'src')[:2] == ('t', 'cron'):
            # the first two events exactly, later ones are not told apart
            out, front = [], [(v, st)]
            for _ in range(2):
                nxt = []
                for v1, s in front:
                    for x, v2, s1 in it_next(E, s, v1):
                        if x is None:
                            out.append((NONE, s1))
                            continue
                        for r, s2 in body(s1, x):
                            if r is None:
                                nxt.append((v2, s2))
                            else:
                                out.append((r, s2))
                front = nxt
            out.extend((s.fresh('cron?', itf(E, v, 'src')), s) for _, s in front)
            return out
        return [(NONE if x is None else x, s) for x, s in iterate(E, st, v, body, m)]
    if m == 'find_map':
        def body(s, x):
            out = []
            for r, s1 in callf(E, s, f, [x]):
                out.extend((some(p) if p is not None else None, s2) for p, s2 in split_opt(E, s1, r))
            return out
        return [(NONE if x is None else x, s) for x, s in iterate(E, st, v, body, m)]
    if m == 'position':
        def body(s, x):
            return [(some(s.fresh('pos')) if b else None, s1) for b, s1 in boolcall(s, x, False)]
        return [(NONE if x is None else x, s) for x, s in iterate(E, st, v, body, m)]
    if m == 'nth' and of_events(E, v) and is_const(f) and 0 <= f[1] <= 8:
        out, work = [], [(v, st, f[1])]
        while work:
            it, s, n = work.pop()
            for x, it2, s2 in it_next(E, s, it):
                if x is SKIP:
                    return None
                if x is None:
                    out.append((NONE, s2))
                elif n == 0:
                    out.append((some(x), s2))
                else:
                    work.append((it2, s2, n - 1))
        return out
    if m == 'last' and of_events(E, v):
        c = newcell(E, st, NONE, 'last')

        def body(s, x):
            s.cells[c[1]] = some(x)
            return [(None, s)]
        return [(s.cells[c[1]], s) for _, s in iterate(E, st, v, body, m)]
    if m == 'count':
        if kind_of(E, v) == 'seq':
            return ret(itf(E, v, 'src')[1], st)
        c = newcell(E, st, const(0), 'cnt')

        def body(s, x):
            s.cells[c[1]] = add(s.cells[c[1]], const(1))
            return [(None, s)]
        return [(s.cells[c[1]], s) for _, s in iterate(E, st, v, body, m)]
    if m == 'fold':
        c = newcell(E, st, k.args[1], 'acc')

        def body(s, x):
            out = []
            for r, s1 in callf(E, s, k.args[2], [s.cells[c[1]], x]):
                s1.cells[c[1]] = r
                out.append((None, s1))
            return out
        return [(s.cells[c[1]], s) for _, s in iterate(E, st, v, body, m)]
    return None


# ---------------------------------------------------------------- maps
def map_id(E, st, v):
    if v[0] == 'o' and v[1] == '#map':
        return E.field(v, None, None, 'id')
    return E.resolve(st, v)


MAPS = ('HashMap', 'BTreeMap', 'DashMap', 'HashSet', 'BTreeSet', 'DashSet')


def reg_map(*ms):
    def d(f):
        for t in MAPS:
            for m in ms:
                PRE['%s::%s' % (t, m)] = f
        return f
    return d


def entry_cell(E, st, mid, key, valty):
    c = ('ent', mid, key)
    if c not in st.cells:
        st.cells[c] = entry_value(E, st, mid, key, valty)
    return ('r', c, ())


def entry_value(E, st, mid, key, valty):
    n = tyname(E, valty) if valty is not None else ''
    if n in ('VecDeque', 'LinkedList'):
        return q_base(term('q', mid, key))
    if n in ('HashMap', 'BTreeMap'):
        return obj('#map', id=term('m', mid, key), init=lit('shared'))
    return term('val', mid, key)


def presence(mid, key):
    return term('has', mid, key)


def map_types(E, k):
    """(key type, value type) of the map type the method is called on"""
    ta = k.c.get('targs') or []
    return (ta[0] if ta else None), (ta[1] if len(ta) > 1 else None)


def is_dash(k):
    return 'dashmap' in k.c['fn']


@reg_map('new', 'with_capacity')
def m_mapnew(E, st, k):
    return ret(obj('#map', id=st.fresh('map'), init=lit('empty')), st)


def map_of(E, st, pairs):
    """a fresh map of explicit pairs"""
    m = obj('#map', id=st.fresh('map'), init=lit('empty'))
    mid = map_id(E, st, m)
    for p in pairs:
        p = E.resolve(st, deref(E, st, p))
        if p[0] != 'o' or p[1] != 'tuple':
            return ret(st.fresh('map?'), st)
        key, val = E.field(p, 'tuple', 0, '0'), E.field(p, 'tuple', 0, '1')
        st.flags = st.flags | {('has_any', mid)}
        E.event(st, 'm.insert', (mid, key, val), False)
        st.cells[('ent', mid, key)] = val
        st.facts = dict(st.facts)
        st.facts[('B', presence(mid, key))] = True
    return ret(m, st)


@reg_map('get_key_value')
def m_mapgetkv(E, st, k):
    v = deref(E, st, k.args[0])
    mid, key = map_id(E, st, v), E.resolve(st, k.args[1])
    if is_dash(k) or (v[0] == 'o' and v[1] == '#map' and E.field(v, None, None, 'init') == lit('empty')):
        return None
    E.event(st, 'm.get', (mid, key))
    valty = map_types(E, k)[1]
    return [(some(('o', 'tuple', 0, (('0', k.args[1]), ('1', entry_cell(E, s, mid, key, valty))), None)) if b else NONE, s)
            for b, s in E.split(st, presence(mid, key))]


@reg_map('get', 'get_mut', 'contains_key', 'contains', 'view')
def m_mapget(E, st, k):
    m = k.c['method']
    v = deref(E, st, k.args[0])
    mid = map_id(E, st, v)
    key = E.resolve(st, k.args[1])
    isset = 'Set' in canon(E, k.c)[0].split('::')[0]
    valty = None if isset else map_types(E, k)[1]
    p = presence(mid, key)
    empty = v[0] == 'o' and v[1] == '#map' and E.field(v, None, None, 'init') == lit('empty') and st.facts.get(('B', p)) is None
    if empty and E.field(v, None, None, 'id')[1] == 'map' and ('has_any', mid) not in st.flags:
        return ret(FALSE if m.startswith('contains') else NONE, st)
    E.event(st, 'm.' + ('contains' if m.startswith('contains') else m), (mid, key))
    out = []
    if is_dash(k):
        # a concurrent map: presence is not stable between two calls
        p = st.fresh('has', mid, key)
        out = []
        for b, s in E.split(st, p):
            E.event(s, 'dm.' + ('contains' if m.startswith('contains') else m), (mid, key), b)
            if m.startswith('contains'):
                out.append((('b', b), s))
            elif not b:
                out.append((NONE, s))
            else:
                r = entry_cell(E, s, mid, key, valty)
                out.append((some(lock(E, s, term('shard', mid), r, 'dash', k.c['method'] == 'get')), s))
        return out
    for b, s in E.split(st, p):
        if m.startswith('contains'):
            out.append((('b', b), s))
        else:
            out.append((some(entry_cell(E, s, mid, key, valty)) if b else NONE, s))
    return out


@reg_map('insert')
def m_mapinsert(E, st, k):
    v = deref(E, st, k.args[0])
    mid = map_id(E, st, v)
    key = E.resolve(st, k.args[1])
    isset = 'Set' in canon(E, k.c)[0].split('::')[0]
    val = E.resolve(st, k.args[2]) if len(k.args) > 2 else UNIT
    fresh = v[0] == 'o' and v[1] == '#map' and E.field(v, None, None, 'init') == lit('empty') and \
        E.field(v, None, None, 'id')[1] == 'map' and ('has_any', mid) not in st.flags
    st.flags = st.flags | {('has_any', mid)}
    if fresh and not is_dash(k):
        st.facts = dict(st.facts)
        st.facts[('B', presence(mid, key))] = False
    if is_dash(k):
        check_relock(E, st, term('shard', mid))
        E.event(st, 'dm.insert', (mid, key, val))
        return ret(st.fresh('old', mid, key) if not isset else st.fresh('inserted', mid, key), st)
    p = presence(mid, key)
    out = []
    for b, s in E.split(st, p):
        E.event(s, 'm.insert', (mid, key, val), b)
        c = ('ent', mid, key)
        s.facts = dict(s.facts)
        s.facts[('B', p)] = True
        if b:
            old = s.cells.get(c, entry_value(E, s, mid, key, None if isset else map_types(E, k)[1]))
            s.cells[c] = k.args[2] if len(k.args) > 2 else UNIT
            out.append((FALSE if isset else some(old), s))
        else:
            s.cells[c] = k.args[2] if len(k.args) > 2 else UNIT
            out.append((TRUE if isset else NONE, s))
    return out


@reg_map('remove')
def m_mapremove(E, st, k):
    v = deref(E, st, k.args[0])
    mid = map_id(E, st, v)
    key = E.resolve(st, k.args[1])
    isset = 'Set' in canon(E, k.c)[0].split('::')[0]
    if is_dash(k):
        check_relock(E, st, term('shard', mid))
        E.event(st, 'dm.remove', (mid, key))
        return ret(st.fresh('old', mid, key), st)
    p = presence(mid, key)
    out = []
    for b, s in E.split(st, p):
        E.event(s, 'm.remove', (mid, key), b)
        c = ('ent', mid, key)
        old = s.cells.pop(c, entry_value(E, s, mid, key, None if isset else map_types(E, k)[1]))
        s.facts = dict(s.facts)
        s.facts[('B', p)] = False
        out.append(((('b', b) if isset else some(old) if b else NONE), s))
    return out


@reg_map('clear', 'retain', 'drain')
def m_mapclear(E, st, k):
    E.event(st, 'm.other', (map_id(E, st, deref(E, st, k.args[0])), k.c['method']))
    return ret(UNIT, st)


@reg_map('entry')
def m_entry(E, st, k):
    v = deref(E, st, k.args[0])
    mid = map_id(E, st, v)
    key = E.resolve(st, k.args[1])
    dash = is_dash(k)
    if dash:
        check_relock(E, st, term('shard', mid))
    return ret(obj('#entry', mid=mid, key=key, dash=('b', dash), vt=const(map_types(E, k)[1] if map_types(E, k)[1] is not None else -1)), st)


ENTRY = ('Entry', 'OccupiedEntry', 'VacantEntry')


def entry_or(E, st, k, make):
    e = deref(E, st, k.args[0])
    mid, key = itf(E, e, 'mid'), itf(E, e, 'key')
    vt = itf(E, e, 'vt')[1]
    vt = None if vt < 0 else vt
    dash = itf(E, e, 'dash') == TRUE
    c = ('ent', mid, key)
    out = []
    p = st.fresh('has', mid, key) if dash else presence(mid, key)
    for b, s in E.split(st, p):
        if b:
            r = entry_cell(E, s, mid, key, vt)
            E.event(s, ('dm' if dash else 'm') + '.entry', (mid, key), True)
            out.append((lock(E, s, term('shard', mid), r, 'dash', False) if dash else r, s))
        else:
            # the shard stays locked while the value is produced
            if dash:
                s.held = s.held + ((('entry', key), term('shard', mid), 'dash', None),)
            for x, s2 in make(s):
                if dash:
                    s2.held = tuple(h for h in s2.held if h[0] != ('entry', key))
                E.event(s2, ('dm' if dash else 'm') + '.insert', (mid, key, E.resolve(s2, x)), 'entry' if dash else False)
                s2.cells[c] = x
                s2.facts = dict(s2.facts)
                if not dash:
                    s2.facts[('B', p)] = True
                r = ('r', c, ())
                out.append((lock(E, s2, term('shard', mid), r, 'dash', False) if dash else r, s2))
    return out


@reg(PRE, 'Entry::or_insert_with')
def m_orinsw(E, st, k):
    if deref(E, st, k.args[0])[1:2] != ('#entry',):
        return None
    return entry_or(E, st, k, lambda s: callf(E, s, k.args[1], []))


@reg(PRE, 'Entry::or_insert')
def m_orins(E, st, k):
    if deref(E, st, k.args[0])[1:2] != ('#entry',):
        return None
    return entry_or(E, st, k, lambda s: [(k.args[1], s)])


@reg(PRE, 'Entry::or_default')
def m_ordef(E, st, k):
    e = deref(E, st, k.args[0])
    if e[1:2] != ('#entry',):
        return None
    vt = itf(E, e, 'vt')[1]

    def mk(s):
        n = tyname(E, vt) if vt >= 0 else ''
        if n == 'VecDeque':
            return [(('vec', const(0), ('seq',)), s)]
        return [(default_of(E, s, vt) if vt >= 0 else s.fresh('default'), s)]
    return entry_or(E, st, k, mk)


# ---------------------------------------------------------------- locks
def check_relock(E, st, lk):
    for h in st.held:
        if h[1] == lk:
            E.event(st, 'relock', (lk,))


def lock(E, st, lk, refv, kind, shared=False):
    st.ctr += 1
    gid = ('g', st.ctr)
    st.held = st.held + ((gid, lk, kind, shared),)
    return obj('#guard', gid=('gid', gid), ref=refv)


def unlock(E, st, g):
    gid = E.field(g, None, None, 'gid')[1]
    for h in st.held:
        if h[0] == gid:
            r = E.field(g, None, None, 'ref')
            cur = E.read(st, (r[1], r[2])) if r[0] == 'r' else r
            st.held = tuple(x for x in st.held if x[0] != gid)
            E.event(st, 'unlock', (h[1], E.resolve(st, cur) if h[2] != 'dash' else UNIT), gid)
            return


def acquire(E, st, k, mode):
    v = deref(E, st, k.args[0])
    if v[0] == 'o' and v[1] == '#mutex':
        lk = term('lockval', E.resolve(st, v))
        content = E.field(v, None, None, 'content')
    else:
        lk = v
        content = None
    tr = mode.startswith('try_')
    shared = mode.endswith('read')
    for h in st.held:
        if h[1] == lk and not (shared and h[3]):
            if tr:
                return ret(err(term('wouldblock')), st)
            E.event(st, 'relock', (lk,))

    def okf(s):
        n = sum(1 for x in trace_list(s.trace) if x[1].kind == 'lock' and x[1].args[0] == lk)
        c = ('mx', lk)
        if content is not None:
            s.cells.setdefault(c, content)
            before = s.cells[c]
        else:
            t = E.ir.ty(k.targ(0))
            if t['k'] == 'adt' and last(t['path']) in ('HashMap', 'BTreeMap', 'HashSet'):
                before = obj('#map', id=term('locked', lk), init=lit('shared'))
            else:
                before = s.fresh('locked', lk)
            s.cells[c] = before
        g = lock(E, s, lk, ('r', c, ()), 'rw' if 'read' in mode or 'write' in mode else 'mutex', shared)
        E.event(s, 'lock', (lk, mode, E.resolve(s, before)), E.field(g, None, None, 'gid')[1])
        return ok(g)
    if tr:
        return fork(E, st, okf, lambda s: (E.event(s, 'trylock_failed', (lk, mode)), err(term('wouldblock')))[1])
    return fork(E, st, okf)


for _t, _ms in (('Mutex', ('lock', 'try_lock')), ('RwLock', ('read', 'write', 'try_read', 'try_write')), ('ReentrantLock', ('lock',))):
    for _m in _ms:
        def _mkl(mode):
            return lambda E, st, k: acquire(E, st, k, mode)
        PRE['%s::%s' % (_t, _m)] = _mkl(_m)


@reg(PRE, 'PoisonError::into_inner', 'PoisonError::get_ref')
def m_poison(E, st, k):
    return ret(term('poisoned', E.resolve(st, k.args[0])), st)


@reg(PRE, 'Mutex::into_inner', 'Mutex::get_mut', 'RwLock::get_mut', 'Mutex::is_poisoned')
def m_lockmisc(E, st, k):
    return None


@reg(PRE, 'OnceLock::get_or_init', 'OnceCell::get_or_init', 'Lazy::get', 'LazyLock::force', 'LazyCell::force')
def m_oncelock(E, st, k):
    v = deref(E, st, k.args[0])
    lk = E.resolve(st, v)
    c = ('once', lk)
    if len(k.args) < 2 or c in st.cells:
        st.cells.setdefault(c, term('oncecontent', lk))
        return ret(('r', c, ()), st)

    def had(s):
        E.event(s, 'once', (lk,), True)
        s.cells[c] = term('oncecontent', lk)
        return ('r', c, ())

    def init(s):
        out = []
        s.held = s.held + ((('once', lk), lk, 'once', None),)
        for x, s2 in callf(E, s, k.args[1], []):
            s2.held = tuple(h for h in s2.held if h[0] != ('once', lk))
            E.event(s2, 'once', (lk,), E.resolve(s2, x))
            s2.cells[c] = x
            out.append((('r', c, ()), s2))
        return out
    return fork(E, st, had, init)


@reg(PRE, 'OnceLock::get', 'OnceCell::get')
def m_onceget(E, st, k):
    lk = E.resolve(st, deref(E, st, k.args[0]))
    c = ('once', lk)
    if c in st.cells:
        return ret(some(('r', c, ())), st)

    def had(s):
        E.event(s, 'once', (lk,), True)
        s.cells[c] = term('oncecontent', lk)
        return some(('r', c, ()))
    return fork(E, st, had, lambda s: NONE)


# ---------------------------------------------------------------- futures
@reg(PRE, 'get_context@core')
def m_getctx(E, st, k):
    return ret(term('cx'), st)


POLL = 'core::task::poll::Poll'


@reg(PRE, 'Future::poll')
def m_poll(E, st, k):
    b = E.ir.bodies.get(k.c.get('res'))
    f = deref(E, st, k.args[0])
    out = []
    for v, s in run_future(E, st, f, k.c.get('self')):
        out.append((('o', POLL, 0, (('0', v),), None), s))
    return out


def run_future(E, st, f, ty=None):
    """result of awaiting a future value"""
    f = deref(E, st, f)
    if f[0] == 'o' and f[1].startswith('cor:'):
        body = E.ir.bodies.get(f[1][4:])
        if body is not None:
            return E.exec_body(body, [f, term('cx')], st)
    if f[0] == 'o' and f[1] == '#send':
        return do_send(E, st, itf(E, f, 'addr'), itf(E, f, 'msg'), itf(E, f, 'ty')[1], itf(E, f, 'mty')[1])
    if f[0] == 'o' and f[1] == '#join':
        return run_join(E, st, f)
    if f[0] == 'o' and f[1] == '#userfut':
        return user_result(E, st, f)
    if f[0] == 'o' and f[1] == '#ready':
        return [(itf(E, f, 'v'), st)]
    if f[0] == 'o' and f[1] == '#fmap':
        out = []
        for v, s in run_future(E, st, itf(E, f, 'f')):
            xs = [v]
            if itf(E, f, 'actor') == TRUE:
                a = itf(E, f, 'aty')[1]
                xs += [actor_cell(E, s, a) if a >= 0 else newcell(E, s, s.fresh('actor')), newcell(E, s, term('ctx'))]
            for w, s2 in callf(E, s, itf(E, f, 'g'), xs):
                out += run_future(E, s2, w) if itf(E, f, 'then') == TRUE else [(w, s2)]
        return out
    if f[0] == 'o' and f[1] == '#catch':
        E.event(st, 'iso_begin', ())
        out = []
        if E.opts.get('user_panic', True):
            s2 = st.copy()
            E.event(s2, 'user_panic', ())
            out.append((err(term('panic_payload')), s2))
        for v, s in run_future(E, st, itf(E, f, 'f')):
            E.event(s, 'iso_end', ())
            out.append((ok(v), s))
        return out
    if f[0] == 'o' and f[1] == '#timeout':
        E.event(st, 'timeout', (itf(E, f, 'd'),))
        s2 = st.copy()
        out = [(err(term('elapsed')), s2)]
        out += [(ok(v), s) for v, s in run_future(E, st, itf(E, f, 'f'))]
        return out
    # unknown future: time passes
    E.event(st, 'await', (E.resolve(st, f),))
    st.store = ()
    if st.held:
        E.event(st, 'await_locked', tuple(h[1] for h in st.held))
    return [(st.fresh('awaited', E.resolve(st, f)), st)]


def run_join(E, st, f):
    """JoinHandle of a spawned task: a panic of the task is an Err here"""
    E.event(st, 'iso_begin', ())
    out = []
    if E.opts.get('user_panic', True):
        s2 = st.copy()
        E.event(s2, 'user_panic', ())
        out.append((err(term('join_error')), s2))
    for v, s in run_future(E, st, itf(E, f, 'f')):
        E.event(s, 'iso_end', ())
        out.append((ok(v), s))
    return out


@reg(PRE, 'ActorFutureExt::map', 'FutureExt::map', 'ActorFutureExt::then', 'FutureExt::then')
def m_futmap(E, st, k):
    actor = 'FutureExt' != last(k.c.get('trait') or '')
    aty = -1
    if actor:
        for t in k.c.get('targs', []):
            p = E.ir.adt_of(t)
            if p and last(p) in ('WorkQueue', 'AJ', 'PluginCenter'):
                aty = t
    return ret(obj('#fmap', f=k.args[0], g=k.args[1], aty=const(aty), actor=('b', actor), then=('b', k.c['method'] == 'then')), st)


@reg(PRE, 'FutureExt::catch_unwind')
def m_catchfut(E, st, k):
    return ret(obj('#catch', f=k.args[0]), st)


@reg(PRE, 'timeout@tokio', 'timeout@actix_rt')
def m_timeout(E, st, k):
    return ret(obj('#timeout', f=k.args[1], d=k.args[0]), st)


@reg(PRE, 'spawn@actix_rt', 'spawn@tokio', 'spawn_local@tokio', 'spawn@actix')
def m_rtspawn(E, st, k):
    E.event(st, 'spawn', (E.resolve(st, k.args[0]), 'task'))
    return ret(obj('#join', f=k.args[0]), st)


@reg(PRE, 'ready@core', 'ready@actix', 'ready@futures_util')
def m_ready(E, st, k):
    return ret(obj('#ready', v=k.args[0]), st)


@reg(PRE, 'spawn@std')
def m_thread(E, st, k):
    E.event(st, 'thread_begin', ())
    out = []
    for v, s in callf(E, st, k.args[0], []):
        E.event(s, 'thread_end', ())
        out.append((obj('#thread', v=v), s))
    return out


@reg(PRE, 'JoinHandle::join')
def m_join(E, st, k):
    v = deref(E, st, k.args[0])
    if v[0] == 'o' and v[1] == '#thread':
        return ret(ok(itf(E, v, 'v')), st)
    return None


# ---------------------------------------------------------------- actix
@reg(PRE, 'ContextFutureSpawner::spawn', 'AsyncContext::spawn', 'ContextFutureSpawner::wait', 'AsyncContext::wait', 'Context::spawn')
def m_spawn(E, st, k):
    m = k.c['method']
    tr = last(k.c['trait']) if 'trait' in k.c else ''
    f = k.args[0] if tr == 'ContextFutureSpawner' else k.args[1]
    E.event(st, 'spawn', (E.resolve(st, f), m))
    return ret(wrap_ty(E, st, st.fresh('handle'), k.dty), st)


@reg(PRE, 'AsyncContext::run_later', 'AsyncContext::run_interval')
def m_later(E, st, k):
    E.event(st, k.c['method'], (E.resolve(st, k.args[1]), E.resolve(st, k.args[2])))
    return ret(wrap_ty(E, st, st.fresh('handle'), k.dty), st)


@reg(PRE, 'AsyncContext::notify', 'AsyncContext::notify_later')
def m_notify(E, st, k):
    E.event(st, 'notify', (E.resolve(st, k.args[1]), E.resolve(st, k.args[2]) if len(k.args) > 2 else const(0), const(k.argtys[1] if k.argtys else -1)))
    return ret(wrap_ty(E, st, st.fresh('handle'), k.dty), st)


@reg(PRE, 'AsyncContext::cancel_future', 'ActorContext::stop', 'ActorContext::terminate')
def m_stop(E, st, k):
    E.event(st, 'ctx.' + k.c['method'], pure_args(E, st, k.args[1:]))
    return ret(wrap_ty(E, st, TRUE, k.dty), st)


@reg(PRE, 'SystemService::from_registry', 'ArbiterService::from_registry')
def m_registry(E, st, k):
    return ret(term('addr', E.ir.T[k.c['self']]['s']), st)


@reg(PRE, 'Actor::start_in_arbiter', 'Actor::create', 'Actor::start', 'Supervisor::start_in_arbiter', 'Supervisor::start',
     'Actor::start_default')
def m_actorstart(E, st, k):
    a = st.fresh('addr_new')
    E.event(st, 'actor_start', (term('type', E.ir.T[k.c['self']]['s'] if 'self' in k.c else '?'), E.resolve(st, k.args[-1]) if k.args else UNIT,
                                  term('held', *[term('h', h[1], lit(h[2]), lit('shared' if h[3] else 'excl')) for h in st.held])), a)
    return ret(a, st)


@reg(PRE, 'System::try_current')
def m_trycur(E, st, k):
    return ret(st.fresh('system'), st)


def handler_for(E, aty, mty):
    """impl Handler<msg> for actor"""
    ap = E.ir.adt_of(aty)
    mp = E.ir.adt_of(mty)
    if ap is None or mp is None:
        return None
    bs = E.ir.find_impl('Handler', ap, mp, 'handle')
    return bs[0] if len(bs) == 1 else None


@reg(PRE, 'Addr::send', 'Addr::do_send', 'Addr::try_send', 'Recipient::send', 'Recipient::do_send')
def m_send(E, st, k):
    m = k.c['method']
    aty = k.targ(0)
    mty = k.argtys[1] if k.argtys and len(k.argtys) > 1 else None
    addr = E.resolve(st, k.args[0])
    msg = k.args[1]
    if m == 'send':
        return ret(obj('#send', addr=addr, msg=msg, ty=const(aty if aty is not None else -1), mty=const(mty if mty is not None else -1)), st)
    if m == 'try_send':      # a full mailbox refuses the message
        s = st.copy()
        E.event(s, 'mailbox_full', (addr, E.resolve(s, msg)))
        E.event(st, 'do_send', (addr, E.resolve(st, msg), const(aty if aty is not None else -1), const(mty if mty is not None else -1)))
        return [(ok(UNIT), st), (err(term('send_error')), s)]
    # fire and forget: what the handler does happens later
    E.event(st, 'do_send', (addr, E.resolve(st, msg), const(aty if aty is not None else -1), const(mty if mty is not None else -1)))
    return ret(UNIT, st)


def actor_cell(E, st, aty):
    ap = E.ir.adt_of(aty)
    c = ('actor', last(ap) if ap else '?')
    if c not in st.cells:
        st.cells[c] = term('actor', last(ap) if ap else '?')
    return ('r', c, ())


def do_send(E, st, addr, msg, aty, mty):
    """deliver a message and wait for the answer: the handler is analysed in place"""
    h = handler_for(E, aty, mty) if aty >= 0 and mty >= 0 else None
    if st.held:
        E.event(st, 'await_locked', tuple(x[1] for x in st.held))
    E.event(st, 'send', (addr, E.resolve(st, msg)))
    st.store = ()
    out = []
    if E.faults and E.opts.get('mailbox', True):
        s = st.copy()
        E.event(s, 'mailbox_error', (addr,))
        out.append((err(term('mailbox_error')), s))
    if h is None:
        v = st.fresh('reply', addr)
        out.append((ok(v), st))
        return out
    ctx = newcell(E, st, term('ctx'))
    for v, s in E.exec_body(h, [actor_cell(E, st, aty), msg, ctx], st):
        for v2, s2 in settle(E, s, v):
            for v3, s3 in answers(E, E.resolve(s2, v2), s2):
                E.event(s3, 'reply', (addr,), v3)
                s3.store = ()
                out.append((ok(v3), s3))
    return out


def answers(E, v, st):
    """one path for each truth value of a condition handed back inside Ok or Some"""
    if v[0] == 'o' and v[1] != 'tuple' and len(v[3]) == 1 and v[3][0][1][0] == 'p':
        n, p = v[3][0]
        return [(v[:3] + (((n, ('b', b)),),) + v[4:], s) for b, s in E.split(st, p)]
    return [(v, st)]


def settle(E, st, v):
    """a handler's answer may itself be a future"""
    w = deref(E, st, v)
    if w[0] == 'o' and last(w[1]) == 'MessageResult' and len(w[3]) == 1:
        return settle(E, st, w[3][0][1])
    if w[0] == 'o' and (w[1].startswith('cor:') or w[1] in ('#join', '#send', '#ready', '#userfut', '#fmap', '#catch')):
        return run_future(E, st, w)
    return [(v, st)]


def run_message(E, st, aty, mty, msg):
    """analyse the handler of a fire-and-forget message (used by the oracles)"""
    h = handler_for(E, aty, mty)
    if h is None:
        return None
    ctx = newcell(E, st, term('ctx'))
    out = []
    for v, s in E.exec_body(h, [actor_cell(E, st, aty), msg, ctx], st):
        for v2, s2 in settle(E, s, v):
            out.append((v2, s2))
    return out


@reg(PRE, 'Response::reply', 'Response::fut', 'ActorResponse::reply', 'ActorResponse::make_future', 'ActorResponse::async', 'AtomicResponse::new')
def m_response(E, st, k):
    return ret(k.args[0], st)


@reg(PRE, 'TypeId::of')
def m_typeid(E, st, k):
    return ret(term('typeid', E.ir.T[k.targ(0)]['s']), st)


@reg(PRE, 'type_name@core', 'type_name_of_val@core')
def m_typename(E, st, k):
    return ret(term('typename', E.ir.T[k.targ(0)]['s']), st)


@reg(PRE, 'dyn Any::downcast_ref', 'dyn Any::downcast_mut', 'dyn Any::downcast', 'dyn Any::is')
def m_downcast(E, st, k):
    # entries are only ever inserted under the TypeId of their own type (checked by the registry rule)
    a = k.args[0]
    t = E.ir.T[k.targ(0)]['s'] if k.targ(0) is not None else '?'
    if k.c['method'] == 'is':
        return ret(TRUE, st)
    return ret(some(a), st)


@reg(PRE, 'Uuid::new_v4', 'Uuid::now_v7', 'Uuid::new_v7')
def m_uuid(E, st, k):
    return ret(st.fresh('uuid'), st)


@reg(PRE, 'Uuid::nil', 'Uuid::max', 'Uuid::from_u128', 'Uuid::from_bytes', 'Uuid::new_v5', 'Uuid::new_v3', 'Uuid::from_u64_pair')
def m_uuid_fixed(E, st, k):
    return ret(term('uuid_of', lit(k.c['method']), *[E.resolve(st, a) for a in k.args]), st)


@reg(PRE, 'str::trim', 'str::trim_start', 'str::trim_end', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase',
     'str::replace', 'str::replacen')
def m_strfn(E, st, k):
    a = deref(E, st, k.args[0])
    if len(k.args) > 1:
        return ret(term('strfn', lit(k.c['method']), a, *[E.resolve(st, deref(E, st, x)) for x in k.args[1:]]), st)
    if a[0] == 't' and a[1] == 'strfn' and a[2] == lit(k.c['method']):
        return ret(a, st)
    return ret(term('strfn', lit(k.c['method']), a), st)


# ---------------------------------------------------------------- the crate's own abstract interfaces
def is_trait(c, name):
    return last(c.get('trait', '')) == name


def jobrec(n, key):
    return term('job', key, n)


@reg(PRE, 'Backend::queue_push', 'Backend::queue_move', 'Backend::queue_remove', 'Backend::queue_get', 'Backend::queue_count',
     'Backend::storage_upsert', 'Backend::storage_get')
def m_backend(E, st, k):
    sty = E.ir.ty(E.ir.strip_ref(k.c['self']))
    if sty['k'] == 'adt':      # a concrete backend: analysed itself
        if k.c.get('res') in E.ir.bodies:
            return None
    m = k.c['method']
    args = tuple(E.resolve(st, a) for a in k.args[1:])

    def okf(s):
        if m == 'queue_count':
            v = s.fresh('count', args[0])
            UNSIGNED.add(v)
        elif m in ('queue_get', 'queue_move'):
            t = s.fresh(m, args)
            ln = term('len', t)
            UNSIGNED.add(ln)
            v = ('vec', ln, t)
            if m == 'queue_get' and E.numeric(args[1]):
                s.assume(le0(add(ln, args[1], -1)))
            if m == 'queue_move':
                s.gset('moved_to', add(s.gget('moved_to'), const(0)))
        elif m == 'storage_get':
            known = dict(s.store).get((args[0], args[1]))
            if known is not None:
                v = known
            else:
                out = []
                E.count(1)
                s2 = s.copy()
                E.event(s2, 'be.storage_get', args, 'none')
                s2.store = s2.store + (((args[0], args[1]), NONE),)
                out.append((ok(NONE), s2))
                x = s.fresh('stored', args[0], args[1])
                E.event(s, 'be.storage_get', args, ('some', x))
                s.store = s.store + (((args[0], args[1]), some(x)),)
                out.append((ok(some(x)), s))
                return out
            E.event(s, 'be.storage_get', args, 'none' if v == NONE else ('some', E.field(v, OPT, 1, '0')))
            return ok(v)
        else:
            v = UNIT
        if m == 'storage_upsert':
            s.store = tuple(x for x in s.store if x[0] != (args[0], args[1])) + (((args[0], args[1]), some(args[2])),)
        if m in ('queue_push', 'queue_move'):
            q = args[0] if m == 'queue_push' else args[1]
            r = E.role(q) if hasattr(E, 'role') else None
            if r == 'Running':
                s.gset('claims', add(s.gget('claims'), const(1)))
        E.event(s, 'be.' + m, args, ('ok', v))
        return ok(v)

    def errf(s):
        e = s.fresh('be_err', m)
        E.event(s, 'be.' + m, args, ('err', e))
        return err(e)
    if E.faults:
        return fork(E, st, okf, errf)
    return fork(E, st, okf)


@reg(PRE, 'to_string@serde_json', 'to_vec@serde_json', 'to_value@serde_json', 'to_string_pretty@serde_json')
def m_json(E, st, k):
    v = E.resolve(st, k.args[0])

    def errf(s):
        E.event(s, 'json_err', (v,))
        return err(s.fresh('json_err'))
    if E.faults and E.opts.get('json_fault', True):
        return fork(E, st, lambda s: ok(term('json', v)), errf)
    return ret(ok(term('json', v)), st)


@reg(PRE, 'from_str@serde_json', 'from_slice@serde_json', 'from_value@serde_json', 'from_reader@serde_json')
def m_unjson(E, st, k):
    s = E.resolve(st, k.args[0])
    if s[0] == 't' and s[1] == 'json':
        return ret(ok(s[2]), st)
    if s[0] == 't' and s[1] == 'stored':
        jt = E.opts.get('job_type')
        if jt is not None:
            p = next((q for q in E.ir.local_adts if last(q) == 'JobType'), None)
            t = E.tfield(E.tfield(term('job', s[3], s[4]), None, 'context'), None, 'job_type')
            if p is not None:
                st.assume(E.isv(t, p, [jt]))

        def okf(x):
            return ok(term('job', s[3], s[4]))

        def errf(x):
            E.event(x, 'decode_err', (s,))
            return err(x.fresh('decode_err'))
        if E.opts.get('corrupt'):
            return fork(E, st, okf, errf)
        return ret(okf(st), st)
    t = term('decoded', s)

    def errf2(x):
        E.event(x, 'decode_err', (s,))
        return err(x.fresh('decode_err'))
    return fork(E, st, lambda x: ok(t), errf2)


@reg(PRE, 'Executable::pre_execute', 'Executable::execute', 'Executable::post_execute', 'Executable::is_failed_output', 'Executable::retry_at')
def m_exec(E, st, k):
    m = k.c['method']
    if m == 'retry_at' and E.user_retry == 'default':
        # default method body, on the data it is called with
        for b in E.ir.bodies.values():
            if b.in_trait and last(b.in_trait) == 'Executable' and b.method == 'retry_at' and b.kind != 'Closure':
                return E.exec_body(b, k.args, st)
    sty = E.ir.ty(E.ir.strip_ref(k.c['self']))
    if sty['k'] == 'adt' and k.c.get('res') in E.ir.bodies:
        b = E.ir.bodies[k.c['res']]
        if not b.in_trait:
            return None
    return ret(obj('#userfut', m=lit(m), a=('vec', const(len(k.args)), ('seq',) + tuple(k.args))), st)


def user_result(E, st, f):
    m = itf(E, f, 'm')[1][0]
    args = list(itf(E, f, 'a')[2][1:])
    rargs = tuple(E.resolve(st, a) for a in args)
    if st.held:
        E.event(st, 'await_locked', tuple(h[1] for h in st.held))
    if m == 'is_failed_output':
        t = term('failed', rargs[1])
        E.event(st, 'user.' + m, rargs, t)
        st.store = ()
        return [(t, st)]
    r = UNIT if m == 'pre_execute' else st.fresh('out', m)
    E.event(st, 'user.' + m, rargs, r)
    st.store = ()
    if m in ('pre_execute', 'execute', 'post_execute'):
        ref = argref(E, st, args[0])
        if ref[0] == 'r':
            E.write(st, (ref[1], ref[2]), st.fresh('data', m, rargs[0]))
    if m == 'retry_at':
        ref = argref(E, st, args[1])
        if ref[0] == 'r':
            E.write(st, (ref[1], ref[2]), st.fresh('retry', rargs[1]))
    return [(r, st)]


@reg(PRE, 'BackgroundJob::queue_name')
def m_qname(E, st, k):
    sty = E.ir.ty(k.c['self'])
    if k.c.get('res') in E.ir.bodies and not E.ir.bodies[k.c['res']].in_trait:
        return None
    return ret(term('queue_name', sty['s']), st)


@reg(PRE, 'JobPlugin::change_status', 'JobPlugin::before_run', 'JobPlugin::after_run')
def m_hook(E, st, k):
    sty = E.ir.ty(E.ir.strip_ref(k.c['self']))
    if sty['k'] == 'adt' and k.c.get('res') in E.ir.bodies and not E.ir.bodies[k.c['res']].in_trait:
        return None
    args = tuple(E.resolve(st, a) for a in k.args)
    return ret(obj('#hookfut', m=lit(k.c['method']), a=('vec', const(len(args)), ('seq',) + args)), st)


_old_run_future = run_future


def run_future(E, st, f, ty=None):    # noqa: F811
    f = deref(E, st, f)
    if f[0] == 'o' and f[1] == '#hookfut':
        m = itf(E, f, 'm')[1][0]
        E.event(st, 'hook.' + m, tuple(itf(E, f, 'a')[2][1:]))
        st.store = ()
        return [(UNIT, st)]
    return _old_run_future(E, st, f, ty)


# ---------------------------------------------------------------- redis
SPELLED = {'LPUSH': 2, 'RPUSH': 2, 'LREM': 3, 'LLEN': 1, 'LRANGE': 3, 'HSET': 3, 'HGET': 2, 'LPOP': 1, 'RPOP': 1, 'RPOPLPUSH': 2, 'LTRIM': 3, 'HDEL': 2,
           'LMOVE': 4, 'LINDEX': 2, 'DEL': 1}


def spelled(E, st, args):
    """cmd(name).arg(..).arg(..) as the call of that command"""
    if len(args) < 2:
        return None
    c, xs = args[0], []
    while c[0] == 't' and c[1] == 'cmd' and c[2] == 'arg' and len(c[3]) == 2:
        x = c[3][1]
        if x[0] == 'o' and x[1] == 'tuple':
            xs[:0] = [y for _, y in x[3]]
        else:
            xs.insert(0, x)
        c = c[3][0]
    if not (c[0] == 't' and c[1] == 'cmd' and c[2] == 'cmd' and len(c[3]) == 1 and c[3][0][0] == 's' and len(c[3][0][1]) == 1):
        return None
    name = c[3][0][1][0]
    if not isinstance(name, str) or SPELLED.get(name.upper()) != len(xs):
        return None
    name = name.upper()
    if name == 'LMOVE':
        for i in (2, 3):
            x = xs[i]
            if x[0] == 's' and x[1] in (('LEFT',), ('RIGHT',)):
                ad = next((p for p in E.ir.adts if p.startswith('redis::') and last(p) == 'Direction'), None) if hasattr(E.ir, 'adts') else None
                if ad is None:
                    return None
                xs[i] = ('o', ad, 0 if x[1] == ('LEFT',) else 1, (), None)
    return name.lower(), (args[1],) + tuple(xs)


def redis_call(E, st, k):
    m = k.c.get('method') or canon(E, k.c)[-1].split('@')[0]
    tr = last(k.c['trait']) if 'trait' in k.c else (tyname(E, k.c['impl_self']) if 'impl_self' in k.c else '')
    args = tuple(E.resolve(st, a) for a in k.args)
    if tr in ('Commands', 'ConnectionLike', 'Client', 'Connection', 'Cmd', 'Pipeline', 'Script') or m in ('cmd', 'pipe'):
        if m in ('open', 'clone', 'get_connection_info'):
            return None
        nm = 'redis.' + m
        if tr in ('Cmd', 'Pipeline') or m in ('cmd', 'pipe'):
            v = term('cmd', m, args)
            if m in ('query', 'execute', 'exec'):
                w = spelled(E, st, args)
                if w is not None:
                    m, args = w
                    nm = 'redis.' + m
            else:
                if k.args and k.args[0][0] == 'r':
                    r = argref(E, st, k.args[0])
                    E.write(st, (r[1], r[2]), v)
                    return ret(('r', r[1], r[2]), st)
                return ret(v, st)
        dn = tyname(E, k.dty) if k.dty is not None else ''

        def okf(s):
            v = s.fresh('redis', m, args[1:])
            t = E.ir.ty(k.dty)
            inner = E.ir.ty(t['args'][0]) if t['k'] == 'adt' and t.get('args') else None
            if inner is not None and inner['s'] == '()':
                v = UNIT
            elif inner is not None and inner['k'] == 'adt' and last(inner['path']) == 'Vec':
                ln = term('len', v)
                UNSIGNED.add(ln)
                v = ('vec', ln, v)
            elif inner is not None and inner['s'] in ('usize', 'u64', 'u32'):
                UNSIGNED.add(v)
            E.event(s, nm, args, ('ok', v))
            return ok(v)

        def errf(s):
            e = s.fresh('redis_err')
            E.event(s, nm, args, ('err', e))
            return err(e)
        if dn == 'Result':
            return fork(E, st, okf, errf) if E.faults else fork(E, st, okf)
        E.event(st, nm, args)
        return ret(wrap_ty(E, st, st.fresh('redis', m), k.dty), st)
    return None


# atomics: shared memory read by other threads
for _t in ('AtomicBool', 'AtomicUsize', 'AtomicU64', 'AtomicI64', 'AtomicU32', 'AtomicI32', 'Atomic'):
    for _m in ('load', 'store', 'swap', 'fetch_add', 'fetch_sub', 'compare_exchange', 'fetch_or', 'fetch_and'):
        def _mka(mm):
            def f(E, st, k):
                lk = E.resolve(st, k.args[0])
                E.event(st, 'atomic.' + mm, (lk,) + tuple(E.resolve(st, a) for a in k.args[1:2]))
                return ret(wrap_ty(E, st, st.fresh('atomic', lk), k.dty), st)
            return f
        PRE['%s::%s' % (_t, _m)] = _mka(_m)
