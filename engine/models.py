"""Abstract semantics of the library functions the analysed code goes through."""
from .core import *

MODELS = {}
TRAIT_MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def tmodel(*names):
    def d(f):
        for n in names:
            TRAIT_MODELS[n] = f
        return f
    return d


def some(v):
    return ('a', None, 1, None, ((0, v),))


NONE = ('a', None, 0, None, ())


def ok(v):
    return ('a', None, 0, None, ((0, v),))


def err(v):
    return ('a', None, 1, None, ((0, v),))


def tup(*xs):
    return ('a', None, 0, None, tuple(enumerate(xs)))


def deref_all(e, st, v, n=6):
    while n and (v[0] == 'r' or v[0] == '&'):
        v = e.load(st, v[1], v[2]) if v[0] == 'r' else v[1]
        n -= 1
    return v


def strip(v):
    """drop reference layers from a snapshot"""
    while v[0] == '&' and v[1] != '..':
        v = v[1]
    return v


def as_list(v):
    if v[0] == 'v':
        return v[1]
    if v[0] == 's':
        return (('rest', v[1], 0),)
    if v[0] == 'm':
        return tuple(('e', s[1]) if s[0] == 'kv' else s for s in v[1])
    if v[0] == 'a' and len(v[4]) == 1:      # MaybeUninit / ManuallyDrop wrappers
        return as_list(v[4][0][1])
    if v[0] == 'c' and isinstance(v[1], tuple) and v[1][0] == 'b':
        return tuple(('e', C(b)) for b in bytes.fromhex(v[1][1]))
    return (('rest', T('listof', v), 0),)


def as_map(v):
    if v[0] == 'm':
        return v[1]
    if v[0] == 's':
        return (('rest', v[1], 0),)
    if v[0] == 'v':
        return tuple(('kv', s[1], UNIT) if s[0] == 'e' else s for s in v[1])
    return (('rest', T('mapof', v), 0),)


# ------------------------------------------------------------------ identity-like
def m_deref_content(e, st, c):
    """&T -> T : the content, looking through every reference layer"""
    v = c.args[0]
    x = e.deref(st, v) if v[0] in ('r', 's') else v
    c.give(x)


@tmodel('core::clone::Clone::clone')
def m_clone(e, st, c):
    c.give(e.deref(st, c.args[0]))


@tmodel('alloc::borrow::ToOwned::to_owned')
def m_toowned(e, st, c):
    c.give(e.deref(st, c.args[0]))


@tmodel('alloc::string::ToString::to_string')
def m_tostring(e, st, c):
    ty = e.p.types[c.argtys[0]] if c.argtys else None
    v = c.args[0]
    x = e.deref(st, v)
    t = e.p.types[ty['t']] if ty is not None and ty['k'] == 'ref' else None
    n = 0
    while t is not None and t['k'] == 'ref' and n < 4:
        x = e.deref(st, x)
        t = e.p.types[t['t']]
        n += 1
    if t is None or t['k'] == 'str' or (t['k'] == 'adt' and t['p'] in ('alloc::string::String', 'alloc::borrow::Cow')):
        return c.give(x)
    if t['k'] == 'int' and x[0] == 'c' and isinstance(x[1], int):
        return c.give(C(str(x[1])))
    r = sym('call', 'ToString::to_string', (strip(e.snap(st, c.args[0])),))
    TTY.setdefault(r[1], c.dt)
    c.give(r)


@model('<alloc::string::String as core::convert::From>::from', '<alloc::vec::Vec as core::convert::From>::from',
       '<alloc::string::String as core::convert::From>::from')
def m_from_str(e, st, c):
    v = c.args[0]
    t = e.p.types[c.argtys[0]] if c.argtys else None
    if t is not None and t['k'] == 'ref':
        return c.give(e.deref(st, v))
    c.give(v)


@model('alloc::string::String::into_bytes', 'core::hint::must_use', 'core::convert::identity', 'alloc::string::String::into_boxed_str',
       'alloc::vec::Vec::into_boxed_slice', 'core::hint::black_box', '[T]::into_vec', 'core::ptr::unique::Unique::as_ptr',
       'core::mem::manually_drop::ManuallyDrop::new', 'core::mem::manually_drop::ManuallyDrop::into_inner',
       'alloc::vec::Vec::from_raw_parts')
def m_id(e, st, c):
    c.give(c.args[0])


@model('alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'str::as_bytes', 'alloc::vec::Vec::as_slice',
       'alloc::string::String::as_mut_str', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::deref', 'str::as_ptr')
def m_ptr_id(e, st, c):
    c.give(c.args[0])


@model('[T]::to_vec', 'alloc::borrow::Cow::into_owned', 'str::to_owned', '[T]::to_owned')
def m_to_vec(e, st, c):
    v = c.args[0]
    if v[0] == 'r' or (v[0] == 's' and c.argtys and e.p.types[c.argtys[0]]['k'] == 'ref'):
        v = e.deref(st, v)
    c.give(v)


@model('str::to_string')
def m_str_to_string(e, st, c):
    c.give(e.deref(st, c.args[0]))


@tmodel('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def m_deref(e, st, c):
    # &X -> &X::Target
    st_ty = None
    if c.argtys:
        t = e.p.types[c.argtys[0]]
        if t['k'] == 'ref':
            st_ty = e.p.types[t['t']]
    h = st_ty['p'] if st_ty is not None and st_ty['k'] == 'adt' else ''
    if h in ('alloc::string::String', 'alloc::vec::Vec', 'alloc::borrow::Cow') or h == '':
        if h == '' and st_ty is not None and st_ty['k'] == 'ref':
            return c.give(e.deref(st, c.args[0]))
        return c.give(c.args[0])
    if h.endswith('LazyLock') or h.endswith('lazy::Lazy'):
        x = e.snap(st, c.args[0])
        return c.give(('r', ('k', sym('lazy', strip(x))), ()))
    x = e.deref(st, c.args[0])
    if x[0] in ('r', 's') and (st_ty is None or st_ty.get('box') or h.endswith('Arc') or h.endswith('Rc') or 'Guard' in h or h.endswith('::Ref') or h.endswith('RefMut') or 'EnteredSpan' in h or 'Pin' in h):
        return c.give(x)
    if x[0] == 'a' and x[4] and x[4][0][1][0] in ('r',):
        return c.give(x[4][0][1])
    c.opaque(pure=True)


@tmodel('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsMut::as_mut')
def m_asref(e, st, c):
    t = e.p.types[c.argtys[0]] if c.argtys else None
    if t is not None and t['k'] == 'ref':
        it = e.p.types[t['t']]
        if it['k'] == 'adt' and (it.get('box') or it['p'].endswith('Arc')):
            return c.give(e.deref(st, c.args[0]))
    c.give(c.args[0])


@model('alloc::boxed::Box::new', 'alloc::rcs::arc::Arc::new', 'alloc::sync::Arc::new', 'alloc::rc::Rc::new', 'alloc::boxed::Box::pin', 'alloc::rcs::rc::Rc::new')
def m_box_new(e, st, c):
    b = e.box(st, c.args[0])
    x = c.args[0]
    if x[0] == 's' and c.argtys and e.p.types[c.argtys[0]]['k'] != 'dyn':
        TTY.setdefault(x[1], c.argtys[0])
    c.give(b)


@model('<alloc::rcs::arc::Arc as core::convert::From>::from', '<alloc::sync::Arc as core::convert::From>::from',
       '<alloc::rcs::rc::Rc as core::convert::From>::from', '<alloc::boxed::Box as core::convert::From>::from')
def m_box_from(e, st, c):
    t = e.p.types[c.dt] if c.dt is not None else None
    if t is not None and t['k'] == 'adt' and t['a'] and c.argtys and t['a'][0] == c.argtys[0]:
        return m_box_new(e, st, c)
    if c.fi is not None and e.p.fns[c.fi]['b'] is not None and sum(1 for x in st.frames if x.fi == c.fi) < e.RECUR:
        return e.push(st, c.fi, c.args, c.dest, c.target)
    c.opaque(pure=True)


@model('alloc::boxed::Box::new_uninit')
def m_new_uninit(e, st, c):
    c.give(e.box(st, ('undef',)))


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_into_vec(e, st, c):
    v = e.deref(st, c.args[0])
    while v[0] == 'a' and v[4]:
        v = v[4][0][1]
    c.give(v)


@model('alloc::rcs::arc::Arc::get_mut', 'alloc::rcs::arc::Arc::make_mut')
def m_arc_getmut(e, st, c):
    x = e.deref(st, c.args[0])
    if c.path.endswith('make_mut'):
        return c.give(x)
    c.fork([(None, some(x)), (None, NONE)])


@model('alloc::rcs::arc::Arc::try_unwrap', 'alloc::rcs::arc::Arc::into_inner')
def m_arc_unwrap(e, st, c):
    x = e.deref(st, c.args[0])
    if c.path.endswith('into_inner'):
        return c.fork([(None, some(x)), (None, NONE)])
    c.fork([(None, ok(x)), (None, err(c.args[0]))])


@model('alloc::rcs::arc::Arc::ptr_eq')
def m_ptr_eq(e, st, c):
    c.give(e.mk_eq(st, e.deref(st, c.args[0]), e.deref(st, c.args[1])))


@tmodel('core::cmp::PartialEq::eq')
def m_eq(e, st, c):
    a = strip(e.snap(st, c.args[0]))
    b = strip(e.snap(st, c.args[1]))
    c.give(e.mk_eq(st, a, b))


@tmodel('core::cmp::PartialEq::ne')
def m_ne(e, st, c):
    if c.path.endswith('core::cmp::PartialEq::ne') and c.fi is not None and e.p.fns[c.fi]['b'] is not None and c.argtys:
        # decided by the type's own eq, where it is one of the crate
        t = e.p.types[c.argtys[0]]
        t = e.p.types[t['t']] if t['k'] == 'ref' else t
        own = '<%s as core::cmp::PartialEq>::eq' % t['p'] if t['k'] == 'adt' else None
        if own and any(f['l'] and f['b'] is not None and f['p'] == own for f in e.p.fns):
            return e.push(st, c.fi, c.args, c.dest, c.target)
    a = strip(e.snap(st, c.args[0]))
    b = strip(e.snap(st, c.args[1]))
    c.give(e.mk_not(e.mk_eq(st, a, b)))


@model('<tracing_core::metadata::Level as core::cmp::PartialOrd>::le', '<log::Level as core::cmp::PartialOrd>::le')
def m_level(e, st, c):
    c.give(FALSE)


# ------------------------------------------------------------------ mem / default
def default_for(e, ty):
    t = e.p.types[ty] if ty is not None else None
    if t is None:
        return None
    k = t['k']
    if k == 'bool':
        return FALSE
    if k == 'int':
        return C(0)
    if k == 'tup' and not t['ts']:
        return UNIT
    if k == 'adt':
        p = t['p']
        if p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
            return ('v', ())
        if p.endswith('HashMap') or p.endswith('BTreeMap') or p.endswith('HashSet') or p.endswith('BTreeSet'):
            return ('m', ())
        if p == 'alloc::string::String':
            return C('')
        if p == 'core::option::Option':
            return ('a', ty, 0, None, ())
        if p.endswith('Mutex') or p.endswith('RefCell') or p.endswith('RwLock') or p.endswith('::Cell'):
            d = default_for(e, t['a'][0]) if t['a'] else None
            if d is not None:
                return ('a', ty, 0, None, (('mx', d),))
    return None


@tmodel('core::default::Default::default')
def m_default(e, st, c):
    d = default_for(e, c.dt if c.dt is not None else None)
    if d is None:
        return c.opaque(pure=True)
    c.give(d)


@model('core::mem::take')
def m_take(e, st, c):
    cell, p = e.deref_loc(st, c.args[0])
    old = e.load(st, cell, p)
    ty = e.p.types[c.argtys[0]]['t'] if c.argtys else c.dt
    d = default_for(e, ty)
    if d is None:
        # a local Default impl
        d = sym('default', ty)
        TTY.setdefault(d[1], ty)
    e.store(st, cell, p, d)
    c.give(old)


@model('core::mem::replace', 'core::ptr::replace')
def m_replace(e, st, c):
    cell, p = e.deref_loc(st, c.args[0])
    old = e.load(st, cell, p)
    e.store(st, cell, p, c.args[1])
    c.give(old)


@model('core::mem::swap')
def m_swap(e, st, c):
    c1, p1 = e.deref_loc(st, c.args[0])
    c2, p2 = e.deref_loc(st, c.args[1])
    a, b = e.load(st, c1, p1), e.load(st, c2, p2)
    e.store(st, c1, p1, b)
    e.store(st, c2, p2, a)
    c.give(UNIT)


@model('core::mem::forget')
def m_forget(e, st, c):
    c.give(UNIT)


@model('core::mem::drop')
def m_drop(e, st, c):
    ty = c.argtys[0] if c.argtys else None
    if ty is None or not e.p.interesting_drop(ty):
        return c.give(UNIT)
    cell = e.new_cell(st, c.args[0])
    c.native(drop_gen, e, cell, (), c.args[0], ty)


@model('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def m_discval(e, st, c):
    t = e.p.types[c.argtys[0]]['t'] if c.argtys else None
    v = e.deref(st, c.args[0])
    c.give(e.disc(st, v, t))


@model('core::intrinsics::size_of', 'core::intrinsics::type_name')
def m_sizeof(e, st, c):
    c.give(sym('sizeof', c.ck[3]))


# ------------------------------------------------------------------ bool
@model('bool::then')
def m_then(e, st, c):
    def g(b, f):
        x = yield ('branch', b)
        if x:
            r = yield ('callv', f, ())
            return some(r)
        return NONE
    c.native(g, c.args[0], c.args[1])


@model('bool::then_some')
def m_then_some(e, st, c):
    def g(b, v):
        x = yield ('branch', b)
        return some(v) if x else NONE
    c.native(g, c.args[0], c.args[1])


@tmodel('core::ops::bit::Not::not')
def m_not(e, st, c):
    v = c.args[0]
    if v[0] == 'r':
        v = deref_all(e, st, v)
    c.give(e.mk_not(v))


# ------------------------------------------------------------------ cells / locks
def mx_ptr(e, st, v):
    cell, p = e.deref_loc(st, v)
    return ('r', cell, p + (('mx',),))


@model('std::sync::poison::mutex::Mutex::new', 'core::cell::RefCell::new', 'core::cell::Cell::new', 'std::sync::poison::rwlock::RwLock::new')
def m_mutex_new(e, st, c):
    c.give(('a', c.dt, 0, None, (('mx', c.args[0]),)))


@model('std::sync::poison::mutex::Mutex::lock', 'std::sync::poison::rwlock::RwLock::read', 'std::sync::poison::rwlock::RwLock::write')
def m_lock(e, st, c):
    g = mx_ptr(e, st, c.args[0])
    e.event(st, 'lock', c.path, c.name, c.fi, (e.snap(st, c.args[0]),), tuple(c.args), g)
    c.give(ok(g))


@model('core::cell::RefCell::borrow', 'core::cell::RefCell::borrow_mut')
def m_borrow(e, st, c):
    c.give(mx_ptr(e, st, c.args[0]))


@model('std::sync::poison::mutex::Mutex::into_inner', 'core::cell::RefCell::into_inner')
def m_into_inner(e, st, c):
    v = getf(c.args[0], 0, 'mx')
    c.give(ok(v) if 'Mutex' in c.path else v)


@model('core::cell::Cell::get')
def m_cell_get(e, st, c):
    p = mx_ptr(e, st, c.args[0])
    c.give(e.load(st, p[1], p[2]))


@model('core::cell::Cell::set')
def m_cell_set(e, st, c):
    p = mx_ptr(e, st, c.args[0])
    e.store(st, p[1], p[2], c.args[1])
    c.give(UNIT)


@model('core::cell::once::OnceCell::new', 'std::sync::once_lock::OnceLock::new')
def m_once_new(e, st, c):
    c.give(('a', c.dt, 0, None, (('mx', NONE),)))


@model('core::cell::once::OnceCell::get_or_init', 'std::sync::once_lock::OnceLock::get_or_init')
def m_once_init(e, st, c):
    p = mx_ptr(e, st, c.args[0])

    def g(p, f):
        cur = yield ('load', p[1], p[2])
        k = yield ('optv', cur)
        if k == 0:
            x = yield ('callv', f, ())
            yield ('store', p[1], p[2], some(x))
        return ('r', p[1], p[2] + (('f', 1, 0, None),))
    c.native(g, p, c.args[1])


# ------------------------------------------------------------------ strings / formatting
@model('alloc::string::String::new', 'alloc::string::String::with_capacity')
def m_string_new(e, st, c):
    c.give(C(''))


def cat(a, b):
    if a == C(''):
        return b
    if b == C(''):
        return a
    if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], str) and isinstance(b[1], str):
        return C(a[1] + b[1])
    return sym('cat', a, b)


@model('alloc::string::String::push_str')
def m_push_str(e, st, c):
    cell, p = e.deref_loc(st, c.args[0])
    e.store(st, cell, p, cat(e.load(st, cell, p), strip(e.snap(st, c.args[1]))))
    c.give(UNIT)


@model('alloc::string::String::push')
def m_str_push(e, st, c):
    cell, p = e.deref_loc(st, c.args[0])
    x = c.args[1]
    if x[0] == 'c' and isinstance(x[1], int):
        x = C(chr(x[1]))
    e.store(st, cell, p, cat(e.load(st, cell, p), x))
    c.give(UNIT)


@model('<alloc::string::String as core::ops::arith::Add>::add')
def m_str_add(e, st, c):
    c.give(cat(c.args[0], strip(e.snap(st, c.args[1]))))


@model('<alloc::string::String as core::ops::arith::AddAssign>::add_assign')
def m_str_add_assign(e, st, c):
    m_push_str(e, st, c)


@model('core::fmt::Write::write_fmt')
def m_write_fmt(e, st, c):
    t = e.p.types[c.argtys[0]] if c.argtys else None
    if t is None or t['k'] != 'ref' or e.p.types[t['t']]['s'] not in ('std::string::String', 'alloc::string::String'):
        return c.opaque()
    cell, p = e.deref_loc(st, c.args[0])
    v = c.args[1]
    k = term(v)
    x = k[1] if k and k[0] == 'fmtargs' and k[2] == ('v', ()) and k[1][0] == 'c' and isinstance(k[1][1], str) else sym('format', v)
    e.store(st, cell, p, cat(e.load(st, cell, p), x))
    c.give(ok(UNIT))


@model('alloc::string::String::clear')
def m_str_clear(e, st, c):
    cell, p = e.deref_loc(st, c.args[0])
    e.store(st, cell, p, C(''))
    c.give(UNIT)


@model('alloc::string::String::is_empty', 'str::is_empty')
def m_str_empty(e, st, c):
    x = strip(e.snap(st, c.args[0]))
    if x[0] == 'c' and isinstance(x[1], str):
        return c.give(C(1 if x[1] == '' else 0))
    c.give(e.mk_eq(st, x, C('')))


@model('alloc::string::String::len', 'str::len')
def m_str_len(e, st, c):
    x = strip(e.snap(st, c.args[0]))
    if x[0] == 'c' and isinstance(x[1], str):
        return c.give(C(len(x[1].encode())))
    c.give(sym('len', x))


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug')
def m_fmtarg(e, st, c):
    c.give(sym('fmtarg', 'display' if 'display' in c.path else 'debug', strip(e.snap(st, c.args[0]))))


@model('core::fmt::Arguments::new')
def m_fmtargs(e, st, c):
    t = strip(e.snap(st, c.args[0]))
    a = strip(e.snap(st, c.args[1]))
    c.give(sym('fmtargs', t, a))


@model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst')
def m_fmt_const(e, st, c):
    c.give(sym('fmtargs', strip(e.snap(st, c.args[0])), ('v', ())))


@model('alloc::fmt::format')
def m_format(e, st, c):
    v = c.args[0]
    k = term(v)
    if k and k[0] == 'fmtargs' and k[2] == ('v', ()) and k[1][0] == 'c' and isinstance(k[1][1], str):
        return c.give(k[1])
    c.give(sym('format', v))


@model('alloc::string::String::from_utf8', 'core::str::from_utf8', 'core::str::converts::from_utf8', 'alloc::string::String::from_utf8_lossy')
def m_from_utf8(e, st, c):
    if c.path.endswith('lossy'):
        return c.give(e.deref(st, c.args[0]))
    x = strip(e.snap(st, c.args[0]))
    t = T('isutf8', x)
    val = c.args[0]
    c.fork([(lambda s: e.assume(s, t, 1), ok(val)), (lambda s: e.assume(s, t, 0), err(sym('utf8err', x)))])


@model('str::parse')
def m_parse(e, st, c):
    c.opaque(pure=True)


# ------------------------------------------------------------------ integers
@model('u32::checked_sub', 'usize::checked_sub', 'u64::checked_sub')
def m_checked_sub(e, st, c):
    a, b = c.args
    if b == C(1) and a[0] == 's':
        z = e.mk_eq(st, a, C(0))
        if z[0] == 'c':
            return c.give(NONE if z[1] else some(e.binop(st, 'Sub', a, b, 0)))

        def g(z, r):
            x = yield ('branch', z)
            return NONE if x else some(r)
        return c.native(g, z, e.binop(st, 'Sub', a, b, 0))
    if a[0] == 'c' and b[0] == 'c':
        return c.give(some(C(a[1] - b[1])) if a[1] >= b[1] else NONE)
    if not all(x[0] in 'sc' for x in (a, b)):
        return c.opaque(pure=True)

    def h(z, r):
        x = yield ('branch', z)
        return NONE if x else some(r)
    c.native(h, e.lt(st, a, b, c.argtys[0]), e.binop(st, 'Sub', a, b, 0))


@model('u32::saturating_sub', 'usize::saturating_sub', 'u64::saturating_sub')
def m_saturating_sub(e, st, c):
    a, b = c.args
    if a[0] == 'c' and b[0] == 'c':
        return c.give(C(max(a[1] - b[1], 0)))
    if not all(x[0] in 'sc' for x in (a, b)):
        return c.opaque(pure=True)

    def h(z, r):
        x = yield ('branch', z)
        return r if x else C(0)
    c.native(h, e.lt(st, b, a, c.argtys[0]), e.binop(st, 'Sub', a, b, 0))


# ------------------------------------------------------------------ vec
def seq_place(e, st, v):
    """location of the sequence behind a &Vec / &[T] / &mut Vec / &&[T]"""
    cell, p = e.deref_loc(st, v)
    x = e.load(st, cell, p)
    n = 0
    while x[0] == 'r' and n < 4:
        cell, p = x[1], x[2]
        x = e.load(st, cell, p)
        n += 1
    return cell, p, x


@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::collections::vec_deque::VecDeque::new',
       'alloc::collections::vec_deque::VecDeque::with_capacity')
def m_vec_new(e, st, c):
    c.give(('v', ()))


@model('alloc::vec::Vec::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def m_push(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    e.store(st, cell, p, ('v', as_list(x) + (('e', c.args[1]),)))
    c.give(UNIT)


@model('alloc::collections::vec_deque::VecDeque::push_front')
def m_push_front(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    e.store(st, cell, p, ('v', (('e', c.args[1]),) + as_list(x)))
    c.give(UNIT)


@model('alloc::vec::Vec::insert')
def m_insert(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    l = as_list(x)
    i = c.args[1]
    if i[0] == 'c' and all(s[0] == 'e' for s in l[:i[1]]) and i[1] <= len(l):
        e.store(st, cell, p, ('v', l[:i[1]] + (('e', c.args[2]),) + l[i[1]:]))
    else:
        st.uid += 1
        e.store(st, cell, p, sym('mut', ('v', l), 'insert', i, c.args[2], st.uid))
    c.give(UNIT)


def seq_nonempty(segs):
    """generator: decide whether the sequence has a first element -> (segs with a concrete head) or ()"""
    segs = tuple(segs)
    while segs:
        s = segs[0]
        if s[0] == 'e':
            return segs
        if s[2] < Engine.CUR.klimit(s[1]):
            b = yield ('branch', sym('more', s[1], s[2]))
            if b:
                return (('e', sym('elem', s[1], s[2])), ('rest', s[1], s[2] + 1) + tuple(s[3:])) + segs[1:]
        segs = segs[1:]
    return ()


def rev_segs(segs):
    """generator: fully materialise"""
    out = []
    segs = tuple(segs)
    while segs:
        segs = yield from seq_nonempty(segs)
        if not segs:
            break
        out.append(segs[0])
        segs = segs[1:]
    return tuple(out)


@model('alloc::vec::Vec::pop', 'alloc::collections::vec_deque::VecDeque::pop_back')
def m_pop(e, st, c):
    def g(cell, p, x):
        l = as_list(x)
        if l and l[-1][0] == 'e':
            yield ('store', cell, p, ('v', l[:-1]))
            return some(l[-1][1])
        l = yield from rev_segs(l)
        if not l:
            yield ('store', cell, p, ('v', ()))
            return NONE
        yield ('store', cell, p, ('v', l[:-1]))
        return some(l[-1][1])
    c.native(g, *seq_place(e, st, c.args[0]))


@model('alloc::collections::vec_deque::VecDeque::pop_front')
def m_pop_front(e, st, c):
    def g(cell, p, x):
        l = yield from seq_nonempty(as_list(x))
        if not l:
            yield ('store', cell, p, ('v', ()))
            return NONE
        yield ('store', cell, p, ('v', l[1:]))
        return some(l[0][1])
    c.native(g, *seq_place(e, st, c.args[0]))


@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def m_vec_remove(e, st, c):
    def g(cell, p, x, i):
        l = yield from rev_segs(as_list(x))
        if i[0] == 'c':
            if i[1] >= len(l):
                yield ('infeasible',)
            yield ('store', cell, p, ('v', l[:i[1]] + l[i[1] + 1:]))
            return l[i[1]][1]
        # unknown index: any element
        if not l:
            yield ('infeasible',)
        k = 0 if len(l) == 1 else (yield ('choose', len(l)))
        yield ('store', cell, p, ('v', l[:k] + l[k + 1:]))
        return l[k][1]
    c.native(g, *(seq_place(e, st, c.args[0]) + (c.args[1],)))


@model('alloc::vec::Vec::clear', 'alloc::collections::vec_deque::VecDeque::clear')
def m_vec_clear(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    ty = e.p.types[c.argtys[0]]['t'] if c.argtys else None
    e.event(st, 'clear', c.path, c.name, c.fi, (e.snap(st, c.args[0]),), tuple(c.args), None)
    e.store(st, cell, p, ('v', ()))
    c.give(UNIT)


@model('alloc::vec::Vec::truncate')
def m_truncate(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    if c.args[1] == C(0):
        e.event(st, 'clear', c.path, c.name, c.fi, (e.snap(st, c.args[0]),), tuple(c.args), None)
        e.store(st, cell, p, ('v', ()))
        return c.give(UNIT)
    c.opaque(pure=False)


def unordered(x):
    """a list that is empty just when x is: sorting and dropping repetitions leave that alone"""
    while True:
        l = as_list(x)
        if len(l) != 1 or l[0][0] != 'rest' or l[0][2] != 0 or TERMS[l[0][1]][0] not in ('sorted', 'dedup'):
            return x
        x = TERMS[l[0][1]][1]


@model('alloc::vec::Vec::is_empty', '[T]::is_empty', 'alloc::collections::vec_deque::VecDeque::is_empty')
def m_is_empty(e, st, c):
    def g(x):
        l = as_list(unordered(x))
        if any(s[0] == 'e' for s in l):
            return FALSE
        for s in l:
            if s[2] >= Engine.CUR.klimit(s[1]):
                continue
            b = yield ('branch', sym('more', s[1], s[2]))
            if b:
                return FALSE
        return TRUE
    cell, p, x = seq_place(e, st, c.args[0])
    if x[0] == 'c':
        return c.give(C(1 if not x[1] else 0))
    c.native(g, x)


@model('alloc::vec::Vec::len', '[T]::len', 'alloc::collections::vec_deque::VecDeque::len')
def m_len(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    c.give(e.seqlen(st, x))


@model('alloc::vec::Vec::extend_from_slice')
def m_extend_slice(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    _c, _p, y = seq_place(e, st, c.args[1])
    e.store(st, cell, p, ('v', as_list(x) + as_list(y)))
    c.give(UNIT)


@model('alloc::vec::Vec::append')
def m_append(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    c2, p2, y = seq_place(e, st, c.args[1])
    e.store(st, cell, p, ('v', as_list(x) + as_list(y)))
    e.store(st, c2, p2, ('v', ()))
    c.give(UNIT)


@model('alloc::vec::Vec::drain', 'alloc::collections::vec_deque::VecDeque::drain')
def m_drain(e, st, c):
    t = e.p.types[c.argtys[1]] if c.argtys else None
    cell, p, x = seq_place(e, st, c.args[0])
    full = t is not None and t['k'] == 'adt' and t['p'].endswith('RangeFull')
    if not full and t is not None and t['k'] == 'adt' and t['p'].endswith('RangeFrom') and c.args[1][0] == 'a' and c.args[1][4] and c.args[1][4][0][1] == C(0):
        full = True
    if full:
        e.store(st, cell, p, ('v', ()))
        return c.give(('it', 'seq', tuple(as_item(s, 'val') for s in as_list(x))))
    st.uid += 1
    nt = T('mut', 'drain', e.snap(st, ('v', as_list(x))), e.snap(st, c.args[1]), st.uid)
    e.store(st, cell, p, ('s', nt))
    c.give(('it', 'seq', (('rest', T('drained', e.snap(st, ('v', as_list(x))), e.snap(st, c.args[1]), st.uid), 0, 'val'),)))


@model('[T]::sort', '[T]::sort_by', '[T]::sort_by_key', '[T]::sort_unstable', '[T]::sort_unstable_by', '[T]::sort_by_cached_key', 'alloc::vec::Vec::dedup')
def m_reorder(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    l = as_list(x)
    if not l or (len(l) == 1 and l[0][0] == 'e'):
        return c.give(UNIT)
    if len(l) == 1 and TERMS[l[0][1]][0] in ('sorted', 'dedup') and TERMS[l[0][1]][0] == ('dedup' if c.path.endswith('dedup') else 'sorted') and l[0][2] == 0 and len(c.args) == 1:
        return c.give(UNIT)
    e.store(st, cell, p, ('v', (('rest', T('dedup' if c.path.endswith('dedup') else 'sorted', e.snap(st, ('v', l)), tuple(e.snap(st, a) for a in c.args[1:])), 0),)))
    c.give(UNIT)


@model('alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::reserve', 'alloc::string::String::reserve')
def m_sort(e, st, c):
    c.give(UNIT)


@model('[T]::reverse')
def m_reverse(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    l = as_list(x)
    if len(l) == 1 and l[0][0] == 'e':
        return c.give(UNIT)
    out = tuple(s if s[0] == 'e' else ('rest', T('reversed', s), 0) for s in reversed(l))
    e.store(st, cell, p, ('v', out))
    c.give(UNIT)


@model('alloc::collections::vec_deque::VecDeque::make_contiguous')
def m_contig(e, st, c):
    c.give(c.args[0])


@model('[T]::first', '[T]::last', 'alloc::collections::vec_deque::VecDeque::front', 'alloc::collections::vec_deque::VecDeque::back')
def m_first(e, st, c):
    last = c.path.endswith('last') or c.path.endswith('back')

    def g(cell, p, x):
        if last:
            l = yield from rev_segs(as_list(x))
            k = len(l) - 1
        else:
            l = yield from seq_nonempty(as_list(x))
            k = 0
        if not l:
            return NONE
        if x[0] == 'v' and k < len(x[1]) and x[1][k] == l[k]:
            return some(('r', cell, p + (('sg', k),)))
        return some(('r', ('k', l[k][1]), ()))
    c.native(g, *seq_place(e, st, c.args[0]))


@model('[T]::contains')
def m_contains(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    y = strip(e.snap(st, c.args[1]))
    l = as_list(x)
    if all(s[0] == 'e' for s in l):
        cs = [e.mk_eq(st, strip(e.snap(st, s[1])), y) for s in l]
        if any(k == TRUE for k in cs):
            return c.give(TRUE)
        if all(k == FALSE for k in cs):
            return c.give(FALSE)
        if len(cs) == 1:
            return c.give(cs[0])
    c.give(sym('contains', e.snap(st, x), y))


@model('[T]::get', 'alloc::vec::Vec::get', 'alloc::collections::vec_deque::VecDeque::get')
def m_get(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    i = c.args[1]
    l = as_list(x)
    if i[0] == 'c' and isinstance(i[1], int) and x[0] == 'v' and i[1] < len(l) and all(s[0] == 'e' for s in l[:i[1] + 1]):
        return c.give(some(('r', cell, p + (('sg', i[1]),))))
    if i[0] == 'c' and all(s[0] == 'e' for s in l):
        return c.give(NONE)
    c.opaque(pure=True)


@model('alloc::vec::Vec::retain', 'alloc::collections::vec_deque::VecDeque::retain')
def m_retain(e, st, c):
    def g(cell, p, x, f):
        l = yield from rev_segs(as_list(x))
        out = []
        for s in l:
            r = yield ('callv', f, (('r', ('k', s[1]), ()),))
            b = yield ('branch', r)
            if b:
                out.append(s)
        yield ('store', cell, p, ('v', tuple(out)))
        return UNIT
    c.native(g, *seq_place(e, st, c.args[0]), c.args[1])


def whole_range(e, c):
    t = e.p.types[c.argtys[1]] if c.argtys and len(c.argtys) > 1 else None
    return t is not None and t['k'] == 'adt' and t['p'].endswith('RangeFull')


@model('<[T] as core::ops::index::Index>::index', '<str as core::ops::index::Index>::index', '<alloc::string::String as core::ops::index::Index>::index')
def m_slice_index(e, st, c):
    if whole_range(e, c):
        return c.give(c.args[0])
    c.opaque()


@model('<alloc::vec::Vec as core::ops::index::Index>::index')
def m_vec_index(e, st, c):
    if whole_range(e, c):
        return c.give(c.args[0])
    cell, p, x = seq_place(e, st, c.args[0])
    i = c.args[1]
    if i[0] == 'c' and isinstance(i[1], int) and x[0] == 'v' and i[1] < len(x[1]) and all(s[0] == 'e' for s in x[1][:i[1] + 1]):
        return c.give(('r', cell, p + (('sg', i[1]),)))
    if i[0] == 'c' and isinstance(i[1], int) and x[0] == 's' and e.seq_of(x) is not None and i[1] < e.len_floor(st, x):
        return c.give(('r', ('k', sym('elem', e.seq_of(x), i[1])), ()))
    c.opaque(pure=True)


# ------------------------------------------------------------------ maps
@model('std::collections::hash::map::HashMap::new', 'alloc::collections::btree::map::BTreeMap::new', 'std::collections::hash::set::HashSet::new',
       'std::collections::hash::map::HashMap::with_capacity', 'std::collections::hash::set::HashSet::with_capacity', 'alloc::collections::btree::set::BTreeSet::new')
def m_map_new(e, st, c):
    c.give(('m', ()))


def key_snap(e, st, v):
    """keys are compared by content: without reference layers"""
    v = strip(e.snap(st, v))
    while v[0] == 's' and TERMS[v[1]][0] == 'deref':
        v = strip(('s', TERMS[v[1]][1]))
    return v


MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')
SETS = ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet')


def mm(*names):
    return model(*[m + '::' + n for m in MAPS for n in names])


def ms(*names):
    return model(*[m + '::' + n for m in SETS for n in names])


def map_lookup(e, segs, key, eqs):
    """generator -> index of matching kv | ('rest', i) | None"""
    for i, s in enumerate(segs):
        if s[0] == 'kv':
            q = eqs[i]
            b = yield ('branch', q)
            if b:
                return i
        else:
            b = yield ('branch', sym('haskey', s[1], key))
            if b:
                return ('rest', i)
    return None


def map_eqs(e, st, segs, key):
    return tuple(e.mk_eq(st, key_snap(e, st, s[1]), key) if s[0] == 'kv' else None for s in segs)


@mm('insert')
def m_map_insert(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    segs = as_map(x)
    key = key_snap(e, st, c.args[1])

    def g(cell, p, segs, key, k, v, eqs):
        hit = yield from map_lookup(e, segs, key, eqs)
        if hit is None:
            yield ('store', cell, p, ('m', segs + (('kv', k, v),)))
            return NONE
        if isinstance(hit, int):
            old = segs[hit][2]
            yield ('store', cell, p, ('m', segs[:hit] + (('kv', k, v),) + segs[hit + 1:]))
            return some(old)
        i = hit[1]
        s = segs[i]
        yield ('store', cell, p, ('m', segs[:i] + (('rest', T('without', s[1], key), 0),) + segs[i + 1:] + (('kv', k, v),)))
        return some(sym('mapget', s[1], key))
    c.native(g, cell, p, segs, key, c.args[1], c.args[2], map_eqs(e, st, segs, key))


@ms('insert')
def m_set_insert(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    segs = as_map(x)
    key = key_snap(e, st, c.args[1])

    def g(cell, p, segs, key, k, eqs):
        hit = yield from map_lookup(e, segs, key, eqs)
        if hit is None:
            yield ('store', cell, p, ('m', segs + (('kv', k, UNIT),)))
            return TRUE
        return FALSE
    c.native(g, cell, p, segs, key, c.args[1], map_eqs(e, st, segs, key))


@mm('remove')
def m_map_remove(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    segs = as_map(x)
    key = key_snap(e, st, c.args[1])

    def g(cell, p, segs, key, eqs):
        hit = yield from map_lookup(e, segs, key, eqs)
        if hit is None:
            return NONE
        if isinstance(hit, int):
            old = segs[hit][2]
            yield ('store', cell, p, ('m', segs[:hit] + segs[hit + 1:]))
            return some(old)
        i = hit[1]
        s = segs[i]
        yield ('store', cell, p, ('m', segs[:i] + (('rest', T('without', s[1], key), 0),) + segs[i + 1:]))
        return some(sym('mapget', s[1], key))
    c.native(g, cell, p, segs, key, map_eqs(e, st, segs, key))


@ms('remove')
def m_set_remove(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    segs = as_map(x)
    key = key_snap(e, st, c.args[1])

    def g(cell, p, segs, key, eqs):
        hit = yield from map_lookup(e, segs, key, eqs)
        if hit is None:
            return FALSE
        if isinstance(hit, int):
            yield ('store', cell, p, ('m', segs[:hit] + segs[hit + 1:]))
            return TRUE
        i = hit[1]
        s = segs[i]
        yield ('store', cell, p, ('m', segs[:i] + (('rest', T('without', s[1], key), 0),) + segs[i + 1:]))
        return TRUE
    c.native(g, cell, p, segs, key, map_eqs(e, st, segs, key))


@mm('get', 'get_mut', 'contains_key')
def m_map_get(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    segs = as_map(x)
    key = key_snap(e, st, c.args[1])
    has = c.path.endswith('contains_key')
    mut = c.path.endswith('get_mut')

    def g(cell, p, segs, key, eqs, x):
        hit = yield from map_lookup(e, segs, key, eqs)
        if has:
            return FALSE if hit is None else TRUE
        if hit is None:
            return NONE
        if isinstance(hit, int) and x[0] == 'm':
            return some(('r', cell, p + (('mv', hit),)))
        if isinstance(hit, int):
            return some(('r', ('k', segs[hit][2]), ()))
        if mut and cell[0] != 'k':
            s2, i = materialise(segs, hit + (key,) if len(hit) < 3 else hit)
            yield ('store', cell, p, ('m', s2))
            return some(('r', cell, p + (('mv', i),)))
        return some(('r', ('k', sym('mapget', segs[hit[1]][1], key)), ()))
    c.native(g, cell, p, segs, key, map_eqs(e, st, segs, key), x)


# ------------------------------------------------------------------ map entries
ENTRIES = ('std::collections::hash::map::', 'alloc::collections::btree::map::entry::')


def materialise(segs, hit):
    """(segments, index) with the looked-up binding as a segment of its own"""
    if isinstance(hit, int):
        return segs, hit
    i, key = hit[1], hit[2]
    s = segs[i]
    out = segs[:i] + (('rest', T('without', s[1], key), 0),) + segs[i + 1:] + (('kv', key, sym('mapget', s[1], key)),)
    return out, len(out) - 1


@mm('entry')
def m_map_entry(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    segs = as_map(x)
    key = key_snap(e, st, c.args[1])
    vs = [v[0] for v in e.p.types[c.dt]['v']] if c.dt is not None else ['Occupied', 'Vacant']
    occ, vac = vs.index('Occupied'), vs.index('Vacant')

    def g(cell, p, segs, key, eqs, k):
        hit = yield from map_lookup(e, segs, key, eqs)
        mp = ('r', cell, p)
        if hit is None:
            return ('a', c.dt, vac, None, ((0, ('a', None, 0, None, ((0, mp), (1, k)))),))
        if not isinstance(hit, int):
            hit = hit + (key,)
        s2, i = materialise(segs, hit)
        if s2 is not segs:
            yield ('store', cell, p, ('m', s2))
        return ('a', c.dt, occ, None, ((0, ('a', None, 0, None, ((0, mp), (1, k), (2, C(i))))),))
    c.native(g, cell, p, segs, key, map_eqs(e, st, segs, key), c.args[1])


def entry_parts(e, st, v):
    """(is occupied, map pointer, key, index) of an Entry / OccupiedEntry / VacantEntry value"""
    if v[0] in ('r', '&'):
        v = e.load(st, *e.deref_loc(st, v)) if v[0] == 'r' else v[1]
    if v[0] != 'a':
        return None
    if len(v[4]) == 1 and v[4][0][1][0] == 'a':
        v = v[4][0][1]
    d = dict(v[4])
    if 0 not in d or d[0][0] != 'r':
        return None
    return (2 in d, d[0], d.get(1), d[2][1] if 2 in d else None)


def slot(mp, i):
    return ('r', mp[1], mp[2] + (('mv', i),))


def vacant_insert(e, st, mp, k, v):
    x = e.load(st, mp[1], mp[2])
    segs = as_map(x) + (('kv', k, v),)
    e.store(st, mp[1], mp[2], ('m', segs))
    return slot(mp, len(segs) - 1)


def me(*names):
    return model(*[m + n for m in ENTRIES for n in names])


@me('Entry::or_insert', 'Entry::or_default')
def m_or_insert(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if q is None:
        return c.opaque()
    if q[0]:
        return c.give(slot(q[1], q[3]))
    v = c.args[1] if len(c.args) > 1 else default_for(e, e.p.types[c.dt].get('t') if c.dt is not None else None)
    c.give(vacant_insert(e, st, q[1], q[2], v if v is not None else sym('defaultof', c.path)))


@me('Entry::or_insert_with')
def m_or_insert_with(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if q is None:
        return c.opaque()
    if q[0]:
        return c.give(slot(q[1], q[3]))
    x = e.load(st, q[1][1], q[1][2])
    segs = as_map(x)

    def g(mp, k, f, segs):
        v = yield ('callv', f, ())
        yield ('store', mp[1], mp[2], ('m', segs + (('kv', k, v),)))
        return slot(mp, len(segs))
    c.native(g, q[1], q[2], c.args[1], segs)


@me('Entry::and_modify')
def m_and_modify(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if q is None:
        return c.opaque()
    if not q[0]:
        return c.give(c.args[0])

    def g(en, f, s):
        yield ('callv', f, (s,))
        return en
    c.native(g, c.args[0], c.args[1], slot(q[1], q[3]))


@me('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def m_occ_get(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if q is None:
        return c.opaque()
    c.give(slot(q[1], q[3]))


@me('OccupiedEntry::insert')
def m_occ_insert(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if q is None:
        return c.opaque()
    s = slot(q[1], q[3])
    old = e.load(st, s[1], s[2])
    e.store(st, s[1], s[2], c.args[1])
    c.give(old)


@me('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def m_occ_remove(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if q is None:
        return c.opaque()
    mp, i = q[1], q[3]
    segs = as_map(e.load(st, mp[1], mp[2]))
    e.store(st, mp[1], mp[2], ('m', segs[:i] + segs[i + 1:]))
    c.give(segs[i][2] if c.path.endswith('remove') else tup(segs[i][1], segs[i][2]))


@me('VacantEntry::insert', 'VacantEntry::insert_entry')
def m_vac_insert(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if q is None:
        return c.opaque()
    c.give(vacant_insert(e, st, q[1], q[2], c.args[1]))


@me('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key')
def m_ent_key(e, st, c):
    q = entry_parts(e, st, c.args[0])
    if q is None:
        return c.opaque()
    c.give(('r', ('k', q[2]), ()))


@ms('contains')
def m_set_contains(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    segs = as_map(x)
    key = key_snap(e, st, c.args[1])

    def g(segs, key, eqs):
        hit = yield from map_lookup(e, segs, key, eqs)
        return FALSE if hit is None else TRUE
    c.native(g, segs, key, map_eqs(e, st, segs, key))


def m_map_isempty(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    segs = as_map(x)

    def g(segs):
        if any(s[0] == 'kv' for s in segs):
            return FALSE
        for s in segs:
            if s[2] >= Engine.CUR.klimit(s[1]):
                continue
            b = yield ('branch', sym('more', s[1], s[2]))
            if b:
                return FALSE
        return TRUE
    c.native(g, segs)


for _m in MAPS + SETS:
    MODELS[_m + '::is_empty'] = m_map_isempty


def m_map_clear(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    e.event(st, 'clear', c.path, c.name, c.fi, (e.snap(st, c.args[0]),), tuple(c.args), None)
    e.store(st, cell, p, ('m', ()))
    c.give(UNIT)


for _m in MAPS + SETS:
    MODELS[_m + '::clear'] = m_map_clear


# ------------------------------------------------------------------ iterators
def as_item(s, wrap):
    if s[0] == 'e':
        return ('e', s[1])
    if s[0] == 'rest':
        return ('rest', s[1], s[2], wrap)
    raise AnalysisError('item %r' % (s,))


def rest_elem(s):
    w = s[3]
    t, n = s[1], s[2]
    if w == 'val':
        return sym('elem', t, n)
    if w == 'ref':
        return ('r', ('k', sym('elem', t, n)), ())
    if w == 'kv':
        return tup(sym('key', t, n), sym('val', t, n))
    if w == 'kvref':
        return tup(('r', ('k', sym('key', t, n)), ()), ('r', ('k', sym('val', t, n)), ()))
    if w == 'keyref':
        return ('r', ('k', sym('key', t, n)), ())
    if w == 'valref':
        return ('r', ('k', sym('val', t, n)), ())
    if w == 'keyval':
        return sym('key', t, n)
    raise AnalysisError(w)


def is_maplike(e, ty):
    t = e.p.types[ty] if ty is not None else None
    n = 0
    while t is not None and t['k'] in ('ref', 'ptr') and n < 4:
        t = e.p.types[t['t']]
        n += 1
    if t is None or t['k'] != 'adt':
        return None
    if t['p'] in MAPS:
        return 'map'
    if t['p'] in SETS:
        return 'set'
    if t['p'] == 'core::option::Option':
        return 'opt'
    return 'seq'


def seq_iter_ref(e, st, v, kind):
    cell, p, x = seq_place(e, st, v)
    if x[0] == 'it':
        return ('it', 'byref', ('r', cell, p))
    if kind == 'map':
        items = []
        for k, s in enumerate(as_map(x)):
            if s[0] == 'kv':
                vp = ('r', cell, p + (('mv', k),)) if x[0] == 'm' else ('r', ('k', s[2]), ())
                items.append(('e', tup(('r', ('k', s[1]), ()), vp)))
            else:
                items.append(('rest', s[1], s[2], 'kvref'))
        return ('it', 'seq', tuple(items))
    if kind == 'set':
        items = []
        for k, s in enumerate(as_map(x)):
            items.append(('e', ('r', ('k', s[1]), ())) if s[0] == 'kv' else ('rest', s[1], s[2], 'keyref'))
        return ('it', 'seq', tuple(items))
    if kind == 'opt':
        return ('it', 'optref', ('r', cell, p), 0)
    items = []
    for k, s in enumerate(as_list(x)):
        if s[0] == 'e':
            items.append(('e', ('r', cell, p + (('sg', k),)) if x[0] == 'v' else ('r', ('k', s[1]), ())))
        else:
            items.append(('rest', s[1], s[2], 'ref'))
    return ('it', 'seq', tuple(items))


def seq_iter_mut(e, st, v, kind):
    """an iterator whose items are places in the collection itself"""
    cell, p, x = seq_place(e, st, v)
    if x[0] == 'it':
        return ('it', 'byref', ('r', cell, p))
    if kind == 'opt':
        return ('it', 'optref', ('r', cell, p), 0)
    segs = as_map(x) if kind == 'map' else as_list(x)
    if x[0] in ('v', 'm') and not any(s[0] == 'rest' for s in segs):
        return seq_iter_ref(e, st, v, kind)
    return ('it', 'mut', cell, p, 0, kind)


def seq_iter_val(e, st, x, kind):
    if x[0] == 'it':
        return x
    if kind == 'map':
        return ('it', 'seq', tuple(('e', tup(s[1], s[2])) if s[0] == 'kv' else ('rest', s[1], s[2], 'kv') for s in as_map(x)))
    if kind == 'set':
        return ('it', 'seq', tuple(('e', s[1]) if s[0] == 'kv' else ('rest', s[1], s[2], 'keyval') for s in as_map(x)))
    if kind == 'opt':
        return ('it', 'opt', x, 0)
    return ('it', 'seq', tuple(as_item(s, 'val') for s in as_list(x)))


def to_iter(e, st, v, ty):
    """abstract iterator for a value used as IntoIterator / Iterator"""
    if v[0] == 'it':
        return v
    t = e.p.types[ty] if ty is not None else None
    if t is not None and t['k'] == 'ref':
        tt = e.p.types[t['t']]
        if 'next' in t and t['m']:      # &mut I
            return ('it', 'byref', v)
        return (seq_iter_mut if t['m'] else seq_iter_ref)(e, st, v, is_maplike(e, ty))
    if t is not None and t.get('l') and 'next' in t:
        return ('it', 'custom', v, ty)
    if t is not None and t['k'] == 'adt' and t['p'].endswith('ops::range::Range') and v[0] == 'a':
        a, b = getf(v, 0, 0), getf(v, 0, 1)
        if a[0] == 'c' and b[0] == 'c' and 0 <= b[1] - a[1] <= 6:
            return ('it', 'seq', tuple(('e', C(i)) for i in range(a[1], b[1])))
        return ('it', 'seq', (('rest', T('range', e.snap(st, v) if st is not None else v), 0, 'val'),))
    if t is not None and 'next' in t and v[0] != 'v' and v[0] != 'm':
        # opaque library iterator
        if v[0] == 's':
            return ('it', 'seq', (('rest', v[1], 0, 'val'),))
        return ('it', 'seq', (('rest', T('iter', e.snap(st, v)), 0, 'val'),))
    return seq_iter_val(e, st, v, is_maplike(e, ty))


def it_next(e, it):
    """generator -> (new iterator, None | value)"""
    k = it[1]
    if k == 'seq':
        items = it[2]
        while items:
            s = items[0]
            if s[0] == 'e':
                return ('it', 'seq', items[1:]), s[1]
            if s[2] < e.klimit(s[1]):
                b = yield ('branch', sym('more', s[1], s[2]))
                if b:
                    v = rest_elem(s)
                    return ('it', 'seq', (('rest', s[1], s[2] + 1, s[3]),) + items[1:]), v
            items = items[1:]
        return ('it', 'seq', ()), None
    if k == 'mut':
        cell, p, n, kind = it[2:]
        x = yield ('load', cell, p)
        shape = 'm' if kind == 'map' else 'v'
        while True:
            segs = as_map(x) if kind == 'map' else as_list(x)
            if n >= len(segs):
                return ('it', 'seq', ()), None
            s = segs[n]
            if s[0] != 'rest':
                break
            b = False
            if s[2] < e.klimit(s[1]):
                b = yield ('branch', sym('more', s[1], s[2]))
            if b:
                new = (('kv', sym('key', s[1], s[2]), sym('val', s[1], s[2])) if kind == 'map' else ('e', sym('elem', s[1], s[2])),
                       ('rest', s[1], s[2] + 1) + tuple(s[3:]))
            else:
                new = ()
            x = (shape, segs[:n] + new + segs[n + 1:])
            yield ('store', cell, p, x)
        v = tup(('r', ('k', s[1]), ()), ('r', cell, p + (('mv', n),))) if kind == 'map' else ('r', cell, p + (('sg', n),))
        return ('it', 'mut', cell, p, n + 1, kind), v
    if k == 'vals':
        n, v = yield from it_next(e, it[2])
        return ('it', 'vals', n), None if v is None else getf(v, 0, 1)
    if k == 'opt':
        if it[3]:
            return it, None
        d = yield ('optv', it[2])
        if d == 0:
            return ('it', 'seq', ()), None
        return ('it', 'seq', ()), getf(it[2], 1, 0)
    if k == 'res':
        d = yield ('optv', it[2])
        if d == 1:
            return ('it', 'seq', ()), None
        return ('it', 'seq', ()), getf(it[2], 0, 0)
    if k == 'optref':
        x = yield ('load', it[2][1], it[2][2])
        d = yield ('optv', x)
        if d == 0:
            return ('it', 'seq', ()), None
        return ('it', 'seq', ()), ('r', it[2][1], it[2][2] + (('f', 1, 0, None),))
    if k == 'byref':
        inner = yield ('deref', it[2])
        loc = yield ('derefloc', it[2])
        if inner[0] != 'it':
            inner = ('it', 'seq', (('rest', inner[1] if inner[0] == 's' else T('iter', inner), 0, 'val'),))
        n, v = yield from it_next(e, inner)
        yield ('store', loc[0], loc[1], n)
        return it, v
    if k == 'custom':
        ty = it[3]
        ptr = yield ('box', it[2])
        f = e.p.types[ty]['next']
        r = yield ('push', f['f'], (ptr,))
        d = yield ('optv', r)
        x = yield ('load', ptr[1], ptr[2])
        if d == 0:
            return ('it', 'custom', x, ty), None
        return ('it', 'custom', x, ty), getf(r, 1, 0)
    if k == 'map':
        n, v = yield from it_next(e, it[2])
        if v is None:
            return ('it', 'map', n, it[3]), None
        r = yield ('callv', it[3], (v,))
        return ('it', 'map', n, it[3]), r
    if k in ('filter', 'filter_map', 'take_while', 'map_while', 'skip_while', 'inspect'):
        n = it[2]
        while True:
            n, v = yield from it_next(e, n)
            if v is None:
                return ('it', k, n, it[3]), None
            if k in ('filter_map', 'map_while'):
                r = yield ('callv', it[3], (v,))
                d = yield ('optv', r)
                if d == 1:
                    return ('it', k, n, it[3]), getf(r, 1, 0)
                if k == 'map_while':
                    return ('it', 'seq', ()), None
                continue
            p = yield ('box', v)
            r = yield ('callv', it[3], (p,))
            if k == 'inspect':
                return ('it', k, n, it[3]), v
            b = yield ('branch', r)
            if k == 'filter' and b:
                return ('it', k, n, it[3]), v
            if k == 'take_while':
                if b:
                    return ('it', k, n, it[3]), v
                return ('it', 'seq', ()), None
            if k == 'skip_while' and not b:
                return n, v
        return
    if k == 'enumerate':
        n, v = yield from it_next(e, it[2])
        if v is None:
            return ('it', 'enumerate', n, it[3]), None
        return ('it', 'enumerate', n, it[3] + 1), tup(C(it[3]), v)
    if k == 'zip':
        a, v = yield from it_next(e, it[2])
        if v is None:
            return ('it', 'zip', a, it[3]), None
        b, w = yield from it_next(e, it[3])
        if w is None:
            return ('it', 'seq', ()), None
        return ('it', 'zip', a, b), tup(v, w)
    if k == 'chain':
        a, v = yield from it_next(e, it[2])
        if v is not None:
            return ('it', 'chain', a, it[3]), v
        b, w = yield from it_next(e, it[3])
        return ('it', 'chain', ('it', 'seq', ()), b), w
    if k == 'rev':
        vals = []
        n = it[2]
        while True:
            n, v = yield from it_next(e, n)
            if v is None:
                break
            vals.append(('e', v))
        r = ('it', 'seq', tuple(reversed(vals)))
        return (yield from it_next(e, r))
    if k == 'cloned':
        n, v = yield from it_next(e, it[2])
        if v is None:
            return ('it', 'cloned', n), None
        x = yield ('deref', v)
        return ('it', 'cloned', n), x
    if k == 'flat':        # inner iterator of iterables, current, closure or None, item type
        cur = it[3]
        n = it[2]
        while True:
            if cur is not None:
                cur, v = yield from it_next(e, cur)
                if v is not None:
                    return ('it', 'flat', n, cur, it[4], it[5]), v
                cur = None
            n, v = yield from it_next(e, n)
            if v is None:
                return ('it', 'flat', n, None, it[4], it[5]), None
            if it[4] is not None:
                v = yield ('callv', it[4], (v,))
            cur = yield from gen_to_iter(e, v, it[5])
        return
    if k == 'take':
        if it[3][0] == 'c' and it[3][1] <= 0:
            return it, None
        n, v = yield from it_next(e, it[2])
        m = C(it[3][1] - 1) if it[3][0] == 'c' else it[3]
        return ('it', 'take', n, m), v
    if k == 'skip':
        n = it[2]
        if it[3][0] == 'c':
            for _ in range(min(it[3][1], 4)):
                n, v = yield from it_next(e, n)
                if v is None:
                    return ('it', 'seq', ()), None
        return (yield from it_next(e, n))
    if k == 'peek':
        if it[3] is not None:
            return ('it', 'peek', it[2], None), it[3]
        n, v = yield from it_next(e, it[2])
        return ('it', 'peek', n, None), v
    raise AnalysisError('iterator kind ' + k)


def gen_to_iter(e, v, ty):
    """to_iter without direct state access"""
    t = e.p.types[ty] if ty is not None else None
    if v[0] == 'it':
        return v
    if v[0] in ('r',) or (t is not None and t['k'] == 'ref'):
        x = yield ('deref', v)
        loc = yield ('derefloc', v)
        if x[0] == 'it':
            return ('it', 'byref', v)
        kind = is_maplike(e, ty) or 'seq'
        items = []
        if kind == 'map':
            for k, s in enumerate(as_map(x)):
                items.append(('e', tup(('r', ('k', s[1]), ()), ('r', loc[0], loc[1] + (('mv', k),)))) if s[0] == 'kv' else ('rest', s[1], s[2], 'kvref'))
        elif kind == 'opt':
            return ('it', 'optref', ('r', loc[0], loc[1]), 0)
        else:
            for k, s in enumerate(as_list(x)):
                items.append(('e', ('r', loc[0], loc[1] + (('sg', k),)) if x[0] == 'v' else ('r', ('k', s[1]), ())) if s[0] == 'e' else ('rest', s[1], s[2], 'ref'))
        return ('it', 'seq', tuple(items))
    if t is not None and t['k'] == 'adt' and t['p'] == 'core::result::Result':
        return ('it', 'res', v, 0)
    if t is not None and t['k'] == 'adt' and 'next' in t and v[0] == 's':
        return ('it', 'seq', (('rest', v[1], 0, 'val'),))
    kind = is_maplike(e, ty)
    if kind is None and v[0] == 'a':
        kind = 'opt'
    return seq_iter_val(e, None, v, kind)


ITER = 'core::iter::traits::iterator::Iterator::'


@tmodel('core::iter::traits::collect::IntoIterator::into_iter')
def m_into_iter(e, st, c):
    c.give(to_iter(e, st, c.args[0], c.argtys[0] if c.argtys else None))


@model('[T]::iter_mut', 'alloc::collections::vec_deque::VecDeque::iter_mut', 'core::option::Option::iter_mut')
def m_iter_mut(e, st, c):
    c.give(seq_iter_mut(e, st, c.args[0], 'opt' if 'Option' in c.path else 'seq'))


@model('alloc::vec::Vec::splice')
def m_splice(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    t = e.p.types[c.argtys[1]] if c.argtys else None
    name = t['p'].rsplit('::', 1)[-1] if t is not None and t['k'] == 'adt' else ''
    l, r = as_list(x), c.args[1]
    lo, hi = C(0), None
    if name in ('Range', 'RangeFrom') and r[0] == 'a':
        lo = getf(r, 0, 0)
    if name in ('Range', 'RangeTo') and r[0] == 'a':
        hi = getf(r, 0, 1 if name == 'Range' else 0)
    fine = name in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull') and lo[0] == 'c' and (hi is None and name in ('RangeFrom', 'RangeFull') or hi is not None and hi[0] == 'c')
    if fine:
        a, b = lo[1], len(l) if hi is None else hi[1]
        fine = a <= b <= len(l) and all(s[0] == 'e' for s in l[:a]) and (hi is None or all(s[0] == 'e' for s in l[a:b]))
    if not fine:
        return c.opaque(pure=False)
    it = to_iter(e, st, c.args[2], c.argtys[2] if c.argtys else None)

    def g(it):
        vals = yield from gather(e, it)
        yield ('store', cell, p, ('v', l[:a] + tuple(('e', v) for v in vals) + l[b:]))
        return ('it', 'seq', tuple(as_item(s, 'val') for s in l[a:b]))
    c.native(g, it)


def m_map_len(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    if x[0] == 'm' and not any(s[0] == 'rest' for s in x[1]):
        return c.give(C(len(x[1])))
    c.give(sym('len', x if x[0] in ('m', 's') else e.snap(st, x)))


for _m in MAPS + SETS:
    MODELS[_m + '::len'] = m_map_len


@model('[T]::iter', 'alloc::collections::vec_deque::VecDeque::iter', 'core::option::Option::iter')
def m_iter(e, st, c):
    c.give(seq_iter_ref(e, st, c.args[0], 'opt' if 'Option' in c.path else 'seq'))


for _m in MAPS:
    MODELS[_m + '::iter'] = lambda e, st, c: c.give(seq_iter_ref(e, st, c.args[0], 'map'))
    MODELS[_m + '::iter_mut'] = lambda e, st, c: c.give(seq_iter_mut(e, st, c.args[0], 'map'))
for _m in SETS:
    MODELS[_m + '::iter'] = lambda e, st, c: c.give(seq_iter_ref(e, st, c.args[0], 'set'))


def m_keys(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    c.give(('it', 'seq', tuple(('e', ('r', ('k', s[1]), ())) if s[0] == 'kv' else ('rest', s[1], s[2], 'keyref') for s in as_map(x))))


def m_values(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    c.give(('it', 'seq', tuple(('e', ('r', cell, p + (('mv', k),))) if s[0] == 'kv' else ('rest', s[1], s[2], 'valref') for k, s in enumerate(as_map(x)))))


def m_map_drain(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    e.store(st, cell, p, ('m', ()))
    c.give(seq_iter_val(e, st, x, 'map'))


def m_into_values(e, st, c):
    c.give(('it', 'seq', tuple(('e', s[2]) if s[0] == 'kv' else ('rest', T('vals', s[1]), s[2], 'val') for s in as_map(c.args[0]))))


for _m in MAPS:
    MODELS[_m + '::keys'] = m_keys
    MODELS[_m + '::values'] = m_values
    MODELS[_m + '::values_mut'] = lambda e, st, c: c.give(('it', 'vals', seq_iter_mut(e, st, c.args[0], 'map')))
    MODELS[_m + '::drain'] = m_map_drain
    MODELS[_m + '::into_values'] = m_into_values


@model('str::chars', 'str::bytes', 'str::char_indices', 'str::split', 'str::splitn', 'str::lines', 'str::split_whitespace', 'str::rsplit')
def m_chars(e, st, c):
    c.give(('it', 'seq', (('rest', T(c.path, tuple(strip(e.snap(st, a)) for a in c.args)), 0, 'val'),)))


@tmodel(ITER + 'next')
def m_next(e, st, c):
    def g(ptr, ty):
        it = yield ('deref', ptr)
        loc = yield ('derefloc', ptr)
        if it[0] != 'it':
            it = to_iter(e, None, it, ty) if it[0] != 'r' else ('it', 'byref', it)
        n, v = yield from it_next(e, it)
        yield ('store', loc[0], loc[1], n)
        return NONE if v is None else some(v)
    t = e.p.types[c.argtys[0]]['t'] if c.argtys else None
    c.native(g, c.args[0], t)


@tmodel('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next_back(e, st, c):
    def g(ptr, ty):
        it = yield ('deref', ptr)
        loc = yield ('derefloc', ptr)
        vals = []
        if it[0] != 'it':
            it = to_iter(e, None, it, ty)
        n = it
        while True:
            n, v = yield from it_next(e, n)
            if v is None:
                break
            vals.append(('e', v))
        if not vals:
            return NONE
        yield ('store', loc[0], loc[1], ('it', 'seq', tuple(vals[:-1])))
        return some(vals[-1][1])
    t = e.p.types[c.argtys[0]]['t'] if c.argtys else None
    c.native(g, c.args[0], t)


def adapter(name, build):
    def m(e, st, c):
        it = to_iter(e, st, c.args[0], c.argtys[0] if c.argtys else None)
        c.give(build(e, st, it, c))
    TRAIT_MODELS[ITER + name] = m


adapter('map', lambda e, st, it, c: ('it', 'map', it, c.args[1]))
for _n in ('filter', 'filter_map', 'take_while', 'map_while', 'skip_while', 'inspect'):
    adapter(_n, (lambda n: lambda e, st, it, c: ('it', n, it, c.args[1]))(_n))
adapter('enumerate', lambda e, st, it, c: ('it', 'enumerate', it, 0))
adapter('rev', lambda e, st, it, c: ('it', 'rev', it))
adapter('cloned', lambda e, st, it, c: ('it', 'cloned', it))
adapter('copied', lambda e, st, it, c: ('it', 'cloned', it))
adapter('fuse', lambda e, st, it, c: it)
adapter('by_ref', lambda e, st, it, c: it)
adapter('peekable', lambda e, st, it, c: ('it', 'peek', it, None))
adapter('take', lambda e, st, it, c: ('it', 'take', it, c.args[1]))
adapter('skip', lambda e, st, it, c: ('it', 'skip', it, c.args[1]))
adapter('zip', lambda e, st, it, c: ('it', 'zip', it, to_iter(e, st, c.args[1], c.argtys[1] if c.argtys else None)))
adapter('chain', lambda e, st, it, c: ('it', 'chain', it, to_iter(e, st, c.args[1], c.argtys[1] if c.argtys else None)))


def flat_item_ty(e, c):
    # FlatMap<I, U, F> / Flatten<I>: U is a generic argument of the destination type
    t = e.p.types[c.dt] if c.dt is not None else None
    if t is not None and t['k'] == 'adt' and t['p'].endswith('FlatMap') and len(t['a']) >= 2:
        return t['a'][1]
    return None


adapter('flat_map', lambda e, st, it, c: ('it', 'flat', it, None, c.args[1], flat_item_ty(e, c)))
adapter('flatten', lambda e, st, it, c: ('it', 'flat', it, None, None, None))


def gather(e, it):
    vals = []
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return vals
        vals.append(v)


def build_coll(e, vals, ty):
    t = e.p.types[ty] if ty is not None else None
    if t is not None and t['k'] == 'adt':
        if t['p'] in MAPS:
            return ('m', tuple(('kv', getf(v, 0, 0), getf(v, 0, 1)) for v in vals))
        if t['p'] in SETS:
            return ('m', tuple(('kv', v, UNIT) for v in vals))
        if t['p'] == 'alloc::string::String':
            if not vals:
                return C('')
            return sym('concat', tuple(vals))
        if not (t['p'].endswith('Vec') or t['p'].endswith('VecDeque') or t.get('box') or t['p'].endswith('Arc')):
            return sym('collected', t['s'], tuple(vals))
    return ('v', tuple(('e', v) for v in vals))


def collect_gen(e, it, ty):
    t = e.p.types[ty] if ty is not None else None
    if t is not None and t['k'] == 'adt' and t['p'] in ('core::result::Result', 'core::option::Option'):
        res = t['p'] == 'core::result::Result'
        vals = []
        while True:
            it, v = yield from it_next(e, it)
            if v is None:
                break
            d = yield ('optv', v)
            if res and d == 1:
                return ('a', ty, 1, None, ((0, getf(v, 1, 0)),))
            if not res and d == 0:
                return ('a', ty, 0, None, ())
            vals.append(getf(v, 0, 0) if res else getf(v, 1, 0))
        inner = build_coll(e, vals, t['a'][0] if t['a'] else None)
        return ('a', ty, 0 if res else 1, None, ((0, inner),))
    if t is not None and t['k'] == 'tup' and not t['ts']:
        yield from gather(e, it)
        return UNIT
    vals = yield from gather(e, it)
    return build_coll(e, vals, ty)


@tmodel(ITER + 'collect')
def m_collect(e, st, c):
    c.native(collect_gen, e, to_iter(e, st, c.args[0], c.argtys[0] if c.argtys else None), c.dt)


@tmodel('core::iter::traits::collect::FromIterator::from_iter')
def m_from_iter(e, st, c):
    c.native(collect_gen, e, to_iter(e, st, c.args[0], c.argtys[0] if c.argtys else None), c.dt)


@tmodel('core::iter::traits::collect::Extend::extend')
def m_extend(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    it = to_iter(e, st, c.args[1], c.argtys[1] if c.argtys else None)
    ty = e.p.types[c.argtys[0]]['t'] if c.argtys else None
    t = e.p.types[ty] if ty is not None else None
    byte = t is not None and t['k'] == 'adt' and t['p'].endswith(('Vec', 'VecDeque')) and e.p.types[t['a'][0]]['s'] == 'u8'
    while byte and it[1] in ('cloned', 'copied'):
        it = it[2]
    if byte and it[1] == 'seq' and all(s[0] == 'e' or s[0] == 'rest' and s[3] in ('val', 'ref') for s in it[2]):
        # bytes are not looked at one by one
        e.store(st, cell, p, ('v', as_list(x) + tuple(s if s[0] == 'e' else s[:3] for s in it[2])))
        return c.give(UNIT)

    def g(cell, p, x, it):
        vals = yield from gather(e, it)
        if t is not None and t['k'] == 'adt' and t['p'] in MAPS:
            nv = ('m', as_map(x) + tuple(('kv', getf(v, 0, 0), getf(v, 0, 1)) for v in vals))
        elif t is not None and t['k'] == 'adt' and t['p'] in SETS:
            nv = ('m', as_map(x) + tuple(('kv', v, UNIT) for v in vals))
        elif t is not None and t['k'] == 'adt' and t['p'] == 'alloc::string::String':
            nv = x
            for v in vals:
                nv = cat(nv, v)
        else:
            nv = ('v', as_list(x) + tuple(('e', v) for v in vals))
        yield ('store', cell, p, nv)
        return UNIT
    c.native(g, cell, p, x, it)


def consumer(name, gen, byref):
    def m(e, st, c):
        ty = c.argtys[0] if c.argtys else None
        rest = tuple(c.args[1:])
        if byref:
            ity = e.p.types[ty]['t'] if ty is not None and e.p.types[ty]['k'] == 'ref' else None

            def g(ptr):
                it = yield ('deref', ptr)
                loc = yield ('derefloc', ptr)
                if it[0] != 'it':
                    it = to_iter(e, None, it, ity) if it[0] != 'r' else ('it', 'byref', it)
                n, r = yield from gen(e, it, rest, c.dt)
                yield ('store', loc[0], loc[1], n)
                return r
            c.native(g, c.args[0])
        else:
            it = to_iter(e, st, c.args[0], ty)

            def g2():
                n, r = yield from gen(e, it, rest, c.dt)
                return r
            c.native(g2)
    TRAIT_MODELS[name if '::' in name else ITER + name] = m


def g_any(e, it, a, dt):
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, FALSE
        r = yield ('callv', a[0], (v,))
        b = yield ('branch', r)
        if b:
            return it, TRUE


def g_all(e, it, a, dt):
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, TRUE
        r = yield ('callv', a[0], (v,))
        b = yield ('branch', r)
        if not b:
            return it, FALSE


def g_find(e, it, a, dt):
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, NONE
        p = yield ('box', v)
        r = yield ('callv', a[0], (p,))
        b = yield ('branch', r)
        if b:
            return it, some(v)


def g_find_map(e, it, a, dt):
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, NONE
        r = yield ('callv', a[0], (v,))
        d = yield ('optv', r)
        if d == 1:
            return it, r


def g_position(e, it, a, dt):
    i = 0
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, NONE
        r = yield ('callv', a[0], (v,))
        b = yield ('branch', r)
        if b:
            return it, some(C(i))
        i += 1


def g_for_each(e, it, a, dt):
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, UNIT
        yield ('callv', a[0], (v,))


def g_fold(e, it, a, dt):
    acc = a[0]
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, acc
        acc = yield ('callv', a[1], (acc, v))


def g_try_fold(e, it, a, dt):
    acc = a[0]
    t = e.p.types[dt] if dt is not None else None
    isopt = t is not None and t['k'] == 'adt' and t['p'] == 'core::option::Option'
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, (some(acc) if isopt else ok(acc))
        r = yield ('callv', a[1], (acc, v))
        d = yield ('optv', r)
        if (isopt and d == 0) or (not isopt and d == 1):
            return it, r
        acc = getf(r, d, 0)


def g_try_for_each(e, it, a, dt):
    t = e.p.types[dt] if dt is not None else None
    isopt = t is not None and t['k'] == 'adt' and t['p'] == 'core::option::Option'
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            return it, (some(UNIT) if isopt else ok(UNIT))
        r = yield ('callv', a[0], (v,))
        d = yield ('optv', r)
        if (isopt and d == 0) or (not isopt and d == 1):
            return it, r


def g_last(e, it, a, dt):
    vals = yield from gather(e, it)
    return ('it', 'seq', ()), (some(vals[-1]) if vals else NONE)


def g_count(e, it, a, dt):
    vals = yield from gather(e, it)
    return ('it', 'seq', ()), C(len(vals))


def g_nth(e, it, a, dt):
    if a[0][0] == 'c' and a[0][1] < 4:
        v = None
        for _ in range(a[0][1] + 1):
            it, v = yield from it_next(e, it)
            if v is None:
                return it, NONE
        return it, some(v)
    vals = yield from gather(e, it)
    if not vals:
        return ('it', 'seq', ()), NONE
    k = yield ('choose', len(vals) + 1)
    return ('it', 'seq', ()), (some(vals[k]) if k < len(vals) else NONE)


def g_anyone(e, it, a, dt):
    vals = yield from gather(e, it)
    if not vals:
        return ('it', 'seq', ()), NONE
    k = yield ('choose', len(vals))
    return ('it', 'seq', ()), some(vals[k])


def g_sum(e, it, a, dt):
    vals = yield from gather(e, it)
    return ('it', 'seq', ()), sym('sum', tuple(vals))


def g_partition(e, it, a, dt):
    xs, ys = [], []
    while True:
        it, v = yield from it_next(e, it)
        if v is None:
            break
        p = yield ('box', v)
        r = yield ('callv', a[0], (p,))
        b = yield ('branch', r)
        (xs if b else ys).append(v)
    t = e.p.types[dt]['ts'] if dt is not None else (None, None)
    return it, tup(build_coll(e, xs, t[0]), build_coll(e, ys, t[1]))


def g_unzip(e, it, a, dt):
    vals = yield from gather(e, it)
    t = e.p.types[dt]['ts'] if dt is not None else (None, None)
    return ('it', 'seq', ()), tup(build_coll(e, [getf(v, 0, 0) for v in vals], t[0]), build_coll(e, [getf(v, 0, 1) for v in vals], t[1]))


consumer('any', g_any, True)
consumer('all', g_all, True)
consumer('find', g_find, True)
consumer('find_map', g_find_map, True)
consumer('position', g_position, True)
consumer('try_fold', g_try_fold, True)
consumer('try_for_each', g_try_for_each, True)
consumer('nth', g_nth, True)
consumer('for_each', g_for_each, False)
consumer('fold', g_fold, False)
consumer('last', g_last, False)
consumer('count', g_count, False)
consumer('max_by_key', g_anyone, False)
consumer('min_by_key', g_anyone, False)
consumer('max_by', g_anyone, False)
consumer('min_by', g_anyone, False)
consumer('max', g_anyone, False)
consumer('min', g_anyone, False)
consumer('sum', g_sum, False)
consumer('partition', g_partition, False)
consumer('unzip', g_unzip, False)
consumer('core::iter::traits::double_ended::DoubleEndedIterator::rfind', g_find, True)


@model('core::iter::adapters::peekable::Peekable::peek')
def m_peek(e, st, c):
    def g(ptr):
        it = yield ('deref', ptr)
        loc = yield ('derefloc', ptr)
        if it[0] != 'it' or it[1] != 'peek':
            it = ('it', 'peek', it if it[0] == 'it' else ('it', 'seq', (('rest', it[1], 0, 'val'),)), None)
        if it[3] is None:
            n, v = yield from it_next(e, it[2])
            it = ('it', 'peek', n, v)
            yield ('store', loc[0], loc[1], it)
        if it[3] is None:
            return NONE
        p = yield ('box', it[3])
        return some(p)
    c.native(g, c.args[0])


@model('<alloc::boxed::Box as core::ops::drop::Drop>::drop')
def m_box_dealloc(e, st, c):
    c.give(UNIT)


# ------------------------------------------------------------------ drops
def drop_gen(e, cell, path, v, ty, depth=0):
    p = e.p
    t = p.types[ty] if ty is not None else None
    if v[0] == 'undef' or t is None or depth > 8 or not p.interesting_drop(ty):
        return UNIT
    if v[0] == 's' and TERMS[v[1]][0] == 'undef':
        return UNIT
    k = t['k']
    if k == 'adt':
        if t.get('drop') is not None:
            if not t['p'].endswith(tuple(e.quiet_drops) or ('\0',)):
                yield ('push', t['drop'], (('r', cell, path),))
            v = yield ('load', cell, path)
            s = yield ('snap', v)
            yield ('event', ('drop', t['p'], t['p'], None, (s,), (v,), None))
        elif 'MutexGuard' in t['p'] or 'EnteredSpan' in t['p']:
            s = yield ('snap', v)
            yield ('event', ('drop', t['p'], t['p'], None, (s,), (v,), None))
            return UNIT
        if t.get('box') or t['p'].endswith('::Arc') or t['p'].endswith('::Rc'):
            it = t['a'][0]
            if t.get('box'):
                x = yield ('deref', v)
                loc = yield ('derefloc', v)
                yield from drop_gen(e, loc[0], loc[1], x, it, depth + 1)
            return UNIT
        if v[0] in ('v', 'm'):
            et = t['a'][0] if t['a'] else None
            for i, s in enumerate(v[1]):
                if s[0] == 'e':
                    yield from drop_gen(e, cell, path + (('sg', i),), s[1], et, depth + 1)
                elif s[0] == 'kv':
                    yield from drop_gen(e, cell, path + (('mv', i),), s[2], t['a'][-1], depth + 1)
                elif s[0] == 'rest':
                    if s[2] < e.klimit(s[1]):
                        s2 = yield ('snap', ('s', s[1]))
                        yield ('event', ('droprest', t['s'], t['s'], None, (s2,), (('s', s[1]),), s[2]))
            return UNIT
        if v[0] == 'a':
            vi = v[2] or 0
            fs = t['v'][vi][2] if vi < len(t['v']) else []
            for i, (fn, ft) in enumerate(fs):
                if ft is not None and p.interesting_drop(ft):
                    yield from drop_gen(e, cell, path + (('f', vi, i, ft),), getf(v, vi, i), ft, depth + 1)
            return UNIT
        if v[0] == 's':
            if t['ak'] == 'struct' and t.get('l'):
                for i, (fn, ft) in enumerate(t['v'][0][2]):
                    if ft is not None and p.interesting_drop(ft):
                        yield from drop_gen(e, cell, path + (('f', 0, i, ft),), getf(v, 0, i), ft, depth + 1)
            else:
                yield ('event', ('dropsym', t['s'], t['s'], None, (v,), (v,), None))
            return UNIT
        return UNIT
    if k == 'dyn':
        if v[0] == 'a' and v[1] is not None:
            s = yield ('snap', v)
            yield ('event', ('drop', 'dyn ' + t['p'], p.head(v[1]), None, (s,), (v,), None))
            yield from drop_gen(e, cell, path, v, v[1], depth + 1)
            return UNIT
        s = yield ('snap', v)
        yield ('event', ('drop', 'dyn ' + t['p'], 'dyn ' + t['p'], None, (s,), (v,), None))
        return UNIT
    if k == 'tup':
        for i, ft in enumerate(t['ts']):
            yield from drop_gen(e, cell, path + (('f', 0, i, ft),), getf(v, 0, i), ft, depth + 1)
        return UNIT
    if k == 'closure' and v[0] == 'a':
        for i, ft in enumerate(t['up']):
            yield from drop_gen(e, cell, path + (('f', 0, i, ft),), getf(v, 0, i), ft, depth + 1)
        return UNIT
    return UNIT


@model('core::ops::range::RangeInclusive::contains', 'core::ops::range::Range::contains', 'core::ops::range::RangeFrom::contains', 'core::ops::range::RangeTo::contains', 'core::ops::range::RangeToInclusive::contains')
def m_range_contains(e, st, c):
    r = strip(e.snap(st, c.args[0]))
    x = strip(e.snap(st, c.args[1]))
    kind = c.path.split('::')[-2]
    lo = hi = None
    if r[0] == 'a':
        if kind.startswith('RangeTo'):
            hi = getf(r, 0, 0)
        else:
            lo = getf(r, 0, 0)
            hi = getf(r, 0, 1) if kind != 'RangeFrom' else None
    elif r[0] == 's' and TERMS[r[1]][0] == 'call' and TERMS[r[1]][1].endswith('RangeInclusive::new'):
        lo, hi = TERMS[r[1]][2][:2]
    else:
        return c.give(sym('contains', r, x))
    ty = None
    if c.argtys:
        t = e.p.types[c.argtys[1]]
        ty = t.get('t')
        while ty is not None and e.p.types[ty]['k'] == 'ref':
            ty = e.p.types[ty]['t']
    lo, hi = [strip(v) if v is not None else None for v in (lo, hi)]

    def g(below, above, incl):
        if below is not None:
            y = yield ('branch', below)
            if y:
                return FALSE
        if above is not None:
            y = yield ('branch', above)
            if y == incl:
                return FALSE
        return TRUE
    incl = 'Inclusive' in kind
    below = e.lt(st, x, lo, ty) if lo is not None else None
    above = None
    if hi is not None:
        above = e.lt(st, hi, x, ty) if incl else e.lt(st, x, hi, ty)
    c.native(g, below, above, incl)


@model('[T]::copy_from_slice', '[T]::clone_from_slice')
def m_copy_from_slice(e, st, c):
    cell, p, x = seq_place(e, st, c.args[0])
    _c, _p, y = seq_place(e, st, c.args[1])
    e.store(st, cell, p, y if y[0] == 's' else ('v', as_list(y)))
    c.give(UNIT)
