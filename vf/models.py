"""Models of the library functions the crate calls (see DESIGN.md, trusted base)."""
from .interp import UNIT, TRUE, FALSE, sym, proj, vdepth

OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
NONE = ('a', OPT, 0, ())


def some(v):
    return ('a', OPT, 1, (v,))


def ok(v):
    return ('a', RES, 0, (v,))


def err(v):
    return ('a', RES, 1, (v,))


def deref(I, st, r):
    """value behind a reference value"""
    n = 0
    while r[0] == '&' and n < 4:
        r2 = I.read(st, r[1], r[2])
        r = r2
        n += 1
        break
    if r[0] == 's' and n == 0:
        return ('s', r[1] + ('*',))
    return r


def cases(I, st, v, n=2):
    """possible variants of an n-variant enum value: [(vidx, payload, state)]"""
    if v[0] == 'a':
        return [(v[2], v[3][0] if v[3] else UNIT, st)]
    base = v[1] if v[0] == 'P' else v
    d = ('disc', base)
    x = st.asm.get(d)
    if x is not None:
        return [(x, proj(proj(v, ('d', x)), 0), st)]
    ex = st.asm.get(('not', d), ())
    out = []
    for i in range(n):
        if i in ex:
            continue
        s2 = st.copy()
        I.assume(s2, d, i)
        out.append((i, proj(proj(v, ('d', i)), 0), s2))
    return out


M = {}


def model(*names):
    def w(f):
        for n in names:
            M[n] = f
        return f
    return w


def ident(*names):
    @model(*names)
    def f(I, ci, a, st, fr, site):
        return [(a[0], st)]
    return f


# ------------------------------------------------------------------ identity-like
ident('<I as std::iter::IntoIterator>::into_iter', 'std::hint::must_use', '<T as std::convert::Into<U>>::into' if False else 'std::convert::identity',
      'std::vec::Vec::<T, A>::as_slice', 'std::string::String::as_str',
      '<std::string::String as std::ops::Deref>::deref',
      '<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
      '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref' if False else 'std::convert::identity2')


@model('<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref')
def m_box_asref(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] == '&':
        return [(('&', r[1], r[2] + ('*',)), st)]
    return None


@model('std::boxed::Box::<T>::new')
def m_box_new(I, ci, a, st, fr, site):
    return [(('B', a[0]), st)]


@model('std::boxed::Box::<T>::new_uninit')
def m_box_uninit(I, ci, a, st, fr, site):
    return [(('B', sym('uninit')), st)]


def find_t(v, n=0):
    if v[0] == 't':
        return v
    if n > 4:
        return None
    if v[0] == 'P':
        for e, x in v[2]:
            r = find_t(x, n + 1)
            if r is not None:
                return r
    return None


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_into_vec(I, ci, a, st, fr, site):
    v = a[0]
    t = find_t(v[1]) if v[0] == 'B' else None
    if t is not None:
        return [(('v', None, t[1]), st)]
    return [(('v', sym('vecu', site), ()), st)]


@model('<std::boxed::Box<T> as std::default::Default>::default')
def m_box_default(I, ci, a, st, fr, site):
    t = ci['args'][0] if ci.get('args') else ''
    if t.startswith('std::boxed::Box<'):
        t = t[len('std::boxed::Box<'):]
    if t.startswith('std::vec::Vec'):
        return [(('B', ('v', None, ())), st)]
    return None


@model('<std::boxed::Box<T, A> as std::ops::Drop>::drop')
def m_box_drop(I, ci, a, st, fr, site):
    return [(UNIT, st)]


# ------------------------------------------------------------------ Rc / RefCell
@model('std::rc::Rc::<T>::new')
def m_rc_new(I, ci, a, st, fr, site):
    return [new_rc(st, site, a[0])]


def new_rc(st, site, v):
    st = st.copy()
    n = 0
    while ('H', ('rc', site, n)) in st.mem:
        n += 1
    cell = ('H', ('rc', site, n))
    st.mem[cell] = v
    return ('rc', cell), st


@model('<std::rc::Rc<T> as std::default::Default>::default')
def m_rc_default(I, ci, a, st, fr, site):
    t = ci['args'][0] if ci.get('args') else ''
    t = t[len('std::rc::Rc<'):-1] if t.startswith('std::rc::Rc<') else t
    if t.startswith('std::cell::RefCell<'):
        t = t[len('std::cell::RefCell<'):-1]
    return [new_rc(st, site, default_of(t, site))]


@model('std::cell::RefCell::<T>::new')
def m_rcell_new(I, ci, a, st, fr, site):
    return [(a[0], st)]


def rc_cell(I, st, v):
    if v[0] == 'rc':
        return v[1]
    if v[0] == 's':
        name = v[1] + ('rc',)
        al = getattr(I, 'alias', None)
        if al:
            name = al(name)
        return ('H', name)
    return ('H', ('rc?', v))


@model('<std::rc::Rc<T, A> as std::ops::Deref>::deref')
def m_rc_deref(I, ci, a, st, fr, site):
    v = deref(I, st, a[0])
    return [(('&', rc_cell(I, st, v), ()), st)]


@model('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut')
def m_borrow(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] == '&':
        return [(('g', r[1], r[2]), st)]
    return [(('g', ('H', ('cell', r)), ()), st)]


@model('<std::cell::Ref<\'_, T> as std::ops::Deref>::deref', '<std::cell::RefMut<\'_, T> as std::ops::Deref>::deref',
       '<std::cell::RefMut<\'_, T> as std::ops::DerefMut>::deref_mut')
def m_guard_deref(I, ci, a, st, fr, site):
    v = deref(I, st, a[0])
    if v[0] == 'g':
        return [(('&', v[1], v[2]), st)]
    return None


@model('std::cell::RefCell::<T>::replace')
def m_rcell_replace(I, ci, a, st, fr, site):
    st = st.copy()
    old = I.read(st, a[0][1], a[0][2])
    I.write(st, a[0][1], a[0][2], a[1])
    return [(old, st)]


@model('std::mem::take')
def m_take(I, ci, a, st, fr, site):
    st = st.copy()
    r = a[0]
    if r[0] != '&':
        return None
    old = I.read(st, r[1], r[2])
    t = ci['args'][0] if ci.get('args') else ''
    d = default_of(t, site)
    I.write(st, r[1], r[2], d)
    return [(old, st)]


@model('std::mem::replace')
def m_replace(I, ci, a, st, fr, site):
    st = st.copy()
    r = a[0]
    if r[0] != '&':
        return None
    old = I.read(st, r[1], r[2])
    I.write(st, r[1], r[2], a[1])
    return [(old, st)]


def default_of(t, site):
    if t.startswith('std::option::Option<'):
        return NONE
    if t.startswith('std::vec::Vec<'):
        return ('v', None, ())
    if t.startswith('std::collections::BTreeSet<'):
        return ('set', None)
    if t in ('bool', 'usize', 'i32', 'u8', 'u32', 'u64'):
        return ('i', 0)
    return sym('default', t)


# ------------------------------------------------------------------ sets
@model('std::collections::BTreeSet::<T>::new')
def m_set_new(I, ci, a, st, fr, site):
    return [(('set', None), st)]


@model(*['std::clone::impls::<impl std::clone::Clone for %s>::clone' % t for t in ('usize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'isize', 'bool', 'char')])
@model('<std::collections::BTreeSet<T, A> as std::clone::Clone>::clone', '<std::string::String as std::clone::Clone>::clone',
       '<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<alloc_from_pool::PoolValue<T> as std::clone::Clone>::clone',
       '<lib_ruby_parser_ast::Bytes as std::clone::Clone>::clone', '<lib_ruby_parser_ast::Loc as std::clone::Clone>::clone')
def m_clone(I, ci, a, st, fr, site):
    return [(deref(I, st, a[0]), st)]


def grow(v):
    if v[0] == 'set' and len(v) == 3:
        return v
    return ('set', v, 'grown')


@model('std::collections::BTreeSet::<T, A>::insert')
def m_set_insert(I, ci, a, st, fr, site):
    st = st.copy()
    r = a[0]
    if r[0] == '&':
        I.write(st, r[1], r[2], grow(I.read(st, r[1], r[2])))
    return [(I.fresh(st, site), st)]


# ------------------------------------------------------------------ Vec
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def m_vec_new(I, ci, a, st, fr, site):
    return [(('v', None, ()), st)]


def as_vec(v):
    if v[0] == 'v':
        return v
    return ('v', v, ())


MAXVEC = 12


@model('std::vec::Vec::<T, A>::push')
def m_vec_push(I, ci, a, st, fr, site):
    st = st.copy()
    r = a[0]
    if r[0] != '&':
        return None
    v = as_vec(I.read(st, r[1], r[2]))
    if len(v[2]) >= MAXVEC:
        v = ('v', sym('longvec'), ())
    else:
        v = ('v', v[1], v[2] + (a[1],))
    I.write(st, r[1], r[2], v)
    return [(UNIT, st)]


@model('std::vec::Vec::<T, A>::pop')
def m_vec_pop(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] != '&':
        return None
    v = as_vec(I.read(st, r[1], r[2]))
    if v[2]:
        st = st.copy()
        I.write(st, r[1], r[2], ('v', v[1], v[2][:-1]) if (v[2][:-1] or v[1] is None) else v[1])
        return [(some(v[2][-1]), st)]
    if v[1] is None:
        return [(NONE, st)]
    st = st.copy()
    n, base = (v[1][2], v[1][1]) if v[1][0] == 'popped' else (0, v[1])
    I.write(st, r[1], r[2], ('popped', base, n + 1))
    return [(some(sym('popelem', base, n)), st)]


@model('std::vec::Vec::<T, A>::append')
def m_vec_append(I, ci, a, st, fr, site):
    st = st.copy()
    r, o = a[0], a[1]
    if r[0] != '&' or o[0] != '&':
        return None
    v = as_vec(I.read(st, r[1], r[2]))
    w = as_vec(I.read(st, o[1], o[2]))
    if w[1] is None:
        nv = ('v', v[1], v[2] + w[2])
    elif w[1] is not None:
        nv = ('v', v[1], v[2] + (('spread', w[1]),) + w[2])
    if len(nv[2]) > MAXVEC:
        nv = ('v', sym('longvec'), ())
    I.write(st, r[1], r[2], nv)
    I.write(st, o[1], o[2], ('v', None, ()))
    return [(UNIT, st)]


@model('std::vec::Vec::<T, A>::reserve')
def m_noop(I, ci, a, st, fr, site):
    return [(UNIT, st)]


def vlen(v):
    if v[0] == 'v' and v[1] is None and not any(x[0] == 'spread' for x in v[2]):
        return ('i', len(v[2]))
    if v[0] == 'str':
        return ('i', len(v[1]) if isinstance(v[1], bytes) else len(v[1].encode()))
    if vdepth(v) > 6:
        return None
    return ('op', 'len', v)


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def m_vec_len(I, ci, a, st, fr, site):
    v = deref(I, st, a[0])
    l = vlen(v)
    if l is None:
        return None
    return [(l, st)]


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def m_vec_is_empty(I, ci, a, st, fr, site):
    v = deref(I, st, a[0])
    if v[0] == 'v':
        if any(x[0] != 'spread' for x in v[2]):
            return [(FALSE, st)]
        if v[1] is None and not v[2]:
            return [(TRUE, st)]
    l = vlen(v)
    if l is None:
        return None
    return [(('op', 'Eq', l, ('i', 0)), st)]


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last_mut')
def m_slice_last(I, ci, a, st, fr, site):
    r = a[0]
    v = deref(I, st, r)
    last = not ci['fn'].endswith('first')
    if v[0] == 't' and r[0] == '&':
        if not v[1]:
            return [(NONE, st)]
        return [(some(('&', r[1], r[2] + (('ix', len(v[1]) - 1 if last else 0),))), st)]
    if v[0] == 'v' and v[1] is None and not v[2]:
        return [(NONE, st)]
    if v[0] == 'v' and (v[2] if last else (v[1] is None and v[2])):
        it = v[2][-1] if last else v[2][0]
        if it[0] != 'spread' and r[0] == '&':
            if v[1] is None:
                ix = len(v[2]) - 1 if last else 0
                return [(some(('&', r[1], r[2] + (('ix', ix),))), st)]
    s1 = st.copy()
    e = I.fresh(s1, site)
    d = ('disc', ('op', 'last' if last else 'first', v)) if vdepth(v) < 6 else None
    if d is not None and d in st.asm:
        x = st.asm[d]
        return [((some(('s', (('elem', site),))) if x else NONE), st)]
    s2 = st.copy()
    out = []
    if d is not None:
        s1.asm[d] = 1
        s2.asm[d] = 0
    cell = ('H', ('elem', site))
    s1.mem.pop(cell, None)
    return [(some(('&', cell, ())), s1), (NONE, s2)]


# ------------------------------------------------------------------ Option / Result
@model('std::option::Option::<T>::is_some', 'std::option::Option::<T>::is_none', 'std::result::Result::<T, E>::is_err', 'std::result::Result::<T, E>::is_ok')
def m_is(I, ci, a, st, fr, site):
    v = deref(I, st, a[0])
    want = {'is_some': 1, 'is_none': 0, 'is_err': 1, 'is_ok': 0}[ci['fn'].split('::')[-1]]
    return [(('i', int(x == want)), s) for x, _, s in cases(I, st, v)]


@model('std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_mut')
def m_asref(I, ci, a, st, fr, site):
    r = a[0]
    v = deref(I, st, r)
    out = []
    for x, pl, s in cases(I, st, v):
        if x == 0:
            out.append((NONE, s))
        elif r[0] == '&':
            out.append((some(('&', r[1], r[2] + (('d', 1), 0))), s))
        else:
            out.append((some(('s', r[1] + ('*', ('d', 1), 0, 'ref'))), s))
    return out


@model('std::option::Option::<T>::as_deref')
def m_asderef(I, ci, a, st, fr, site):
    r = a[0]
    v = deref(I, st, r)
    out = []
    for x, pl, s in cases(I, st, v):
        if x == 0:
            out.append((NONE, s))
        elif r[0] == '&':
            p = r[2] + (('d', 1), 0)
            if pl[0] in ('B', 's') and 'Box' in str(ci.get('args')):
                p = p + ('*',)
            out.append((some(('&', r[1], p)), s))
        else:
            return None
    return out


@model('std::option::Option::<T>::take')
def m_opt_take(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] != '&':
        return None
    st = st.copy()
    v = I.read(st, r[1], r[2])
    I.write(st, r[1], r[2], NONE)
    return [(v, st)]


@model('std::option::Option::<&T>::copied', 'std::option::Option::<&T>::cloned')
def m_copied(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        out.append((NONE if x == 0 else some(deref(I, s, pl)), s))
    return out


def panics(I, st, site, what):
    h = I.hooks
    if h is not None and hasattr(h, 'on_panic'):
        h.on_panic(I, st, site, what)


@model('std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect')
def m_unwrap(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 1:
            out.append((pl, s))
        else:
            panics(I, s, site, 'unwrap on None')
    return out


@model('std::result::Result::<T, E>::unwrap', 'std::result::Result::<T, E>::expect')
def m_runwrap(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 0:
            out.append((pl, s))
        else:
            panics(I, s, site, 'unwrap on Err')
    return out


@model('std::option::Option::<T>::unwrap_or')
def m_unwrap_or(I, ci, a, st, fr, site):
    return [(pl if x else a[1], s) for x, pl, s in cases(I, st, a[0])]


@model('std::result::Result::<T, E>::unwrap_or')
def m_runwrap_or(I, ci, a, st, fr, site):
    return [(pl if x == 0 else a[1], s) for x, pl, s in cases(I, st, a[0])]


@model('std::option::Option::<T>::map', 'std::option::Option::<T>::and_then')
def m_map(I, ci, a, st, fr, site):
    out = []
    wrap = ci['fn'].endswith('::map')
    for x, pl, s in cases(I, st, a[0]):
        if x == 0:
            out.append((NONE, s))
        else:
            for r, s2 in I.call_value(a[1], [pl], s, fr, site):
                out.append((some(r) if wrap else r, s2))
    return out


@model('std::option::Option::<T>::map_or')
def m_map_or(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 0:
            out.append((a[1], s))
        else:
            out += I.call_value(a[2], [pl], s, fr, site)
    return out


@model('std::option::Option::<T>::map_or_else')
def m_map_or_else(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 0:
            out += I.call_value(a[1], [], s, fr, site)
        else:
            out += I.call_value(a[2], [pl], s, fr, site)
    return out


@model('std::option::Option::<T>::is_some_and')
def m_is_some_and(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 0:
            out.append((FALSE, s))
        else:
            out += I.call_value(a[1], [pl], s, fr, site)
    return out


@model('std::option::Option::<T>::unwrap_or_else', 'std::option::Option::<T>::or_else')
def m_unwrap_or_else(I, ci, a, st, fr, site):
    out = []
    keep = ci['fn'].endswith('::or_else')
    for x, pl, s in cases(I, st, a[0]):
        if x == 1:
            out.append((some(pl) if keep else pl, s))
        else:
            out += I.call_value(a[1], [], s, fr, site)
    return out


@model('std::option::Option::<T>::or')
def m_or(I, ci, a, st, fr, site):
    return [(some(pl) if x else a[1], s) for x, pl, s in cases(I, st, a[0])]


@model('std::option::Option::<T>::unwrap_or_default')
def m_unwrap_or_default(I, ci, a, st, fr, site):
    t = ci['args'][0] if ci.get('args') else ''
    return [(pl if x else default_of(t, site), s) for x, pl, s in cases(I, st, a[0])]


@model('std::option::Option::<T>::ok_or')
def m_ok_or(I, ci, a, st, fr, site):
    return [(ok(pl) if x else err(a[1]), s) for x, pl, s in cases(I, st, a[0])]


@model('std::result::Result::<T, E>::map')
def m_rmap(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 1:
            out.append((err(pl), s))
        else:
            for r, s2 in I.call_value(a[1], [pl], s, fr, site):
                out.append((ok(r), s2))
    return out


@model('std::result::Result::<T, E>::map_err')
def m_rmap_err(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 0:
            out.append((ok(pl), s))
        else:
            for r, s2 in I.call_value(a[1], [pl], s, fr, site):
                out.append((err(r), s2))
    return out


@model('std::result::Result::<T, E>::and_then')
def m_rand_then(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 1:
            out.append((err(pl), s))
        else:
            out += I.call_value(a[1], [pl], s, fr, site)
    return out


@model('std::result::Result::<T, E>::ok')
def m_rok(I, ci, a, st, fr, site):
    return [(some(pl) if x == 0 else NONE, s) for x, pl, s in cases(I, st, a[0])]


@model('<std::result::Result<T, E> as std::ops::Try>::branch')
def m_rbranch(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 0:
            out.append((('a', CF, 0, (pl,)), s))
        else:
            out.append((('a', CF, 1, (err(pl),)), s))
    return out


@model('<std::option::Option<T> as std::ops::Try>::branch')
def m_obranch(I, ci, a, st, fr, site):
    out = []
    for x, pl, s in cases(I, st, a[0]):
        if x == 1:
            out.append((('a', CF, 0, (pl,)), s))
        else:
            out.append((('a', CF, 1, (NONE,)), s))
    return out


@model('<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<!, E>>>::from_residual',
       '<std::option::Option<T> as std::ops::FromResidual<std::option::Option<!>>>::from_residual')
def m_from_residual(I, ci, a, st, fr, site):
    return [(a[0], st)]


@model('<std::option::Option<T> as std::cmp::PartialEq>::eq', '<std::result::Result<T, E> as std::cmp::PartialEq>::eq')
def m_opteq(I, ci, a, st, fr, site):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    out = []
    for vx, px, s in cases(I, st, x):
        for vy, py, s2 in cases(I, s, y):
            if vx != vy:
                out.append((FALSE, s2))
            elif vx == 0 and 'Option' in ci['fn']:
                out.append((TRUE, s2))
            else:
                out.append((('op', 'Eq', px, py) if px != py else TRUE, s2))
    return out


@model('std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq', 'std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::ne', 'std::cmp::PartialEq::ne')
def m_refeq(I, ci, a, st, fr, site):
    """eq/ne through a trait default or a reference: find the crate's own eq for the types"""
    neg = ci['fn'].endswith('ne')
    x, y = a[0], a[1]
    if 'for &A' in ci['fn']:
        x, y = deref(I, st, x), deref(I, st, y)
    targs = [t.lstrip('&') for t in ci.get('args', [])]
    cand = []
    if targs:
        A, Bt = targs[0], targs[1] if len(targs) > 1 else targs[0]
        cand = ['<%s as std::cmp::PartialEq<%s>>::eq' % (A, Bt), '<%s as std::cmp::PartialEq>::eq' % A]
        # impls in modules print as module::<impl PartialEq<..> for X>::eq
        for n in I.p.fns:
            if n.endswith('>::eq') and ('for %s>' % A) in n and (('PartialEq<%s>' % Bt) in n or ('PartialEq for' in n)):
                cand.append(n)
    for n in cand:
        f = I.p.fns.get(n)
        if f is not None:
            rs = I.run(f, [x, y], st, fr + 1)
            if neg:
                rs = [((('i', 1 - r[1]) if r[0] == 'i' else ('op', 'Not', r)), s) for r, s in rs]
            return rs
    xv, yv = deref(I, st, x), deref(I, st, y)
    if xv == yv and xv[0] in ('i', 'str'):
        r = TRUE
    elif xv[0] == 'i' and yv[0] == 'i' or xv[0] == 'str' and yv[0] == 'str':
        r = FALSE
    elif concrete(xv) and concrete(yv) and xv[0] == yv[0] == 'a' and xv[1] == yv[1] == OPT:
        r = ('i', int(xv == yv))
    else:
        r = ('op', 'Eq', xv, yv)
        if vdepth(r) > 8:
            return None
    if neg:
        r = ('i', 1 - r[1]) if r[0] == 'i' else ('op', 'Not', r)
    return [(r, st)]


@model('<T as std::convert::TryInto<U>>::try_into')
def m_tryinto(I, ci, a, st, fr, site):
    return [(ok(a[0]), st), (err(sym('tryinto')), st)]


@model('std::ops::FnOnce::call_once', 'std::ops::Fn::call', 'std::ops::FnMut::call_mut')
def m_callonce(I, ci, a, st, fr, site):
    args = list(a[1][1]) if len(a) > 1 and a[1][0] == 't' else []
    return I.call_value(a[0], args, st, fr, site)


# ------------------------------------------------------------------ panics
@model('core::panicking::panic', 'std::rt::panic_fmt', 'core::panicking::unreachable_default_msg', 'core::panicking::panic_fmt',
       'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'core::panicking::assert_failed')
def m_panic(I, ci, a, st, fr, site):
    panics(I, st, site, ci['fn'].split('::')[-1])
    return []


# ------------------------------------------------------------------ iterators over modelled vectors
ITER = 'vf::iter'


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def m_into_iter(I, ci, a, st, fr, site):
    return [(('a', ITER, 0, (as_vec(a[0]),)), st)]


@model('core::slice::<impl [T]>::iter', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_slice_iter(I, ci, a, st, fr, site):
    r = a[0]
    v = deref(I, st, r)
    if v[0] == 't' and r[0] == '&':
        return [(('a', ITER, 0, (('v', None, tuple(('&', r[1], r[2] + (i,)) for i in range(len(v[1])))),)), st)]
    v = as_vec(v)
    if v[1] is None and r[0] == '&':
        items = tuple(('&', r[1], r[2] + (('ix', i),)) for i in range(len(v[2])))
        return [(('a', ITER, 0, (('v', None, items),)), st)]
    return [(('a', ITER, 1, (v,)), st)]


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', "<std::slice::Iter<'a, T> as std::iter::Iterator>::next")
def m_next(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] != '&':
        return None
    it = I.read(st, r[1], r[2])
    if it[0] == 'a' and it[1] == ITER:
        v = it[3][0]
        if v[1] is None and not v[2]:
            return [(NONE, st)]
        if v[1] is None and v[2][0][0] != 'spread':
            st = st.copy()
            I.write(st, r[1], r[2], ('a', ITER, it[2], (('v', None, v[2][1:]),)))
            return [(some(v[2][0]), st)]
        s1 = st.copy()
        e = I.fresh(s1, site)
        if it[2] == 0:
            return [(some(('s', (('velem', v, site),)) if vdepth(v) < 5 else e), s1), (NONE, st)]
        cell = ('H', ('velem', site))
        s1.mem.pop(cell, None)
        return [(some(('&', cell, ())), s1), (NONE, st)]
    s1 = st.copy()
    return [(some(I.fresh(s1, site)), s1), (NONE, st)]


@model('<alloc_from_pool::PoolValue<T> as std::ops::Deref>::deref', '<alloc_from_pool::PoolValue<T> as std::ops::DerefMut>::deref_mut')
def m_pool_deref(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] == '&':
        return [(('&', r[1], r[2] + ('*',)), st)] if I.read(st, r[1], r[2])[0] in ('B',) else [(('&', r[1], r[2]), st)]
    return None


@model('<std::rc::Rc<T, A> as std::clone::Clone>::clone')
def m_rc_clone(I, ci, a, st, fr, site):
    return [(deref(I, st, a[0]), st)]


@model('alloc_from_pool::PoolValue::<T>::take_value')
def m_take_value(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] != '&':
        return None
    st = st.copy()
    v = I.read(st, r[1], r[2])
    I.write(st, r[1], r[2], ('s', ('taken',)))
    return [(v, st)]


@model('<std::vec::Vec<T> as std::default::Default>::default')
def m_vec_default(I, ci, a, st, fr, site):
    return [(('v', None, ()), st)]


# ------------------------------------------------------------------ classes of known bytes
ASCII = {
    'is_ascii': lambda c: c < 128,
    'is_ascii_alphabetic': lambda c: c < 128 and chr(c).isalpha(),
    'is_ascii_alphanumeric': lambda c: c < 128 and chr(c).isalnum(),
    'is_ascii_digit': lambda c: c < 128 and chr(c).isdigit(),
    'is_ascii_hexdigit': lambda c: c < 128 and chr(c) in '0123456789abcdefABCDEF',
    'is_ascii_whitespace': lambda c: c in (9, 10, 12, 13, 32),
    'is_ascii_uppercase': lambda c: c < 128 and chr(c).isupper(),
    'is_ascii_lowercase': lambda c: c < 128 and chr(c).islower(),
    'is_ascii_punctuation': lambda c: 32 < c < 127 and not chr(c).isalnum(),
    'is_ascii_control': lambda c: c < 32 or c == 127,
}


def byte_class(fn):
    def m(I, ci, a, st, fr, site):
        v = deref(I, st, a[0]) if a[0][0] == '&' else a[0]
        if v[0] == 's' and isinstance(st.asm.get(v), int):
            v = ('i', st.asm[v])
        if v[0] == 'i':
            return [(('i', int(bool(fn(v[1])))), st)]
        return None
    return m


for _n, _f in ASCII.items():
    if 'core::num::<impl u8>::' + _n not in M:
        M['core::num::<impl u8>::' + _n] = byte_class(_f)


def concrete(v):
    return v[0] == 'i' or v[0] == 'a' and all(concrete(x) for x in v[3])


@model('std::ops::RangeInclusive::<Idx>::contains', 'std::ops::Range::<Idx>::contains')
def m_range_contains(I, ci, a, st, fr, site):
    r, v = (deref(I, st, x) if x[0] == '&' else x for x in a[:2])
    if v[0] == 's' and isinstance(st.asm.get(v), int):
        v = ('i', st.asm[v])
    if r[0] == 'a' and len(r[3]) >= 2 and r[3][0][0] == 'i' and r[3][1][0] == 'i' and v[0] == 'i':
        lo, hi = r[3][0][1], r[3][1][1]
        return [(('i', int(lo <= v[1] <= hi if 'Inclusive' in ci['fn'] else lo <= v[1] < hi)), st)]
    return None


# ------------------------------------------------------------------ adaptors over iterators whose items are known (evaluated at once)
def items_of(I, st, it):
    if it[0] == '&':
        it = I.read(st, it[1], it[2])
    if it[0] == 'a' and it[1] == ITER and it[3][0][1] is None and not any(x[0] == 'spread' for x in it[3][0][2]):
        return list(it[3][0][2])
    return None


def mkiter(items):
    return ('a', ITER, 0, (('v', None, tuple(items)),))


def each(I, st, clo, items, fr, site, wrap=lambda x: x):
    """[(results, state)] of calling clo on every item in turn"""
    cur = [((), st)]
    for n, x in enumerate(items):
        nxt = []
        for res, s in cur:
            for rv, s2 in I.call_value(clo, [wrap(x)], s.copy(), fr, (site[0], '%s.%d' % (site[1], n))):
                nxt.append((res + (rv,), s2))
        cur = nxt
    return cur


@model('std::iter::Iterator::map')
def m_it_map(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    if it is None:
        return None
    return [(mkiter(r), s) for r, s in each(I, st, a[1], it, fr, site)]


@model('std::iter::Iterator::filter_map', 'std::iter::Iterator::flat_map')
def m_it_filter_map(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    if it is None or ci['fn'].endswith('flat_map'):
        return None
    out = []
    for r, s in each(I, st, a[1], it, fr, site):
        cur = [((), s)]
        for x in r:
            cur = [(acc + ((pl,) if vi else ()), s3) for acc, s2 in cur for vi, pl, s3 in cases(I, s2, x)]
        out += [(mkiter(acc), s2) for acc, s2 in cur]
    return out


def truth(I, st, v):
    """[(bool, state)]"""
    if v[0] == 'i':
        return [(bool(v[1]), st)]
    neg = False
    while v[0] == 'op' and v[1] == 'Not':
        v, neg = v[2], not neg
    x = I.asm_eval(st, v)
    if x is not None:
        return [(bool(x) != neg, st)]
    out = []
    for b in (0, 1):
        s2 = st.copy()
        I.assume(s2, v, b)
        out.append((bool(b) != neg, s2))
    return out


@model('std::iter::Iterator::filter', 'std::iter::Iterator::all', 'std::iter::Iterator::any',
       "<std::slice::Iter<'a, T> as std::iter::Iterator>::any", "<std::slice::Iter<'a, T> as std::iter::Iterator>::all")
def m_it_filter(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    if it is None:
        return None
    kind = ci['fn'].rsplit('::', 1)[1]
    cur = [((), st)]
    done = []
    for n, x in enumerate(it):
        nxt = []
        for acc, s in cur:
            s = s.copy()
            arg = x
            if kind == 'filter':
                cell = ('L', fr, 'flt%s.%d' % (site[1], n))
                s.mem[cell] = x
                arg = ('&', cell, ())
            for rv, s2 in I.call_value(a[1], [arg], s, fr, (site[0], '%s.%d' % (site[1], n))):
                for b, s3 in truth(I, s2, rv):
                    if kind == 'filter':
                        nxt.append((acc + ((x,) if b else ()), s3))
                    elif b == (kind == 'any'):
                        done.append((TRUE if b else FALSE, s3))
                    else:
                        nxt.append((acc, s3))
        cur = nxt
    if kind == 'filter':
        return [(mkiter(acc), s) for acc, s in cur]
    return done + [(FALSE if kind == 'any' else TRUE, s) for acc, s in cur]


@model('std::iter::Iterator::for_each')
def m_it_for_each(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    if it is None:
        return None
    return [(UNIT, s) for r, s in each(I, st, a[1], it, fr, site)]


@model('std::iter::Iterator::fold')
def m_it_fold(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    if it is None:
        return None
    cur = [(a[1], st)]
    for n, x in enumerate(it):
        cur = [o for acc, s in cur for o in I.call_value(a[2], [acc, x], s.copy(), fr, (site[0], '%s.%d' % (site[1], n)))]
    return cur


@model('std::iter::Iterator::collect')
def m_it_collect(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    if it is None:
        return None
    t = ci['args'][-1] if ci.get('args') else ''
    if 'std::vec::Vec<' in t and not t.startswith('std::result') and not t.startswith('std::option'):
        return [(('v', None, tuple(it)), st)]
    return None


@model('std::iter::Iterator::rev')
def m_it_rev(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    return None if it is None else [(mkiter(it[::-1]), st)]


@model('<std::iter::Rev<I> as std::iter::Iterator>::next', '<std::iter::Map<I, F> as std::iter::Iterator>::next', '<std::iter::Enumerate<I> as std::iter::Iterator>::next',
       '<std::iter::Filter<I, P> as std::iter::Iterator>::next', '<std::iter::FilterMap<I, F> as std::iter::Iterator>::next', '<std::iter::Zip<A, B> as std::iter::Iterator>::next',
       '<std::iter::Skip<I> as std::iter::Iterator>::next', '<std::iter::Chain<A, B> as std::iter::Iterator>::next', '<std::iter::Take<I> as std::iter::Iterator>::next',
       '<std::iter::Peekable<I> as std::iter::Iterator>::next')
def m_adapt_next(I, ci, a, st, fr, site):
    return m_next(I, ci, a, st, fr, site)


@model('std::iter::Iterator::enumerate')
def m_it_enum(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    return None if it is None else [(mkiter([('t', (('i', i), x)) for i, x in enumerate(it)]), st)]


@model('std::iter::Iterator::skip', 'std::iter::Iterator::take')
def m_it_skip(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    if it is None or a[1][0] != 'i':
        return None
    return [(mkiter(it[a[1][1]:] if ci['fn'].endswith('skip') else it[:a[1][1]]), st)]


@model('std::iter::Iterator::zip', 'std::iter::Iterator::chain')
def m_it_zip(I, ci, a, st, fr, site):
    x = items_of(I, st, a[0])
    y = items_of(I, st, a[1])
    if y is None and a[1][0] == 'v' and a[1][1] is None:
        y = list(a[1][2])
    if x is None or y is None:
        return None
    if ci['fn'].endswith('chain'):
        return [(mkiter(x + y), st)]
    return [(mkiter([('t', p) for p in zip(x, y)]), st)]


@model('std::iter::Iterator::last', 'std::iter::Iterator::count')
def m_it_last(I, ci, a, st, fr, site):
    it = items_of(I, st, a[0])
    if it is None:
        return None
    if ci['fn'].endswith('count'):
        return [(('i', len(it)), st)]
    return [(some(it[-1]) if it else NONE, st)]


@model('std::vec::Vec::<T, A>::extend', '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend')
def m_vec_extend(I, ci, a, st, fr, site):
    it = items_of(I, st, a[1])
    if it is None and a[1][0] == 'v' and a[1][1] is None:
        it = list(a[1][2])
    if it is None or a[0][0] != '&':
        return None
    st = st.copy()
    v = as_vec(I.read(st, a[0][1], a[0][2]))
    I.write(st, a[0][1], a[0][2], ('v', v[1], v[2] + tuple(it)))
    return [(UNIT, st)]


@model('std::vec::Vec::<T, A>::insert')
def m_vec_insert(I, ci, a, st, fr, site):
    if a[0][0] != '&' or a[1][0] != 'i':
        return None
    v = as_vec(I.read(st, a[0][1], a[0][2]))
    if v[1] is not None or any(x[0] == 'spread' for x in v[2]):
        return None
    st = st.copy()
    I.write(st, a[0][1], a[0][2], ('v', None, v[2][:a[1][1]] + (a[2],) + v[2][a[1][1]:]))
    return [(UNIT, st)]


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def m_vec_remove(I, ci, a, st, fr, site):
    if a[0][0] != '&' or a[1][0] != 'i':
        return None
    v = as_vec(I.read(st, a[0][1], a[0][2]))
    i = a[1][1]
    if v[1] is not None or any(x[0] == 'spread' for x in v[2]) or not 0 <= i < len(v[2]):
        return None
    st = st.copy()
    rest = v[2][:i] + v[2][i + 1:]
    if ci['fn'].endswith('swap_remove') and i < len(v[2]) - 1:
        rest = v[2][:i] + (v[2][-1],) + v[2][i + 1:-1]
    I.write(st, a[0][1], a[0][2], ('v', None, rest))
    return [(v[2][i], st)]


@model('core::slice::<impl [T]>::reverse')
def m_vec_reverse(I, ci, a, st, fr, site):
    if a[0][0] != '&':
        return None
    v = I.read(st, a[0][1], a[0][2])
    if v[0] != 'v' or v[1] is not None or any(x[0] == 'spread' for x in v[2]):
        return None
    st = st.copy()
    I.write(st, a[0][1], a[0][2], ('v', None, v[2][::-1]))
    return [(UNIT, st)]


@model('std::vec::Vec::<T, A>::truncate', 'std::vec::Vec::<T, A>::clear')
def m_vec_truncate(I, ci, a, st, fr, site):
    n = 0 if ci['fn'].endswith('clear') else (a[1][1] if a[1][0] == 'i' else None)
    if a[0][0] != '&' or n is None:
        return None
    v = as_vec(I.read(st, a[0][1], a[0][2]))
    if n and (v[1] is not None or any(x[0] == 'spread' for x in v[2])):
        return None
    st = st.copy()
    I.write(st, a[0][1], a[0][2], ('v', None, v[2][:n]))
    return [(UNIT, st)]


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::<impl [T]>::get')
def m_vec_index(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] == '&' and a[1][0] == 'a' and a[1][1].endswith('RangeFull'):
        return [(r, st)]
    if r[0] != '&' or a[1][0] != 'i':
        return None
    v = I.read(st, r[1], r[2])
    if v[0] == 'v' and v[1] is None and not any(x[0] == 'spread' for x in v[2]):
        get = ci['fn'].endswith('get')
        if not 0 <= a[1][1] < len(v[2]):
            if get:
                return [(NONE, st)]
            panics(I, st, site, 'index')
            return []
        ref = ('&', r[1], r[2] + (('ix', a[1][1]),))
        return [(some(ref) if get else ref, st)]
    return None


@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def m_range_next(I, ci, a, st, fr, site):
    r = a[0]
    if r[0] != '&':
        return None
    v = I.read(st, r[1], r[2])
    if v[0] == 'a' and len(v[3]) == 2 and v[3][0][0] == 'i' and v[3][1][0] == 'i':
        lo, hi = v[3][0][1], v[3][1][1]
        if lo >= hi:
            return [(NONE, st)]
        st = st.copy()
        I.write(st, r[1], r[2], ('a', v[1], v[2], (('i', lo + 1), v[3][1])))
        return [(some(('i', lo)), st)]
    return None
