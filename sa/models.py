"""Models of the library functions the crate calls (std, tokio, bytes, rand).

Each model gets (engine, state, call) and returns a value, a list of
(state, value) alternatives, or None when the call never returns.
"""
import re
from .terms import *
from . import terms as tm
from .interp import (U, UNIT, is_pred, is_scalar, vkey, byte_of, perm_root, short, Abort, SEQS, MAPS, flat)

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


# ---------------------------------------------------------------- helpers
def variant(E, ty, name):
    for i, v in enumerate(E.P.types[ty]['v']):
        if v['n'] == name:
            return i
    raise Abort('variant %s of %s' % (name, E.P.ts(ty)))


def enum(E, ty, name, *vals):
    return E.mk_enum(ty, variant(E, ty, name), vals)


def some(E, ty, v):
    return enum(E, ty, 'Some', v)


def none(E, ty):
    return enum(E, ty, 'None')


def payload_ty(E, ty, name, i=0):
    return E.P.types[ty]['v'][variant(E, ty, name)]['f'][i][1]


def ready(E, ty, v):
    return enum(E, ty, 'Ready', v)


def deref(E, st, v):
    """value behind a reference value"""
    if isinstance(v, tuple):
        if v[0] == 'R':
            return E.get(st, v[1], v[2])
        if v[0] == 'SL':
            q = E.get(st, v[1], v[2])
            return E.seq_slice(st, q, v[3], v[4])
        if v[0] == 'A':
            return E.load(st, v[1])
        if v[0] == 'G':
            return E.load(st, v[4])
        if v[0] == 'Q':
            return v
    return ('Q', (('sub', nm(('badref', vkey(v))), const(0), lin(atom(('len', nm(('badref', vkey(v)))), 0, (1 << 63) - 1))),), ())


def setref(E, st, r, v):
    if isinstance(r, tuple) and r[0] == 'R':
        E.put(st, r[1], r[2], v)
    elif isinstance(r, tuple) and r[0] == 'SL':
        E.put(st, r[1], r[2], v)
    elif isinstance(r, tuple) and r[0] == 'G':
        E.put(st, r[4], (), v)
    elif isinstance(r, tuple) and r[0] == 'A':
        E.put(st, r[1], (), v)


def as_q(E, st, v):
    """sequence value of a Vec/slice/array value or reference"""
    if isinstance(v, tuple) and v[0] == 'Q':
        return v
    if isinstance(v, tuple) and v[0] in ('R', 'SL', 'G', 'A'):
        q = deref(E, st, v)
        if q[0] == 'Q':
            return q
        if q[0] in ('R', 'SL', 'G', 'A'):
            return as_q(E, st, q)
        v = q
    n = nm(('badq', vkey(v)))
    return ('Q', (('sub', n, const(0), E.len_atom(n)),), ())


def arg_elem_ty(E, c, i):
    """element type of the i-th (sequence reference) argument, from the generic args"""
    for a in c.obj.get('a', []):
        if isinstance(a, int):
            t = E.P.types[a]
            if t['k'] in ('slice', 'array', 'str') or (t['k'] == 'adt' and t['p'] in SEQS):
                return E.P.elem_ty(a)
    return None


def split(E, st, p):
    """[(state, bool)] for a predicate"""
    d = st.decide(p)
    if d is not None:
        return [(st, d)]
    out = []
    s2 = st.copy()
    if s2.assume(p):
        out.append((s2, True))
    if st.assume(p_not(p)):
        out.append((st, False))
    return out


def either(st, *vals):
    """nondeterministic alternatives"""
    out = []
    for v in vals[:-1]:
        out.append((st.copy(), v))
    out.append((st, vals[-1]))
    return out


def self_c(f):
    return f


# ---------------------------------------------------------------- panics
def expn_is_tokio(E, c):
    """the call comes out of a macro of tokio (select!'s unreachable arms), not out of user tokens inside it"""
    fn, b = E.site(c.ctx, c.bb)
    t = fn.blocks[b]['t']
    for x in (t[5:] if t[0] == 'call' else []):
        if isinstance(x, list) and len(x) == 4 and x[2] == 'tokio':
            return True
    return False


@model('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_explicit', 'core::panicking::panic_display',
       'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
       'core::result::unwrap_failed::unwrap_failed_inner', 'core::panicking::unreachable_display',
       'core::panicking::assert_failed', 'core::panicking::assert_failed_inner', 'std::rt::begin_panic',
       'core::panicking::panic_bounds_check', 'core::panicking::panic_str_2015', 'std::process::abort', 'std::process::exit',
       'core::slice::index::slice_index_fail', 'core::panicking::panic_const::panic_const_div_by_zero')
def m_panic(E, st, c):
    if expn_is_tokio(E, c):
        E.stats['exempt'] = E.stats.get('exempt', 0) + 1
        return None
    E.emit(st, c, 'panic', what=c.name)
    E.oblige(c.ctx, c.bb, 'panic:' + c.name.split('::')[1], False, 'reaches ' + c.name, st=st)
    return None


# ---------------------------------------------------------------- Vec, slices, arrays
@model('alloc::vec::Vec::new', 'alloc::string::String::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::with_capacity',
       '<alloc::vec::Vec as core::default::Default>::default', '<alloc::string::String as core::default::Default>::default',
       'alloc::collections::vec_deque::VecDeque::new', 'alloc::collections::vec_deque::VecDeque::with_capacity')
def m_vec_new(E, st, c):
    return ('Q', (), ())


@model('alloc::vec::from_elem')
def m_from_elem(E, st, c):
    n = c.args[1]
    if isinstance(n, Lin) and not n.t and n.c == 0:
        return ('Q', (), ())
    E.emit(st, c, 'alloc', n=n)
    return ('Q', (('rep', c.args[0], n),), ())


@model('alloc::vec::Vec::len', 'slice::len', 'str::len', 'alloc::string::String::len', 'alloc::collections::vec_deque::VecDeque::len')
def m_len(E, st, c):
    a = c.args[0]
    if isinstance(a, tuple) and a[0] == 'SL':
        return a[4]
    return E.seq_len(as_q(E, st, a))


@model('alloc::vec::Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'alloc::string::String::is_empty',
       'alloc::collections::vec_deque::VecDeque::is_empty')
def m_is_empty(E, st, c):
    return p_eq(m_len(E, st, c))


@model('alloc::vec::Vec::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def m_push(E, st, c):
    q = as_q(E, st, c.args[0])
    E.emit(st, c, 'push', ref=c.args[0], val=c.args[1], seq=q)
    setref(E, st, c.args[0], E.seq_push(q, c.args[1]))
    return UNIT


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear', 'alloc::collections::vec_deque::VecDeque::clear')
def m_clear(E, st, c):
    E.emit(st, c, 'vecclear', ref=c.args[0], seq=as_q(E, st, c.args[0]))
    setref(E, st, c.args[0], ('Q', (), ()))
    return UNIT


@model('alloc::vec::Vec::append')
def m_append(E, st, c):
    a = as_q(E, st, c.args[0])
    b = as_q(E, st, c.args[1])
    E.emit(st, c, 'append', ref=c.args[0], seq=a, val=b)
    setref(E, st, c.args[0], E.seq_cat(a, b))
    setref(E, st, c.args[1], ('Q', (), ()))
    return UNIT


@model('alloc::vec::Vec::extend_from_slice', '<alloc::vec::Vec as bytes::buf::buf_mut::BufMut>::put_slice',
       'bytes::buf::buf_mut::BufMut::put_slice')
def m_extend(E, st, c):
    a = as_q(E, st, c.args[0])
    b = as_q(E, st, c.args[1])
    E.emit(st, c, 'append', ref=c.args[0], seq=a, val=b)
    setref(E, st, c.args[0], E.seq_cat(a, b))
    return UNIT


@model('<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend')
def m_extend_it(E, st, c):
    b = c.args[1]
    if isinstance(b, tuple) and b[0] in ('Q', 'R', 'SL'):
        return m_extend(E, st, c)
    if isinstance(b, tuple) and b[0] == 'IT' and b[1] in ('vec',):
        q = E.seq_slice(st, b[2], b[3], sub(E.seq_len(b[2]), b[3]))
        a = as_q(E, st, c.args[0])
        E.emit(st, c, 'append', ref=c.args[0], seq=a, val=q)
        setref(E, st, c.args[0], E.seq_cat(a, q))
        return UNIT
    return E.unknown_call(c, st)


@model('slice::to_vec', 'slice::into_vec', 'slice::to_owned', '<[T] as alloc::borrow::ToOwned>::to_owned', 'alloc::slice::to_vec',
       '<slice as alloc::borrow::ToOwned>::to_owned', '<str as alloc::borrow::ToOwned>::to_owned',
       'str::to_owned', 'str::to_string', '<str as alloc::string::ToString>::to_string', 'str::into_string',
       '<alloc::vec::Vec as core::convert::From>::from', '<alloc::string::String as core::convert::From>::from')
def m_to_vec(E, st, c):
    return as_q(E, st, c.args[0])


@model('<alloc::vec::Vec as core::clone::Clone>::clone', '<alloc::string::String as core::clone::Clone>::clone')
def m_vec_clone(E, st, c):
    return as_q(E, st, c.args[0])


@model('alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'array::as_slice', 'array::as_mut_slice',
       '<alloc::vec::Vec as core::ops::deref::Deref>::deref', '<alloc::vec::Vec as core::ops::deref::DerefMut>::deref_mut',
       '<alloc::string::String as core::ops::deref::Deref>::deref', 'str::as_bytes', 'alloc::string::String::as_bytes',
       'alloc::string::String::as_str', '<alloc::vec::Vec as core::convert::AsRef>::as_ref', '<slice as core::convert::AsRef>::as_ref',
       '<str as core::convert::AsRef>::as_ref', '<alloc::string::String as core::convert::AsRef>::as_ref',
       '<alloc::vec::Vec as core::borrow::Borrow>::borrow', '<alloc::string::String as core::borrow::Borrow>::borrow')
def m_as_slice(E, st, c):
    a = c.args[0]
    if isinstance(a, tuple) and a[0] == 'SL':
        return a
    if isinstance(a, tuple) and a[0] == 'R':
        q = E.get(st, a[1], a[2])
        if q[0] in ('R', 'SL'):
            a = q
            if a[0] == 'SL':
                return a
            q = E.get(st, a[1], a[2])
        if q[0] != 'Q':
            q = as_q(E, st, q)
        return ('SL', a[1], a[2], const(0), E.seq_len(q))
    q = as_q(E, st, a)
    loc = ('h', c.fresh('sl'))
    st.mem[loc] = q
    return ('SL', loc, (), const(0), E.seq_len(q))


@model('alloc::vec::Vec::into_boxed_slice', 'alloc::string::String::into_bytes', 'alloc::string::String::into_boxed_str',
       'slice::into_vec', 'alloc::vec::Vec::into_iter_identity')
def m_ident(E, st, c):
    return c.args[0]


def range_of(E, st, v, ln):
    """(start, end-or-None) of a range argument"""
    if isinstance(v, tuple) and v[0] in ('S', 'O'):
        ty = v[1] if v[0] == 'S' else v[2]
        p = E.P.types[ty].get('p', '')
        if v[0] == 'O':
            v = E.expand(st, v)
        vals = v[2]
        if p.endswith('RangeTo'):
            return const(0), vals[0]
        if p.endswith('RangeFrom'):
            return vals[0], ln
        if p.endswith('RangeFull'):
            return const(0), ln
        if p.endswith('RangeToInclusive'):
            return const(0), addc(vals[0], 1)
        if p.endswith('RangeInclusive'):
            return vals[0], addc(vals[1], 1)
        if p.endswith('::Range'):
            return vals[0], vals[1]
    return None


def index_common(E, st, c, a, idx, mut):
    """a: reference value; returns [(st,val)]"""
    if isinstance(a, tuple) and a[0] == 'SL':
        loc, proj, off, ln = a[1], a[2], a[3], a[4]
    else:
        if isinstance(a, tuple) and a[0] == 'R':
            loc, proj = a[1], a[2]
            q = E.get(st, loc, proj)
            if q[0] in ('R', 'SL'):
                return index_common(E, st, c, q, idx, mut)
        else:
            loc, proj = ('h', c.fresh('ix')), ()
            st.mem[loc] = as_q(E, st, a)
        q = as_q(E, st, E.get(st, loc, proj))
        off, ln = const(0), E.seq_len(q)
    if isinstance(idx, Lin):
        good = p_ge(addc(sub(ln, idx), -1))
        ok = st.implies(good)
        E.oblige(c.ctx, c.bb, 'index', ok, 'index %s, length %s' % (E.vs(st, idx), E.vs(st, ln)), st=st, lins=(idx, ln))
        if not st.assume(good):
            return []
        ety = None
        if c.dty is not None and E.P.kind(c.dty) in ('ref', 'ptr'):
            ety = E.P.types[c.dty]['t']
        return [(st, ('R', loc, proj + (('e', add(off, idx), ety),)))]
    r = range_of(E, st, idx, ln)
    if r is None or not isinstance(r[0], Lin) or not isinstance(r[1], Lin):
        return E.unknown_call(c, st)
    lo, hi = r
    ok = st.prove(sub(ln, hi)) and st.prove(sub(hi, lo))
    E.oblige(c.ctx, c.bb, 'slice', ok, 'slice %s..%s of length %s' % (E.vs(st, lo), E.vs(st, hi), E.vs(st, ln)), st=st, lins=(lo, hi, ln))
    if not (st.assume(p_ge(sub(ln, hi))) and st.assume(p_ge(sub(hi, lo)))):
        return []
    st.note_chunk(sub(hi, lo))
    return [(st, ('SL', loc, proj, add(off, lo), sub(hi, lo)))]


@model('<alloc::vec::Vec as core::ops::index::Index>::index', '<alloc::vec::Vec as core::ops::index::IndexMut>::index_mut',
       '<array as core::ops::index::Index>::index', '<array as core::ops::index::IndexMut>::index_mut',
       '<slice as core::ops::index::Index>::index', '<slice as core::ops::index::IndexMut>::index_mut',
       '<str as core::ops::index::Index>::index', '<alloc::string::String as core::ops::index::Index>::index',
       '<alloc::collections::vec_deque::VecDeque as core::ops::index::Index>::index')
def m_index(E, st, c):
    return index_common(E, st, c, c.args[0], c.args[1], False)


def seq_ref(E, st, c, a):
    """(loc, proj, off, len) of a sequence reference"""
    if isinstance(a, tuple) and a[0] == 'SL':
        return a[1], a[2], a[3], a[4]
    if isinstance(a, tuple) and a[0] == 'R':
        q = E.get(st, a[1], a[2])
        if q[0] in ('R', 'SL'):
            return seq_ref(E, st, c, q)
        return a[1], a[2], const(0), E.seq_len(as_q(E, st, q))
    loc = ('h', c.fresh('sr'))
    q = as_q(E, st, a)
    st.mem[loc] = q
    return loc, (), const(0), E.seq_len(q)


@model('slice::last', 'slice::first', 'slice::get', 'slice::get_mut', 'slice::last_mut', 'slice::first_mut',
       'alloc::collections::vec_deque::VecDeque::front', 'alloc::collections::vec_deque::VecDeque::back',
       'alloc::collections::vec_deque::VecDeque::get')
def m_get(E, st, c):
    loc, proj, off, ln = seq_ref(E, st, c, c.args[0])
    pty = payload_ty(E, c.dty, 'Some')
    nmth = c.name.split('::')[-1]
    if nmth in ('last', 'last_mut', 'back'):
        idx = addc(ln, -1)
    elif nmth in ('first', 'first_mut', 'front'):
        idx = const(0)
    else:
        idx = c.args[1]
    out = []
    if not isinstance(idx, Lin):
        r = range_of(E, st, idx, ln)
        if r is None:
            return E.unknown_call(c, st)
        lo, hi = r
        for s, b in split(E, st, p_and(p_ge(sub(ln, hi)), p_ge(sub(hi, lo)))):
            out.append((s, some(E, c.dty, ('SL', loc, proj, add(off, lo), sub(hi, lo))) if b else none(E, c.dty)))
        return out
    ety = E.P.types[pty]['t']
    for s, b in split(E, st, p_ge(addc(sub(ln, idx), -1)) if nmth not in ('last', 'last_mut', 'back') else p_ge(addc(ln, -1))):
        if b:
            out.append((s, some(E, c.dty, ('R', loc, proj + (('e', add(off, idx), ety),)))))
        else:
            out.append((s, none(E, c.dty)))
    return out


@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def m_remove(E, st, c):
    q = as_q(E, st, c.args[0])
    i = c.args[1]
    ln = E.seq_len(q)
    good = p_ge(addc(sub(ln, i), -1))
    ok = st.implies(good)
    E.oblige(c.ctx, c.bb, 'remove', ok, 'remove(%s), length %s' % (E.vs(st, i), E.vs(st, ln)), st=st, lins=(i, ln))
    if not st.assume(good):
        return None
    v = E.seq_get(st, q, i, c.dty)
    E.emit(st, c, 'vecremove', ref=c.args[0], val=v, idx=i, seq=q)
    a = E.seq_slice(st, q, const(0), i)
    b = E.seq_slice(st, q, addc(i, 1), addc(sub(ln, i), -1))
    setref(E, st, c.args[0], clean(E.seq_cat(a, b)))
    return v


def clean(q):
    """drop empty segments"""
    segs = tuple(g for g in q[1] if not (g[0] == 'sub' and g[2] is g[3]) and not (g[0] == 'rep' and g[2] is const(0)))
    return q if len(segs) == len(q[1]) else ('Q', segs, q[2])


@model('alloc::vec::Vec::pop', 'alloc::collections::vec_deque::VecDeque::pop_back')
def m_pop(E, st, c):
    q = as_q(E, st, c.args[0])
    ln = E.seq_len(q)
    pty = payload_ty(E, c.dty, 'Some')
    out = []
    for s, b in split(E, st, p_ge(addc(ln, -1))):
        if b:
            v = E.seq_get(s, q, addc(ln, -1), pty)
            E.emit(s, c, 'vecremove', ref=c.args[0], val=v, idx=addc(ln, -1), seq=q)
            setref(E, s, c.args[0], clean(E.seq_slice(s, q, const(0), addc(ln, -1))))
            out.append((s, some(E, c.dty, v)))
        else:
            out.append((s, none(E, c.dty)))
    return out


@model('alloc::collections::vec_deque::VecDeque::pop_front')
def m_popf(E, st, c):
    q = as_q(E, st, c.args[0])
    ln = E.seq_len(q)
    pty = payload_ty(E, c.dty, 'Some')
    out = []
    for s, b in split(E, st, p_ge(addc(ln, -1))):
        if b:
            v = E.seq_get(s, q, const(0), pty)
            E.emit(s, c, 'vecremove', ref=c.args[0], val=v, idx=const(0), seq=q)
            setref(E, s, c.args[0], clean(E.seq_slice(s, q, const(1), addc(ln, -1))))
            out.append((s, some(E, c.dty, v)))
        else:
            out.append((s, none(E, c.dty)))
    return out


@model('alloc::vec::Vec::truncate')
def m_truncate(E, st, c):
    q = as_q(E, st, c.args[0])
    ln = E.seq_len(q)
    out = []
    for s, b in split(E, st, p_ge(addc(sub(ln, c.args[1]), -1))):
        if b:
            setref(E, s, c.args[0], clean(E.seq_slice(s, q, const(0), c.args[1])))
        out.append((s, UNIT))
    return out


@model('alloc::vec::Vec::resize')
def m_resize(E, st, c):
    q = as_q(E, st, c.args[0])
    ln = E.seq_len(q)
    out = []
    for s, b in split(E, st, p_ge(sub(ln, c.args[1]))):
        if b:
            setref(E, s, c.args[0], clean(E.seq_slice(s, q, const(0), c.args[1])))
        else:
            setref(E, s, c.args[0], ('Q', q[1] + (('rep', c.args[2], sub(c.args[1], ln)),), q[2]))
        out.append((s, UNIT))
    return out


@model('alloc::vec::Vec::reserve', 'alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::reserve_exact',
       'std::collections::hash::map::HashMap::reserve', 'std::collections::hash::map::HashMap::shrink_to_fit')
def m_nop(E, st, c):
    return UNIT


@model('alloc::vec::Vec::insert')
def m_vinsert(E, st, c):
    q = as_q(E, st, c.args[0])
    i = c.args[1]
    ln = E.seq_len(q)
    good = p_ge(sub(ln, i))
    E.oblige(c.ctx, c.bb, 'insert', st.implies(good), 'insert(%s), length %s' % (E.vs(st, i), E.vs(st, ln)), st=st, lins=(i, ln))
    if not st.assume(good):
        return None
    E.emit(st, c, 'push', ref=c.args[0], val=c.args[2], seq=q)
    a = E.seq_slice(st, q, const(0), i)
    b = E.seq_slice(st, q, i, sub(ln, i))
    setref(E, st, c.args[0], clean(E.seq_cat(E.seq_push(a, c.args[2]), b)))
    return UNIT


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copy_from(E, st, c):
    a, b = c.args
    q = as_q(E, st, b)
    loc, proj, off, ln = seq_ref(E, st, c, a)
    good = p_eq(sub(ln, E.seq_len(q)))
    E.oblige(c.ctx, c.bb, 'copy_from_slice', st.implies(good), 'lengths %s and %s' % (E.vs(st, ln), E.vs(st, E.seq_len(q))), st=st)
    if not st.assume(good):
        return None
    old = as_q(E, st, E.get(st, loc, proj))
    tot = E.seq_len(old)
    n = clean(E.seq_cat(E.seq_cat(E.seq_slice(st, old, const(0), off), q), E.seq_slice(st, old, add(off, ln), sub(sub(tot, off), ln))))
    E.put(st, loc, proj, n)
    return UNIT


@model('slice::contains')
def m_contains(E, st, c):
    q = as_q(E, st, c.args[0])
    x = deref(E, st, c.args[1])
    known = all(g[0] == 'one' for g in q[1]) and not q[2] and len(q[1]) <= 64
    if known:
        out = []
        for g in q[1]:
            p = E.veq(g[1], x)
            d = st.decide(p)
            if d is True:
                out.append((st, True))
                return out
            if d is False:
                continue
            s2 = st.copy()
            if s2.assume(p):
                out.append((s2, True))
            if not st.assume(p_not(p)):
                return out
        out.append((st, False))
        return out
    return ('b', atom(('contains', q, vkey(x)), 0, 1))


@model('slice::sort_unstable', 'slice::sort', 'slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_by_key',
       'slice::sort_unstable_by_key', 'slice::reverse')
def m_sort(E, st, c):
    loc, proj, off, ln = seq_ref(E, st, c, c.args[0])
    old = as_q(E, st, E.get(st, loc, proj))
    by = None
    how = c.name.split('::')[-1]
    if len(c.args) > 1 and isinstance(c.args[1], tuple) and c.args[1][0] == 'C':
        by = E.P.ts(c.args[1][1])
        o = sort_order(E, st, c, how)
        if o is True:
            by, how = None, 'sort'
        elif o is False:
            by = 'contrary'
    E.emit(st, c, 'sort', ref=c.args[0], seq=old, by=by, how=how)
    if len(old[1]) == 1 and old[1][0][0] == 'sub' and not old[2]:
        g = old[1][0]
        n = nm(('sorted', g[1], how, g[2], by), None, g[1].inv)
        E.put(st, loc, proj, ('Q', (('sub', n, const(0), sub(g[3], g[2])),), ()))
        return UNIT
    if len(old[1]) == 2 and not old[2] and all(g[0] == 'one' and isinstance(g[1], tuple) for g in old[1]):
        # two records: either order
        s2 = st.copy()
        E.put(s2, loc, proj, ('Q', (old[1][1], old[1][0]), ()))
        return [(st, UNIT), (s2, UNIT)]
    ety = arg_elem_ty(E, c, 0)
    if ety is None and c.obj.get('a'):
        ety = c.obj['a'][0]
    E.put(st, loc, proj, summarize(E, st, c, old, ety, ('sorted', how)))
    return UNIT


def sort_order(E, st, c, how):
    """does the order a closure defines put the elements of an integer sequence in ascending order: True, False (shown by an example), None"""
    from . import witness
    t = E.P.types[c.args[1][1]]
    fn = next((f for f in E.P.fns if f.blocks is not None and f.p == t['p'] and f.local), None)
    if fn is None:
        return None
    ety = fn.locals[2][0]
    if E.P.types[ety]['k'] == 'ref':
        ety = E.P.types[ety]['t']
    if E.P.types[ety]['k'] != 'int':
        return None
    s = st.copy()
    mons, E.monitors = E.monitors, []
    try:
        x, y = (E.mk_opaque(nm(('sort', c.point(), i)), ety, s) for i in (0, 1))
        if not s.assume(p_ge(addc(sub(y, x), -1))):
            return None
        lx, ly = ('h', c.fresh('sx')), ('h', c.fresh('sy'))
        s.mem[lx], s.mem[ly] = x, y
        rx, ry = ('R', lx, ()), ('R', ly, ())
        out = []
        if 'key' in how:
            for s1, kx in call_closure(E, s, c, c.args[1], [rx]) or ():
                for s2, ky in call_closure(E, s1, c, c.args[1], [ry]) or ():
                    if all(isinstance(k, tuple) and k[0] == 'S' and E.P.types[k[1]]['p'] == 'core::cmp::Reverse' for k in (kx, ky)):
                        kx, ky = ky[2][0], kx[2][0]
                    if not isinstance(kx, Lin) or not isinstance(ky, Lin) or not witness.leaves((kx, ky), set()):
                        return None
                    out.append((s2, p_ge(addc(sub(ky, kx), -1))))
        else:
            for s1, v in call_closure(E, s, c, c.args[1], [rx, ry]) or ():
                less = enum(E, v[1], 'Less') if isinstance(v, tuple) and v[0] == 'E' else None
                if less is None or not is_const(v[2]):
                    return None
                out.append((s1, v[2] is less[2]))
        r = True if out else None
        for s1, p in out:
            if p is True or p is not False and s1.decide(p) is True:
                continue
            r = None
            n = s1.copy()
            if (p is False or n.assume(p_not(p))) and witness.feasible(n):
                return False
        return r
    except Abort:
        return None
    finally:
        E.monitors = mons


def summarize(E, st, c, q, ety, tag):
    if all(g[0] in ('one', 'int') for g in q[1]) and len(q[1]) <= 1:
        return q
    inv = ('sum', c.point(), tag)
    n = nm(('g', c.point(), c.name, tag), c.point(), inv)
    ek = inv + ('e',)
    for g in q[1]:
        if g[0] in ('one', 'rep'):
            E.record(st, g[1], ek, ety, set())
        elif g[0] == 'sub' and ety is not None and g[1] is not n:
            E.record(st, E.mk_opaque(E.elem_nm(g[1], lin(atom(('any',), 0, POS)), ety), ety, st), ek, ety, set())
    for _, x in q[2]:
        E.record(st, x, ek, ety, set())
    return ('Q', (('sub', n, const(0), E.seq_len(q)),), ())


@model('<array as core::cmp::PartialEq>::eq', '<slice as core::cmp::PartialEq>::eq', '<alloc::vec::Vec as core::cmp::PartialEq>::eq',
       '<alloc::string::String as core::cmp::PartialEq>::eq', '<str as core::cmp::PartialEq>::eq',
       '<&A as core::cmp::PartialEq>::eq')
def m_seq_eq(E, st, c):
    a, b = as_q(E, st, c.args[0]), as_q(E, st, c.args[1])
    if a == b:
        return True
    la, lb = E.seq_len(a), E.seq_len(b)
    d = st.eq_lin(la, lb)
    if d is False:
        return False
    if d is True and not la.t and la.c <= 64:
        r = True
        for i in range(la.c):
            r = p_and(r, E.veq(E.seq_get(st, a, const(i), E.u8), E.seq_get(st, b, const(i), E.u8)))
        return r
    return ('b', atom(('seqeq', a, b), 0, 1))


@model('<array as core::cmp::PartialEq>::ne', '<slice as core::cmp::PartialEq>::ne', '<alloc::vec::Vec as core::cmp::PartialEq>::ne',
       '<alloc::string::String as core::cmp::PartialEq>::ne', '<str as core::cmp::PartialEq>::ne')
def m_seq_ne(E, st, c):
    r = m_seq_eq(E, st, c)
    return p_not(r)


# ---------------------------------------------------------------- strings
@model('alloc::string::String::from_utf8', 'core::str::converts::from_utf8', 'core::str::from_utf8')
def m_from_utf8(E, st, c):
    q = as_q(E, st, c.args[0])
    p = ('b', atom(('utf8', q), 0, 1))
    out = []
    for s, b in split(E, st, p):
        if b:
            if E.P.kind(payload_ty(E, c.dty, 'Ok')) == 'ref':
                v = m_as_slice(E, s, c)
            else:
                v = q
            out.append((s, enum(E, c.dty, 'Ok', v)))
        else:
            out.append((s, enum(E, c.dty, 'Err', c.opq(s, payload_ty(E, c.dty, 'Err'), 'e'))))
    return out


@model('alloc::string::String::from_utf8_lossy')
def m_lossy(E, st, c):
    return c.opq(st, c.dty)


@model('<T as alloc::string::ToString>::to_string')
def m_to_string(E, st, c):
    v = c.args[0]
    if isinstance(v, tuple) and v[0] in ('R', 'SL'):
        v = deref(E, st, v)
    if isinstance(v, tuple) and v[0] in ('R', 'SL'):
        v = deref(E, st, v)
    if isinstance(v, tuple) and v[0] == 'Q':
        return v
    n = nm(('tostr', vkey(v)))
    return ('Q', (('sub', n, const(0), E.len_atom(n)),), ())


@model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'core::fmt::Arguments::new',
       'core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1')
def m_args(E, st, c):
    vs = []
    for a in c.args:
        if isinstance(a, tuple) and a[0] in ('R', 'SL'):
            a = deref(E, st, a)
        vs.append(a)
    return ('X', 'fmt', ('T', tuple(vs)))


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex',
       'core::fmt::rt::Argument::new_upper_hex')
def m_argument(E, st, c):
    v = c.args[0]
    for _ in range(3):
        if isinstance(v, tuple) and v[0] in ('R', 'SL'):
            v = deref(E, st, v)
    return ('X', 'fmtarg', v)


@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def m_format(E, st, c):
    v = c.args[0]
    try:
        n = nm(('fmt', vkey(v)))
    except TypeError:
        n = c.fresh('fmt')
    return ('Q', (('sub', n, const(0), E.len_atom(n)),), ())


@model('std::io::stdio::_print', 'std::io::stdio::_eprint')
def m_print(E, st, c):
    E.emit(st, c, 'print', val=c.args[0])
    return UNIT


@model('core::fmt::Formatter::debug_c_like_enum_write_str', 'core::fmt::Formatter::write_str', 'core::fmt::Formatter::write_fmt')
def m_fmtres(E, st, c):
    return c.opq(st, c.dty)


@model('core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def m_must_use(E, st, c):
    return c.args[0]


@model('str::parse')
def m_parse(E, st, c):
    q = as_q(E, st, c.args[0])
    if q[1] and all(g[0] == 'one' and isinstance(g[1], Lin) and not g[1].t for g in q[1]):
        s = bytes(g[1].c for g in q[1]).decode('latin1')
        ok = payload_ty(E, c.dty, 'Ok')
        m = re.fullmatch(r'(\d+)\.(\d+)\.(\d+)\.(\d+):(\d+)', s)
        if m and all(int(x) < 256 for x in m.groups()[:4]) and int(m.group(5)) < 65536 and 'SocketAddr' in E.P.ts(ok):
            ipt = E.P.adt_ty('core::net::ip_addr::IpAddr', 'std::net::IpAddr')
            if ipt is None:
                return enum(E, c.dty, 'Ok', E.mk_opaque(nm(('addrlit', s)), ok, st))
            ip = ('X', 'ip4', ('Q', tuple(('one', const(int(x))) for x in m.groups()[:4]), ()))
            vi = [i for i, v in enumerate(E.P.types[ipt]['v']) if v['n'] == 'V4'][0]
            return enum(E, c.dty, 'Ok', ('X', 'sa', ('E', ipt, const(vi), ((vi, (ip,)),)), const(int(m.group(5)))))
    return c.opq(st, c.dty)


# ---------------------------------------------------------------- iterators
@model('<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter', 'alloc::vec::Vec::into_iter',
       'alloc::vec::Vec::drain')
def m_into_iter(E, st, c):
    if c.name.endswith('drain'):
        q = as_q(E, st, c.args[0])
        ln = E.seq_len(q)
        r = range_of(E, st, c.args[1], ln)
        if r is None:
            return E.unknown_call(c, st)
        lo, hi = r
        good = p_and(p_ge(sub(ln, hi)), p_ge(sub(hi, lo)))
        E.oblige(c.ctx, c.bb, 'drain', st.implies(good), 'drain range', st=st)
        if not st.assume(good):
            return None
        d = E.seq_slice(st, q, lo, sub(hi, lo))
        setref(E, st, c.args[0], clean(E.seq_cat(E.seq_slice(st, q, const(0), lo), E.seq_slice(st, q, hi, sub(ln, hi)))))
        return ('IT', 'vec', d, const(0))
    return ('IT', 'vec', as_q(E, st, c.args[0]), const(0))


@model('<array as core::iter::traits::collect::IntoIterator>::into_iter')
def m_into_iter_a(E, st, c):
    return ('IT', 'vec', as_q(E, st, c.args[0]), const(0))


@model('<&alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter', 'slice::iter', 'slice::iter_mut',
       '<&slice as core::iter::traits::collect::IntoIterator>::into_iter', '<&array as core::iter::traits::collect::IntoIterator>::into_iter',
       '<&mut alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter',
       '<&mut slice as core::iter::traits::collect::IntoIterator>::into_iter',
       '<&mut array as core::iter::traits::collect::IntoIterator>::into_iter')
def m_slice_iter(E, st, c):
    loc, proj, off, ln = seq_ref(E, st, c, c.args[0])
    return ('IT', 'slice', ('SL', loc, proj, off, ln), const(0))


@model('<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::next',
       '<core::array::iter::IntoIter as core::iter::traits::iterator::Iterator>::next',
       '<alloc::vec::drain::Drain as core::iter::traits::iterator::Iterator>::next',
       '<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::next',
       '<core::slice::iter::IterMut as core::iter::traits::iterator::Iterator>::next')
def m_iter_next(E, st, c):
    r = c.args[0]
    it = deref(E, st, r)
    if it[0] != 'IT':
        # opaque iterator: may yield anything
        return c.opq(st, c.dty)
    idx = it[3]
    pty = payload_ty(E, c.dty, 'Some')
    if it[1] == 'vec':
        ln = E.seq_len(it[2])
    else:
        ln = it[2][4]
    out = []
    for s, b in split(E, st, p_ge(addc(sub(ln, idx), -1))):
        if b:
            E.emit(s, c, 'item', over=it[2], idx=idx, key=None)
            if it[1] == 'vec':
                v = E.seq_get(s, it[2], idx, pty)
            else:
                sl = it[2]
                v = ('R', sl[1], sl[2] + (('e', add(sl[3], idx), E.P.types[pty]['t']),))
            setref(E, s, r, ('IT', it[1], it[2], addc(idx, 1)))
            out.append((s, some(E, c.dty, v)))
        else:
            if s.assume(p_ge(sub(idx, ln))):
                E.emit(s, c, 'exhaust', over=it[2], n=ln)
                out.append((s, none(E, c.dty)))
    return out


@model('core::iter::traits::iterator::Iterator::enumerate')
def m_enumerate(E, st, c):
    return ('IT', 'enum', c.args[0], const(0))


@model('<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next')
def m_enum_next(E, st, c):
    r = c.args[0]
    it = deref(E, st, r)
    if it[0] != 'IT' or it[1] != 'enum':
        return c.opq(st, c.dty)
    loc = ('h', c.fresh('inner'))
    st.mem[loc] = it[2]
    pty = payload_ty(E, c.dty, 'Some')
    inner_t = E.P.types[pty]['a'][1]
    opt = None
    for i, t in enumerate(E.P.types):
        if t['k'] == 'adt' and t['p'] == 'core::option::Option' and t['a'] and t['a'][0] == inner_t:
            opt = i
    if opt is None or it[2][0] != 'IT' and it[2][0] != 'S':
        return c.opq(st, c.dty)
    c2 = E.mkcall(c.ctx, c.bb, c.obj, [('R', loc, ())], opt, c.span, c.name)
    f = m_iter_next if it[2][0] == 'IT' else m_range_next
    if it[2][0] == 'IT' and it[2][1] not in ('vec', 'slice'):
        f = m_map_next
    res = f(E, st, c2)
    if not isinstance(res, list):
        return c.opq(st, c.dty)
    out = []
    for s, v in res:
        if v[2] is const(E.P.types[opt]['v'][variant(E, opt, 'Some')]['d']):
            x = v[3][0][1][0]
            setref(E, s, r, ('IT', 'enum', s.mem[loc], addc(it[3], 1)))
            out.append((s, some(E, c.dty, ('T', (it[3], x)))))
        else:
            out.append((s, none(E, c.dty)))
    return out


@model('<core::ops::range::Range as core::iter::traits::iterator::Iterator>::next')
def m_range_next(E, st, c):
    r = c.args[0]
    v = deref(E, st, r)
    if v[0] == 'O':
        v = E.expand(st, v)
    if v[0] != 'S':
        return c.opq(st, c.dty)
    a, b = v[2]
    out = []
    for s, t in split(E, st, p_ge(addc(sub(b, a), -1))):
        if t:
            setref(E, s, r, ('S', v[1], (addc(a, 1), b)))
            out.append((s, some(E, c.dty, a)))
        else:
            E.emit(s, c, 'exhaust', over=None, n=b)
            out.append((s, none(E, c.dty)))
    return out


@model('core::ops::range::RangeInclusive::new')
def m_rinew(E, st, c):
    return ('S', c.dty, (c.args[0], c.args[1], False))


@model('<core::ops::range::RangeInclusive as core::iter::traits::iterator::Iterator>::next')
def m_rangei_next(E, st, c):
    """modelled with the exhausted flag folded into start = end + 1"""
    r = c.args[0]
    v = deref(E, st, r)
    if v[0] == 'O':
        v = E.expand(st, v)
    if v[0] != 'S':
        return c.opq(st, c.dty)
    a, b = v[2][0], v[2][1]
    out = []
    for s, t in split(E, st, p_ge(sub(b, a))):
        if t:
            setref(E, s, r, ('S', v[1], (addc(a, 1), b, False)))
            out.append((s, some(E, c.dty, a)))
        else:
            out.append((s, none(E, c.dty)))
    return out


@model('core::ops::range::RangeInclusive::contains', 'core::ops::range::Range::contains')
def m_rcontains(E, st, c):
    v = deref(E, st, c.args[0])
    x = deref(E, st, c.args[1])
    if v[0] == 'O':
        v = E.expand(st, v)
    if v[0] == 'S' and isinstance(x, Lin) and isinstance(v[2][0], Lin) and isinstance(v[2][1], Lin):
        hi = sub(v[2][1], x)
        if 'Inclusive' not in c.name:
            hi = addc(hi, -1)
        p = p_and(p_ge(sub(x, v[2][0])), p_ge(hi))
        d = st.decide(p)
        if d is not None:
            return d
        out = []
        s1 = st.copy()
        if s1.assume(p):
            out.append((s1, True))
        s2 = st.copy()
        if s2.assume(p_ge(addc(sub(v[2][0], x), -1))):
            out.append((s2, False))
        if st.assume(p_ge(addc(scale(hi, -1), -1))):
            out.append((st, False))
        return out
    return ('b', atom(('contains', vkey(v), vkey(x)), 0, 1))


# ---------------------------------------------------------------- hash maps
def map_ref(E, st, c, a):
    """(loc, proj, map value) of a map reference"""
    if isinstance(a, tuple) and a[0] == 'R':
        v = E.get(st, a[1], a[2])
        if isinstance(v, tuple) and v[0] in ('R', 'G'):
            return map_ref(E, st, c, v)
        if isinstance(v, tuple) and v[0] == 'M':
            return a[1], a[2], v
    if isinstance(a, tuple) and a[0] == 'G':
        v = E.load(st, a[4])
        if v[0] == 'M':
            return a[4], (), v
    loc = ('h', c.fresh('map'))
    n = nm(('badmap', vkey(a)))
    v = ('M', n, (), (), E.len_atom(n))
    st.mem[loc] = v
    return loc, (), v


def map_tys(E, c):
    """(K, V) from the generic args of a HashMap method / trait impl"""
    a = c.obj.get('a', [])
    for x in a:
        if isinstance(x, int):
            t = E.P.types[x]
            if t['k'] == 'adt' and t['p'] in MAPS and len(t['a']) >= 2:
                return t['a'][0], t['a'][1]
            if t['k'] == 'ref' and E.P.types[t['t']]['k'] == 'adt' and E.P.types[t['t']]['p'] in MAPS:
                return E.P.types[t['t']]['a'][0], E.P.types[t['t']]['a'][1]
    xs = [x for x in a if isinstance(x, int)]
    return (xs[0], xs[1]) if len(xs) >= 2 else (None, None)


def split_keys(E, st, m, key):
    """split until the relation of key to every overlay key is decided"""
    work = [st]
    for k, _ in m[2]:
        nxt = []
        for s in work:
            p = E.veq(k, key)
            for s2, _b in split(E, s, p):
                nxt.append(s2)
        work = nxt
    return work


def canon_key(E, st, m, key):
    """the key under which the overlay holds this entry, when the state knows that it is the same key"""
    for k, v in reversed(m[2]):
        e = E.key_eq(st, k, key)
        if e is True:
            return k
        if e is None:
            break
    return key


def has_split(E, st, m, key):
    out = []
    for s in split_keys(E, st, m, key):
        p = E.map_has(s, m, key)
        if p is None:
            p = ('b', atom(('inx', m, vkey(key)), 0, 1))
        out.extend(split(E, s, p))
    # an element in the map: the map is not empty
    res = []
    for s, b in out:
        if b and not s.assume(p_ge(addc(m[4], -1))):
            continue
        res.append((s, b))
    return res


@model('std::collections::hash::map::HashMap::new', 'std::collections::hash::map::HashMap::with_capacity',
       'alloc::collections::btree::map::BTreeMap::new', '<std::collections::hash::map::HashMap as core::default::Default>::default')
def m_map_new(E, st, c):
    return ('M', None, (), (), const(0))


@model('std::collections::hash::map::HashMap::len', 'alloc::collections::btree::map::BTreeMap::len')
def m_map_len(E, st, c):
    return map_ref(E, st, c, c.args[0])[2][4]


@model('std::collections::hash::map::HashMap::is_empty', 'alloc::collections::btree::map::BTreeMap::is_empty')
def m_map_empty(E, st, c):
    return p_eq(map_ref(E, st, c, c.args[0])[2][4])


@model('std::collections::hash::map::HashMap::clear', 'alloc::collections::btree::map::BTreeMap::clear')
def m_map_clear(E, st, c):
    loc, proj, m = map_ref(E, st, c, c.args[0])
    E.emit(st, c, 'mapclear', loc=loc, proj=proj, map=m)
    E.put(st, loc, proj, ('M', None, (), (), const(0)))
    return UNIT


def keyval(E, st, k):
    if isinstance(k, tuple) and k[0] in ('R', 'SL'):
        return deref(E, st, k)
    return k


@model('std::collections::hash::map::HashMap::contains_key', 'alloc::collections::btree::map::BTreeMap::contains_key')
def m_map_contains(E, st, c):
    loc, proj, m = map_ref(E, st, c, c.args[0])
    k = keyval(E, st, c.args[1])
    out = []
    for s in split_keys(E, st, m, k):
        p = E.map_has(s, m, k)
        if p is None:
            p = ('b', atom(('inx', m, vkey(k)), 0, 1))
        for s2, b in split(E, s, p):
            if b and not s2.assume(p_ge(addc(m[4], -1))):
                continue
            E.emit(s2, c, 'maphas', loc=loc, proj=proj, map=m, key=k, has=b)
            out.append((s2, b))
    return out


@model('std::collections::hash::map::HashMap::get', 'std::collections::hash::map::HashMap::get_mut',
       'alloc::collections::btree::map::BTreeMap::get', 'alloc::collections::btree::map::BTreeMap::get_mut')
def m_map_get(E, st, c):
    loc, proj, m = map_ref(E, st, c, c.args[0])
    k = keyval(E, st, c.args[1])
    vty = E.P.types[payload_ty(E, c.dty, 'Some')]['t']
    out = []
    for s, b in has_split(E, st, m, k):
        E.emit(s, c, 'maphas', loc=loc, proj=proj, map=m, key=k, has=b)
        out.append((s, some(E, c.dty, ('R', loc, proj + (('m', canon_key(E, s, m, k), vty),))) if b else none(E, c.dty)))
    return out


@model('std::collections::hash::map::HashMap::insert', 'alloc::collections::btree::map::BTreeMap::insert')
def m_map_insert(E, st, c):
    loc, proj, m = map_ref(E, st, c, c.args[0])
    k, v = c.args[1], c.args[2]
    vty = payload_ty(E, c.dty, 'Some')
    out = []
    for s, b in has_split(E, st, m, k):
        old = map_value(E, s, m, k, vty) if b else None
        E.emit(s, c, 'mapins', loc=loc, proj=proj, map=m, key=k, val=v, had=b)
        do_insert(E, s, loc, proj, m, k, v, b)
        out.append((s, some(E, c.dty, old) if b else none(E, c.dty)))
    return out


def map_value(E, s, m, k, vty):
    r = E.map_find(s, m, k)
    if r is not None and r[0] == 'val':
        return r[1]
    return E.map_elem(s, m, k, vty)


def do_insert(E, s, loc, proj, m, k, v, had):
    m2 = E.map_set(s, m, k, v)
    E.put(s, loc, proj, ('M', m2[1], m2[2], m2[3], m[4] if had else addc(m[4], 1)))


@model('std::collections::hash::map::HashMap::remove', 'alloc::collections::btree::map::BTreeMap::remove')
def m_map_remove(E, st, c):
    loc, proj, m = map_ref(E, st, c, c.args[0])
    k = keyval(E, st, c.args[1])
    vty = payload_ty(E, c.dty, 'Some')
    out = []
    for s, b in has_split(E, st, m, k):
        E.emit(s, c, 'maprem', loc=loc, proj=proj, map=m, key=k, had=b)
        if b:
            old = map_value(E, s, m, k, vty)
            E.put(s, loc, proj, E.map_remove(s, m, k, addc(m[4], -1)))
            out.append((s, some(E, c.dty, old)))
        else:
            out.append((s, none(E, c.dty)))
    return out


@model('<std::collections::hash::map::HashMap as core::ops::index::Index>::index',
       '<alloc::collections::btree::map::BTreeMap as core::ops::index::Index>::index')
def m_map_index(E, st, c):
    loc, proj, m = map_ref(E, st, c, c.args[0])
    k = keyval(E, st, c.args[1])
    vty = E.P.types[c.dty]['t']
    out = []
    for s, b in has_split(E, st, m, k):
        if b:
            out.append((s, ('R', loc, proj + (('m', canon_key(E, s, m, k), vty),))))
    E.oblige(c.ctx, c.bb, 'mapindex', len(out) > 0 and all_has(E, c, out, st, m, k), 'key may be absent', st=st)
    return out


def all_has(E, c, out, st, m, k):
    # recompute on a copy: every split alternative must have the key
    for s, b in has_split(E, st.copy(), m, k):
        if not b:
            return False
    return True


@model('std::collections::hash::map::HashMap::entry', 'alloc::collections::btree::map::BTreeMap::entry')
def m_map_entry(E, st, c):
    loc, proj, m = map_ref(E, st, c, c.args[0])
    k = c.args[1]
    out = []
    for s, b in has_split(E, st, m, k):
        E.emit(s, c, 'maphas', loc=loc, proj=proj, map=m, key=k, has=b)
        x = ('X', 'ent', ('R', loc, proj), canon_key(E, s, m, k))
        out.append((s, enum(E, c.dty, 'Occupied' if b else 'Vacant', x)))
    return out


def ent_parts(E, st, c, x):
    if isinstance(x, tuple) and x[0] == 'X' and x[1] == 'ent':
        return x[2], x[3]
    return None


@model('std::collections::hash::map::VacantEntry::insert')
def m_vac_insert(E, st, c):
    p = ent_parts(E, st, c, c.args[0])
    if p is None:
        return c.opq(st, c.dty)
    r, k = p
    m = E.get(st, r[1], r[2])
    vty = E.P.types[c.dty]['t']
    E.emit(st, c, 'mapins', loc=r[1], proj=r[2], map=m, key=k, val=c.args[1], had=False)
    do_insert(E, st, r[1], r[2], m, k, c.args[1], False)
    return ('R', r[1], r[2] + (('m', k, vty),))


@model('std::collections::hash::map::OccupiedEntry::get', 'std::collections::hash::map::OccupiedEntry::get_mut',
       'std::collections::hash::map::OccupiedEntry::into_mut')
def m_occ_get(E, st, c):
    x = c.args[0]
    if isinstance(x, tuple) and x[0] == 'R':
        x = deref(E, st, x)
    p = ent_parts(E, st, c, x)
    if p is None:
        return c.opq(st, c.dty)
    return ('R', p[0][1], p[0][2] + (('m', p[1], E.P.types[c.dty]['t']),))


@model('std::collections::hash::map::OccupiedEntry::remove')
def m_occ_remove(E, st, c):
    p = ent_parts(E, st, c, c.args[0])
    if p is None:
        return c.opq(st, c.dty)
    r, k = p
    m = E.get(st, r[1], r[2])
    E.emit(st, c, 'maprem', loc=r[1], proj=r[2], map=m, key=k, had=True)
    old = map_value(E, st, m, k, c.dty)
    E.put(st, r[1], r[2], E.map_remove(st, m, k, addc(m[4], -1)))
    return old


@model('std::collections::hash::map::OccupiedEntry::insert')
def m_occ_insert(E, st, c):
    x = c.args[0]
    if isinstance(x, tuple) and x[0] == 'R':
        x = deref(E, st, x)
    p = ent_parts(E, st, c, x)
    if p is None:
        return c.opq(st, c.dty)
    r, k = p
    m = E.get(st, r[1], r[2])
    old = map_value(E, st, m, k, c.dty)
    E.emit(st, c, 'mapins', loc=r[1], proj=r[2], map=m, key=k, val=c.args[1], had=True)
    do_insert(E, st, r[1], r[2], m, k, c.args[1], True)
    return old


@model('std::collections::hash::map::Entry::or_insert')
def m_or_insert(E, st, c):
    e = c.args[0]
    vty = E.P.types[c.dty]['t']
    if e[0] != 'E':
        return c.opq(st, c.dty)
    x = e[3][0][1][0]
    p = ent_parts(E, st, c, x)
    if p is None or not is_const(e[2]):
        return c.opq(st, c.dty)
    r, k = p
    if e[3][0][0] == variant(E, e[1], 'Vacant'):
        m = E.get(st, r[1], r[2])
        E.emit(st, c, 'mapins', loc=r[1], proj=r[2], map=m, key=k, val=c.args[1], had=False)
        do_insert(E, st, r[1], r[2], m, k, c.args[1], False)
    return ('R', r[1], r[2] + (('m', k, vty),))


def call_closure(E, st, c, clo, args):
    """results of calling a closure value, None when its body is not at hand"""
    if isinstance(clo, tuple) and clo[0] == 'O':
        clo = E.expand(st, clo)
    if not (isinstance(clo, tuple) and clo[0] == 'C'):
        return None
    fn = fn_of_closure(E, clo)
    if fn is None:
        return None
    a0 = clo
    if E.P.types[fn.locals[1][0]]['k'] == 'ref':
        loc = ('h', c.fresh('clo'))
        st.mem[loc] = clo
        a0 = ('R', loc, ())
    c2 = E.mkcall(c.ctx, c.bb, c.obj, [a0] + list(args), fn.locals[0][0], c.span, fn.p)
    c2.tag = 'clo'
    return E.inline(c2, st, fn, {})


@model('std::collections::hash::map::Entry::or_insert_with', 'alloc::collections::btree::map::entry::Entry::or_insert_with')
def m_or_insert_with(E, st, c):
    e = c.args[0]
    if e[0] != 'E' or not is_const(e[2]):
        return E.unknown_call(c, st, why='entry')
    p = ent_parts(E, st, c, e[3][0][1][0])
    if p is None:
        return E.unknown_call(c, st, why='entry')
    r, k = p
    vty = E.P.types[c.dty]['t']
    if e[3][0][0] != variant(E, e[1], 'Vacant'):
        return ('R', r[1], r[2] + (('m', k, vty),))
    res = call_closure(E, st, c, c.args[1], [])
    if res is None:
        return E.unknown_call(c, st, why='closure')
    out = []
    for s, v in res:
        m = E.get(s, r[1], r[2])
        E.emit(s, c, 'mapins', loc=r[1], proj=r[2], map=m, key=k, val=v, had=False)
        do_insert(E, s, r[1], r[2], m, k, v, False)
        out.append((s, ('R', r[1], r[2] + (('m', k, vty),))))
    return out


def keys_name(m, E=None, st=None, kt=None):
    """the sequence of a map's keys: what is known of the stored keys holds for its elements"""
    inv = ('amk',) + E.cur + (kt,) if E is not None and E.rec_on and kt is not None else None
    kn = nm(('keys', m[1], m[2]), None, inv)
    if kn.inv is not None and E is not None and kt is not None:
        ek = kn.inv + ('e',)
        E.mark(kn.inv, 'seen')
        seen = set()
        for k, v in m[2]:
            if v is not None:
                E.record(st, k, ek, kt, seen, 1)
        if m[1] is not None:
            b = E.mk_opaque(nm((m[1], 'anykey'), None, m[1].inv + ('k',) if m[1].inv is not None else None), kt, st)
            E.record(st, b, ek, kt, seen, 1)
    return kn


@model('std::collections::hash::map::HashMap::keys', 'std::collections::hash::map::HashMap::iter', 'std::collections::hash::map::HashMap::values',
       'std::collections::hash::map::HashMap::values_mut', 'std::collections::hash::map::HashMap::iter_mut',
       '<&std::collections::hash::map::HashMap as core::iter::traits::collect::IntoIterator>::into_iter',
       '<&mut std::collections::hash::map::HashMap as core::iter::traits::collect::IntoIterator>::into_iter')
def m_keys(E, st, c):
    loc, proj, m = map_ref(E, st, c, c.args[0])
    kn = keys_name(m, E, st, map_tys(E, c)[0])
    if not any(k is kn for k, _ in m[3]):
        m = ('M', m[1], m[2], m[3] + ((kn, const(0)),), m[4])
        E.put(st, loc, proj, m)
    kind = c.name.split('::')[-1]
    kind = {'keys': 'keys', 'values': 'values', 'values_mut': 'values'}.get(kind, 'kv')
    return ('IT', kind, ('R', loc, proj), ('Q', (('sub', kn, const(0), m[4]),), ()), const(0))


@model('<std::collections::hash::map::Iter as core::iter::traits::iterator::Iterator>::next',
       '<std::collections::hash::map::IterMut as core::iter::traits::iterator::Iterator>::next',
       '<std::collections::hash::map::Keys as core::iter::traits::iterator::Iterator>::next',
       '<std::collections::hash::map::Values as core::iter::traits::iterator::Iterator>::next',
       '<std::collections::hash::map::ValuesMut as core::iter::traits::iterator::Iterator>::next')
def m_map_next(E, st, c):
    r = c.args[0]
    it = deref(E, st, r)
    if it[0] != 'IT' or it[1] not in ('keys', 'kv', 'values'):
        return c.opq(st, c.dty)
    mref, q, idx = it[2], it[3], it[4]
    m = E.get(st, mref[1], mref[2])
    ln = E.seq_len(q)
    pty = payload_ty(E, c.dty, 'Some')
    kn = q[1][0][1]
    out = []
    for s, b in split(E, st, p_ge(addc(sub(ln, idx), -1))):
        if not b:
            E.emit(s, c, 'exhaust', over=q, n=ln)
            out.append((s, none(E, c.dty)))
            continue
        kty = E.ptype.get(('keyty', kn))
        if it[1] == 'keys':
            kty = E.P.types[pty]['t']
        elif it[1] == 'kv':
            kty = E.P.types[E.P.types[pty]['a'][0]]['t']
        elif kty is None:
            xs = [x for x in c.obj.get('a', []) if isinstance(x, int)]
            t = E.P.types[xs[0]] if xs else None
            kty = [x for x in t['a']][0] if t and t.get('a') else E.usize
        key = E.mk_opaque(E.elem_nm(kn, idx, kty), kty, s)
        kloc = ('h', nm(('kref', kn, idx)))
        s.mem[kloc] = key
        E.emit(s, c, 'item', over=q, idx=idx, key=key)
        setref(E, s, r, ('IT', it[1], mref, q, addc(idx, 1)))
        kr = ('R', kloc, ())
        if it[1] == 'keys':
            v = kr
        else:
            vty = E.P.types[pty]['t'] if it[1] == 'values' else E.P.types[E.P.types[pty]['a'][1]]['t']
            vr = ('R', mref[1], mref[2] + (('m', key, vty),))
            v = vr if it[1] == 'values' else ('T', (kr, vr))
        out.append((s, some(E, c.dty, v)))
    return out


@model('<alloc::vec::Vec as core::iter::traits::collect::FromIterator>::from_iter')
def m_from_iter(E, st, c):
    it = c.args[0]
    v = it
    # strip adapters that do not change the elements (Cloned/Copied)
    for _ in range(3):
        if isinstance(v, tuple) and v[0] == 'S' and len(v[2]) == 1 and E.P.types[v[1]].get('p', '').split('::')[-1] in ('Cloned', 'Copied'):
            v = v[2][0]
        elif isinstance(v, tuple) and v[0] == 'X' and v[1] in ('cloned', 'copied'):
            v = v[2]
    if isinstance(v, tuple) and v[0] == 'IT':
        if v[1] == 'keys':
            return E.seq_slice(st, v[3], v[4], sub(E.seq_len(v[3]), v[4]))
        if v[1] == 'vec':
            return E.seq_slice(st, v[2], v[3], sub(E.seq_len(v[2]), v[3]))
        if v[1] == 'slice':
            sl = v[2]
            q = deref(E, st, sl)
            return E.seq_slice(st, q, v[3], sub(sl[4], v[3]))
    return c.opq(st, c.dty)

# ---------------------------------------------------------------- iterator pipelines over lists that are known item by item
ITER = 'core::iter::traits::iterator::Iterator'
SOURCES = ('core::slice::iter::Iter', 'core::slice::iter::IterMut', 'alloc::vec::into_iter::IntoIter', 'alloc::vec::drain::Drain',
           'core::array::iter::IntoIter', 'alloc::collections::vec_deque::iter::Iter', 'alloc::collections::vec_deque::iter_mut::IterMut')
ADAPT = {'Map': 'core::iter::adapters::map::Map', 'Filter': 'core::iter::adapters::filter::Filter',
         'FilterMap': 'core::iter::adapters::filter_map::FilterMap', 'Enumerate': 'core::iter::adapters::enumerate::Enumerate',
         'Rev': 'core::iter::adapters::rev::Rev', 'Take': 'core::iter::adapters::take::Take', 'Skip': 'core::iter::adapters::skip::Skip',
         'Cloned': 'core::iter::adapters::cloned::Cloned', 'Copied': 'core::iter::adapters::copied::Copied',
         'Range': 'core::ops::range::Range', 'RangeInclusive': 'core::ops::range::RangeInclusive', 'TakeWhile': 'core::iter::adapters::take_while::TakeWhile',
         'SkipWhile': 'core::iter::adapters::skip_while::SkipWhile', 'Zip': 'core::iter::adapters::zip::Zip', 'Chain': 'core::iter::adapters::chain::Chain'}
PIPE_MAX = 12


def src_type(E, tys, depth=0):
    """(element type, by reference) of the list iterator inside a type"""
    for t in tys:
        if not isinstance(t, int):
            continue
        x = E.P.types[t]
        if x['k'] == 'adt':
            if x['p'] in SOURCES and x.get('a'):
                return [a for a in x['a'] if isinstance(a, int)][0]
            if depth < 5:
                r = src_type(E, x.get('a') or (), depth + 1)
                if r is not None:
                    return r
        elif x['k'] == 'ref' and depth < 5:
            r = src_type(E, [x['t']], depth + 1)
            if r is not None:
                return r
    return None


def ref_to(E, ety, mut=None):
    for i, t in enumerate(E.P.types):
        if t['k'] == 'ref' and t['t'] == ety:
            return i
    return None


def pipeline(E, st, c, v, tys):
    """(source elements, stages) of an iterator value, None when it is not known element by element"""
    if isinstance(v, tuple) and v and v[0] == 'R':
        v = E.get(st, v[1], v[2])
    if not (isinstance(v, tuple) and v):
        return None
    if v[0] == 'IT' and v[1] in ('vec', 'slice'):
        ety = src_type(E, tys)
        if ety is None or not isinstance(v[3], Lin) or v[3].t:
            return None
        ln = E.seq_len(v[2]) if v[1] == 'vec' else v[2][4]
        if not is_const(ln) or ln.c > PIPE_MAX:
            return None
        if v[1] == 'vec':
            return [E.seq_get(st, v[2], const(i), ety) for i in range(v[3].c, ln.c)], []
        sl = v[2]
        return [('R', sl[1], sl[2] + (('e', addc(sl[3], i), ety),)) for i in range(v[3].c, ln.c)], []
    if v[0] == 'IT' and v[1] == 'enum':
        if not is_const(v[3]):
            return None
        r = pipeline(E, st, c, v[2], tys)
        return r and (r[0], r[1] + [('enum', [v[3].c])])
    if v[0] == 'X' and v[1] in ('cloned', 'copied'):
        r = pipeline(E, st, c, v[2], tys)
        return r and (r[0], r[1] + [('cloned',)])
    if v[0] != 'S':
        return None
    t = E.P.types[v[1]]
    name = t.get('p', '').split('::')[-1]
    if name not in ADAPT or t['p'] != ADAPT[name]:
        return None
    f = {n: x for (n, _), x in zip(t['v'][0]['f'], v[2])}
    if name == 'Range':
        a, b = f.get('start'), f.get('end')
        if isinstance(a, Lin) and isinstance(b, Lin) and is_const(a) and is_const(b) and b.c - a.c <= PIPE_MAX:
            return [const(i) for i in range(a.c, max(a.c, b.c))], []
        return None
    sub_t = [x for x in t.get('a') or () if isinstance(x, int)]
    if name in ('Map', 'Filter', 'FilterMap', 'TakeWhile', 'SkipWhile'):
        r = pipeline(E, st, c, f.get('iter'), sub_t)
        clo = f.get('f', f.get('predicate'))
        if r is None or not closure_fn(E, clo) or name in ('TakeWhile', 'SkipWhile') and f.get('flag') is not False:
            return None
        loc = ('s', c.fresh('~' + 'stage%d' % len(r[1])))
        st.mem[loc] = clo
        return r[0], r[1] + [(name, ('R', loc, ()), clo) + (([False],) if name == 'SkipWhile' else ())]
    if name in ('Cloned', 'Copied'):
        r = pipeline(E, st, c, f.get('it'), sub_t)
        return r and (r[0], r[1] + [('cloned',)])
    if name == 'Enumerate':
        r = pipeline(E, st, c, f.get('iter'), sub_t)
        n = f.get('count')
        return (r[0], r[1] + [('enum', [n.c])]) if r and isinstance(n, Lin) and is_const(n) else None
    if name == 'Rev':
        r = pipeline(E, st, c, f.get('iter'), sub_t)
        return (r[0][::-1], r[1]) if r and all(s[0] in ('cloned', 'Map') for s in r[1]) else None
    if name in ('Take', 'Skip'):
        r = pipeline(E, st, c, f.get('iter'), sub_t)
        n = f.get('n')
        if r is None or not isinstance(n, Lin) or not is_const(n) or any(s[0] not in ('cloned', 'Map', 'enum') for s in r[1]):
            return None
        if name == 'Take':
            return r[0][:n.c], r[1]
        return (r[0][n.c:], r[1]) if all(s[0] == 'cloned' for s in r[1]) else None
    return None


def closure_fn(E, clo):
    return isinstance(clo, tuple) and clo[0] == 'C' and fn_of_closure(E, clo) is not None


def fn_of_closure(E, clo):
    t = E.P.types[clo[1]]
    i = t.get('i')
    if i is not None and i < len(E.P.fns) and E.P.fns[i].blocks is not None and E.P.fns[i].p == t['p']:
        return E.P.fns[i]
    return next((f for f in E.P.fns if f.blocks is not None and f.p == t['p'] and f.local), None)


def run_closure(E, st, c, ref, clo, args, turn=0):
    """results of calling the closure kept at ref, for the turn-th time"""
    fn = fn_of_closure(E, clo)
    by_ref = E.P.types[fn.locals[1][0]]['k'] == 'ref'
    c2 = E.mkcall(c.ctx, c.bb, c.obj, [ref if by_ref else E.get(st, ref[1], ref[2])] + list(args), fn.locals[0][0], c.span, fn.p)
    c2.tag = ('clo', turn) if turn else 'clo'
    return E.inline(c2, st, fn, {})


def through(E, st, c, x, stages, counts, turn=0):
    """(state, value or None when filtered out, stop, counts) after the stages"""
    work = [(st, x, counts)]
    out = []
    for k, sg in enumerate(stages):
        nxt = []
        for s, v, cn in work:
            if sg[0] == 'cloned':
                nxt.append((s, deref(E, s, v), cn))
            elif sg[0] == 'enum':
                n = cn.get(k, sg[1][0])
                nxt.append((s, ('T', (const(n), v)), {**cn, k: n + 1}))
            elif sg[0] == 'Map':
                for s2, r in run_closure(E, s, c, sg[1], sg[2], [v], turn):
                    nxt.append((s2, r, cn))
            elif sg[0] in ('Filter', 'TakeWhile', 'SkipWhile'):
                if sg[0] == 'SkipWhile' and cn.get(k):
                    nxt.append((s, v, cn))
                    continue
                loc = ('s', c.fresh('~' + 'arg%d.%d' % (k, turn)))
                s.mem[loc] = v
                for s2, r in run_closure(E, s, c, sg[1], sg[2], [('R', loc, ())], turn):
                    for s3, b in split(E, s2, r):
                        if sg[0] == 'SkipWhile':
                            if b:
                                out.append((s3, None, False, cn))
                            else:
                                nxt.append((s3, s3.mem[loc], {**cn, k: True}))
                        elif b:
                            nxt.append((s3, s3.mem[loc], cn))
                        else:
                            out.append((s3, None, sg[0] == 'TakeWhile', cn))
            elif sg[0] == 'FilterMap':
                for s2, r in run_closure(E, s, c, sg[1], sg[2], [v], turn):
                    for s3, y in opt_parts(E, s2, r):
                        if y is None:
                            out.append((s3, None, False, cn))
                        else:
                            nxt.append((s3, y[0], cn))
        work = nxt
    return out + [(s, (v,), False, cn) for s, v, cn in work]


def opt_parts(E, st, r):
    """[(state, None | (payload,))] of an Option value"""
    if isinstance(r, tuple) and r[0] == 'O':
        r = E.expand(st, r)
    if not (isinstance(r, tuple) and r[0] == 'E'):
        return [(st, None)]
    d = const(E.P.types[r[1]]['v'][variant(E, r[1], 'Some')]['d'])
    out = []
    for s, b in split(E, st, p_eq(sub(r[2], d))):
        if b:
            i = next((k for k, f in enumerate(r[3]) if f[0] == variant(E, r[1], 'Some')), None)
            out.append((s, (r[3][i][1][0],) if i is not None else None))
        else:
            out.append((s, None))
    return out


def clo_arg(E, st, c, clo, name='clo'):
    if isinstance(clo, tuple) and clo[0] == 'O':
        clo = E.expand(st, clo)
    if not closure_fn(E, clo):
        return None
    loc = ('s', c.fresh('~' + name))
    st.mem[loc] = clo
    return ('R', loc, ()), clo


def consume(kind):
    def f(E, st, c):
        tys = [x for x in c.obj.get('a', []) if isinstance(x, int)]
        if isinstance(c.args[0], tuple) and c.args[0][0] == 'S':
            tys = [c.args[0][1]] + tys
        fargs = {'fold': 2, 'collect': None, 'count': None, 'last': None}.get(kind, 1)
        clo = clo_arg(E, st, c, c.args[fargs]) if fargs else None
        p = pipeline(E, st, c, c.args[0], tys) if clo or not fargs else None
        if p is None or any(len(s) > 1 and s[0] in ('Map', 'Filter', 'FilterMap') and not closure_fn(E, s[2]) for s in p[1]):
            return inexact(E, st, c, kind, clo, tys)
        els, stages = p
        acc0 = c.args[1] if kind == 'fold' else () if kind == 'collect' else const(0) if kind in ('count', 'position') else None
        hold = ('s', c.fresh('~acc'))
        st.mem[('s', c.fresh('~els'))] = ('T', tuple(els))
        run = [(st, acc0, {})]
        done = []
        for turn, x in enumerate(els):
            nxt = []
            for s, acc, cn in run:
                if acc is not None and acc != ():
                    s.mem[hold] = ('T', acc) if kind == 'collect' else acc
                for s2, v, stop, cn2 in through(E, s, c, x, stages, cn, turn):
                    if stop:
                        done.append((s2, finish(E, s2, c, kind, acc)))
                        continue
                    if v is None:
                        nxt.append((s2, acc, cn2))
                        continue
                    v = v[0]
                    if kind == 'collect':
                        nxt.append((s2, acc + (v,), cn2))
                    elif kind == 'count':
                        nxt.append((s2, addc(acc, 1), cn2))
                    elif kind == 'last':
                        nxt.append((s2, v, cn2))
                    elif kind == 'for_each':
                        for s3, _ in run_closure(E, s2, c, clo[0], clo[1], [v], turn):
                            nxt.append((s3, acc, cn2))
                    elif kind == 'fold':
                        for s3, r in run_closure(E, s2, c, clo[0], clo[1], [acc, v], turn):
                            nxt.append((s3, r, cn2))
                    elif kind == 'find_map':
                        for s3, r in run_closure(E, s2, c, clo[0], clo[1], [v], turn):
                            for s4, y in opt_parts(E, s3, r):
                                if y is None:
                                    nxt.append((s4, acc, cn2))
                                else:
                                    done.append((s4, some(E, c.dty, y[0])))
                    else:
                        arg = v
                        if kind == 'find':
                            loc = ('s', c.fresh('~' + 'found%d' % turn))
                            s2.mem[loc] = v
                            arg = ('R', loc, ())
                        for s3, r in run_closure(E, s2, c, clo[0], clo[1], [arg], turn):
                            for s4, b in split(E, s3, r):
                                if kind == 'all' and not b:
                                    done.append((s4, False))
                                elif kind == 'any' and b:
                                    done.append((s4, True))
                                elif kind == 'position' and b:
                                    done.append((s4, some(E, c.dty, acc)))
                                elif kind == 'find' and b:
                                    done.append((s4, some(E, c.dty, s4.mem[loc])))
                                else:
                                    nxt.append((s4, addc(acc, 1) if kind == 'position' else acc, cn2))
            run = nxt
            if len(run) + len(done) > 64:
                return inexact(E, st, c, kind, clo, tys)
        out = done + [(s, finish(E, s, c, kind, acc)) for s, acc, cn in run]
        return let_go(c, out)
    return f


def let_go(c, out):
    """what was only kept alive while a pipeline ran"""
    here = c.point()
    for s, _ in out:
        for k in [k for k in s.mem if k[0] == 's' and len(k[1].key) == 4 and k[1].key[1] == here and isinstance(k[1].key[3], str) and k[1].key[3].startswith('~')]:
            del s.mem[k]
    return out


def finish(E, st, c, kind, acc):
    if kind in ('any', 'all'):
        return kind == 'all'
    if kind in ('position', 'find', 'find_map'):
        return none(E, c.dty)
    if kind == 'last':
        return none(E, c.dty) if acc is None else some(E, c.dty, acc)
    if kind == 'collect':
        return ('Q', tuple(('one', x) for x in acc), ())
    if kind == 'for_each':
        return UNIT
    return acc


def inexact(E, st, c, kind, clo, tys):
    """a list of unknown length: some element satisfies the closure, or none is found"""
    v = c.args[0]
    if isinstance(v, tuple) and v[0] == 'R':
        v = E.get(st, v[1], v[2])
    if kind in ('any', 'all', 'position', 'find') and clo is not None and isinstance(v, tuple) and v[0] == 'IT' and v[1] in ('slice', 'vec') and isinstance(v[3], Lin):
        ety = src_type(E, tys)
        ln = E.seq_len(v[2]) if v[1] == 'vec' else v[2][4]
        if ety is not None:
            out = []
            s = st.copy()
            k = lin(atom(('o', nm((c.fresh('pos'),))), 0, POS))
            if s.assume(p_ge(addc(sub(sub(ln, v[3]), k), -1))):
                i = add(v[3], k)
                x = E.seq_get(s, v[2], i, ety) if v[1] == 'vec' else ('R', v[2][1], v[2][2] + (('e', add(v[2][3], i), ety),))
                arg = x
                if kind == 'find':
                    loc = ('s', c.fresh('~' + 'found'))
                    s.mem[loc] = x
                    arg = ('R', loc, ())
                for s2, r in run_closure(E, s, c, clo[0], clo[1], [arg]):
                    for s3, b in split(E, s2, r):
                        if b == (kind != 'all'):
                            out.append((s3, True if kind == 'any' else False if kind == 'all' else some(E, c.dty, k if kind == 'position' else x)))
            out.append((st, finish(E, st, c, kind, None)))
            return let_go(c, out)
    if kind == 'collect':
        return m_from_iter(E, st, c)
    i = c.obj.get('i')
    if i is None:
        i = c.obj.get('df')
    if i is not None and E.P.fns[i].blocks is not None and not (isinstance(v, tuple) and v[0] == 'IT'):
        return E.inline(c, st, E.P.fns[i], c.obj)
    return E.unknown_call(c, st)


for _k in ('any', 'all', 'position', 'find', 'find_map', 'for_each', 'fold', 'count', 'last'):
    _f = consume(_k)
    M[ITER + '::' + _k] = _f
    for _s in SOURCES + tuple(ADAPT.values()):
        M['<%s as %s>::%s' % (_s, ITER, _k)] = _f
M['<alloc::vec::Vec as core::iter::traits::collect::FromIterator>::from_iter'] = consume('collect')


@model('alloc::vec::Vec::retain', 'alloc::vec::Vec::retain_mut')
def m_retain(E, st, c):
    loc, proj, off, ln = seq_ref(E, st, c, c.args[0])
    q = as_q(E, st, E.get(st, loc, proj))
    clo = clo_arg(E, st, c, c.args[1])
    tys = [x for x in c.obj.get('a', []) if isinstance(x, int)]
    ety = None
    for a in tys:
        ety = a
        break
    n = E.seq_len(q)
    if clo is None or ety is None or not is_const(n) or n.c > PIPE_MAX:
        return E.unknown_call(c, st)
    work = [(st, [])]
    for i in range(n.c):
        nxt = []
        for s, keep in work:
            for s2, r in run_closure(E, s, c, clo[0], clo[1], [('R', loc, proj + (('e', const(i), ety),))], i):
                for s3, b in split(E, s2, r):
                    nxt.append((s3, keep + [i] if b else keep))
        work = nxt
        if len(work) > 64:
            return E.unknown_call(c, st)
    out = []
    for s, keep in work:
        now = as_q(E, s, E.get(s, loc, proj))
        vals = [E.seq_get(s, now, const(i), ety) for i in keep]
        for i in range(n.c):
            if i not in keep:
                E.emit(s, c, 'vecremove', ref=c.args[0], val=E.seq_get(s, now, const(i), ety), idx=const(i), seq=now)
        E.put(s, loc, proj, ('Q', tuple(('one', x) for x in vals), ()))
        out.append((s, UNIT))
    return let_go(c, out)


@model('core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied')
def m_cloned(E, st, c):
    return ('X', 'cloned', c.args[0])


# ---------------------------------------------------------------- cursors and byte buffers
@model('core::io::cursor::Cursor::new')
def m_cursor(E, st, c):
    return ('S', c.dty, (as_q(E, st, c.args[0]) if isinstance(c.args[0], tuple) and c.args[0][0] == 'Q' else c.args[0], const(0)))


def cur_parts(E, st, r):
    v = deref(E, st, r)
    if v[0] == 'S' and len(v[2]) == 2:
        q = v[2][0]
        return v, as_q(E, st, q), v[2][1]
    n = nm(('badcur', vkey(v)))
    q = ('Q', (('sub', child(n, 'q'), const(0), E.len_atom(child(n, 'q'))),), ())
    return ('S', v[2] if v[0] == 'O' else None, (q, lin(atom(('o', child(n, 'pos')), 0, (1 << 63))))), q, lin(atom(('o', child(n, 'pos')), 0, (1 << 63)))


@model('core::io::cursor::Cursor::position')
def m_cur_pos(E, st, c):
    return cur_parts(E, st, c.args[0])[2]


@model('core::io::cursor::Cursor::set_position')
def m_cur_set(E, st, c):
    v, q, pos = cur_parts(E, st, c.args[0])
    setref(E, st, c.args[0], ('S', v[1], (v[2][0], c.args[1])))
    return UNIT


@model('core::io::cursor::Cursor::get_ref', 'core::io::cursor::Cursor::into_inner')
def m_cur_ref(E, st, c):
    if c.name.endswith('into_inner'):
        return c.args[0][2][0] if c.args[0][0] == 'S' else c.opq(st, c.dty)
    r = c.args[0]
    return ('R', r[1], r[2] + (('f', 0, None),))


def remaining(E, st, q, pos):
    """[(state, remaining)]"""
    ln = E.seq_len(q)
    out = []
    for s, b in split(E, st, p_ge(sub(ln, pos))):
        out.append((s, sub(ln, pos) if b else const(0)))
    return out


@model('<core::io::cursor::Cursor as bytes::buf::buf_impl::Buf>::remaining', 'bytes::buf::buf_impl::Buf::remaining')
def m_cur_rem(E, st, c):
    v, q, pos = cur_parts(E, st, c.args[0])
    return remaining(E, st, q, pos)


@model('bytes::buf::buf_impl::Buf::has_remaining')
def m_cur_has(E, st, c):
    v, q, pos = cur_parts(E, st, c.args[0])
    return p_ge(addc(sub(E.seq_len(q), pos), -1))


@model('bytes::buf::buf_impl::Buf::advance', '<core::io::cursor::Cursor as bytes::buf::buf_impl::Buf>::advance')
def m_advance(E, st, c):
    v, q, pos = cur_parts(E, st, c.args[0])
    n = c.args[1]
    good = p_ge(sub(sub(E.seq_len(q), pos), n))
    E.oblige(c.ctx, c.bb, 'advance', st.implies(good), 'advance(%s) with %s remaining' % (E.vs(st, n), E.vs(st, sub(E.seq_len(q), pos))), st=st)
    if not st.assume(good):
        return None
    setref(E, st, c.args[0], ('S', v[1], (v[2][0], add(pos, n))))
    return UNIT


def sgn(l, n):
    bits = 8 * n
    return lin(atom(('sgn', l, n), -(1 << (bits - 1)), (1 << (bits - 1)) - 1))


def read_int(E, st, q, pos, n, end, signed):
    off = const(0)
    if not q[2]:
        for g in q[1]:
            if g[0] == 'int' and g[2] == n and (g[3] == end or n == 1) and (off is pos or st.eq_lin(off, pos) is True):
                v = g[1]
                lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
                r = st.rng(v)
                if r[0] >= lo and r[1] <= hi:
                    return v
                break
            off = add(off, E.seg_len(g))
            if not st.prove(sub(pos, off)):
                break
    r = const(0)
    for k in range(n):
        b = E.seq_get(st, q, addc(pos, k), E.u8)
        if not isinstance(b, Lin):
            b = lin(atom(('badbyte', vkey(b)), 0, 255))
        w = k if end == 'L' else n - 1 - k
        r = add(r, scale(b, 1 << (8 * w)))
    if signed:
        if not r.t:
            x = r.c
            return const(x - (1 << (8 * n)) if x >= 1 << (8 * n - 1) else x)
        return sgn(r, n)
    return r


def mk_get(name, n, end, signed):
    def f(E, st, c):
        v, q, pos = cur_parts(E, st, c.args[0])
        rem = sub(E.seq_len(q), pos)
        good = p_ge(addc(rem, -n))
        E.oblige(c.ctx, c.bb, 'get', st.implies(good), '%s with %s bytes remaining' % (name, E.vs(st, rem)), st=st)
        if not st.assume(good):
            return None
        x = read_int(E, st, q, pos, n, end, signed)
        setref(E, st, c.args[0], ('S', v[1], (v[2][0], addc(pos, n))))
        return x
    M['bytes::buf::buf_impl::Buf::' + name] = f
    M['<core::io::cursor::Cursor as bytes::buf::buf_impl::Buf>::' + name] = f

    def g(E, st, c):
        q = as_q(E, st, c.args[0])
        setref(E, st, c.args[0], ('Q', q[1] + (('int', c.args[1], n, end),), q[2]) if n > 1 or not isinstance(c.args[1], Lin) or signed
               else E.seq_push(q, c.args[1]))
        return UNIT
    pn = name.replace('get_', 'put_')
    M['bytes::buf::buf_mut::BufMut::' + pn] = g
    M['<alloc::vec::Vec as bytes::buf::buf_mut::BufMut>::' + pn] = g


for _n, _w in (('u8', 1), ('i8', 1), ('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8), ('u128', 16), ('i128', 16)):
    mk_get('get_' + _n, _w, 'B', _n[0] == 'i')
    if _w > 1:
        mk_get('get_' + _n + '_le', _w, 'L', _n[0] == 'i')


@model('<core::io::cursor::Cursor as alloc::io::read::Read>::read_exact', 'std::io::Read::read_exact')
def m_read_exact(E, st, c):
    v, q, pos = cur_parts(E, st, c.args[0])
    loc, proj, off, ln = seq_ref(E, st, c, c.args[1])
    out = []
    for s, b in split(E, st, p_ge(sub(sub(E.seq_len(q), pos), ln))):
        old = as_q(E, s, E.get(s, loc, proj))
        tot = E.seq_len(old)
        if b:
            body = E.seq_slice(s, q, pos, ln)
            n = clean(E.seq_cat(E.seq_cat(E.seq_slice(s, old, const(0), off), body),
                                E.seq_slice(s, old, add(off, ln), sub(sub(tot, off), ln))))
            E.put(s, loc, proj, n)
            setref(E, s, c.args[0], ('S', v[1], (v[2][0], add(pos, ln))))
            out.append((s, enum(E, c.dty, 'Ok', UNIT)))
        else:
            n = c.fresh('partial')
            E.put(s, loc, proj, ('Q', (('sub', n, const(0), tot),), ()))
            setref(E, s, c.args[0], ('S', v[1], (v[2][0], lin(atom(('o', c.fresh('pos')), 0, 1 << 63)))))
            out.append((s, enum(E, c.dty, 'Err', c.opq(s, payload_ty(E, c.dty, 'Err'), 'e'))))
    return out


def mk_bytes(ity, n):
    def fb(end):
        def f(E, st, c):
            return read_int(E, st, as_q(E, st, c.args[0]), const(0), n, end, ity[0] == 'i')
        return f

    def tb(end):
        def f(E, st, c):
            v = c.args[0]
            segs = []
            for k in range(n):
                segs.append(('one', byte_of(v, k if end == 'L' else n - 1 - k)))
            return ('Q', (('int', v, n, end),) if n > 1 else tuple(segs), ())
        return f
    M['%s::from_be_bytes' % ity] = fb('B')
    M['%s::from_le_bytes' % ity] = fb('L')
    M['%s::to_be_bytes' % ity] = tb('B')
    M['%s::to_le_bytes' % ity] = tb('L')
    M['%s::from_ne_bytes' % ity] = fb('L')
    M['%s::to_ne_bytes' % ity] = tb('L')


for _n, _w in (('u8', 1), ('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8), ('usize', 8)):
    mk_bytes(_n, _w)


# ---------------------------------------------------------------- integers
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def m_clone_copy(E, st, c):
    return deref(E, st, c.args[0])


def mk_int(t):
    M['<%s as core::clone::Clone>::clone' % t] = m_clone_copy

    def cmp(E, st, c):
        return E.bin_vals(st, 'Cmp', deref(E, st, c.args[0]), deref(E, st, c.args[1]), E.P.tid(t), c.dty)
    M['<%s as core::cmp::Ord>::cmp' % t] = cmp
    for o, op in (('eq', 'Eq'), ('ne', 'Ne'), ('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
        def rel(E, st, c, op=op):
            a, b = c.args
            for _ in range(3):
                if isinstance(a, tuple) and a[0] == 'R':
                    a = deref(E, st, a)
                if isinstance(b, tuple) and b[0] == 'R':
                    b = deref(E, st, b)
            return E.bin_vals(st, op, a, b, E.P.tid(t), c.dty)
        M['<%s as core::cmp::PartialEq>::%s' % (t, o)] = rel
        M['<%s as core::cmp::PartialOrd>::%s' % (t, o)] = rel

    def tryfrom(E, st, c):
        v = c.args[0]
        ok = payload_ty(E, c.dty, 'Ok')
        if not isinstance(v, Lin) or not E.P.is_int(ok):
            return c.opq(st, c.dty)
        lo, hi = E.P.irange(ok)
        out = []
        er = c.opq(st, payload_ty(E, c.dty, 'Err'), 'e')
        s1 = st.copy()
        if s1.assume(p_ge(addc(v, -lo))) and s1.assume(p_ge(sub(const(hi), v))):
            out.append((s1, enum(E, c.dty, 'Ok', v)))
        if not st.prove(addc(v, -lo)):
            s2 = st.copy()
            if s2.assume(p_ge(addc(scale(v, -1), lo - 1))):
                out.append((s2, enum(E, c.dty, 'Err', er)))
        if not st.prove(sub(const(hi), v)):
            if st.assume(p_ge(addc(v, -hi - 1))):
                out.append((st, enum(E, c.dty, 'Err', er)))
        return out
    M['<%s as core::convert::TryFrom>::try_from' % t] = tryfrom

    def frm(E, st, c):
        v = c.args[0]
        if isinstance(v, bool):
            return const(1 if v else 0)
        if is_pred(v):
            return lin(atom(('b2i', v), 0, 1))
        return v if isinstance(v, Lin) else c.opq(st, c.dty)
    M['<%s as core::convert::From>::from' % t] = frm

    def wrapping(op):
        def f(E, st, c):
            a, b = c.args[0], c.args[1]
            return E.bin_vals(st, op, a, b, E.P.tid(t), E.P.tid(t))
        return f
    for nme, op in (('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'), ('wrapping_mul', 'Mul')):
        M['%s::%s' % (t, nme)] = wrapping(op)

    def saturating(op):
        def f(E, st, c):
            a, b = c.args[0], c.args[1]
            lo, hi = E.P.irange(E.P.tid(t))
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            out = []
            s1 = st.copy()
            if s1.assume(p_ge(addc(r, -lo))) and s1.assume(p_ge(sub(const(hi), r))):
                out.append((s1, r))
            if not st.prove(addc(r, -lo)):
                s2 = st.copy()
                if s2.assume(p_ge(addc(scale(r, -1), lo - 1))):
                    out.append((s2, const(lo)))
            if not st.prove(sub(const(hi), r)):
                if st.assume(p_ge(addc(r, -hi - 1))):
                    out.append((st, const(hi)))
            return out
        return f

    def checked(op):
        def f(E, st, c):
            a, b = c.args[0], c.args[1]
            lo, hi = E.P.irange(E.P.tid(t))
            if op in ('div', 'rem'):
                out = []
                for s, z in split(E, st, p_eq(b)):
                    if z:
                        out.append((s, none(E, c.dty)))
                    else:
                        out.append((s, some(E, c.dty, E.bin_vals(s, 'Div' if op == 'div' else 'Rem', a, b, E.P.tid(t), E.P.tid(t)))))
                return out
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            out = []
            s1 = st.copy()
            if s1.assume(p_ge(addc(r, -lo))) and s1.assume(p_ge(sub(const(hi), r))):
                out.append((s1, some(E, c.dty, r)))
            if not (st.prove(addc(r, -lo)) and st.prove(sub(const(hi), r))):
                if not st.prove(addc(r, -lo)):
                    s2 = st.copy()
                    if s2.assume(p_ge(addc(scale(r, -1), lo - 1))):
                        out.append((s2, none(E, c.dty)))
                if not st.prove(sub(const(hi), r)):
                    s2 = st.copy()
                    if s2.assume(p_ge(addc(r, -hi - 1))):
                        out.append((s2, none(E, c.dty)))
            return out
        return f
    for o in ('add', 'sub', 'mul'):
        M['%s::saturating_%s' % (t, o)] = saturating(o)
        M['%s::checked_%s' % (t, o)] = checked(o)
    M['%s::checked_div' % t] = checked('div')
    M['%s::checked_rem' % t] = checked('rem')

    def minmax(which):
        def f(E, st, c):
            a, b = c.args[0], c.args[1]
            out = []
            for s, g in split(E, st, p_ge(sub(a, b))):
                out.append((s, (a if g else b) if which == 'max' else (b if g else a)))
            return out
        return f
    for nme in ('max', 'min'):
        M['<%s as core::cmp::Ord>::%s' % (t, nme)] = minmax(nme)

    def clamp(E, st, c):
        a, lo, hi = c.args
        good = p_ge(sub(hi, lo))
        E.oblige(c.ctx, c.bb, 'clamp', st.implies(good), 'clamp bounds', st=st)
        if not st.assume(good):
            return None
        out = []
        for s, g in split(E, st, p_ge(sub(a, lo))):
            if not g:
                out.append((s, lo))
                continue
            for s2, h in split(E, s, p_ge(sub(hi, a))):
                out.append((s2, a if h else hi))
        return out
    M['<%s as core::cmp::Ord>::clamp' % t] = clamp

    def div_ceil(E, st, c):
        a, b = c.args
        t_ = E.P.tid(t)
        E.oblige(c.ctx, c.bb, 'div_ceil', st.implies(p_ne(b)), 'division by zero', st=st)
        out = []
        q = E.bin_vals(st, 'Div', a, b, t_, t_)
        r = E.bin_vals(st, 'Rem', a, b, t_, t_)
        for s, z in split(E, st, p_eq(r)):
            out.append((s, q if z else addc(q, 1)))
        return out
    M['%s::div_ceil' % t] = div_ceil

    def absd(E, st, c):
        a, b = c.args
        return [(s, sub(a, b) if g else sub(b, a)) for s, g in split(E, st, p_ge(sub(a, b)))]
    M['%s::abs_diff' % t] = absd


for _t in INTS:
    mk_int(_t)
M['<bool as core::clone::Clone>::clone'] = m_clone_copy


@model('core::cmp::min', 'core::cmp::max')
def m_cmpmin(E, st, c):
    a, b = c.args
    if not isinstance(a, Lin) or not isinstance(b, Lin):
        return c.opq(st, c.dty)
    mx = c.name.endswith('max')
    return [(s, (a if g else b) if mx else (b if g else a)) for s, g in split(E, st, p_ge(sub(a, b)))]


M['core::cmp::Ord::min'] = m_cmpmin
M['core::cmp::Ord::max'] = m_cmpmin


@model('core::clone::Clone::clone')
def m_clone_any(E, st, c):
    """only reached when no exported body exists"""
    i = c.obj.get('i')
    if i is None:
        i = c.obj.get('df')
    if i is not None and E.P.fns[i].blocks is not None:
        return E.inline(c, st, E.P.fns[i], c.obj)
    v = deref(E, st, c.args[0])
    return v


@model('<core::net::socket_addr::SocketAddr as core::clone::Clone>::clone', '<core::time::Duration as core::clone::Clone>::clone',
       '<std::time::SystemTime as core::clone::Clone>::clone', '<alloc::rcs::arc::Arc as core::clone::Clone>::clone',
       '<alloc::sync::Arc as core::clone::Clone>::clone', '<tokio::sync::mpsc::bounded::Sender as core::clone::Clone>::clone',
       '<alloc::boxed::Box as core::clone::Clone>::clone')
def m_clone(E, st, c):
    return deref(E, st, c.args[0])


@model('core::intrinsics::discriminant_value')
def m_discr(E, st, c):
    return E.discr(st, deref(E, st, c.args[0]))


@model('core::mem::drop')
def m_memdrop(E, st, c):
    v = c.args[0]
    if not isinstance(v, tuple) or is_scalar(v):
        return UNIT
    loc = ('h', c.fresh('drop'))
    st.mem[loc] = v
    ty = None
    for a in c.obj.get('a', []):
        if isinstance(a, int):
            ty = a
    sts = [st]
    E.drop_value(st, c, v, ty, loc, (), sts)
    for s in sts:
        s.mem.pop(loc, None)
    return [(s, UNIT) for s in sts]


@model('core::mem::replace', 'core::mem::take', 'core::mem::swap')
def m_replace(E, st, c):
    old = deref(E, st, c.args[0])
    w = c.name.split('::')[-1]
    if w == 'swap':
        b = deref(E, st, c.args[1])
        setref(E, st, c.args[0], b)
        setref(E, st, c.args[1], old)
        return UNIT
    if w == 'replace':
        setref(E, st, c.args[0], c.args[1])
    else:
        t = E.P.types[c.dty]
        if t['k'] == 'adt' and t['p'] in SEQS:
            n = ('Q', (), ())
        elif t['k'] == 'adt' and t['p'] in MAPS:
            n = ('M', None, (), (), const(0))
        elif t['k'] == 'int':
            n = const(0)
        elif t['k'] == 'bool':
            n = False
        elif t['k'] == 'adt' and t['p'] == 'core::option::Option':
            n = none(E, c.dty)
        else:
            n = c.opq(st, c.dty)
        setref(E, st, c.args[0], n)
    E.emit(st, c, 'take', ref=c.args[0], val=old)
    return old


@model('core::mem::size_of')
def m_sizeof(E, st, c):
    return lin(atom(('sizeof', tuple(a for a in c.obj.get('a', []) if isinstance(a, int))), 0, 1 << 20))


# ---------------------------------------------------------------- Box / vec![]
@model('alloc::boxed::Box::new_uninit')
def m_box_uninit(E, st, c):
    loc = ('h', c.fresh('box'))
    st.mem[loc] = U
    return ('R', loc, ())


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(E, st, c):
    a = c.args[0]
    v = deref(E, st, a)
    for _ in range(6):
        if isinstance(v, tuple) and v[0] == 'T' and v[1]:
            v = [x for x in v[1] if x != U][0] if any(x != U for x in v[1]) else U
        elif isinstance(v, tuple) and v[0] == 'S' and v[2]:
            v = v[2][0]
        else:
            break
    if isinstance(v, tuple) and v[0] == 'Q':
        return v
    return c.opq(st, c.dty)


@model('alloc::boxed::Box::new')
def m_box_new(E, st, c):
    loc = ('h', c.fresh('box'))
    st.mem[loc] = c.args[0]
    t = E.P.types[c.dty]
    if t.get('a'):
        E.ptype[loc] = t['a'][0]
    return ('R', loc, ())


@model('alloc::boxed::Box::pin')
def m_box_pin(E, st, c):
    r = m_box_new(E, st, c)
    return ('S', c.dty, (r,))


# ---------------------------------------------------------------- Arc
@model('alloc::rcs::arc::Arc::new', 'alloc::sync::Arc::new')
def m_arc_new(E, st, c):
    n = c.fresh('arc')
    loc = ('h', n)
    if any(p[0] == loc for p in st.mon.get('~closed', ())):
        st.mon['~closed'] = frozenset(p for p in st.mon['~closed'] if p[0] != loc)
    v = c.args[0]
    st.mem[loc] = v
    E.ptype[loc] = E.P.types[c.dty]['a'][0]
    E.publish(st, loc)
    return ('A', loc)


@model('<alloc::rcs::arc::Arc as core::ops::deref::Deref>::deref', '<alloc::sync::Arc as core::ops::deref::Deref>::deref')
def m_arc_deref(E, st, c):
    v = deref(E, st, c.args[0])
    if v[0] == 'A':
        return ('R', v[1], ())
    return E.mk_ref(('n', nm(('badarc', vkey(v)))), E.P.types[c.dty]['t'], st)


@model('alloc::rcs::arc::Arc::strong_count', 'alloc::sync::Arc::strong_count')
def m_strong(E, st, c):
    return lin(atom(('o', c.fresh('sc')), 1, 1 << 62, orig=c.point()))


# ---------------------------------------------------------------- futures
FUT = {}


def future(kind):
    def d(f):
        FUT[kind] = f
        return f
    return d


def mkfut(kind, *payload):
    return ('FU', kind) + payload


def call_future(name, kind):
    def f(E, st, c):
        return mkfut(kind, *c.args)
    M[name] = f

    def g(E, st, c):
        return poll_model(E, st, c)
    M[name + '::{closure#0}'] = g


def poll_model(E, st, c):
    """poll of a library future: it completes (staying pending has no effect on the caller)"""
    loc, proj = E.unpin(st, c.args[0])
    f = E.get(st, loc, proj)
    oty = payload_ty(E, c.dty, 'Ready')
    res = complete(E, st, c, f, oty)
    if f == U:
        return []
    return [(s, ready(E, c.dty, v)) for s, v in res]


def complete(E, st, c, f, oty, bounded=False):
    if isinstance(f, tuple) and f[0] == 'FU':
        return FUT[f[1]](E, st, c, f, oty, bounded)
    if isinstance(f, tuple) and f[0] in ('C', 'O'):
        ty = f[1] if f[0] == 'C' else f[2]
        t = E.P.types[ty]
        if t['k'] == 'coroutine':
            fn = coroutine_fn(E, ty)
            if fn is not None:
                if f[0] == 'O':
                    f = E.expand(st, f)
                loc = ('h', c.fresh('cor'))
                st.mem[loc] = f
                pin = ('R', loc, ())
                k = c.ctx.kid((c.bb, 'cor'), fn)
                st.mem[loc] = U
                return E.exec_fn(k, [f, UNIT], st)
    if isinstance(f, tuple) and f[0] == 'R':      # boxed / borrowed future
        return complete(E, st, c, E.get(st, f[1], f[2]), oty, bounded)
    if isinstance(f, tuple) and f[0] == 'S' and len(f[2]) == 1:
        return complete(E, st, c, f[2][0], oty, bounded)
    E.emit(st, c, 'await', fut='unknown', bounded=bounded)
    return [(st, c.opq(st, oty, 'fut'))]


def coroutine_fn(E, ty):
    t = E.P.types[ty]
    for f in E.P.fns:
        if f.d and f.d.get('cor') and f.blocks is not None and f.d.get('dp', f.p) == t.get('dp', t.get('p')):
            return f
    for f in E.P.by_path.get(t.get('p'), []):
        return f
    return None


@model('<tokio::sync::notify::Notified as core::future::future::Future>::poll', '<tokio::time::sleep::Sleep as core::future::future::Future>::poll',
       '<tokio::time::timeout::Timeout as core::future::future::Future>::poll', '<&mut F as core::future::future::Future>::poll',
       '<core::pin::Pin as core::future::future::Future>::poll', '<alloc::boxed::Box as core::future::future::Future>::poll',
       '<tokio::runtime::task::join::JoinHandle as core::future::future::Future>::poll')
def m_poll(E, st, c):
    return poll_model(E, st, c)


@model('core::future::get_context')
def m_getctx(E, st, c):
    return c.args[0] if c.args else UNIT


@model('tokio::macros::support::poll_budget_available')
def m_budget(E, st, c):
    return ready(E, c.dty, UNIT)


@model('tokio::macros::support::thread_rng_n')
def m_rngn(E, st, c):
    n = c.args[0]
    hi = n.c - 1 if not n.t else (1 << 32) - 1
    # one alternative per starting branch keeps the branches of a select! apart
    if not n.t and 0 < n.c <= 8:
        return either(st, *[const(i) for i in range(n.c)])
    return lin(atom(('o', c.fresh('rng')), 0, hi, orig=c.point()))


@model('tokio::time::sleep::sleep')
def m_sleep(E, st, c):
    return mkfut('sleep', c.args[0])


@future('sleep')
def f_sleep(E, st, c, f, oty, bounded):
    E.emit(st, c, 'await', fut='sleep', dur=f[2], bounded=True)
    return [(st, UNIT)]


@model('tokio::time::timeout::timeout')
def m_timeout(E, st, c):
    E.emit(st, c, 'timeout', dur=c.args[0])
    return mkfut('timeout', c.args[0], c.args[1])


@future('timeout')
def f_timeout(E, st, c, f, oty, bounded):
    okt = payload_ty(E, oty, 'Ok')
    s2 = st.copy()
    E.emit(s2, c, 'await', fut='timeout', dur=f[2], bounded=True)
    out = [(s2, enum(E, oty, 'Err', c.opq(s2, payload_ty(E, oty, 'Err'), 'elapsed')))]
    for s, v in complete(E, st, c, f[3], okt, True):
        out.append((s, enum(E, oty, 'Ok', v)))
    return out


@model('tokio::task::spawn::spawn')
def m_spawn(E, st, c):
    f = c.args[0]
    if isinstance(f, tuple) and f[0] == 'O':
        f = E.expand(st, f)
    if isinstance(f, tuple) and f[0] == 'C':
        E.note_spawn(st, c, f)
    E.emit(st, c, 'spawn', val=f)
    return c.opq(st, c.dty, 'jh')


@model('tokio::task::spawn::spawn_blocking', 'tokio::task::blocking::spawn_blocking', 'std::thread::spawn', 'std::thread::functions::spawn')
def m_spawn_blocking(E, st, c):
    E.emit(st, c, 'spawn', val=c.args[0])
    return c.opq(st, c.dty, 'jh')


# ---------------------------------------------------------------- locks
def content_of(E, st, c, lock, ty):
    """abstract identity of a lock: the type of what it protects"""
    return E.P.ts(ty)


def new_lock(E, st, c, kind):
    v = c.args[0]
    ty = None
    for a in c.obj.get('a', []):
        if isinstance(a, int):
            ty = a
            break
    inv = ('mx', E.P.ts(ty))
    E.record(st, v, inv, ty, set())
    E.emit(st, c, 'newlock', val=v, ty=ty)
    return ('O', c.fresh(kind), c.dty)


@model('tokio::sync::mutex::Mutex::new', 'tokio::sync::rwlock::RwLock::new', 'std::sync::poison::mutex::Mutex::new',
       'std::sync::poison::rwlock::RwLock::new')
def m_lock_new(E, st, c):
    return new_lock(E, st, c, 'lock')


call_future('tokio::sync::mutex::Mutex::lock', 'lock')
call_future('tokio::sync::rwlock::RwLock::read', 'read')
call_future('tokio::sync::rwlock::RwLock::write', 'write')


def guard_content_ty(E, gty):
    """protected type from a guard type"""
    t = E.P.types[gty]
    xs = [x for x in t.get('a', []) if isinstance(x, int)]
    return xs[-1] if xs else None


def acquire(E, st, c, lockref, gty, mode, bounded):
    cty = guard_content_ty(E, gty)
    lockid = E.P.ts(cty)
    E.emit(st, c, 'await', fut='lock', lock=lockid, mode=mode, bounded=bounded)
    n = nm(('g', c.point(), 'locked'), c.point(), ('mx', lockid))
    loc = ('n', n)
    for k in [k for k in st.mem if k[0] == 'n' and k is not loc and k == loc]:
        del st.mem[k]
    st.mem.pop(loc, None)
    E.ptype[loc] = cty
    st.mem[loc] = E.mk_opaque(n, cty, st)
    gid = nm(('guard', c.point()), c.point())
    g = ('G', gid, mode, lockid, loc)
    st.locks = tuple(x for x in st.locks if x[2] is not gid) + ((lockid, mode, gid, loc),)
    E.emit(st, c, 'lock', lock=lockid, mode=mode, content=loc, ref=lockref, gid=gid)
    return [(st, g)]


@future('lock')
def f_lock(E, st, c, f, oty, bounded):
    return acquire(E, st, c, f[2], oty, 'w', bounded)


@future('read')
def f_read(E, st, c, f, oty, bounded):
    return acquire(E, st, c, f[2], oty, 'r', bounded)


@future('write')
def f_write(E, st, c, f, oty, bounded):
    return acquire(E, st, c, f[2], oty, 'w', bounded)


@model('std::sync::poison::mutex::Mutex::lock', 'std::sync::poison::rwlock::RwLock::write', 'std::sync::poison::rwlock::RwLock::read')
def m_std_lock(E, st, c):
    gty = payload_ty(E, c.dty, 'Ok')
    E.emit(st, c, 'stdlock')
    res = acquire(E, st, c, c.args[0], gty, 'r' if c.name.endswith('read') else 'w', False)
    return [(s, enum(E, c.dty, 'Ok', g)) for s, g in res]


@model('tokio::sync::mutex::Mutex::try_lock', 'tokio::sync::rwlock::RwLock::try_read', 'tokio::sync::rwlock::RwLock::try_write')
def m_try_lock(E, st, c):
    gty = payload_ty(E, c.dty, 'Ok')
    s2 = st.copy()
    out = [(s2, enum(E, c.dty, 'Err', c.opq(s2, payload_ty(E, c.dty, 'Err'), 'e')))]
    for s, g in acquire(E, st, c, c.args[0], gty, 'r' if c.name.endswith('read') else 'w', True):
        out.append((s, enum(E, c.dty, 'Ok', g)))
    return out


@model('<tokio::sync::mutex::MutexGuard as core::ops::deref::Deref>::deref', '<tokio::sync::mutex::MutexGuard as core::ops::deref::DerefMut>::deref_mut',
       '<tokio::sync::rwlock::read_guard::RwLockReadGuard as core::ops::deref::Deref>::deref',
       '<tokio::sync::rwlock::write_guard::RwLockWriteGuard as core::ops::deref::Deref>::deref',
       '<tokio::sync::rwlock::write_guard::RwLockWriteGuard as core::ops::deref::DerefMut>::deref_mut',
       '<std::sync::poison::mutex::MutexGuard as core::ops::deref::Deref>::deref',
       '<std::sync::poison::mutex::MutexGuard as core::ops::deref::DerefMut>::deref_mut',
       '<std::sync::poison::rwlock::RwLockReadGuard as core::ops::deref::Deref>::deref',
       '<std::sync::poison::rwlock::RwLockWriteGuard as core::ops::deref::Deref>::deref',
       '<std::sync::poison::rwlock::RwLockWriteGuard as core::ops::deref::DerefMut>::deref_mut')
def m_guard_deref(E, st, c):
    g = deref(E, st, c.args[0]) if c.args[0][0] != 'R' else E.get(st, c.args[0][1], c.args[0][2])
    if g[0] == 'G':
        loc = g[4]
        return ('R', loc, ())
    return E.mk_ref(('n', nm(('badguard', vkey(g)))), E.P.types[c.dty]['t'], st)


# ---------------------------------------------------------------- semaphore / notify
@model('tokio::sync::semaphore::Semaphore::new', 'tokio::sync::notify::Notify::new')
def m_sem_new(E, st, c):
    kind = 'sem' if 'semaphore' in c.name else 'notify'
    E.emit(st, c, 'new' + kind, arg=c.args[0] if c.args else None)
    return ('O', c.fresh(kind), c.dty)


def prim(E, st, r):
    """identity of the primitive behind a reference"""
    if isinstance(r, tuple) and r[0] == 'R':
        return (r[1], tuple(s[:2] for s in r[2]))
    return r


@model('tokio::sync::semaphore::Semaphore::close')
def m_sem_close(E, st, c):
    E.emit(st, c, 'close', prim=prim(E, st, c.args[0]))
    note_closed(st, prim(E, st, c.args[0]))
    return UNIT


def note_closed(st, p):
    """a semaphore once closed stays closed"""
    if isinstance(p, tuple) and len(p) == 2 and p[0][0] in ('h', 'n'):
        st.mon['~closed'] = st.mon.get('~closed', frozenset()) | {p}


@model('tokio::sync::semaphore::Semaphore::is_closed')
def m_sem_is_closed(E, st, c):
    out = []
    p = prim(E, st, c.args[0])
    for b in (True,) if p in st.mon.get('~closed', ()) else (True, False):
        s = st.copy() if b else st
        if b:
            note_closed(s, p)
        E.emit(s, c, 'is_closed', prim=prim(E, s, c.args[0]), res=b)
        out.append((s, b))
    return out


@model('tokio::sync::semaphore::Semaphore::add_permits')
def m_sem_add(E, st, c):
    E.emit(st, c, 'add_permits', prim=prim(E, st, c.args[0]))
    return UNIT


call_future('tokio::sync::semaphore::Semaphore::acquire', 'acquire')


@future('acquire')
def f_acquire(E, st, c, f, oty, bounded):
    E.emit(st, c, 'await', fut='acquire', prim=prim(E, st, f[2]), bounded=bounded)
    E.emit(st, c, 'acquired', prim=prim(E, st, f[2]))
    return [(st, c.opq(st, oty, 'permit'))]


@model('tokio::sync::notify::Notify::notified')
def m_notified(E, st, c):
    return mkfut('notified', c.args[0])


@future('notified')
def f_notified(E, st, c, f, oty, bounded):
    E.emit(st, c, 'await', fut='notified', prim=prim(E, st, f[2]), bounded=bounded)
    E.emit(st, c, 'notified', prim=prim(E, st, f[2]))
    return [(st, UNIT)]


@model('tokio::sync::notify::Notify::notify_one', 'tokio::sync::notify::Notify::notify_waiters', 'tokio::sync::notify::Notify::notify_last')
def m_notify(E, st, c):
    E.emit(st, c, 'notify', prim=prim(E, st, c.args[0]), how=c.name.split('::')[-1])
    return UNIT


# ---------------------------------------------------------------- channels
@model('tokio::sync::mpsc::bounded::channel')
def m_channel(E, st, c):
    n = c.fresh('chan')
    tx, rx = E.P.types[c.dty]['a'][:2]
    E.emit(st, c, 'channel', cap=c.args[0], chan=n, tx=tx)
    E.oblige(c.ctx, c.bb, 'channel', st.implies(p_ge(addc(c.args[0], -1))), 'mpsc channel capacity %s' % E.vs(st, c.args[0]), st=st)
    return ('T', (('O', child(n, 'tx'), tx), ('O', child(n, 'rx'), rx)))


call_future('tokio::sync::mpsc::bounded::Sender::send', 'send')
call_future('tokio::sync::mpsc::bounded::Receiver::recv', 'recv')


def chan_ty(E, c, oty):
    return E.P.ts(oty)


@future('send')
def f_send(E, st, c, f, oty, bounded):
    ch = deref(E, st, f[2])
    ety = payload_ty(E, oty, 'Err')
    mty = [x for x in E.P.types[ety]['a'] if isinstance(x, int)][0]
    E.emit(st, c, 'await', fut='send', chan=E.P.ts(mty), bounded=bounded)
    E.record(st, f[3], ('ch', E.P.ts(mty)), mty, set())
    s2 = st.copy()
    E.emit(st, c, 'send', chan=E.P.ts(mty), tx=ch, val=f[3], res=True, txref=prim(E, st, f[2]))
    E.emit(s2, c, 'send', chan=E.P.ts(mty), tx=ch, val=f[3], res=False, txref=prim(E, st, f[2]))
    return [(st, enum(E, oty, 'Ok', UNIT)), (s2, enum(E, oty, 'Err', ('S', ety, (f[3],))))]


@model('tokio::sync::mpsc::bounded::Sender::try_send')
def m_try_send(E, st, c):
    ch = deref(E, st, c.args[0])
    ety = payload_ty(E, c.dty, 'Err')
    mty = [x for x in E.P.types[ety]['a'] if isinstance(x, int)][0]
    E.record(st, c.args[1], ('ch', E.P.ts(mty)), mty, set())
    out = []
    names = [v['n'] for v in E.P.types[ety]['v']]
    for i, nme in enumerate(names):
        s2 = st.copy()
        E.emit(s2, c, 'send', chan=E.P.ts(mty), tx=ch, val=c.args[1], res=False, txref=prim(E, st, c.args[0]), try_=nme)
        out.append((s2, enum(E, c.dty, 'Err', E.mk_enum(ety, i, (c.args[1],)))))
    E.emit(st, c, 'send', chan=E.P.ts(mty), tx=ch, val=c.args[1], res=True, txref=prim(E, st, c.args[0]), try_='ok')
    out.append((st, enum(E, c.dty, 'Ok', UNIT)))
    return out


@model('tokio::sync::mpsc::bounded::Sender::is_closed')
def m_tx_closed(E, st, c):
    return ('b', atom(('o', c.fresh('txc')), 0, 1, orig=c.point()))


@future('recv')
def f_recv(E, st, c, f, oty, bounded):
    ch = deref(E, st, f[2])
    mty = payload_ty(E, oty, 'Some')
    E.emit(st, c, 'await', fut='recv', chan=E.P.ts(mty), bounded=bounded, rxref=prim(E, st, f[2]))
    s2 = st.copy()
    n = nm(('g', c.point(), 'recv'), c.point(), ('ch', E.P.ts(mty)))
    v = E.mk_opaque(n, mty, st)
    E.emit(st, c, 'recv', chan=E.P.ts(mty), rx=ch, val=v, rxref=prim(E, st, f[2]))
    E.emit(s2, c, 'recv', chan=E.P.ts(mty), rx=ch, val=None, rxref=prim(E, st, f[2]))
    return [(st, some(E, oty, v)), (s2, none(E, oty))]


@model('tokio::sync::mpsc::bounded::Receiver::try_recv')
def m_try_recv(E, st, c):
    mty = payload_ty(E, c.dty, 'Ok')
    n = nm(('g', c.point(), 'recv'), c.point(), ('ch', E.P.ts(mty)))
    v = E.mk_opaque(n, mty, st)
    s2 = st.copy()
    E.emit(st, c, 'recv', chan=E.P.ts(mty), rx=None, val=v, rxref=prim(E, st, c.args[0]))
    return [(st, enum(E, c.dty, 'Ok', v)), (s2, enum(E, c.dty, 'Err', c.opq(s2, payload_ty(E, c.dty, 'Err'), 'e')))]


@model('tokio::sync::mpsc::bounded::Receiver::close')
def m_rx_close(E, st, c):
    E.emit(st, c, 'rxclose', rxref=prim(E, st, c.args[0]))
    return UNIT


# ---------------------------------------------------------------- sockets
call_future('tokio::net::udp::UdpSocket::bind', 'bind')
call_future('tokio::net::udp::UdpSocket::recv_from', 'recv_from')
call_future('tokio::net::udp::UdpSocket::send_to', 'send_to')
call_future('tokio::net::udp::UdpSocket::connect', 'udpconnect')
call_future('tokio::net::udp::UdpSocket::recv', 'udprecv')


def result_alts(E, st, c, oty, okv, tag):
    s2 = st.copy()
    return [(st, enum(E, oty, 'Ok', okv)), (s2, enum(E, oty, 'Err', c.opq(s2, payload_ty(E, oty, 'Err'), tag)))]


@future('bind')
def f_bind(E, st, c, f, oty, bounded):
    E.emit(st, c, 'await', fut='bind', bounded=True)
    return result_alts(E, st, c, oty, ('O', c.fresh('udp'), payload_ty(E, oty, 'Ok')), 'binderr')


@future('udpconnect')
def f_udpc(E, st, c, f, oty, bounded):
    E.emit(st, c, 'udpconnect', sock=f[2])
    return result_alts(E, st, c, oty, UNIT, 'e')


@model('tokio::net::udp::UdpSocket::from_std', 'std::net::udp::UdpSocket::bind')
def m_from_std(E, st, c):
    return result_alts(E, st, c, c.dty, ('O', c.fresh('udp'), payload_ty(E, c.dty, 'Ok')), 'e')


@model('tokio::net::udp::UdpSocket::local_addr', 'std::net::udp::UdpSocket::local_addr')
def m_local_addr(E, st, c):
    # assumption: a bound socket always knows its local address
    t = payload_ty(E, c.dty, 'Ok')
    return enum(E, c.dty, 'Ok', E.mk_opaque(nm(('localaddr', vkey(c.args[0]))), t, st))


@model('std::net::udp::UdpSocket::set_nonblocking')
def m_set_nb(E, st, c):
    return enum(E, c.dty, 'Ok', UNIT)


@future('recv_from')
def f_recv_from(E, st, c, f, oty, bounded):
    E.emit(st, c, 'await', fut='recv_from', bounded=bounded)
    okt = payload_ty(E, oty, 'Ok')
    aty = E.P.types[okt]['a'][1]
    s2 = st.copy()
    loc, proj, off, ln = seq_ref(E, st, c, f[3])
    old = as_q(E, st, E.get(st, loc, proj))
    tot = E.seq_len(old)
    pk = nm(('g', c.point(), 'datagram'), c.point())
    lo, hi = st.rng(ln)
    n = lin(atom(('o', child(pk, 'n')), 0, min(hi, 65535)))
    if not st.add_ge(sub(ln, n)):
        return []
    rest = E.seq_slice(st, old, add(off, n), sub(sub(tot, off), n))
    new = clean(E.seq_cat(E.seq_cat(E.seq_slice(st, old, const(0), off), ('Q', (('sub', pk, const(0), n),), ())), rest))
    E.put(st, loc, proj, new)
    addr = E.mk_opaque(child(pk, 'from'), aty, st)
    E.emit(st, c, 'recvfrom', pkt=pk, n=n, addr=addr, sock=f[2], buf=loc)
    return [(st, enum(E, oty, 'Ok', ('T', (n, addr)))),
            (s2, enum(E, oty, 'Err', c.opq(s2, payload_ty(E, oty, 'Err'), 'rerr')))]


@future('udprecv')
def f_udprecv(E, st, c, f, oty, bounded):
    E.emit(st, c, 'await', fut='recv_from', bounded=bounded)
    s2 = st.copy()
    loc, proj, off, ln = seq_ref(E, st, c, f[3])
    old = as_q(E, st, E.get(st, loc, proj))
    pk = nm(('g', c.point(), 'datagram'), c.point())
    n = lin(atom(('o', child(pk, 'n')), 0, 65535))
    st.add_ge(sub(ln, n))
    rest = E.seq_slice(st, old, n, sub(ln, n))
    E.put(st, loc, proj, clean(E.seq_cat(('Q', (('sub', pk, const(0), n),), ()), rest)))
    E.emit(st, c, 'recvfrom', pkt=pk, n=n, addr=None, sock=f[2], buf=loc)
    return [(st, enum(E, oty, 'Ok', n)), (s2, enum(E, oty, 'Err', c.opq(s2, payload_ty(E, oty, 'Err'), 'rerr')))]


@future('send_to')
def f_send_to(E, st, c, f, oty, bounded):
    E.emit(st, c, 'await', fut='send_to', bounded=True)
    q = as_q(E, st, f[3])
    addr = f[4]
    for _ in range(2):
        if isinstance(addr, tuple) and addr[0] == 'R':
            addr = deref(E, st, addr)
    E.emit(st, c, 'sendto', data=q, addr=addr, sock=f[2])
    n = lin(atom(('o', c.fresh('sent')), 0, 65535, orig=c.point()))
    return result_alts(E, st, c, oty, n, 'serr')


# ---------------------------------------------------------------- addresses
def opt_ty(E, path, pred=None):
    for i in E.P.adt_types.get(path, []):
        return i
    return None


@model('core::net::socket_addr::SocketAddr::ip')
def m_sa_ip(E, st, c):
    a = deref(E, st, c.args[0])
    if a[0] == 'X' and a[1] == 'sa':
        return a[2]
    d = E.discr(st, a)
    n = a[1] if a[0] == 'O' else nm(('saip', vkey(a)))
    t = E.P.types[c.dty]
    pls = []
    for vi, v in enumerate(t['v']):
        k = 4 if v['n'] == 'V4' else 16
        pls.append((vi, (('X', 'ip%d' % k, ('Q', (('sub', child(n, 'oct%d' % k), const(0), const(k)),), ())),)))
    return ('E', c.dty, d, tuple(pls))


@model('core::net::socket_addr::SocketAddr::port')
def m_sa_port(E, st, c):
    a = deref(E, st, c.args[0])
    if a[0] == 'X' and a[1] == 'sa':
        return a[3]
    n = a[1] if a[0] == 'O' else nm(('saip', vkey(a)))
    return lin(atom(('o', child(n, 'port')), 0, 65535))


@model('core::net::socket_addr::SocketAddr::is_ipv4', 'core::net::socket_addr::SocketAddr::is_ipv6')
def m_sa_v4(E, st, c):
    a = deref(E, st, c.args[0])
    if a[0] == 'X' and a[1] == 'sa':
        d = E.discr(st, a[2])
    else:
        d = E.discr(st, a)
    return p_eq(d) if c.name.endswith('4') else p_ne(d)


@model('core::net::socket_addr::SocketAddr::new')
def m_sa_new(E, st, c):
    return ('X', 'sa', c.args[0], c.args[1])


@model('core::net::ip_addr::Ipv4Addr::new')
def m_ip4(E, st, c):
    return ('X', 'ip4', ('Q', tuple(('one', x) for x in c.args), ()))


@model('core::net::ip_addr::Ipv6Addr::new')
def m_ip6(E, st, c):
    return ('X', 'ip16', ('Q', tuple(('int', x, 2, 'B') for x in c.args), ()))


@model('core::net::ip_addr::Ipv4Addr::octets', 'core::net::ip_addr::Ipv6Addr::octets')
def m_octets(E, st, c):
    a = deref(E, st, c.args[0])
    k = 4 if 'Ipv4' in c.name else 16
    if a[0] == 'X' and a[1].startswith('ip'):
        return a[2]
    n = a[1] if a[0] == 'O' else nm(('ipx', vkey(a)))
    return ('Q', (('sub', child(n, 'oct%d' % k), const(0), const(k)),), ())


@model('<core::net::ip_addr::Ipv4Addr as core::convert::From>::from', '<core::net::ip_addr::Ipv6Addr as core::convert::From>::from')
def m_ip_from(E, st, c):
    k = 4 if 'Ipv4' in c.name else 16
    q = c.args[0]
    if isinstance(q, tuple) and q[0] == 'Q':
        return ('X', 'ip%d' % k, q)
    return c.opq(st, c.dty)


@model('<core::net::socket_addr::SocketAddr as core::cmp::PartialEq>::eq')
def m_sa_eq(E, st, c):
    return E.veq(deref(E, st, c.args[0]), deref(E, st, c.args[1]))


@model('<core::net::socket_addr::SocketAddr as core::cmp::PartialEq>::ne')
def m_sa_ne(E, st, c):
    return p_not(E.veq(deref(E, st, c.args[0]), deref(E, st, c.args[1])))


# ---------------------------------------------------------------- atomics
ATOM = 'core::sync::atomic::Atomic::'


@model(ATOM + 'new')
def m_at_new(E, st, c):
    t = E.P.types[c.dty]
    ty = t['a'][0] if t.get('a') else None
    E.record(st, c.args[0], ('at', E.P.ts(c.dty)), ty, set())
    E.emit(st, c, 'newatomic', val=c.args[0], ty=E.P.ts(ty) if ty is not None else None)
    return ('O', c.fresh('at'), c.dty)


def at_cty(E, c):
    ops = getattr(c, 'argops', None)
    if ops and ops[0][0] in ('c', 'm'):
        ty = E.place_ty(c.ctx, ops[0][1])
        if ty is not None:
            t = E.P.types[ty]
            if t['k'] in ('ref', 'ptr'):
                t = E.P.types[t['t']]
            if t.get('a'):
                return t['a'][0]
    for x in c.obj.get('a', []):
        if isinstance(x, int):
            return x
    return c.dty


def at_key(E, c):
    return ('at', 'std::sync::atomic::Atomic<%s>' % E.P.ts(at_cty(E, c)))


@model(ATOM + 'load')
def m_at_load(E, st, c):
    n = nm(('g', c.point(), 'load'), c.point(), at_key(E, c))
    v = E.mk_opaque(n, c.dty, st)
    E.emit(st, c, 'aload', prim=prim(E, st, c.args[0]), val=v, ty=E.P.ts(c.dty))
    return v


@model(ATOM + 'store')
def m_at_store(E, st, c):
    ty = at_cty(E, c)
    E.record(st, c.args[1], at_key(E, c), ty, set())
    E.emit(st, c, 'astore', prim=prim(E, st, c.args[0]), val=c.args[1], ty=E.P.ts(ty))
    return UNIT


@model(ATOM + 'swap', ATOM + 'fetch_add', ATOM + 'fetch_sub', ATOM + 'fetch_or', ATOM + 'fetch_and', ATOM + 'fetch_max', ATOM + 'fetch_min')
def m_at_rmw(E, st, c):
    ty = at_cty(E, c)
    n = nm(('g', c.point(), 'load'), c.point(), at_key(E, c))
    v = E.mk_opaque(n, c.dty, st)
    how = c.name.split('::')[-1]
    if how in ('swap', 'fetch_or', 'fetch_and', 'fetch_max', 'fetch_min') and how == 'swap':
        E.record(st, c.args[1], at_key(E, c), ty, set())
    elif E.P.is_int(ty):
        lo, hi = E.P.irange(ty)
        E.rec_int(at_key(E, c), lo, hi)
    else:
        E.rec_bool(at_key(E, c), None)
    E.emit(st, c, 'astore', prim=prim(E, st, c.args[0]), val=None, ty=E.P.ts(ty))
    return v


# ---------------------------------------------------------------- time
@model('core::time::Duration::from_millis')
def m_dur_ms(E, st, c):
    return ('X', 'dur', c.args[0])


@model('core::time::Duration::from_secs')
def m_dur_s(E, st, c):
    return ('X', 'dur', scale(c.args[0], 1000))


@model('core::time::Duration::as_millis')
def m_as_ms(E, st, c):
    d = deref(E, st, c.args[0])
    if d[0] == 'X' and d[1] == 'dur':
        return d[2]
    n = d[1] if d[0] == 'O' else c.fresh('dur')
    # assumption: the clock is within 2^60 ms of the epoch
    return lin(atom(('o', child(n, 'ms')), 0, (1 << 60)))


@model('core::time::Duration::as_secs', 'core::time::Duration::as_micros', 'core::time::Duration::as_nanos')
def m_as_s(E, st, c):
    d = deref(E, st, c.args[0])
    n = d[1] if d[0] == 'O' else c.fresh('dur')
    return lin(atom(('o', child(n, c.name.split('::')[-1])), 0, (1 << 60)))


@model('std::time::SystemTime::now', 'std::time::Instant::now', 'tokio::time::instant::Instant::now')
def m_now(E, st, c):
    n = c.fresh('now')
    E.emit(st, c, 'now', name=n)
    return ('O', n, c.dty)


@model('std::time::SystemTime::duration_since', 'std::time::SystemTime::elapsed')
def m_since(E, st, c):
    # assumption: the system clock is not before the Unix epoch
    ok = payload_ty(E, c.dty, 'Ok')
    v = deref(E, st, c.args[0])
    n = v[1] if v[0] == 'O' else c.fresh('since')
    return enum(E, c.dty, 'Ok', ('O', child(n, 'since'), ok))


# ---------------------------------------------------------------- rand
@model('rand::random')
def m_random(E, st, c):
    v = c.opq(st, c.dty, 'rand')
    E.emit(st, c, 'random', val=v)
    return v


@model('rand::rngs::thread::thread_rng')
def m_trng(E, st, c):
    return ('O', c.fresh('rng'), c.dty)


@model('rand::rng::Rng::gen_range')
def m_gen_range(E, st, c):
    r = range_of(E, st, c.args[1], None)
    if r is None or not isinstance(r[0], Lin) or not isinstance(r[1], Lin):
        v = c.opq(st, c.dty, 'rand')
        E.emit(st, c, 'random', val=v)
        return v
    lo, hi = r
    good = p_ge(addc(sub(hi, lo), -1))
    E.oblige(c.ctx, c.bb, 'gen_range', st.implies(good), 'range %s..%s' % (E.vs(st, lo), E.vs(st, hi)), st=st)
    if not st.assume(good):
        return None
    a, b = st.rng(lo)[0], st.rng(hi)[1] - 1
    v = lin(atom(('o', c.fresh('rand')), a, b, orig=c.point()))
    st.add_ge(sub(v, lo))
    st.add_ge(addc(sub(hi, v), -1))
    E.emit(st, c, 'random', val=v, lo=lo, hi=hi)
    return v


M['rand::rng::Rng::random_range'] = m_gen_range
M['rand::rng::Rng::gen'] = m_random
