"""Semantics of the library functions the analysed crate calls.

Each entry maps the library function's generic path to its effect on terms.
Anything not listed here is analysed from its own MIR, or treated as unknown."""
import re
from terms import *
from values import *
from facts import Facts

N = {}
RX = []

def nat(*paths):
    def d(fn):
        for p in paths:
            N[p] = fn
        return fn
    return d

def natrx(*pats):
    def d(fn):
        for p in pats:
            RX.append((re.compile(p), fn))
        return fn
    return d

_lk = {}
def lookup(I_, f):
    p = f['p']
    if f['local']:
        return local_native(I_, f)
    r = _lk.get(p, 0)
    if r == 0:
        r = N.get(p)
        if r is None:
            for rx, fn in RX:
                if rx.search(p):
                    r = fn
                    break
        _lk[p] = r
    return r

def local_native(I_, f):
    p = f['p']
    if I_.structural:
        if p.endswith(' as std::clone::Clone>::clone'):
            return n_clone
        if p.endswith(' as std::cmp::PartialEq>::eq') and f.get('argc') == 2:
            return n_eq
        if p.endswith(' as std::cmp::PartialEq>::ne') and f.get('argc') == 2:
            return n_ne
    return None

# ---------------------------------------------------------------- helpers
def val(I_, st, a):
    """value behind a reference argument"""
    if a.op == 'tab':
        a = tab_filter(a, st.facts)
    if a.op == 'vref' or a.op == 'box':
        return a.a[0]
    if a.op == 'ref':
        return I_.read_loc(st, a.a[0], a.a[1])
    if a.op == 'bptr':
        return a.a[0].a[0]
    if a.op == 'tab':
        return tab_map(a, lambda x: val(I_, st, x))
    raise Undecided('reference is %s' % a.op)

def deep(I_, st, a, n=1):
    v = val(I_, st, a)
    while v.op in ('vref', 'ref'):
        v = val(I_, st, v)
    return v

def put(I_, st, a, v):
    if a.op != 'ref':
        raise Undecided('store through %s' % a.op)
    I_.write_loc(st, a.a[0], a.a[1], v)

def ret_ty(f):
    if 'locals' in f:
        return f['locals'][0]
    return f['ret']

def mk_opt(I_, ty, v):
    if v is None:
        return mk('agg', ty, 0, ())
    return mk('agg', ty, 1, (v,))

def ok_unit(I_, ty):
    t = I_.M.types[ty]
    return mk('agg', ty, 0, (mk('agg', t['g'][0], 0, ()),))

def unit(I_, f):
    return mk('agg', ret_ty(f), 0, ())

PANICS = re.compile(r'^(core|std)::panicking::|^std::rt::(begin_panic|panic_fmt|panic_display)|::(unwrap_failed|expect_failed)$|slice_index_fail|slice_(start|end)_index|slice_index_order_fail|panic_bounds_check|capacity_overflow|handle_alloc_error|^alloc::raw_vec::handle_error|len_mismatch_fail|^std::process::abort|panic_const')
def is_panic(p, ip):
    if p in ('core::panicking::panic_nounwind',):
        return True
    return bool(PANICS.search(p)) or bool(ip and PANICS.search(ip))

def oblige(I_, st, f, kind, cond):
    """obligation cond; returns False when it cannot hold (state dead)"""
    key = (I_.where(), kind, I_.cur_line)
    I_.obligations += 1
    I_.oblist.setdefault(key, True)
    r = st.facts.decide(cond)
    if r is True:
        I_.discharged += 1
        return True
    I_.oblist[key] = False
    I_.panic(I_.where(), kind, I_.cur_line, st, cond)
    if r is False:
        return False
    return st.assume(cond, True)

# ---------------------------------------------------------------- equality
def objfields(I_, v, vi):
    t = I_.M.types[v.a[0]]
    return tuple(opq(I_.M, f[1], mk('fld', v.a[1], vi, j)) for j, f in enumerate(t['v'][vi]['f']))

def val_eq(I_, st, a, b, depth=0):
    """structural equality as a condition"""
    if a is b:
        return TRUE
    for _ in range(4):
        if a.op in ('vref', 'ref', 'box'):
            a = val(I_, st, a)
        if b.op in ('vref', 'ref', 'box'):
            b = val(I_, st, b)
    if a is b:
        return TRUE
    if a.op == 'tab':
        a = tab_filter(a, st.facts)
    if b.op == 'tab':
        b = tab_filter(b, st.facts)
    if a.op == 'tab':
        return mk_tabcond(a.a[0], [(s, val_eq(I_, st, v, b, depth + 1)) for s, v in a.a[1]])
    if b.op == 'tab':
        return mk_tabcond(b.a[0], [(s, val_eq(I_, st, a, v, depth + 1)) for s, v in b.a[1]])
    if I_.intlike(a) and I_.intlike(b):
        if (a.op in BOOLOPS or b.op in BOOLOPS) and not (is_int(a) and is_int(b)):
            x, y = truth(a), truth(b)
            if is_int(y):
                return x if y is TRUE else bnot(x)
            if is_int(x):
                return y if x is TRUE else bnot(y)
            return bor(band(x, y), band(bnot(x), bnot(y)))
        return cmp_eq(a, b)
    if a.op == 'agg' and b.op == 'agg':
        if a.a[1] != b.a[1]:
            return FALSE
        return band(*[val_eq(I_, st, x, y, depth + 1) for x, y in zip(a.a[2], b.a[2])])
    if a.op == 'obj' and b.op == 'agg':
        a, b = b, a
    if a.op == 'agg' and b.op == 'obj':
        t = I_.M.types[b.a[0]]
        if t['k'] == 'adt' and t['a'] == 'enum':
            vi = a.a[1]
            c = mk_in(mk('discr', b, len(t['v'])), ((vi, vi),))
            fs = objfields(I_, b, vi)
            return band(c, *[val_eq(I_, st, x, y, depth + 1) for x, y in zip(a.a[2], fs)])
    if a.op in ('seq', 'view') and b.op in ('seq', 'view'):
        n = cmp_eq(seq_len(a), seq_len(b))
        if n is FALSE:
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'seq' and not x.a[1]:
                return cmp_eq(seq_len(y), I(0))
        if a.op == 'seq' and b.op == 'seq' and all(p.op == 'lit' for p in a.a[1] + b.a[1]):
            return band(*[val_eq(I_, st, p.a[0], q.a[0], depth + 1) for p, q in zip(a.a[1], b.a[1])])
    if a.op == 'str' and b.op == 'str':
        x, y = const_str(a), const_str(b)
        if x is not None and y is not None:
            return TRUE if x == y else FALSE
    lo, hi = sorted((a, b), key=lambda t: t.id)
    return mk_in(mk('iv', mk('eqv', lo, hi), 0, 1), ((1, 1),))

def mk_tabcond(x, cases):
    return bor(*[band(mk_in(x, s), c) for s, c in cases])

def n_eq(I_, st, f, args):
    return [(st, val_eq(I_, st, args[0], args[1]))]

def n_ne(I_, st, f, args):
    return [(st, bnot(truth(val_eq(I_, st, args[0], args[1]))))]

nat('<std::option::Option<T> as std::cmp::PartialEq>::eq',
    '<std::string::String as std::cmp::PartialEq>::eq',
    'std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq',
    '<std::boxed::Box<T, A> as std::cmp::PartialEq>::eq')(lambda *a: eq_dispatch(*a))
natrx(r'^std::string::<impl std::cmp::PartialEq<.*>::eq$', r'^std::vec::partial_eq::.*::eq$',
      r'^core::str::traits::<impl std::cmp::PartialEq for str>::eq$', r'^std::slice::cmp::<impl .*PartialEq.*>::eq$',
      r'^core::slice::cmp::<impl .*PartialEq.*>::eq$', r'^std::array::equality::.*::eq$', r'^core::tuple::<impl std::cmp::PartialEq for \(.*\)>::eq$',
      r'^<std::result::Result<T, E> as std::cmp::PartialEq>::eq$')(lambda *a: eq_dispatch(*a))
natrx(r'^std::string::<impl std::cmp::PartialEq<.*>::ne$', r'^std::vec::partial_eq::.*::ne$',
      r'^std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::ne$', r'^std::slice::cmp::<impl .*PartialEq.*>::ne$',
      r'^<std::option::Option<T> as std::cmp::PartialEq>::ne$')(lambda *a: ne_dispatch(*a))

def eq_dispatch(I_, st, f, args):
    if I_.structural:
        return n_eq(I_, st, f, args)
    return I_.eq_sites(st, f, args)

def ne_dispatch(I_, st, f, args):
    if I_.structural:
        return n_ne(I_, st, f, args)
    return [(s, bnot(truth(v))) for s, v in I_.eq_sites(st, f, args)]

@nat('std::cmp::PartialEq::ne')
def n_pne(I_, st, f, args):
    if I_.structural:
        return n_ne(I_, st, f, args)
    t = I_.M.types[f['bb'][0][1][1][1]['t']]
    return [(s, bnot(truth(v))) for s, v in I_.run_fn(t['inst'], args, st)]

# ---------------------------------------------------------------- clone & conversions
def n_clone(I_, st, f, args):
    v = val(I_, st, args[0])
    return [(st, v)]

natrx(r'^std::clone::impls::<impl std::clone::Clone for .*>::clone$')(n_clone)

@natrx(r'^<std::.* as std::clone::Clone>::clone$', r'^core::.*<impl std::clone::Clone for .*>::clone$')
def n_clone2(I_, st, f, args):
    if not I_.structural:
        return I_.clone_sites(st, f, args)
    return n_clone(I_, st, f, args)

@nat('<T as std::convert::From<T>>::from', '<I as std::iter::IntoIterator>::into_iter', 'std::hint::must_use',
     'std::convert::identity', 'std::hint::black_box')
def n_id(I_, st, f, args):
    return [(st, args[0])]

@nat('<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::rc::Rc<T, A> as std::ops::Deref>::deref',
     '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref',
     '<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow')
def n_boxref(I_, st, f, args):
    v = val(I_, st, args[0])
    if v.op == 'tab':
        return [(st, tab_map(v, lambda x: mk('vref', val(I_, st, x))))]
    return [(st, mk('vref', val(I_, st, v)))]

@nat('<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut', '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut')
def n_boxmut(I_, st, f, args):
    a = args[0]
    if a.op != 'ref':
        raise Undecided('deref_mut')
    return [(st, mk('ref', a.a[0], a.a[1] + ('*',)))]

@nat('std::boxed::Box::<T>::new', 'std::rc::Rc::<T>::new')
def n_boxnew(I_, st, f, args):
    return [(st, mk('box', args[0]))]

@nat('std::boxed::Box::<T>::new_uninit')
def n_uninit(I_, st, f, args):
    return [(st, mk('box', UNDEF))]

@nat('std::boxed::box_assume_init_into_vec_unsafe')
def n_boxvec(I_, st, f, args):
    v = args[0]
    while v.op != 'seq':
        if v.op == 'box':
            v = v.a[0]
        elif v.op == 'uni':
            v = v.a[2]
        elif v.op == 'agg' and len(v.a[2]) == 1:
            v = v.a[2][0]
        else:
            raise Undecided('vec! content is %s' % v.op)
    return [(st, v)]

@natrx(r'^std::slice::<impl \[T\]>::into_vec$', r'^alloc::slice::<impl \[T\]>::into_vec$')
def n_into_vec(I_, st, f, args):
    return n_boxvec(I_, st, f, args)

@natrx(r'^std::slice::<impl \[T\]>::to_vec$', r'^std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned$')
def n_to_vec(I_, st, f, args):
    return [(st, val(I_, st, args[0]))]

@nat('<bool as std::default::Default>::default')
def n_dbool(I_, st, f, args):
    return [(st, FALSE)]

@natrx(r'^<(u8|u16|u32|u64|usize|i32|i64) as std::default::Default>::default$')
def n_dint(I_, st, f, args):
    return [(st, I(0))]

@nat('<std::option::Option<T> as std::default::Default>::default')
def n_dopt(I_, st, f, args):
    return [(st, mk_opt(I_, ret_ty(f), None))]

# ---------------------------------------------------------------- integers
@nat('std::cmp::min', 'std::cmp::Ord::min', 'std::intrinsics::integer_min', 'core::intrinsics::integer_min')
def n_min(I_, st, f, args):
    return minmax(I_, st, args, True)

@nat('std::cmp::max', 'std::cmp::Ord::max', 'std::intrinsics::integer_max', 'core::intrinsics::integer_max')
def n_max(I_, st, f, args):
    return minmax(I_, st, args, False)

def minmax(I_, st, args, mn):
    a, b = args
    # where both are equal, the one that is a number is named
    c = cmp_lt(a, b) if is_int(b) else cmp_le(a, b)
    out = []
    for v, w in ((True, a if mn else b), (False, b if mn else a)):
        s = st.fork()
        if s.assume(c, v):
            out.append((s, w))
    return out

@nat('std::mem::size_of')
def n_size_of(I_, st, f, args):
    t = I_.M.types[f['g'][0]]
    if 'sz' in t:
        return [(st, I(t['sz']))]
    return [(st, mk('iv', mk('sizeof', t['n_']), 0, CAPMAX))]

@natrx(r'^<magmaflow::byteorder::(Big|Little)Endian as magmaflow::byteorder::ByteOrder>::read_u(16|32|64)$',
       r'^<byteorder::(Big|Little)Endian as byteorder::ByteOrder>::read_u(16|32|64)$')
def n_read_u(I_, st, f, args):
    m = re.search(r'(Big|Little)Endian.*read_u(\d+)$', f['p'])
    n = int(m.group(2)) // 8
    s = val(I_, st, args[0])
    if not oblige(I_, st, f, 'read_u%d needs %d bytes' % (n * 8, n), cmp_le(I(n), seq_len(s))):
        return []
    bs = []
    for i in range(n):
        e = elem(I_.M, s, I(i), st.facts)
        if e is None:
            e = opq(I_.M, ety(s), mk('elem', s, I(i)))
        bs.append(e)
    if m.group(1) == 'Big':
        bs.reverse()
    return [(st, bytes_word(bs))]

def bytes_word(bs):
    segs = []
    for b in bs:
        if is_int(b):
            segs.append((8, None, b.a[0]))
        else:
            q = bits_of(b, 8)
            if q is None:
                raise Undecided('byte')
            segs += q
    return from_bits(segs)

@natrx(r'^core::num::<impl u(16|32|64)>::from_(le|be)_bytes$')
def n_from_bytes(I_, st, f, args):
    m = re.search(r'from_(le|be)_bytes', f['p'])
    s = args[0]
    n = I_.M.types[f['locals'][1]]['n']
    bs = [elem(I_.M, s, I(i), st.facts) for i in range(n)]
    if any(b is None for b in bs):
        raise Undecided('from_bytes')
    if m.group(1) == 'be':
        bs.reverse()
    return [(st, bytes_word(bs))]

@natrx(r'^core::num::<impl u(16|32|64)>::swap_bytes$')
def n_swap(I_, st, f, args):
    n = I_.M.types[ret_ty(f)]['w']
    segs = bits_of(args[0], n)
    if segs is None:
        raise Undecided('swap_bytes')
    x = args[0]
    if x.op == 'word' and n == 32:
        return [(st, mk('word', x.a[0], x.a[1], 'be' if x.a[2] == 'le' else 'le'))]
    out = []
    for i in range(n // 8 - 1, -1, -1):
        out += seg_range(segs, 8 * i, 8)
    return [(st, from_bits(out))]

@natrx(r'^core::num::<impl u(16|32|64)>::to_(le|ne)_bytes$')
def n_to_bytes(I_, st, f, args):
    n = I_.M.types[f['locals'][1]]['w']
    segs = bits_of(args[0], n)
    if segs is None:
        raise Undecided('to_bytes')
    u8 = I_.M.types[ret_ty(f)]['e']
    return [(st, seq(u8, [mk('lit', from_bits(seg_range(segs, 8 * i, 8))) for i in range(n // 8)]))]

@natrx(r'^core::num::<impl u(16|32|64)>::to_be_bytes$')
def n_to_be(I_, st, f, args):
    n = I_.M.types[f['locals'][1]]['w']
    segs = bits_of(args[0], n)
    if segs is None:
        raise Undecided('to_bytes')
    u8 = I_.M.types[ret_ty(f)]['e']
    return [(st, seq(u8, [mk('lit', from_bits(seg_range(segs, 8 * i, 8))) for i in range(n // 8 - 1, -1, -1)]))]

def checked(op):
    def g(I_, st, f, args):
        lo, hi = int_range(I_.M.types[f['locals'][1]])
        v = I_.arith(st, op, args[0], args[1])
        if v is None:
            raise Undecided('checked')
        c = band(cmp_le(I(lo), v), cmp_le(v, I(hi)))
        out = []
        s = st.fork()
        if s.assume(c, True):
            out.append((s, mk_opt(I_, ret_ty(f), v)))
        s = st.fork()
        if s.assume(c, False):
            out.append((s, mk_opt(I_, ret_ty(f), None)))
        return out
    return g
for _o in ('Add', 'Sub', 'Mul'):
    natrx(r'^core::num::<impl (u|i)\w+>::checked_%s$' % _o.lower())(checked(_o))

@natrx(r'^core::num::<impl (u)\w+>::saturating_sub$')
def n_satsub(I_, st, f, args):
    out = []
    c = cmp_le(args[1], args[0])
    s = st.fork()
    if s.assume(c, True):
        out.append((s, sub(args[0], args[1])))
    s = st.fork()
    if s.assume(c, False):
        out.append((s, I(0)))
    return out

def wrapping(op):
    def g(I_, st, f, args):
        return [(st, I_.binop(st, op, args[0], args[1], f['locals'][1]))]
    return g
for _o in ('Add', 'Sub', 'Mul'):
    natrx(r'^core::num::<impl (u|i)\w+>::wrapping_%s$' % _o.lower())(wrapping(_o))

@natrx(r'^core::convert::num::<impl std::convert::From<\w+> for \w+>::from$', r'^std::convert::num::<impl std::convert::From<\w+> for \w+>::from$')
def n_fromint(I_, st, f, args):
    return [(st, args[0])]

@natrx(r'^std::cmp::impls::<impl std::cmp::PartialEq for \w+>::(eq|ne)$')
def n_inteq(I_, st, f, args):
    c = val_eq(I_, st, args[0], args[1])
    return [(st, c if f['p'].endswith('eq') else bnot(c))]

@natrx(r'^std::cmp::impls::<impl std::cmp::PartialOrd for \w+>::(lt|le|gt|ge)$')
def n_intord(I_, st, f, args):
    x, y = deep(I_, st, args[0]), deep(I_, st, args[1])
    k = f['p'][-2:]
    c = {'lt': cmp_lt(x, y), 'le': cmp_le(x, y), 'gt': cmp_lt(y, x), 'ge': cmp_le(y, x)}[k]
    return [(st, c)]

# ---------------------------------------------------------------- sequences
@nat('core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len')
def n_len(I_, st, f, args):
    return [(st, vlen(I_, st, args[0]))]

def vlen(I_, st, a):
    v = val(I_, st, a)
    if v.op in ('seq', 'view'):
        return seq_len(v)
    if v.op == 'tab':
        return tab_map(v, seq_len)
    raise Undecided('len of %s' % v.op)

@nat('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty')
def n_isempty(I_, st, f, args):
    n = vlen(I_, st, args[0])
    if n.op == 'tab':
        return [(st, tab_map(n, lambda x: cmp_eq(x, I(0))))]
    return [(st, cmp_eq(n, I(0)))]

@nat('<std::vec::Vec<T, A> as std::ops::Deref>::deref', 'std::vec::Vec::<T, A>::as_slice',
     '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def n_vderef(I_, st, f, args):
    a = args[0]
    return [(st, mk('vref', val(I_, st, a)))]

@nat('<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_mut_slice')
def n_vderefm(I_, st, f, args):
    return [(st, args[0])]

def bad_index(I_, st, f, what, c):
    return oblige(I_, st, f, what, c)

@nat('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
     'std::array::<impl std::ops::Index<I> for [T; N]>::index')
def n_index(I_, st, f, args):
    return index(I_, st, f, val(I_, st, args[0]), args[1])

@nat('<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def n_indexm(I_, st, f, args):
    a, i = args
    s = val(I_, st, a)
    if not I_.intlike(i):
        raise Undecided('index_mut range')
    if not oblige(I_, st, f, 'index out of bounds', cmp_lt(i, seq_len(s))):
        return []
    if a.op != 'ref':
        raise Undecided('index_mut')
    return [(st, mk('ref', a.a[0], a.a[1] + (('i', i),)))]

def rng(I_, s, r):
    """(lo, hi) of a range value over sequence s"""
    n = seq_len(s)
    if r.op != 'agg':
        return None
    p = I_.M.types[r.a[0]]['p']
    if p == 'std::ops::Range':
        return r.a[2][0], r.a[2][1]
    if p == 'std::ops::RangeFrom':
        return r.a[2][0], n
    if p == 'std::ops::RangeTo':
        return I(0), r.a[2][0]
    if p == 'std::ops::RangeFull':
        return I(0), n
    if p == 'std::ops::RangeToInclusive':
        return I(0), add(r.a[2][0], I(1))
    return None

def index(I_, st, f, s, i):
    if s.op == 'tab':
        raise Undecided('index of table')
    if I_.intlike(i):
        if not oblige(I_, st, f, 'index out of bounds', cmp_lt(i, seq_len(s))):
            return []
        return [(st, mk('vref', getelem(I_, st, s, i)))]
    r = rng(I_, s, i)
    if r is None:
        raise Undecided('index by %s' % i.op)
    lo, hi = r
    if not oblige(I_, st, f, 'slice range reversed', cmp_le(lo, hi)):
        return []
    if not oblige(I_, st, f, 'slice range out of bounds', cmp_le(hi, seq_len(s))):
        return []
    return [(st, mk('vref', view(s, lo, hi)))]

def getelem(I_, st, s, i):
    e = elem(I_.M, s, i, st.facts)
    if e is None:
        e = opq(I_.M, ety(s), mk('elem', s, i))
    return e

def forked(st, c):
    out = []
    for v in (True, False):
        s = st.fork()
        if s.assume(c, v):
            out.append((s, v))
    return out

@nat('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def n_get(I_, st, f, args):
    s, i = val(I_, st, args[0]), args[1]
    if f['p'].endswith('_mut'):
        raise Undecided('get_mut')
    out = []
    if I_.intlike(i):
        for q, v in forked(st, cmp_lt(i, seq_len(s))):
            out.append((q, mk_opt(I_, ret_ty(f), mk('vref', getelem(I_, q, s, i)) if v else None)))
        return out
    r = rng(I_, s, i)
    if r is None:
        raise Undecided('get range')
    c = band(cmp_le(r[0], r[1]), cmp_le(r[1], seq_len(s)))
    for q, v in forked(st, c):
        out.append((q, mk_opt(I_, ret_ty(f), mk('vref', view(s, r[0], r[1])) if v else None)))
    return out

@nat('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def n_first(I_, st, f, args):
    s = val(I_, st, args[0])
    out = []
    for q, v in forked(st, cmp_lt(I(0), seq_len(s))):
        i = I(0) if f['p'].endswith('first') else sub(seq_len(s), I(1))
        out.append((q, mk_opt(I_, ret_ty(f), mk('vref', getelem(I_, q, s, i)) if v else None)))
    return out

@nat('core::slice::<impl [T]>::split_at')
def n_split_at(I_, st, f, args):
    s, i = val(I_, st, args[0]), args[1]
    if not oblige(I_, st, f, 'split_at out of bounds', cmp_le(i, seq_len(s))):
        return []
    return [(st, mk('agg', ret_ty(f), 0, (mk('vref', view(s, I(0), i)), mk('vref', view(s, i, seq_len(s))))))]

@nat('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def n_split_first(I_, st, f, args):
    s = val(I_, st, args[0])
    ty = ret_ty(f)
    tup = I_.M.types[ty]['g'][0]
    out = []
    for q, v in forked(st, cmp_lt(I(0), seq_len(s))):
        if not v:
            out.append((q, mk_opt(I_, ty, None)))
        elif f['p'].endswith('first'):
            out.append((q, mk_opt(I_, ty, mk('agg', tup, 0, (mk('vref', getelem(I_, q, s, I(0))), mk('vref', view(s, I(1), seq_len(s))))))))
        else:
            n = sub(seq_len(s), I(1))
            out.append((q, mk_opt(I_, ty, mk('agg', tup, 0, (mk('vref', getelem(I_, q, s, n)), mk('vref', view(s, I(0), n)))))))
    return out

@nat('std::vec::Vec::<T>::new')
def n_vnew(I_, st, f, args):
    return [(st, seq(I_.M.types[ret_ty(f)]['g'][0], []))]

@nat('<std::vec::Vec<T> as std::default::Default>::default')
def n_vdef(I_, st, f, args):
    return n_vnew(I_, st, f, args)

@nat('std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::reserve')
def n_vcap(I_, st, f, args):
    ety_ = f['g'][0]
    sz = max(1, I_.M.types[ety_].get('sz', 1))
    n = args[-1]
    if not oblige(I_, st, f, 'capacity overflow', cmp_le(scale(n, sz), I(CAPMAX))):
        return []
    I_.allocs.append((I_.where(), n, sz))
    if f['p'].endswith('reserve'):
        return [(st, unit(I_, f))]
    return [(st, seq(ety_, []))]

@nat('std::vec::Vec::<T, A>::push')
def n_push(I_, st, f, args):
    v = val(I_, st, args[0])
    if v.op == 'view':
        raise Undecided('push to view')
    st = st.fork()
    put(I_, st, args[0], seq(v.a[0], v.a[1] + (mk('lit', args[1]),)))
    return [(st, unit(I_, f))]

@nat('std::vec::Vec::<T, A>::append')
def n_append(I_, st, f, args):
    a, b = val(I_, st, args[0]), val(I_, st, args[1])
    st = st.fork()
    put(I_, st, args[0], cat(a, b))
    put(I_, st, args[1], seq(ety(b), []))
    return [(st, unit(I_, f))]

@nat('std::vec::Vec::<T, A>::extend_from_slice')
def n_extend(I_, st, f, args):
    a, b = val(I_, st, args[0]), val(I_, st, args[1])
    st = st.fork()
    put(I_, st, args[0], cat(a, b))
    return [(st, unit(I_, f))]

def cat(a, b):
    if a.op == 'view':
        raise Undecided('append to view')
    if b.op == 'view':
        return seq(a.a[0], a.a[1] + (mk('sub', b),))
    return seq(a.a[0], a.a[1] + b.a[1])

@nat('std::vec::Vec::<T, A>::pop')
def n_pop(I_, st, f, args):
    v = val(I_, st, args[0])
    ty = ret_ty(f)
    if v.op == 'seq' and not v.a[1]:
        return [(st, mk_opt(I_, ty, None))]
    if v.op == 'seq' and v.a[1][-1].op == 'lit':
        st = st.fork()
        x = v.a[1][-1].a[0]
        put(I_, st, args[0], seq(v.a[0], v.a[1][:-1]))
        return [(st, mk_opt(I_, ty, x))]
    out = []
    n = seq_len(v)
    for q, b in forked(st, cmp_lt(I(0), n)):
        if not b:
            out.append((q, mk_opt(I_, ty, None)))
        else:
            q = q.fork()
            x = getelem(I_, q, v, sub(n, I(1)))
            put(I_, q, args[0], view(v, I(0), sub(n, I(1))))
            out.append((q, mk_opt(I_, ty, x)))
    return out

@nat('std::vec::Vec::<T, A>::clear')
def n_clear(I_, st, f, args):
    v = val(I_, st, args[0])
    st = st.fork()
    put(I_, st, args[0], seq(ety(v), []))
    return [(st, unit(I_, f))]

def vparts(s):
    """the parts of a sequence or of a part of one"""
    if s.op == 'view':
        return (mk('sub', s),)
    if s.op != 'seq':
        raise Undecided('parts')
    return s.a[1]

@nat('std::vec::Vec::<T, A>::insert')
def n_vinsert(I_, st, f, args):
    v = val(I_, st, args[0])
    n = seq_len(v)
    st = st.fork()
    if not oblige(I_, st, f, 'insertion index', cmp_le(args[1], n)):
        return []
    out = []
    for q, b in forked(st, cmp_eq(args[1], n)):
        q = q.fork()
        if b:
            w = seq(ety(v), vparts(v) + (mk('lit', args[2]),))
        else:
            w = seq(ety(v), vparts(view(v, I(0), args[1])) + (mk('lit', args[2]),) + vparts(view(v, args[1], n)))
        put(I_, q, args[0], w)
        out.append((q, unit(I_, f)))
    return out

@nat('std::vec::Vec::<T, A>::remove')
def n_vremove(I_, st, f, args):
    v = val(I_, st, args[0])
    n = seq_len(v)
    st = st.fork()
    if not oblige(I_, st, f, 'removal index', cmp_lt(args[1], n)):
        return []
    x = getelem(I_, st, v, args[1])
    put(I_, st, args[0], seq(ety(v), vparts(view(v, I(0), args[1])) + vparts(view(v, add(args[1], I(1)), n))))
    return [(st, x)]

@nat('std::vec::Vec::<T, A>::truncate')
def n_vtrunc(I_, st, f, args):
    v = val(I_, st, args[0])
    n = seq_len(v)
    out = []
    for q, b in forked(st, cmp_lt(args[1], n)):
        if b:
            q = q.fork()
            put(I_, q, args[0], seq(ety(v), vparts(view(v, I(0), args[1]))))
        out.append((q, unit(I_, f)))
    return out

@nat('std::vec::Vec::<T, A>::split_off')
def n_vsplit(I_, st, f, args):
    v = val(I_, st, args[0])
    n = seq_len(v)
    st = st.fork()
    if not oblige(I_, st, f, 'split index', cmp_le(args[1], n)):
        return []
    put(I_, st, args[0], seq(ety(v), vparts(view(v, I(0), args[1]))))
    return [(st, seq(ety(v), vparts(view(v, args[1], n))))]

@nat('std::vec::Vec::<T, A>::reverse', 'core::slice::<impl [T]>::reverse')
def n_reverse(I_, st, f, args):
    v = val(I_, st, args[0])
    if v.op != 'seq':
        raise Undecided('reverse')
    ps = []
    for p in v.a[1][::-1]:
        if p.op == 'lit':
            ps.append(p)
        elif p.op == 'gen':
            ps.append(mk('gen', p.a[0], p.a[1], tuple(subst(x, {p.a[0]: sub(sub(p.a[1], I(1)), p.a[0])}) for x in p.a[2][::-1])))
        elif p.op == 'sq':
            n = part_len(p)
            b = bv(1 + maxlevel(p))
            ps.append(mk('gen', b, n, (opq(I_.M, v.a[0], mk('elem', p, sub(sub(n, I(1)), b))),)))
        else:
            raise Undecided('reverse')
    st = st.fork()
    put(I_, st, args[0], seq(v.a[0], tuple(ps)))
    return [(st, unit(I_, f))]

# ---- iterators: siter(seq, i, n, mode)
def siter(s, i, n, mode):
    return mk('siter', s, i, n, mode)

@nat("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
     "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
     "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
     'core::slice::<impl [T]>::iter')
def n_iter(I_, st, f, args):
    s = val(I_, st, args[0])
    if s.op == 'tab':
        raise Undecided('iterate over table')
    return [(st, siter(s, I(0), seq_len(s), 'ref'))]

@nat('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def n_viter(I_, st, f, args):
    s = args[0]
    if s.op == 'tab':
        raise Undecided('iterate over table')
    return [(st, siter(s, I(0), seq_len(s), 'val'))]

def it_item(I_, st, it, i):
    e = getelem(I_, st, it.a[0], i)
    return mk('vref', e) if it.a[3] == 'ref' else e

@nat("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next',
     '<std::array::IntoIter<T, N> as std::iter::Iterator>::next')
def n_next(I_, st, f, args):
    it = val(I_, st, args[0])
    if it.op != 'siter':
        raise Undecided('iterator is %s' % it.op)
    out = []
    for q, b in forked(st, cmp_lt(it.a[1], it.a[2])):
        if b:
            q = q.fork()
            x = it_item(I_, q, it, it.a[1])
            put(I_, q, args[0], siter(it.a[0], add(it.a[1], I(1)), it.a[2], it.a[3]))
            out.append((q, mk_opt(I_, ret_ty(f), x)))
        else:
            out.append((q, mk_opt(I_, ret_ty(f), None)))
    return out

@nat("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", '<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back')
def n_next_back(I_, st, f, args):
    it = val(I_, st, args[0])
    if it.op != 'siter':
        raise Undecided('iterator is %s' % it.op)
    out = []
    for q, b in forked(st, cmp_lt(it.a[1], it.a[2])):
        if b:
            q = q.fork()
            e = sub(it.a[2], I(1))
            x = it_item(I_, q, it, e)
            put(I_, q, args[0], siter(it.a[0], it.a[1], e, it.a[3]))
            out.append((q, mk_opt(I_, ret_ty(f), x)))
        else:
            out.append((q, mk_opt(I_, ret_ty(f), None)))
    return out

@natrx(r"^<std::(slice::Iter|vec::IntoIter|array::IntoIter)<.* as std::iter::Iterator>::nth$")
def n_nth(I_, st, f, args):
    it = val(I_, st, args[0])
    if it.op != 'siter':
        raise Undecided('iterator is %s' % it.op)
    k = args[1]
    out = []
    for q, b in forked(st, cmp_lt(add(it.a[1], k), it.a[2])):
        q = q.fork()
        if b:
            x = it_item(I_, q, it, add(it.a[1], k))
            put(I_, q, args[0], siter(it.a[0], add(it.a[1], add(k, I(1))), it.a[2], it.a[3]))
            out.append((q, mk_opt(I_, ret_ty(f), x)))
        else:
            put(I_, q, args[0], siter(it.a[0], it.a[2], it.a[2], it.a[3]))
            out.append((q, mk_opt(I_, ret_ty(f), None)))
    return out

@nat('std::iter::Iterator::skip', 'std::iter::Iterator::take')
def n_skiptake(I_, st, f, args):
    it, n = args
    if it.op != 'siter':
        return None
    ty = ret_ty(f)
    fs = I_.M.types[ty]['v'][0]['f']
    if sorted(x[0] for x in fs) != ['iter', 'n']:
        return None
    skip = f['p'].endswith('skip')
    out = []
    for q, b in forked(st, cmp_le(add(it.a[1], n), it.a[2])):
        if skip:
            w = siter(it.a[0], add(it.a[1], n) if b else it.a[2], it.a[2], it.a[3])
        else:
            w = siter(it.a[0], it.a[1], add(it.a[1], n), it.a[3]) if b else it
        k = I(0 if skip else USIZE)
        out.append((q, mk('agg', ty, 0, tuple(w if x[0] == 'iter' else k for x in fs))))
    return out

@natrx(r'^<std::(slice::Iter|vec::IntoIter)<.*ExactSizeIterator>::len$')
def n_itlen(I_, st, f, args):
    it = val(I_, st, args[0])
    return [(st, sub(it.a[2], it.a[1]))]

@nat("std::slice::Iter::<'a, T>::as_slice", 'std::vec::IntoIter::<T, A>::as_slice')
def n_itslice(I_, st, f, args):
    it = val(I_, st, args[0])
    return [(st, mk('vref', view(it.a[0], it.a[1], it.a[2])))]

@nat('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def n_rnext(I_, st, f, args):
    r = val(I_, st, args[0])
    if r.op != 'agg':
        raise Undecided('range is %s' % r.op)
    a, b = r.a[2]
    out = []
    for q, v in forked(st, cmp_lt(a, b)):
        if v:
            q = q.fork()
            put(I_, q, args[0], mk('agg', r.a[0], 0, (add(a, I(1)), b)))
            out.append((q, mk_opt(I_, ret_ty(f), a)))
        else:
            out.append((q, mk_opt(I_, ret_ty(f), None)))
    return out

# ---------------------------------------------------------------- strings
def sval(I_, st, a):
    v = a
    while v.op in ('vref', 'ref'):
        v = val(I_, st, v)
    return v

@nat('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', '<std::string::String as std::convert::AsRef<str>>::as_ref',
     '<std::string::String as std::borrow::Borrow<str>>::borrow', 'core::str::<impl str>::as_ref', '<str as std::convert::AsRef<str>>::as_ref')
def n_sderef(I_, st, f, args):
    return [(st, mk('vref', val(I_, st, args[0])))]

@nat('std::string::String::new', '<std::string::String as std::default::Default>::default')
def n_snew(I_, st, f, args):
    return [(st, str_of())]

@nat('std::string::String::with_capacity')
def n_scap(I_, st, f, args):
    return [(st, str_of())]

@nat("<std::string::String as std::convert::From<&str>>::from", 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
     "<std::string::String as std::convert::From<&'a str>>::from", 'std::str::<impl str>::to_string', '<str as std::string::ToString>::to_string')
def n_sfrom(I_, st, f, args):
    return [(st, sval(I_, st, args[0]))]

@nat('std::string::String::push_str', '<std::string::String as std::fmt::Write>::write_str')
def n_pushstr(I_, st, f, args):
    st = st.fork()
    put(I_, st, args[0], str_of(val(I_, st, args[0]), sval(I_, st, args[1])))
    if f['p'].endswith('write_str'):
        return [(st, ok_unit(I_, ret_ty(f)))]
    return [(st, unit(I_, f))]

@nat('std::string::String::push', '<std::string::String as std::fmt::Write>::write_char')
def n_pushch(I_, st, f, args):
    c = args[1]
    t = mk('txt', chr(c.a[0])) if is_int(c) else mk('chr', c)
    st = st.fork()
    put(I_, st, args[0], str_of(val(I_, st, args[0]), t))
    if f['p'].endswith('write_char'):
        return [(st, ok_unit(I_, ret_ty(f)))]
    return [(st, unit(I_, f))]

@natrx(r'^(core|std|alloc)::str::<impl str>::(trim|trim_start|trim_end|trim_left|trim_right|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)$')
def n_strfn(I_, st, f, args):
    name = f['p'].split('::')[-1]
    s = sval(I_, st, args[0])
    if s.op != 'str':
        raise Undecided('text is %s' % s.op)
    r = str_of(strfn(name, s))
    return [(st, mk('vref', r) if name.startswith('trim') else r)]

@natrx(r'^(core|std|alloc)::str::<impl str>::replace(::<(&(&)?str|char)>)?$')
def n_strreplace(I_, st, f, args):
    s, p, w = sval(I_, st, args[0]), sval(I_, st, args[1]), sval(I_, st, args[2])
    if s.op != 'str' or w.op != 'str':
        raise Undecided('text is %s' % s.op)
    a = chr(p.a[0]) if is_int(p) else const_str(p) if p.op == 'str' else None
    b = const_str(w)
    if not a or b is None:
        return None
    return [(st, str_of(strfn('replace', s, a, b)))]

@natrx(r'^(core|std|alloc)::str::<impl str>::(starts_with|ends_with|contains)(::<&(&)?str>)?$', r'^(core|std|alloc)::str::<impl str>::eq_ignore_ascii_case$')
def n_strpred(I_, st, f, args):
    name = f['p'].split('<impl str>::')[1].split('::')[0]
    s, p = sval(I_, st, args[0]), sval(I_, st, args[1])
    if s.op != 'str' or p.op != 'str':
        raise Undecided('text is %s' % s.op)
    if s is p:
        return [(st, TRUE)]
    a, b = const_str(s), const_str(p)
    if a is not None and b is not None and a.isascii() and b.isascii():
        r = {'starts_with': a.startswith(b), 'ends_with': a.endswith(b), 'contains': b in a,
             'eq_ignore_ascii_case': a.lower() == b.lower()}[name]
        return [(st, TRUE if r else FALSE)]
    return [(st, mk_in(mk('iv', mk('strp', name, s, p), 0, 1), ((1, 1),)))]

@nat('<str as std::fmt::Debug>::fmt', '<std::string::String as std::fmt::Debug>::fmt')
def n_strdbg(I_, st, f, args):
    st = st.fork()
    s = sval(I_, st, args[0])
    if s.op != 'str':
        raise Undecided('text is %s' % s.op)
    emit(I_, st, args[1], str_of(strfn('debug', s)))
    return [(st, ok_unit(I_, ret_or(I_, f)))]

@nat('<std::string::String as std::ops::Add<&str>>::add')
def n_sadd(I_, st, f, args):
    return [(st, str_of(args[0], sval(I_, st, args[1])))]

@nat('std::string::String::len', 'core::str::<impl str>::len')
def n_slen(I_, st, f, args):
    s = val(I_, st, args[0])
    c = const_str(s)
    if c is not None:
        return [(st, I(len(c.encode())))]
    return [(st, strlen(s))]

@nat('std::string::String::is_empty', 'core::str::<impl str>::is_empty')
def n_sempty(I_, st, f, args):
    s = val(I_, st, args[0])
    c = const_str(s)
    if c is not None:
        return [(st, TRUE if c == '' else FALSE)]
    if any(t.op == 'txt' or t.op == 'num' for t in s.a):
        return [(st, FALSE)]
    return [(st, cmp_eq(strlen(s), I(0)))]

@nat('std::string::String::from_utf8')
def n_utf8(I_, st, f, args):
    ty = ret_ty(f)
    t = I_.M.types[ty]
    s = args[0]
    if s.op == 'view':
        s = seq(ety(s), [mk('sub', s)])
    if s.op == 'seq' and not s.a[1]:
        return [(st, mk('agg', ty, 0, (str_of(),)))]
    c = mk_in(mk('iv', mk('utf8ok', s), 0, 1), ((1, 1),))
    out = []
    for q, v in forked(st, c):
        if v:
            out.append((q, mk('agg', ty, 0, (str_of(mk('utf8', s)),))))
        else:
            out.append((q, mk('agg', ty, 1, (mk('obj', t['g'][1], mk('utf8err', s)),))))
    return out

@nat('std::str::from_utf8', 'core::str::from_utf8')
def n_sutf8(I_, st, f, args):
    ty = ret_ty(f)
    t = I_.M.types[ty]
    s = val(I_, st, args[0])
    if s.op == 'view':
        s = seq(ety(s), [mk('sub', s)])
    if s.op == 'seq' and not s.a[1]:
        return [(st, mk('agg', ty, 0, (mk('vref', str_of()),)))]
    c = mk_in(mk('iv', mk('utf8ok', s), 0, 1), ((1, 1),))
    out = []
    for q, v in forked(st, c):
        if v:
            out.append((q, mk('agg', ty, 0, (mk('vref', str_of(mk('utf8', s))),))))
        else:
            out.append((q, mk('agg', ty, 1, (mk('obj', t['g'][1], mk('utf8err', s)),))))
    return out

@nat('std::string::String::from_utf8_lossy')
def n_lossy(I_, st, f, args):
    s = val(I_, st, args[0])
    return [(st, opq(I_.M, ret_ty(f), mk('lossy', s)))]

@natrx(r'^std::slice::<impl \[T\]>::(join|concat)$')
def n_join(I_, st, f, args):
    s = val(I_, st, args[0])
    sep = sval(I_, st, args[1]) if len(args) > 1 else str_of()
    if s.op == 'seq' and all(p.op == 'lit' for p in s.a[1]):
        toks = []
        for i, p in enumerate(s.a[1]):
            if i:
                toks.append(sep)
            x = sval(I_, st, p.a[0])
            toks.append(x)
        if all(t.op == 'str' for t in toks):
            return [(st, str_of(*toks))]
    if s.op == 'seq' and s.a[1] and const_str(sep) == '':
        toks = []
        for p in s.a[1]:
            if p.op == 'lit':
                x = sval(I_, st, p.a[0])
                if x.op != 'str':
                    break
                toks.append(x)
            elif p.op == 'gen':
                xs = [sval(I_, st, y) for y in p.a[2]]
                if any(y.op != 'str' for y in xs):
                    break
                toks.append(mk('sgen', p.a[0], p.a[1], str_of(*xs)))
            else:
                break
        else:
            return [(st, str_of(*toks))]
    if s.op == 'seq' and len(s.a[1]) == 1 and s.a[1][0].op == 'gen' and len(s.a[1][0].a[2]) == 1 and sep.op == 'str':
        b, n, (x,) = s.a[1][0].a
        x = sval(I_, st, x)
        if x.op == 'str':
            out = []
            for q, z in forked(st, cmp_le(n, I(0))):
                if z:
                    out.append((q, str_of()))
                else:
                    rest = mk('sgen', b, sub(n, I(1)), str_of(sep, subst(x, {b: add(b, I(1))})))
                    out.append((q, str_of(subst(x, {b: I(0)}), rest)))
            return out
    return [(st, str_of(mk('join', sep, s)))]

@natrx(r'^std::str::<impl str>::repeat$', r'^core::str::<impl str>::repeat$')
def n_repeat(I_, st, f, args):
    s = sval(I_, st, args[0])
    return [(st, str_of(mk('sgen', bv(1), args[1], s)))]

# ---------------------------------------------------------------- formatting
DEF = (0x20 | (3 << 29), 0, 0)   # flags, width, precision

def mkfmt(I_, st, sink, opts=DEF):
    c = I_.newcells(1)
    st.cells[c] = mk('fmtr', opts[0], opts[1], opts[2], sink)
    return mk('ref', c, ())

def emit(I_, st, fmtref, tok):
    fm = val(I_, st, fmtref)
    if fm.op != 'fmtr':
        raise Undecided('formatter')
    sink = fm.a[3]
    cur = val(I_, st, sink)
    put(I_, st, sink, str_of(cur, tok))

def pad_str(opts, s):
    flags, width, prec = opts
    if not (flags >> 27) & 3:
        return s
    c = const_str(s)
    fill = chr(flags & 0x1fffff)
    align = (flags >> 29) & 3
    if c is not None:
        if (flags >> 28) & 1:
            c = c[:prec]
        if (flags >> 27) & 1 and len(c) < width:
            n = width - len(c)
            if align in (0, 3):
                c = c + fill * n
            elif align == 1:
                c = fill * n + c
            else:
                c = fill * (n // 2) + c + fill * (n - n // 2)
        return txt(c)
    al = 0 if align == 3 else align
    return str_of(mk('pad', width if (flags >> 27) & 1 else -1, prec if (flags >> 28) & 1 else -1, fill, al, s))

def pad_num(opts, x):
    flags, width, prec = opts
    num = str_of(mk('num', x))
    sign = (flags >> 21) & 1
    if is_nonneg(x) and (sign or (flags >> 24) & 1):
        if (flags >> 24) & 1 and (flags >> 27) & 1:
            body = pad_str((ord('0') | (1 << 29) | (1 << 27), max(0, width - sign), 0), num)
            return str_of(mk('txt', '+'), *body.a) if sign else body
        num = str_of(mk('txt', '+'), *num.a) if sign else num
    elif sign or (flags >> 24) & 1:
        num = str_of(mk('numf', flags & ~(3 << 27), width, x))
        return num
    if (flags >> 27) & 1:
        al = (flags >> 29) & 3
        if al == 3:
            flags = (flags & ~(3 << 29)) | (1 << 29)
        return pad_str((flags & ~(1 << 28), width, 0), num)
    return num

def is_nonneg(x):
    s = Facts().vset(x)
    return bool(s) and s[0][0] >= 0

RADIX = {'LowerHex': (16, 0), 'UpperHex': (16, 1), 'Octal': (8, 0), 'Binary': (2, 0)}

@natrx(r'^(core|std)::fmt::num::(imp::)?<impl std::fmt::(LowerHex|UpperHex|Octal|Binary) for [ui]\w+>::fmt$')
def n_numradix(I_, st, f, args):
    st = st.fork()
    x = sval(I_, st, args[0])
    m = re.search(r'fmt::(LowerHex|UpperHex|Octal|Binary) for', f['n'])
    flags, width, prec = fopts(I_, st, args[1])
    if x.op == 'tab' or not is_nonneg(x):
        return None
    base, up = RADIX[m.group(1)]
    num = mk('numr', base, up, x)
    pre = {16: '0x', 8: '0o', 2: '0b'}[base] if (flags >> 23) & 1 else ''
    if (flags >> 21) & 1:
        pre = '+' + pre
    if (flags >> 24) & 1 and (flags >> 27) & 1:
        body = pad_str((ord('0') | (1 << 29) | (1 << 27), max(0, width - len(pre)), 0), str_of(num))
        t = str_of(mk('txt', pre), *body.a)
    else:
        t = str_of(mk('txt', pre), num) if pre else str_of(num)
        if (flags >> 27) & 1:
            if (flags >> 29) & 3 == 3:
                flags = (flags & ~(3 << 29)) | (1 << 29)
            t = pad_str((flags & ~(1 << 28), width, 0), t)
    emit(I_, st, args[1], t)
    return [(st, ok_unit(I_, ret_or(I_, f)))]

def fopts(I_, st, fref):
    fm = val(I_, st, fref)
    if fm.op != 'fmtr':
        raise Undecided('formatter')
    return fm.a[0], fm.a[1], fm.a[2]

@natrx(r'^std::fmt::Formatter::<.*>::write_str$', r'^<std::fmt::Formatter<.*> as std::fmt::Write>::write_str$')
def n_wstr(I_, st, f, args):
    st = st.fork()
    emit(I_, st, args[0], sval(I_, st, args[1]))
    return [(st, ok_unit(I_, ret_or(I_, f)))]

@natrx(r'^<std::fmt::Formatter<.*> as std::fmt::Write>::write_char$')
def n_wchar(I_, st, f, args):
    st = st.fork()
    c = args[1]
    emit(I_, st, args[0], mk('txt', chr(c.a[0])) if is_int(c) else mk('chr', c))
    return [(st, ok_unit(I_, ret_or(I_, f)))]

_rt = {}
def ret_or(I_, f):
    if 'locals' in f:
        return f['locals'][0]
    # fmt::Result
    k = id(I_.M)
    r = _rt.get(k)
    if r is None:
        for i, t in enumerate(I_.M.types):
            if t['k'] == 'adt' and t['n_'] == 'std::result::Result<(), std::fmt::Error>':
                r = i
                break
        _rt[k] = r
    return r

@natrx(r'^std::fmt::Formatter::<.*>::pad$')
def n_fpad(I_, st, f, args):
    st = st.fork()
    emit(I_, st, args[0], pad_str(fopts(I_, st, args[0]), sval(I_, st, args[1])))
    return [(st, ok_unit(I_, ret_or(I_, f)))]

@nat('<str as std::fmt::Display>::fmt', '<std::string::String as std::fmt::Display>::fmt')
def n_strfmt(I_, st, f, args):
    st = st.fork()
    emit(I_, st, args[1], pad_str(fopts(I_, st, args[1]), sval(I_, st, args[0])))
    return [(st, ok_unit(I_, ret_or(I_, f)))]

@natrx(r'^core::fmt::num::imp::<impl std::fmt::Display for \w+>::fmt$', r'^std::fmt::num::imp::<impl std::fmt::Display for \w+>::fmt$',
       r'^core::fmt::num::<impl std::fmt::Display for \w+>::fmt$')
def n_numfmt(I_, st, f, args):
    st = st.fork()
    x = sval(I_, st, args[0])
    if x.op == 'tab':
        raise Undecided('number table')
    emit(I_, st, args[1], pad_num(fopts(I_, st, args[1]), x))
    return [(st, ok_unit(I_, ret_or(I_, f)))]

@nat('<char as std::fmt::Display>::fmt')
def n_charfmt(I_, st, f, args):
    st = st.fork()
    c = sval(I_, st, args[0])
    t = txt(chr(c.a[0])) if is_int(c) else str_of(mk('chr', c))
    emit(I_, st, args[1], pad_str(fopts(I_, st, args[1]), t))
    return [(st, ok_unit(I_, ret_or(I_, f)))]

@nat('<bool as std::fmt::Display>::fmt')
def n_boolfmt(I_, st, f, args):
    out = []
    for q, v in forked(st, truth(sval(I_, st, args[0]))):
        q = q.fork()
        emit(I_, q, args[1], pad_str(fopts(I_, q, args[1]), txt('true' if v else 'false')))
        out.append((q, ok_unit(I_, ret_or(I_, f))))
    return out

@natrx(r'^core::fmt::rt::Argument::<.*>::new_\w+$', r'^std::fmt::rt::Argument::<.*>::new_\w+$')
def n_argnew(I_, st, f, args):
    inst = None
    for s in f['bb'][0][0]:
        if s[0] == '=' and s[2][0] == 'cast' and 'Reify' in s[2][1]:
            inst = s[2][4]
    if inst is None:
        raise Undecided('format argument')
    return [(st, mk('farg', inst, args[0], f['p'].rsplit('::', 1)[1]))]

@natrx(r'^std::fmt::Arguments::<.*>::from_str$')
def n_afromstr(I_, st, f, args):
    return [(st, mk('fargs', None, sval(I_, st, args[0])))]

@natrx(r'^std::fmt::Arguments::<.*>::new$')
def n_anew(I_, st, f, args):
    t = val(I_, st, args[0])
    a = val(I_, st, args[1])
    if t.op != 'seq' or not all(p.op == 'lit' and is_int(p.a[0]) for p in t.a[1]):
        raise Undecided('format template')
    bs = bytes(p.a[0].a[0] for p in t.a[1])
    return [(st, mk('fargs', bs, a))]

def parse_template(bs):
    """-> list of ('lit', text) | ('arg', index, (flags, width, prec), indirect flags)"""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(('lit', bs[i:i + n].decode()))
            i += n
        elif n == 0x80:
            k = int.from_bytes(bs[i:i + 2], 'little')
            i += 2
            out.append(('lit', bs[i:i + k].decode()))
            i += k
        elif n >= 0xC0:
            flags, w, p, ind = DEF[0], 0, 0, 0
            if n & 1:
                flags = int.from_bytes(bs[i:i + 4], 'little')
                i += 4
            if n & 2:
                w = int.from_bytes(bs[i:i + 2], 'little')
                i += 2
            if n & 4:
                p = int.from_bytes(bs[i:i + 2], 'little')
                i += 2
            if n & 8:
                nxt = int.from_bytes(bs[i:i + 2], 'little')
                i += 2
            ind = (n >> 4) & 3
            out.append(('arg', nxt, (flags, w, p), ind))
            nxt += 1
        else:
            raise Undecided('format template byte')
    return out

def write_args(I_, st, sink, fa, rty):
    """-> [(st, result)]"""
    if fa.op != 'fargs':
        raise Undecided('format arguments are %s' % fa.op)
    if fa.a[0] is None:
        st = st.fork()
        put(I_, st, sink, str_of(val(I_, st, sink), fa.a[1]))
        return [(st, ok_unit(I_, rty))]
    states = [st.fork()]
    done = []
    argv = fa.a[1]
    for p in parse_template(fa.a[0]):
        nxt = []
        for s in states:
            if p[0] == 'lit':
                put(I_, s, sink, str_of(val(I_, s, sink), mk('txt', p[1])))
                nxt.append(s)
                continue
            a = argv.a[1][p[1]].a[0]
            if p[3]:
                if p[3] != 1:
                    raise Undecided('run-time format precision')
                n = argv.a[1][p[2][1]].a[0]
                while n.op == 'agg' and n.a[2]:
                    n = n.a[2][0]
                if n.op == 'int':
                    p = (p[0], p[1], (p[2][0], n.a[0], p[2][2]), 0)
                else:
                    v = a.a[1] if a.op == 'farg' and a.a[2] == 'new_display' else UNDEF
                    while v.op in ('vref', 'box', 'ref'):
                        v = sval(I_, s, v) if v.op == 'ref' else v.a[0]
                    if v.op != 'str' or len(v.a) or not I_.intlike(n) or (p[2][0] >> 28) & 1:
                        raise Undecided('run-time format width')
                    s = s.fork()
                    put(I_, s, sink, str_of(val(I_, s, sink), mk('sgen', bv(1), n, str_of(mk('txt', chr(p[2][0] & 0x1fffff))))))
                    nxt.append(s)
                    continue
            if a.op != 'farg':
                raise Undecided('format argument')
            s = s.fork()
            fr = mkfmt(I_, s, sink, p[2])
            if a.a[2] != 'new_display':
                v = sval(I_, s, a.a[1])
                if a.a[2] == 'new_debug' and v.op == 'str' and p[2] == DEF:
                    put(I_, s, sink, str_of(val(I_, s, sink), strfn('debug', v)))
                    nxt.append(s)
                    continue
                if a.a[2] == 'new_debug' and I_.intlike(v) and v.op not in BOOLOPS and p[2] == DEF:
                    put(I_, s, sink, str_of(val(I_, s, sink), mk('num', v)))
                    nxt.append(s)
                    continue
                if a.a[2] in HEX and I_.intlike(v) and v.op not in BOOLOPS and p[2] == DEF:
                    put(I_, s, sink, str_of(val(I_, s, sink), hexn(a.a[2], v)))
                    nxt.append(s)
                    continue
                put(I_, s, sink, str_of(val(I_, s, sink), mk('dbg', a.a[2], p[2], sval(I_, s, a.a[1]))))
                nxt.append(s)
                continue
            for s2, r in I_.run_fn(a.a[0], [a.a[1], fr], s):
                s2 = s2.fork()
                s2.cells.pop(fr.a[0], None)
                if r.op == 'agg' and r.a[1] == 0:
                    nxt.append(s2)
                elif r.op == 'agg':
                    done.append((s2, mk('agg', rty, 1, r.a[2])))
                else:
                    raise Undecided('formatting result')
        states = nxt
    return done + [(s, ok_unit(I_, rty)) for s in states]

@natrx(r'^std::fmt::Formatter::<.*>::write_fmt$', r'^<std::fmt::Formatter<.*> as std::fmt::Write>::write_fmt$')
def n_wfmt(I_, st, f, args):
    fm = val(I_, st, args[0])
    if fm.op != 'fmtr':
        raise Undecided('formatter')
    return write_args(I_, st, fm.a[3], args[1], ret_or(I_, f))

@nat('std::fmt::Write::write_fmt', '<std::string::String as std::fmt::Write>::write_fmt')
def n_swfmt(I_, st, f, args):
    a = args[0]
    v = val(I_, st, a)
    while v.op == 'ref':
        a, v = v, val(I_, st, v)
    if v.op == 'fmtr':
        return write_args(I_, st, v.a[3], args[1], ret_or(I_, f))
    if v.op != 'str':
        raise Undecided('write_fmt into %s' % v.op)
    return write_args(I_, st, a, args[1], ret_or(I_, f))

@nat('std::fmt::format', 'std::fmt::format::format_inner')
def n_format(I_, st, f, args):
    st = st.fork()
    c = I_.newcells(1)
    st.cells[c] = str_of()
    out = []
    for s, r in write_args(I_, st, mk('ref', c, ()), args[0], ret_or(I_, {})):
        s = s.fork()
        v = s.cells.pop(c)
        if r.a[1] == 0:
            out.append((s, v))
        else:
            I_.panic(I_.where(), 'formatting error', I_.cur_line, s)
    return out

def display_inst(I_, ty):
    M = I_.M
    ix = getattr(M, '_disp', None)
    if ix is None:
        ix = {}
        for fid, f in M.fns.items():
            p = f['p']
            if p.endswith('::fmt') and 'Display' in p and 'locals' in f:
                a = M.types[f['locals'][1]]
                if a['k'] == 'ref':
                    ix.setdefault(a['e'], fid)
        M._disp = ix
    return ix.get(ty)

@nat('<T as std::string::ToString>::to_string', '<T as std::string::SpecToString>::spec_to_string')
def n_tostring(I_, st, f, args):
    ty = f['g'][0]
    t = I_.M.types[ty]
    st = st.fork()
    v = args[0]
    while t['k'] == 'ref':
        ty = t['e']
        t = I_.M.types[ty]
        v = val(I_, st, v)
    if t['k'] == 'str' or t['n_'] == 'std::string::String':
        return [(st, sval(I_, st, v))]
    if t['k'] == 'int':
        return [(st, str_of(mk('num', sval(I_, st, v))))]
    inst = display_inst(I_, ty)
    if inst is None:
        raise Undecided('Display of ' + t['n_'])
    c = I_.newcells(1)
    st.cells[c] = str_of()
    fr = mkfmt(I_, st, mk('ref', c, ()))
    out = []
    for s, r in I_.run_fn(inst, [v, fr], st):
        s = s.fork()
        x = s.cells.pop(c)
        s.cells.pop(fr.a[0], None)
        if r.op == 'agg' and r.a[1] == 0:
            out.append((s, x))
        else:
            I_.panic(I_.where(), 'formatting error', I_.cur_line, s)
    return out

# ---------------------------------------------------------------- maps
def map_types(v):
    while v.op == 'mins':
        v = v.a[0]
    return v.a[-2], v.a[-1]

@nat('std::collections::HashMap::<K, V>::new', '<std::collections::HashMap<K, V, S> as std::default::Default>::default',
     'std::collections::HashMap::<K, V>::with_capacity', 'std::collections::BTreeMap::<K, V>::new',
     '<std::collections::BTreeMap<K, V> as std::default::Default>::default',
     'std::collections::HashSet::<T>::new', 'std::collections::HashSet::<T>::with_capacity',
     '<std::collections::HashSet<T, S> as std::default::Default>::default',
     'std::collections::BTreeSet::<T>::new', '<std::collections::BTreeSet<T> as std::default::Default>::default')
def n_mnew(I_, st, f, args):
    t = I_.M.types[ret_ty(f)]
    g = t['g']
    return [(st, mk('mnew', g[0], g[0] if t['p'].endswith('Set') else g[1]))]

def mkey(I_, st, k):
    while k.op in ('vref', 'ref'):
        k = val(I_, st, k)
    return k

def mlookup(I_, st, m, k):
    """-> [(st, value or None)]"""
    if m.op == 'mnew':
        return [(st, None)]
    if m.op == 'mins':
        out = []
        c = val_eq(I_, st, m.a[1], k)
        for q, v in forked(st, c):
            if v:
                out.append((q, m.a[2]))
            else:
                out += mlookup(I_, q, m.a[0], k)
        return out
    if m.op == 'mapv':
        has = mk_in(mk('iv', mk('mhas', m, k), 0, 1), ((1, 1),))
        out = []
        for q, v in forked(st, has):
            out.append((q, opq(I_.M, m.a[2], mk('mget', m, k)) if v else None))
        return out
    raise Undecided('map is %s' % m.op)

@nat('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::BTreeMap::<K, V, A>::get')
def n_mget(I_, st, f, args):
    m = val(I_, st, args[0])
    k = mkey(I_, st, args[1])
    return [(q, mk_opt(I_, ret_ty(f), None if v is None else mk('vref', v))) for q, v in mlookup(I_, st, m, k)]

@nat('std::collections::HashMap::<K, V, S, A>::contains_key', 'std::collections::BTreeMap::<K, V, A>::contains_key',
     'std::collections::HashSet::<T, S, A>::contains', 'std::collections::HashSet::<T, S>::contains', 'std::collections::BTreeSet::<T, A>::contains')
def n_mhas(I_, st, f, args):
    m = val(I_, st, args[0])
    k = mkey(I_, st, args[1])
    return [(q, TRUE if v is not None else FALSE) for q, v in mlookup(I_, st, m, k)]

@nat('std::collections::HashMap::<K, V, S, A>::insert', 'std::collections::BTreeMap::<K, V, A>::insert')
def n_mins(I_, st, f, args):
    m = val(I_, st, args[0])
    k = mkey(I_, st, args[1])
    out = []
    for q, v in mlookup(I_, st, m, k):
        q = q.fork()
        put(I_, q, args[0], mk('mins', m, k, args[2]))
        out.append((q, mk_opt(I_, ret_ty(f), v)))
    return out

@natrx(r'^<std::collections::(HashMap|BTreeMap)<.*> as std::ops::Index<.*>>::index$')
def n_mindex(I_, st, f, args):
    m = val(I_, st, args[0])
    k = mkey(I_, st, args[1])
    out = []
    for q, v in mlookup(I_, st, m, k):
        if v is None:
            I_.panic(I_.where(), 'missing map key', I_.cur_line, q)
        else:
            out.append((q, mk('vref', v)))
    return out

@nat('std::collections::HashSet::<T, S, A>::insert', 'std::collections::HashSet::<T, S>::insert', 'std::collections::BTreeSet::<T, A>::insert')
def n_sins(I_, st, f, args):
    m = val(I_, st, args[0])
    k = mkey(I_, st, args[1])
    out = []
    for q, v in mlookup(I_, st, m, k):
        if v is None:
            q = q.fork()
            put(I_, q, args[0], mk('mins', m, k, k))
        out.append((q, TRUE if v is None else FALSE))
    return out

@nat('std::collections::HashMap::<K, V, S, A>::entry', 'std::collections::HashMap::<K, V, S>::entry', 'std::collections::BTreeMap::<K, V, A>::entry')
def n_mentry(I_, st, f, args):
    m = val(I_, st, args[0])
    k = mkey(I_, st, args[1])
    ty = ret_ty(f)
    out = []
    for q, v in mlookup(I_, st, m, k):
        i = I_.M.variant(ty, 'Vacant' if v is None else 'Occupied')
        out.append((q, mk('agg', ty, i, (mk('mentry', args[0], m, k, v if v is not None else UNDEF),))))
    return out

def _entry(I_, st, a):
    v = a if a.op in ('agg', 'mentry') else val(I_, st, a)
    if v.op == 'agg' and len(v.a[2]) == 1:
        v = v.a[2][0]
    if v.op != 'mentry':
        raise Undecided('map entry is %s' % v.op)
    return v

@natrx(r'^std::collections::(hash_map|btree_map)::VacantEntry::<.*>::insert$')
def n_ventry(I_, st, f, args):
    e = _entry(I_, st, args[0])
    st = st.fork()
    put(I_, st, e.a[0], mk('mins', e.a[1], e.a[2], args[1]))
    return [(st, mk('vref', args[1]))]

@natrx(r'^std::collections::(hash_map|btree_map)::Entry::<.*>::or_insert$')
def n_orins(I_, st, f, args):
    e = _entry(I_, st, args[0])
    if e.a[3] is not UNDEF:
        return [(st, mk('vref', e.a[3]))]
    st = st.fork()
    put(I_, st, e.a[0], mk('mins', e.a[1], e.a[2], args[1]))
    return [(st, mk('vref', args[1]))]

@natrx(r'^std::collections::(hash_map|btree_map)::OccupiedEntry::<.*>::(get|into_mut)$')
def n_oget(I_, st, f, args):
    e = _entry(I_, st, args[0])
    return [(st, mk('vref', e.a[3]))]

@natrx(r'^std::collections::(hash_map|btree_map)::(OccupiedEntry|VacantEntry|Entry)::<.*>::key$')
def n_okey(I_, st, f, args):
    e = _entry(I_, st, args[0])
    return [(st, mk('vref', e.a[2]))]

@nat('std::collections::HashMap::<K, V, S, A>::len', 'std::collections::BTreeMap::<K, V, A>::len', 'std::collections::HashSet::<T, S, A>::len',
     'std::collections::HashSet::<T, S>::len', 'std::collections::BTreeSet::<T, A>::len')
def n_mlen(I_, st, f, args):
    m = val(I_, st, args[0])
    if m.op == 'mnew':
        return [(st, I(0))]
    keys, b = set(), m
    while b.op == 'mins' and not any(x.op not in ('int', 'agg') for x in atoms_in(b.a[1])):
        keys.add(b.a[1])
        b = b.a[0]
    if b.op == 'mnew':
        return [(st, I(len(keys)))]
    return [(st, mk('iv', mk('mlen', m), 0, LENMAX))]

@nat('std::collections::HashMap::<K, V, S, A>::is_empty', 'std::collections::BTreeMap::<K, V, A>::is_empty', 'std::collections::HashSet::<T, S, A>::is_empty',
     'std::collections::BTreeSet::<T, A>::is_empty')
def n_mempty(I_, st, f, args):
    return [(s, cmp_eq(v, I(0))) for s, v in n_mlen(I_, st, f, args)]

# ---------------------------------------------------------------- any
@natrx(r"^<\(dyn std::any::Any \+ 'static\)>::downcast_ref$", r"^<\(dyn std::any::Any.*\)>::downcast_ref$")
def n_downcast(I_, st, f, args):
    v = val(I_, st, args[0])
    ty = ret_ty(f)
    T_ = f['g'][0]
    c = mk_in(mk('iv', mk('istype', v, T_), 0, 1), ((1, 1),))
    if v.op == 'agg' or v.op == 'obj' and I_.M.types[v.a[0]]['k'] != 'dyn':
        return [(st, mk_opt(I_, ty, mk('vref', v) if v.a[0] == T_ else None))]
    out = []
    for q, b in forked(st, c):
        out.append((q, mk_opt(I_, ty, mk('vref', opq(I_.M, T_, mk('downcast', v))) if b else None)))
    return out

@natrx(r"^<\(dyn std::any::Any.*\)>::is$")
def n_is(I_, st, f, args):
    v = val(I_, st, args[0])
    if v.op == 'agg' or v.op == 'obj' and I_.M.types[v.a[0]]['k'] != 'dyn':
        return [(st, TRUE if v.a[0] == f['g'][0] else FALSE)]
    return [(st, mk_in(mk('iv', mk('istype', v, f['g'][0]), 0, 1), ((1, 1),)))]

@natrx(r'^core::hash::impls::<impl std::hash::Hash for \w+>::hash$')
def n_hash(I_, st, f, args):
    return [(st, unit(I_, f))]

@natrx(r'^std::mem::(swap)$')
def n_swapm(I_, st, f, args):
    a, b = val(I_, st, args[0]), val(I_, st, args[1])
    st = st.fork()
    put(I_, st, args[0], b)
    put(I_, st, args[1], a)
    return [(st, unit(I_, f))]

@natrx(r'^std::mem::(replace|take)$')
def n_replace(I_, st, f, args):
    a = val(I_, st, args[0])
    if f['p'].endswith('take'):
        for s in f['bb']:
            t = s[1]
            if t[0] == 'call' and t[1][0] == 'k':
                ty = I_.M.types[t[1][1]['t']]
                if ty['p'].endswith('Default::default') and 'inst' in ty:
                    out = []
                    for s2, v in I_.run_fn(ty['inst'], [], st):
                        s2 = s2.fork()
                        put(I_, s2, args[0], v)
                        out.append((s2, a))
                    return out
        raise Undecided('take')
    st = st.fork()
    put(I_, st, args[0], args[1])
    return [(st, a)]

@nat('std::option::Option::<T>::take')
def n_otake(I_, st, f, args):
    a = val(I_, st, args[0])
    st = st.fork()
    put(I_, st, args[0], mk_opt(I_, ret_ty(f), None))
    return [(st, a)]

@natrx(r'^std::mem::drop$', r'^std::mem::forget$')
def n_drop(I_, st, f, args):
    return [(st, unit(I_, f))]

# ---------------------------------------------------------------- intrinsics
def intrinsic(I_, st, ft, args, dty):
    n = ft['intr']
    if n in ('assert_inhabited', 'cold_path', 'assume', 'assert_zero_valid', 'assert_mem_uninitialized_valid'):
        return [(st, mk('agg', dty, 0, ()))]
    if n in ('likely', 'unlikely', 'black_box'):
        return [(st, args[0])]
    if n == 'is_val_statically_known':
        return [(st, FALSE)]
    if n in ('size_of', 'min_align_of', 'align_of'):
        f = I_.M.fns[ft['inst']]
        if n == 'size_of':
            return n_size_of(I_, st, f, args)
    if n == 'raw_eq':
        c = val_eq(I_, st, args[0], args[1])
        return [(st, c)] if c is not None else None
    if n == 'discriminant_value':
        v = val(I_, st, args[0])
        return [(st, I_.discr(st, v))]
    if n in ('ub_checks', 'contract_checks', 'overflow_checks'):
        return [(st, FALSE)]
    if n == 'caller_location':
        return [(st, mk('obj', dty, mk('sym', 'loc')))]
    if n in ('saturating_sub',):
        out = []
        for q, v in forked(st, cmp_le(args[1], args[0])):
            out.append((q, sub(args[0], args[1]) if v else I(0)))
        return out
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        f = I_.M.fns[ft['inst']]
        return [(st, I_.binop(st, n[9:].capitalize(), args[0], args[1], f['g'][0]))]
    if n in ('abort', 'abort_immediate', 'unreachable'):
        return []
    return None
