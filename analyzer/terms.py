"""Hash-consed value terms, linear integer forms, bit slices and interval sets."""

class T:
    __slots__ = ('op', 'a', 'id', 'c')
    def __repr__(self):
        return show(self)

_tab = {}

def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.c = None
        _tab[k] = t
    return t

# ---------------------------------------------------------------- intervals
FULL = ((None, None),)

def iset(*iv):
    return tuple(iv)

def norm(ivs):
    ivs = sorted(x for x in ivs if x[0] <= x[1])
    out = []
    for lo, hi in ivs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)

def iinter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)

def iunion(a, b):
    return norm(list(a) + list(b))

def idiff(a, b):
    """a minus b"""
    out = []
    for lo, hi in a:
        cur = lo
        for l2, h2 in b:
            if h2 < cur or l2 > hi:
                continue
            if l2 > cur:
                out.append((cur, l2 - 1))
            cur = h2 + 1
            if cur > hi:
                break
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)

def ihas(a, v):
    return any(lo <= v <= hi for lo, hi in a)

def isub(a, b):
    return not idiff(a, b)

def isize(a):
    return sum(hi - lo + 1 for lo, hi in a)

def ivals(a, cap=4096):
    n = isize(a)
    if n > cap:
        return None
    return [v for lo, hi in a for v in range(lo, hi + 1)]

# ---------------------------------------------------------------- ints
_ints = {}
def I(n):
    t = _ints.get(n)
    if t is None:
        t = mk('int', n)
        _ints[n] = t
    return t

TRUE = I(1)
FALSE = I(0)
BIG = 1 << 130
USIZE = (1 << 64) - 1
LENMAX = 1 << 47             # what an address space holds, and what a loop gets through
CAPMAX = (1 << 63) - 1       # what an allocation may ask for

BOOLOPS = frozenset(['in', 'le0', 'eq0', 'not', 'and', 'or', 'eq', 'btab'])

def domain(t):
    """Interval set every value of the integer atom lies in."""
    d = t.c
    if d is None:
        d = _domain(t)
        t.c = d
    return d

def _domain(t):
    op = t.op
    if op == 'int':
        return ((t.a[0], t.a[0]),)
    if op == 'word':
        return ((0, 0xffffffff),)
    if op == 'ext':
        return ((0, (1 << t.a[2]) - 1),)
    if op == 'len':
        return ((0, LENMAX),)
    if op in BOOLOPS:
        return ((0, 1),)
    if op == 'discr':
        # a = (value, nvariants)
        return ((0, t.a[1] - 1),)
    if op == 'iv':
        # integer valued opaque with explicit range: (what, lo, hi)
        return ((t.a[1], t.a[2]),)
    if op == 'tabi':
        out = ()
        for s, v in t.a[1]:
            out = iunion(out, domain(v) if v.op != 'lin' else ((-BIG, BIG),))
        return out
    return ((-BIG, BIG),)

def is_int(t):
    return t.op == 'int'

def lin(t):
    """(const, {atom: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def from_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    if len(d) > 1:
        # a word without its upper bits is its lower bits
        for k, v in d.items():
            if k.op == 'ext' and k.a[1] > 0 and d.get(k.a[0]) and v == -d[k.a[0]] << k.a[1] and k.a[1] + k.a[2] == awidth(k.a[0]):
                e = dict(d)
                n = e.pop(k.a[0])
                del e[k]
                x = ext(k.a[0], 0, k.a[1])
                e[x] = e.get(x, 0) + n
                return from_lin(c, e)
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))

def add(x, y, s=1):
    c1, d1 = lin(x)
    c2, d2 = lin(y)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return from_lin(c1 + s * c2, d)

def sub(x, y):
    return add(x, y, -1)

def scale(x, n):
    c, d = lin(x)
    return from_lin(c * n, {k: v * n for k, v in d.items()})

# ---------------------------------------------------------------- bits
def awidth(t):
    """bit width of a non-negative atom, or None"""
    d = domain(t)
    if not d or d[0][0] < 0 or d[-1][1] >= (1 << 64):
        return None
    return max(1, d[-1][1].bit_length())

def bits_of(t, width):
    """LSB-first segments [(w, None, const) | (w, atom, lo)] of exactly width bits, or None"""
    c, d = lin(t)
    if c < 0:
        return None
    segs = []
    for k, v in d.items():
        if v <= 0 or v & (v - 1):
            return None
        p = v.bit_length() - 1
        w = awidth(k)
        if w is None or p + w > width:
            return None
        if k.op == 'ext':
            segs.append((p, k.a[2], k.a[0], k.a[1]))
        else:
            segs.append((p, w, k, 0))
    segs.sort(key=lambda s: s[0])
    out = []
    pos = 0
    for p, w, a, lo in segs:
        if p < pos:
            return None
        if p > pos:
            out.append((p - pos, None, 0))
        out.append((w, a, lo))
        pos = p + w
    if pos > width:
        return None
    if pos < width:
        out.append((width - pos, None, 0))
    if c:
        if c >= (1 << width):
            return None
        # constant bits must not overlap symbolic segments
        res = []
        pos = 0
        for w, a, lo in out:
            v = (c >> pos) & ((1 << w) - 1)
            if a is None:
                res.append((w, None, v))
            else:
                if v:
                    return None
                res.append((w, a, lo))
            pos += w
        out = res
    return out

def ext(a, lo, w):
    if a.op == 'ext':
        w = min(w, a.a[2] - lo)
        if w <= 0:
            return I(0)
        return ext(a.a[0], a.a[1] + lo, w)
    aw = awidth(a)
    if lo >= aw:
        return I(0)
    w = min(w, aw - lo)
    if lo == 0 and w == aw:
        return a
    return mk('ext', a, lo, w)

def word_bytes(segs):
    """four full byte elements of one sequence -> word atom"""
    if len(segs) != 4 or any(s[0] != 8 or s[1] is None or s[2] != 0 for s in segs):
        return None
    at = [s[1] for s in segs]
    if any(x.op != 'iv' or x.a[0].op != 'elem' for x in at):
        return None
    base = at[0].a[0].a[0]
    if any(x.a[0].a[0] is not base for x in at):
        return None
    offs = [x.a[0].a[1] for x in at]
    d = [sub(o, offs[0]) for o in offs]
    if [x.a[0] if is_int(x) else None for x in d] == [0, 1, 2, 3]:
        return mk('word', base, offs[0], 'le')
    if [x.a[0] if is_int(x) else None for x in d] == [0, -1, -2, -3]:
        return mk('word', base, offs[3], 'be')
    return None

def from_bits(segs):
    # merge adjacent
    out = []
    for w, a, lo in segs:
        if w == 0:
            continue
        if out:
            w0, a0, lo0 = out[-1]
            if a is None and a0 is None:
                out[-1] = (w0 + w, None, lo0 | (lo << w0))
                continue
            if a is not None and a0 is a and lo0 + w0 == lo:
                out[-1] = (w0 + w, a, lo0)
                continue
        out.append((w, a, lo))
    core = list(out)
    while core and core[-1][1] is None and core[-1][2] == 0:
        core.pop()
    wd = word_bytes(core)
    if wd is not None:
        return wd
    c = 0
    d = {}
    pos = 0
    for w, a, lo in out:
        if a is None:
            c |= lo << pos
        else:
            k = ext(a, lo, w)
            if is_int(k):
                c += k.a[0] << pos
            else:
                d[k] = d.get(k, 0) + (1 << pos)
        pos += w
    return from_lin(c, d)

def seg_range(segs, lo, w):
    out = []
    pos = 0
    hi = lo + w
    for sw, a, v in segs:
        s, e = max(pos, lo), min(pos + sw, hi)
        if s < e:
            if a is None:
                out.append((e - s, None, (v >> (s - pos)) & ((1 << (e - s)) - 1)))
            else:
                out.append((e - s, a, v + (s - pos)))
        pos += sw
    return out

# ---------------------------------------------------------------- bools
def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'in':
        return mk_in(b.a[0], idiff(domain(b.a[0]), b.a[1]))
    if b.op == 'le0':
        # not (L<=0)  ==  L>=1  ==  1-L<=0
        return cmp_le0(sub(I(1), b.a[0]))
    if b.op in ('and', 'or'):
        return (bor if b.op == 'and' else band)(*[bnot(x) for x in b.a])
    if b.op in ('eq0', 'eq'):
        return mk('not', b)
    # opaque bool atom
    return mk_in(b, ((0, 0),))

def mk_in(x, s):
    d = domain(x)
    s = iinter(s, d)
    if not s:
        return FALSE
    if s == d:
        return TRUE
    if x.op in BOOLOPS:
        return x if s == ((1, 1),) else bnot(x)
    return mk('in', x, s)

def truth(b):
    """bool-valued term -> condition term"""
    if b is TRUE or b is FALSE or b.op in BOOLOPS:
        return b
    if b.op == 'tab':
        return tab_map(b, truth)
    return mk_in(b, ((1, 1),))

def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda t: t.id))

def bor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out, key=lambda t: t.id))

from math import gcd

def cmp_le0(l):
    """l <= 0"""
    c, d = lin(l)
    if not d:
        return TRUE if c <= 0 else FALSE
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        c = -((-c) // g)  # ceil(c/g)
        d = {k: v // g for k, v in d.items()}
    if len(d) == 1:
        (k, v), = d.items()
        # v is +-1
        if v > 0:
            return mk_in(k, ((-BIG, -c),))
        return mk_in(k, ((c, BIG),))
    # static range
    lo = hi = c
    for k, v in d.items():
        dm = domain(k)
        a, b = dm[0][0], dm[-1][1]
        lo += v * (a if v > 0 else b)
        hi += v * (b if v > 0 else a)
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    return mk('le0', from_lin(c, d))

def cmp_le(a, b):
    return cmp_le0(sub(a, b))

def cmp_lt(a, b):
    return cmp_le0(add(sub(a, b), I(1)))

def cmp_eq0(l):
    c, d = lin(l)
    if not d:
        return TRUE if c == 0 else FALSE
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        if c % g:
            return FALSE
        c //= g
        d = {k: v // g for k, v in d.items()}
    if len(d) == 1:
        (k, v), = d.items()
        return mk_in(k, ((-c * v, -c * v),))
    lo = hi = c
    for k, v in d.items():
        dm = domain(k)
        a, b = dm[0][0], dm[-1][1]
        lo += v * (a if v > 0 else b)
        hi += v * (b if v > 0 else a)
    if lo > 0 or hi < 0:
        return FALSE
    # disjoint bit fields against a constant
    pos = {k: v for k, v in d.items()}
    sign = 1
    if all(v < 0 for v in pos.values()):
        pos = {k: -v for k, v in pos.items()}
        sign = -1
    if all(v > 0 for v in pos.values()):
        segs = bits_of(from_lin(0, pos), 64)
        if segs is not None:
            n = -c * sign
            if n < 0 or n >= 1 << 64:
                return FALSE
            conds = []
            p = 0
            for w, a, lo_ in segs:
                v = (n >> p) & ((1 << w) - 1)
                if a is None:
                    if v != lo_:
                        return FALSE
                else:
                    conds.append(cmp_eq(ext(a, lo_, w), I(v)))
                p += w
            return band(*conds)
    lead = min(d.items(), key=lambda kv: kv[0].id)[1]
    if lead < 0:
        c = -c
        d = {k: -v for k, v in d.items()}
    return mk('eq0', from_lin(c, d))

def cmp_eq(a, b):
    return cmp_eq0(sub(a, b))

# ---------------------------------------------------------------- tables
# tab(scrutinee, ((iset, value), ...)): value selected by an integer atom
def tab(x, cases):
    m = {}
    order = []
    for s, v in cases:
        if not s:
            continue
        if v.op == 'tab' and v.a[0] is x:
            for s2, v2 in v.a[1]:
                s3 = iinter(s, s2)
                if s3:
                    if v2 not in m:
                        m[v2] = s3
                        order.append(v2)
                    else:
                        m[v2] = iunion(m[v2], s3)
            continue
        if v not in m:
            m[v] = s
            order.append(v)
        else:
            m[v] = iunion(m[v], s)
    if len(order) == 1:
        return order[0]
    return mk('tab', x, tuple(sorted(((m[v], v) for v in order), key=lambda p: p[0])))

def tab_map(t, f):
    return tab(t.a[0], [(s, f(v)) for s, v in t.a[1]])

# ---------------------------------------------------------------- generic traversal
def subst(t, m, memo=None):
    """replace sub-terms by map; rebuilds canonically"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)

def _sv(v, m, memo):
    if isinstance(v, T):
        return _subst(v, m, memo)
    if isinstance(v, tuple):
        return tuple(_sv(x, m, memo) for x in v)
    return v

def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'int':
        return t
    a = tuple(_sv(x, m, memo) for x in t.a)
    if a == t.a:
        r = t
    else:
        r = rebuild(t.op, a)
    memo[t] = r
    return r

REBUILD = {}

def rebuild(op, a):
    f = REBUILD.get(op)
    if f is not None:
        return f(*a)
    return mk(op, *a)

def _rl(c, items):
    r = I(c)
    for k, v in items:
        r = add(r, scale(k, v))
    return r
REBUILD['lin'] = _rl

def _rext(a, lo, w):
    segs = bits_of(a, 64)
    if segs is None:
        return mk('ext', a, lo, w)
    return from_bits(seg_range(segs, lo, w))
REBUILD['ext'] = _rext

def _rin(x, s):
    c, d = lin(x)
    if not d:
        return TRUE if ihas(s, c) else FALSE
    if len(d) == 1:
        (k, v), = d.items()
        if abs(v) == 1:
            if v == 1:
                return mk_in(k, tuple((lo - c, hi - c) for lo, hi in s))
            return mk_in(k, norm([(c - hi, c - lo) for lo, hi in s]))
    # general: disjunction over intervals
    out = []
    for lo, hi in s:
        cs = []
        if lo == hi:
            cs.append(cmp_eq(x, I(lo)))
        else:
            if lo > -BIG:
                cs.append(cmp_le(I(lo), x))
            if hi < BIG:
                cs.append(cmp_le(x, I(hi)))
        out.append(band(*cs))
    return bor(*out)
REBUILD['in'] = _rin
REBUILD['le0'] = cmp_le0
REBUILD['eq0'] = cmp_eq0
REBUILD['not'] = bnot
REBUILD['and'] = band
REBUILD['or'] = bor

def _rtab(x, cases):
    if is_int(x):
        for s, v in cases:
            if ihas(s, x.a[0]):
                return v
    if x.op == 'lin':
        return mk('tab', x, cases)
    return tab(x, cases)
REBUILD['tab'] = _rtab

_occ = {}
def atoms_in(t):
    """set of all sub-terms (memoised)"""
    r = _occ.get(t)
    if r is not None:
        return r
    s = {t}
    st = list(t.a)
    while st:
        v = st.pop()
        if isinstance(v, T):
            s |= atoms_in(v)
        elif isinstance(v, tuple):
            st.extend(v)
    r = frozenset(s)
    _occ[t] = r
    return r

def contains(t, x):
    return x in atoms_in(t)

# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t) if isinstance(t, str) else str(t)
    if depth <= 0:
        return '…'
    op, a = t.op, t.a
    if op == 'int':
        return str(a[0])
    if op == 'lin':
        s = '' if a[0] == 0 else str(a[0])
        for k, v in a[1]:
            s += ('+' if v > 0 and s else '') + ('' if v == 1 else '-' if v == -1 else str(v) + '*') + show(k, depth - 1)
        return '(' + s + ')'
    if op == 'sym':
        return str(a[0])
    if op == 'iv':
        return show(a[0], depth)
    if op == 'word':
        return 'word_%s[%s@%s]' % (a[2], show(a[0], depth - 1), show(a[1], depth - 1))
    if op == 'ext':
        return '%s{%d..%d}' % (show(a[0], depth - 1), a[1], a[1] + a[2])
    if op == 'in':
        return '%s∈%s' % (show(a[0], depth - 1), '|'.join(str(l) if l == h else '%s..%s' % (l if l > -BIG else '', h if h < BIG else '') for l, h in a[1]))
    if op == 'le0':
        return show(a[0], depth - 1) + '≤0'
    if op == 'eq0':
        return show(a[0], depth - 1) + '=0'
    return op + '(' + ', '.join(show(x, depth - 1) for x in a) + ')'
