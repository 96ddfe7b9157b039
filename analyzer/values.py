"""Structured values: aggregates, sequences, views, strings, opaque values."""
from terms import *

UNDEF = mk('undef')

class Undecided(Exception):
    pass

class OutOfBudget(Exception):
    pass

# ---- opaque values, by type ------------------------------------------------
def int_range(t):
    w = t['w']
    if t['s']:
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1

def opq(M, ty, what, depth=0):
    t = M.types[ty]
    k = t['k']
    if k == 'int':
        lo, hi = int_range(t)
        return mk('iv', what, lo, hi)
    if k == 'bool':
        return mk('iv', what, 0, 1)
    if k == 'char':
        return mk('iv', what, 0, 0x10ffff)
    if k in ('ref', 'ptr'):
        return mk('vref', opq(M, t['e'], mk('deref', what), depth + 1))
    if k == 'str':
        return str_of(mk('ss', what))
    if k in ('slice', 'array'):
        if k == 'array' and t['n'] <= 16:
            return seq(t['e'], [mk('lit', opq(M, t['e'], mk('elem', what, I(i)))) for i in range(t['n'])])
        return seq(t['e'], [mk('sq', what, t['e'])])
    if k == 'tuple':
        return mk('agg', ty, 0, tuple(opq(M, f, mk('fld', what, 0, i), depth + 1) for i, f in enumerate(t['f'])))
    if k == 'closure':
        return mk('agg', ty, 0, tuple(opq(M, f, mk('fld', what, 0, i), depth + 1) for i, f in enumerate(t['f'])))
    if k == 'adt':
        p = t['p']
        if t['box'] or p == 'std::rc::Rc':
            return mk('box', opq(M, t['g'][0], mk('deref', what), depth + 1))
        if p == 'std::vec::Vec':
            return seq(t['g'][0], [mk('sq', what, t['g'][0])])
        if p == 'std::string::String':
            return str_of(mk('ss', what))
        if p in ('std::collections::HashMap', 'std::collections::BTreeMap'):
            return mk('mapv', what, t['g'][0], t['g'][1])
        if p in ('std::collections::HashSet', 'std::collections::BTreeSet'):
            return mk('mapv', what, t['g'][0], t['g'][0])
        if t['a'] == 'struct' and depth < 40 and not p.startswith(('std::', 'core::', 'alloc::', 'hashbrown::')):
            return mk('agg', ty, 0, tuple(opq(M, f[1], mk('fld', what, 0, i), depth + 1) for i, f in enumerate(t['v'][0]['f'])))
        if t['a'] == 'struct' and p.startswith(('std::ops::Range',)):
            return mk('agg', ty, 0, tuple(opq(M, f[1], mk('fld', what, 0, i), depth + 1) for i, f in enumerate(t['v'][0]['f'])))
        return mk('obj', ty, what)
    return mk('obj', ty, what)

def is_opaque(t):
    return t.op in ('obj', 'iv')

# ---- sequences -------------------------------------------------------------
# seq(ety, parts): parts are lit(v) | gen(bv, count, (x..)) | sq(what, ety)
def seq(ety, parts):
    out = []
    for p in parts:
        if p.op == 'gen':
            if p.a[1] is I(0):
                continue
            if is_int(p.a[1]) and 0 < p.a[1].a[0] <= 64:
                for j in range(p.a[1].a[0]):
                    for x in p.a[2]:
                        out.append(mk('lit', subst(x, {p.a[0]: I(j)})))
                continue
        elif p.op == 'seq':
            out.extend(p.a[1])
            continue
        out.append(p)
    return mk('seq', ety, tuple(out))

def _rseq(ety, parts):
    return seq(ety, parts)
REBUILD['seq'] = _rseq

def bv(level):
    return mk('iv', mk('bv', level), 0, LENMAX)

_lv = {}
def maxlevel(t):
    r = _lv.get(t)
    if r is not None:
        return r
    r = 0
    if t.op == 'bv':
        r = t.a[0]
    st = list(t.a)
    while st:
        v = st.pop()
        if isinstance(v, T):
            r = max(r, maxlevel(v))
        elif isinstance(v, tuple):
            st.extend(v)
    _lv[t] = r
    return r

def gen(K, count, xs):
    """xs with free index K repeated for K in 0..count"""
    lvl = 1 + max([maxlevel(x) for x in xs])
    b = bv(lvl)
    return mk('gen', b, count, tuple(subst(x, {K: b}) for x in xs))

def _rgen(b, count, xs):
    return mk('gen', b, count, xs)
REBUILD['gen'] = _rgen

def part_len(p):
    if p.op == 'lit':
        return I(1)
    if p.op == 'gen':
        return scale(p.a[1], len(p.a[2]))
    if p.op == 'sub':
        return seq_len(p.a[0])
    return mk('len', p)

def _rlen(p):
    if p.op in ('seq', 'view'):
        return seq_len(p)
    return part_len(p)
REBUILD['len'] = _rlen

def seq_len(s):
    if s.op == 'view':
        return sub(s.a[2], s.a[1])
    k = 0
    n = I(0)
    for p in s.a[1]:
        if p.op == 'lit':
            k += 1
        else:
            n = add(n, part_len(p))
    return add(n, I(k)) if k else n

def ety(s):
    return s.a[0].a[0] if s.op == 'view' else s.a[0]

def view(base, off, end):
    if base.op == 'view':
        return view(base.a[0], add(base.a[1], off), add(base.a[1], end))
    if off is I(0) and end is seq_len(base):
        return base
    ps = base.a[1]
    if all(p.op == 'lit' for p in ps) and is_int(off) and is_int(end):
        return seq(base.a[0], ps[off.a[0]:end.a[0]])
    # drop a concrete literal prefix
    if is_int(off) and off.a[0] > 0:
        n = 0
        while n < len(ps) and n < off.a[0] and ps[n].op == 'lit':
            n += 1
        if n:
            return view(mk('seq', base.a[0], ps[n:]), I(off.a[0] - n), sub(end, I(n)))
    return mk('view', base, off, end)

def _rview(base, off, end):
    return view(base, off, end)
REBUILD['view'] = _rview

def elem(M, s, i, facts):
    """element i of a sequence; assumes in range. None if undetermined"""
    if s.op == 'view':
        return elem(M, s.a[0], add(s.a[1], i), facts)
    e = s.a[0]
    pos = i
    n = len(s.a[1])
    if i.op == 'int' and 0 <= i.a[0] < n and all(p.op == 'lit' for p in s.a[1][:i.a[0] + 1]):
        return s.a[1][i.a[0]].a[0]
    if 1 < n <= 256 and i.op != 'int' and all(p.op == 'lit' for p in s.a[1]):
        c, d = lin(i)
        if len(d) == 1:
            # an element of a list that is written out, at a computed index
            (x, k), = d.items()
            if x.op == 'tab' and all(is_int(v) for _, v in x.a[1]):
                cs = [(q, elem(M, s, I(c + k * v.a[0]), facts)) for q, v in x.a[1]]
                if all(v is not None for _, v in cs):
                    return tab(x.a[0], cs)
            vs = iinter(facts.vset(x), ((-BIG, BIG),))
            cs = []
            for j, p in enumerate(s.a[1]):
                if (j - c) % k == 0:
                    q = iinter(vs, (((j - c) // k, (j - c) // k),))
                    if q:
                        cs.append((q, p.a[0]))
            if len(cs) == 1:
                return cs[0][1]
            if cs:
                return tab(x, cs)
    for p in s.a[1]:
        n = part_len(p)
        if facts.decide(cmp_lt(pos, n)):
            if p.op == 'lit':
                return p.a[0]
            if p.op == 'sq':
                return opq(M, e, mk('elem', p, pos))
            if p.op == 'sub':
                return elem(M, p.a[0], pos, facts)
            if p.op != 'gen':
                return None
            m = len(p.a[2])
            if m == 1:
                return subst(p.a[2][0], {p.a[0]: pos})
            c, d = lin(pos)
            if all(v % m == 0 for v in d.values()):
                q = from_lin(c // m, {k: v // m for k, v in d.items()})
                return subst(p.a[2][c % m], {p.a[0]: q})
            return None
        if facts.decide(cmp_le(n, pos)):
            pos = sub(pos, n)
            continue
        return None
    return None

def concat(a, b):
    assert a.op == 'seq'
    if b.op == 'view':
        return None
    return seq(a.a[0], a.a[1] + b.a[1])

# ---- strings ---------------------------------------------------------------
# str(tokens): txt(s) num(t) ss(what) pad(w,fill,align,..,str) utf8(seq) sgen(bv,count,str) cases(((conds),str)..)
def str_of(*toks):
    out = []
    for t in toks:
        if t.op == 'str':
            for u in t.a:
                _pt(out, u)
        else:
            _pt(out, t)
    return mk('str', *out)

def _pt(out, t):
    if t.op == 'txt':
        if t.a[0] == '':
            return
        if out and out[-1].op == 'txt':
            out[-1] = mk('txt', out[-1].a[0] + t.a[0])
            return
    elif t.op == 'num' and is_int(t.a[0]):
        return _pt(out, mk('txt', str(t.a[0].a[0])))
    elif t.op == 'sgen':
        if t.a[1] is I(0):
            return
        if is_int(t.a[1]) and t.a[1].a[0] <= 64:
            for j in range(t.a[1].a[0]):
                for u in subst(t.a[2], {t.a[0]: I(j)}).a:
                    _pt(out, u)
            return
    elif t.op == 'str':
        for u in t.a:
            _pt(out, u)
        return
    out.append(t)

def _rstr(*toks):
    return str_of(*toks)
REBUILD['str'] = _rstr

def txt(s):
    return str_of(mk('txt', s))

def const_str(s):
    if s.op == 'str':
        if not s.a:
            return ''
        if len(s.a) == 1 and s.a[0].op == 'txt':
            return s.a[0].a[0]
    return None

def strlen(s):
    """the number of bytes of a text"""
    if s.op != 'str':
        return mk('iv', mk('strlen', s), 0, LENMAX)
    r = I(0)
    for t in s.a:
        if t.op == 'txt':
            r = add(r, I(len(t.a[0].encode())))
            continue
        if t.op == 'str':
            r = add(r, strlen(t))
            continue
        if t.op == 'sgen':
            n = strlen(t.a[2])
            if is_int(n):
                r = add(r, scale(t.a[1], n.a[0]))
                continue
        lo, hi = 0, LENMAX
        if t.op == 'num' and is_int(t.a[0]):
            r = add(r, I(len(str(t.a[0].a[0]))))
            continue
        if t.op == 'num':
            x = t.a[0]
            d = domain(x) if x.op != 'lin' else None
            lo, hi = 1, 40
            if d and d[0][0] >= 0:
                lo, hi = len(str(d[0][0])), len(str(d[-1][1]))
        elif t.op == 'pad' and t.a[0] > 0 and t.a[1] < 0:
            lo = t.a[0]
        r = add(r, mk('iv', mk('strlen', str_of(t)), lo, hi))
    return r

def sgen(K, count, s):
    lvl = 1 + maxlevel(s)
    b = bv(lvl)
    return mk('sgen', b, count, subst(s, {K: b}))

# ---- tab projection --------------------------------------------------------
def tab_filter(t, facts):
    x = t.a[0]
    s = facts.vset(x)
    cs = [(iinter(q, s), v) for q, v in t.a[1]]
    cs = [c for c in cs if c[0]]
    if not cs:
        raise Undecided('empty table')
    if len(cs) == 1:
        return cs[0][1]
    if len(cs) == len(t.a[1]):
        return t
    return tab(x, [(q, v) for q, v in t.a[1] if iinter(q, s)])

def _riv(what, lo, hi):
    if what.op == 'strlen':
        n = strlen(what.a[0])
        return n if is_int(n) else mk('iv', what, lo, hi)
    elif what.op in ('div', 'band') and all(isinstance(x, int) or is_int(x) for x in what.a):
        x, y = (v if isinstance(v, int) else v.a[0] for v in what.a)
        if x >= 0:
            return I(x // y if what.op == 'div' else x & y)
    elif what.op == 'bin' and len(what.a) == 3 and is_int(what.a[1]) and is_int(what.a[2]):
        r = fold_bin(what.a[0], what.a[1].a[0], what.a[2].a[0], lo, hi)
        if r is not None:
            return I(r)
    return mk('iv', what, lo, hi)
REBUILD['iv'] = _riv

def fold_bin(op, x, y, lo, hi):
    """an operation of two numbers, None unless the result is certain"""
    if lo != 0 or x < 0 or y < 0 or x > hi or hi & (hi + 1):
        return None
    if op.endswith('Unchecked'):
        op = op[:-9]
    if op in ('BitAnd', 'BitOr', 'BitXor') and y <= hi:
        return {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
    if op in ('Shl', 'Shr') and y < hi.bit_length():
        return (x << y) & hi if op == 'Shl' else x >> y
    if op in ('Div', 'Rem') and y > 0:
        return x // y if op == 'Div' else x % y
    if op in ('Add', 'Sub', 'Mul'):
        return {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op] & hi
    return None

def _rdiscr(v, n):
    return I(v.a[1]) if v.op == 'agg' else mk('discr', v, n)
REBUILD['discr'] = _rdiscr

def padded(w, prec, fill, align, s):
    """a constant text padded to a width; None when it is not constant"""
    c = const_str(s)
    if c is None:
        return None
    if prec >= 0:
        c = c[:prec]
    n = w - len(c)
    if n <= 0:
        return c
    l = {0: 0, 1: n, 2: n // 2}.get(align, 0)
    return fill * l + c + fill * (n - l)

def _rpad(w, prec, fill, align, s):
    c = padded(w, prec, fill, align, s)
    if c is not None:
        return mk('txt', c)
    return mk('pad', w, prec, fill, align, s)
REBUILD['pad'] = _rpad

# ---- functions of texts ----------------------------------------------------
def _debug(c):
    out = ['"']
    for ch in c:
        out.append({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\0': '\\0'}.get(ch, ch))
    return ''.join(out) + '"'

STRFN = {
    'trim': lambda c: c.strip(), 'trim_start': lambda c: c.lstrip(), 'trim_end': lambda c: c.rstrip(),
    'trim_left': lambda c: c.lstrip(), 'trim_right': lambda c: c.rstrip(),
    'to_lowercase': lambda c: c.lower(), 'to_uppercase': lambda c: c.upper(),
    'to_ascii_lowercase': lambda c: c.lower(), 'to_ascii_uppercase': lambda c: c.upper(),
    'debug': _debug, 'replace': lambda c, a, b: c.replace(a, b),
}

def strfn(name, s, *args):
    """a library function applied to a text: the text itself when constant
    (ASCII only, where both agree), else a token"""
    c = const_str(s)
    if c is not None and c.isascii():
        return mk('txt', STRFN[name](c, *args))
    return mk('strfn', name, s, *args)
REBUILD['strfn'] = strfn

HEX = {'new_lower_hex': '%x', 'new_upper_hex': '%X', 'new_octal': '%o'}
def hexn(kind, x):
    if is_int(x) and x.a[0] >= 0:
        return mk('txt', HEX[kind] % x.a[0])
    return mk('hexn', kind, x)
REBUILD['hexn'] = hexn
