"""Equality of abstract values under path facts.  Answers are 'y' (equal on the
whole partition), 'n' (differ, both sides fully interpreted) or 'u' (one side
contains something the analysis does not interpret)."""
from terms import *
from values import *

def split(F, cond):
    """[(facts, bool)] for both sides of a condition, without the impossible one"""
    cond = truth(cond)
    r = F.decide(cond)
    if r is not None:
        return [(F, r)]
    out = []
    for v in (True, False):
        g = F.copy()
        if g.assume(cond, v) and not g.dead:
            out.append((g, v))
    return out

UNINT = frozenset(['rec', 'dyn', 'undef', 'after', 'bin', 'un', 'join', 'dbg', 'chr', 'call', 'cast', 'idx', 'numf', 'band', 'div', 'pcmp', 'strlen', 'sizeof', 'istype'])
OPAQUE_SYMS = ('lv ', 'upd', 'const', 'static', 'fnptr', 'arr')

COMPUTED = frozenset(['bin', 'band', 'div', 'strlen', 'str', 'txt', 'num', 'pad'])
SAMPLES = (7, 37, 1000, 305419896, 4294967294, 2147483651, 1, 0, 4096, 65541, 131, 13)

def leaves(ts):
    """the numbers of the input that terms are computed from; None when there is something else to them"""
    out, seen = [], set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if not isinstance(t, T):
            if isinstance(t, tuple):
                todo.extend(t)
            continue
        if t in seen or t.op in ('int', 'bvar'):
            continue
        seen.add(t)
        if t.op == 'word' or t.op == 'iv' and not uninterpreted(t):
            if t not in out:
                out.append(t)
            continue
        if t.op in ('lin', 'ext', 'in', 'le0', 'eq0', 'not', 'and', 'or', 'iv') or t.op in COMPUTED:
            todo.extend(t.a)
            continue
        return None
    return out

def consts(ts):
    out = set()
    for t in ts:
        for x in atoms_in(t):
            if x.op == 'int':
                out.add(x.a[0])
            elif x.op in ('lin', 'in', 'div', 'ext'):
                st = list(x.a)
                while st:
                    v = st.pop()
                    if isinstance(v, int):
                        out.add(abs(v))
                    elif isinstance(v, tuple):
                        st.extend(v)
    return sorted(c for c in out if c < 2 ** 40)[:12]

def assignments(F, xs, ts):
    """numbers to try for the leaves, within their ranges"""
    vals = list(SAMPLES)
    for c in consts(ts):
        vals += [v for v in (c - 1, c, c + 1) if v not in vals]
    n = len(vals)
    for k in range(n * (1 if len(xs) == 1 else 3)):
        m = {}
        for i, x in enumerate(xs):
            v = vals[(k * (1 + i * (1 + k // n)) + i) % n]
            s = F.vset(x)
            if s and not ihas(s, v):
                hi = s[-1][1]
                v = v & 255 if hi >= 255 and ihas(s, v & 255) else s[k % len(s)][(k // 2) % 2]
            m[x] = I(v)
        yield m

def differ(F, a, b):
    """numbers that terms are computed from for which they differ, or None"""
    xs = leaves([a, b])
    if not xs or len(xs) > 4:
        return None
    import loops
    for m in assignments(F, xs, [a, b]):
        if any(not ihas(F.vset(x), v.a[0]) for x, v in m.items()):
            continue
        x, y = subst(a, m), subst(b, m)
        if is_int(x) and is_int(y) and x is not y:
            G = loops.subst_facts(F, m)
            if G is not None and not G.dead:
                return m
    return None

_ui = {}
def uninterpreted(t, allow=frozenset()):
    """contains a loop variable, an unknown call result, ..."""
    k = (t, allow)
    r = _ui.get(k)
    if r is None:
        r = False
        for x in atoms_in(t):
            if x.op in UNINT or x.op == 'elem' and x.a[0].op in ('seq', 'view'):
                r = True
                break
            if x.op == 'sym' and isinstance(x.a[0], str) and x.a[0].startswith(OPAQUE_SYMS) and x not in allow:
                r = True
                break
        _ui[k] = r
    return r

def comb(*rs):
    if 'n' in rs:
        return 'n'
    if 'u' in rs:
        return 'u'
    return 'y'

def same_bits(F, a, b):
    """two cuts of one value that differ in bits known to be zero"""
    cut = lambda t: t.a if t.op == 'ext' else (t, 0, awidth(t)) if t.op in ('word', 'iv') else None
    x, y = cut(a), cut(b)
    if x is None or y is None or x[0] is not y[0] or x[1] != y[1] or x[2] == y[2]:
        return False
    (lo, hi) = sorted((x[2], y[2]))
    return all(F.pin(ext(x[0], x[1] + i, 1)) == 0 for i in range(lo, hi)) or F.pin(ext(x[0], x[1] + lo, hi - lo)) == 0

class Eq:
    def __init__(self, M, allow=frozenset()):
        self.M = M
        self.allow = frozenset(allow)

    def unint(self, *ts):
        return any(uninterpreted(t, self.allow) for t in ts)

    # ---- case expansion
    def resolve(self, F, v, depth=0):
        if v.op == 'tab':
            for s, x in v.a[1]:
                if iinter(s, F.vset(v.a[0])):
                    g = F.copy()
                    if g.restrict(v.a[0], s):
                        yield from self.resolve(g, x, depth + 1)
            return
        if v.op == 'str':
            for i, t in enumerate(v.a):
                if t.op == 'cases':
                    for conds, s in t.a[0]:
                        g = F.copy()
                        if all(g.assume(truth(c)) for c in conds) and not g.dead:
                            yield from self.resolve(g, str_of(*(v.a[:i] + s.a + v.a[i + 1:])), depth + 1)
                    return
                if t.op == 'stab':
                    for q, s in t.a[1]:
                        if iinter(q, F.vset(t.a[0])):
                            g = F.copy()
                            if g.restrict(t.a[0], q):
                                yield from self.resolve(g, str_of(*(v.a[:i] + s.a + v.a[i + 1:])), depth + 1)
                    return
        yield F, v

    def eq(self, F, a, b):
        if a is b:
            return 'y'
        res = []
        for g, x in self.resolve(F, a):
            for h, y in self.resolve(g, b):
                r = self._eq(h, x, y)
                if r == 'n':
                    return 'n'
                res.append(r)
        return comb(*res)

    def isbool(self, t):
        if t.op in BOOLOPS:
            return True
        return t.op not in ('lin', 'agg', 'obj', 'seq', 'view', 'str', 'box', 'vref') and domain(t) and domain(t)[0][0] >= 0 and domain(t)[-1][1] <= 1

    def _eq(self, F, a, b):
        if a is b:
            return 'y'
        if a.op == 'vref' and b.op != 'vref':
            return self.eq(F, a.a[0], b)
        if b.op == 'vref' and a.op != 'vref':
            return self.eq(F, a, b.a[0])
        if a.op in ('vref', 'box') and b.op == a.op:
            return self.eq(F, a.a[0], b.a[0])
        if a.op in ('agg', 'obj') and b.op in ('agg', 'obj'):
            return self.eq_agg(F, a, b)
        if a.op in ('seq', 'view') and b.op in ('seq', 'view'):
            return self.eq_seq(F, a, b)
        if a.op == 'str' and b.op == 'str':
            return self.eq_str(F, a, b)
        intl = ('int', 'lin', 'word', 'ext', 'len', 'iv', 'discr')
        if (a.op in intl or a.op in BOOLOPS) and (b.op in intl or b.op in BOOLOPS):
            if self.isbool(a) and self.isbool(b) and not (is_int(a) and is_int(b)):
                return self.eq_bool(F, truth(a), truth(b))
            r = F.decide(cmp_eq(a, b))
            if r is True:
                return 'y'
            if r is False:
                return 'n'
            if self.unint(a, b):
                return 'n' if differ(F, a, b) else 'u'
            if same_bits(F, a, b):
                return 'y'
            return 'n'
        if self.unint(a, b) or a.op == 'undef' or b.op == 'undef':
            return 'u'
        return 'n'

    def eq_bool(self, F, a, b):
        res = []
        for g, v in split(F, a):
            r = g.decide(b)
            if r is None:
                h = g.copy()
                if not h.assume(b, not v) or h.dead:
                    r = v
            if r is None:
                res.append('u' if self.unint(a, b) else 'n')
            else:
                res.append('y' if r == v else 'n')
        return comb(*res)

    def fields(self, v, variant=None):
        if v.op == 'agg':
            return v.a[2]
        t = self.M.types[v.a[0]]
        return tuple(opq(self.M, f[1], mk('fld', v.a[1], variant, i)) for i, f in enumerate(t['v'][variant]['f']))

    def eq_agg(self, F, a, b):
        if a.a[0] != b.a[0]:
            s, t = self.M.types[a.a[0]], self.M.types[b.a[0]]
            if s['k'] == 'adt' and t['k'] == 'adt' and s['p'] == t['p'] and s['g'] == t['g']:
                # the same type with other lifetimes
                return self.eq_agg(F, a, mk(b.op, a.a[0], *b.a[1:]))
            return 'n'
        if a.op == 'obj' and b.op == 'obj':
            return 'u' if self.unint(a, b) else 'n'
        if a.op == 'obj':
            a, b = b, a
        if b.op == 'obj':
            t = self.M.types[a.a[0]]
            if t['k'] != 'adt' or not t.get('v'):
                return 'u'
            if t['a'] == 'enum' and len(t['v']) > 1:
                p = F.pin(mk('discr', b, len(t['v'])))
                if p is None:
                    return 'u' if self.unint(b) else 'n'
                if p != a.a[1]:
                    return 'n'
            fb = self.fields(b, a.a[1])
        else:
            if a.a[1] != b.a[1]:
                return 'n'
            fb = b.a[2]
        if len(a.a[2]) != len(fb):
            return 'n'
        return comb(*[self.eq(F, x, y) for x, y in zip(a.a[2], fb)])

    # ---- sequences
    def parts(self, F, s):
        """flat list of lit / gen / sq parts, or None"""
        if s.op == 'view':
            base, off, end = s.a
            ps = self.parts(F, base)
            if ps is None:
                return None
            if len(ps) == 1 and ps[0].op == 'gen' and len(ps[0].a[2]) == 1:
                b, n, (x,) = ps[0].a
                return [mk('gen', b, sub(end, off), (subst(x, {b: add(b, off)}),))]
            if len(ps) == 1 and ps[0].op == 'sq':
                lvl = bv(1 + maxlevel(ps[0]))
                x = opq(self.M, ety(s), mk('elem', ps[0], add(lvl, off)))
                return [mk('gen', lvl, sub(end, off), (x,))]
            n = I(0)
            for p in ps:
                n = add(n, part_len(p))
            if F.decide(cmp_eq(end, n)) is True:
                # drop a prefix
                rest = list(ps)
                o = off
                while rest:
                    if F.decide(cmp_eq(o, I(0))) is True:
                        return rest
                    l = part_len(rest[0])
                    if F.decide(cmp_le(l, o)) is True:
                        o = sub(o, l)
                        rest.pop(0)
                        continue
                    if rest[0].op == 'gen' and len(rest[0].a[2]) == 1:
                        b, n, (x,) = rest[0].a
                        return [mk('gen', b, sub(n, o), (subst(x, {b: add(b, o)}),))] + rest[1:]
                    break
            return None
        out = []
        for p in s.a[1]:
            if p.op == 'sub':
                q = self.parts(F, p.a[0])
                if q is None:
                    return None
                out += q
            else:
                out.append(p)
        return out

    def eq_seq(self, F, a, b):
        if not self.unint(a) and not self.unint(b) and F.decide(cmp_eq(seq_len(a), seq_len(b))) is False:
            return 'n'
        pa, pb = self.parts(F, a), self.parts(F, b)
        if pa is None or pb is None:
            return 'u'
        pa, pb = list(pa), list(pb)
        res = []
        guard = -len(pa) - len(pb)
        while pa or pb:
            guard += 1
            if guard > 300:
                return 'u'
            for q in (pa, pb):
                while q and q[0].op == 'gen':
                    n = F.pin(q[0].a[1])
                    if n is not None and n <= 64:
                        g = q.pop(0)
                        q[:0] = [mk('lit', subst(x, {g.a[0]: I(j)})) for j in range(n) for x in g.a[2]]
                    elif F.decide(cmp_le(q[0].a[1], I(0))) is True:
                        q.pop(0)
                    else:
                        break
            if not pa and not pb:
                break
            if not pa or not pb:
                q = pa or pb
                # the other side has ended: the rest must be empty
                n = I(0)
                for p in q:
                    n = add(n, part_len(p))
                r = F.decide(cmp_eq(n, I(0)))
                if r is True:
                    break
                return 'n' if r is False or not self.unint(n) else 'u'
            x, y = pa[0], pb[0]
            if x is y:
                pa.pop(0)
                pb.pop(0)
                continue
            if x.op == 'lit' and y.op == 'lit':
                r = self.eq(F, x.a[0], y.a[0])
                if r == 'n':
                    return 'n'
                res.append(r)
                pa.pop(0)
                pb.pop(0)
                continue
            if x.op == 'gen' and y.op == 'gen':
                if len(x.a[2]) != len(y.a[2]):
                    return 'u'
                r = F.decide(cmp_eq(x.a[1], y.a[1]))
                if r is not True:
                    if r is None and self.unint(x.a[1], y.a[1]):
                        return 'u'
                    # compare the common prefix first: nothing more can be said
                    return 'n'
                nb = bv(90)
                G = F.copy()
                G.restrict(nb, ((0, LENMAX),))
                G.add_le(add(sub(nb, x.a[1]), I(1)))
                for u, v in zip(x.a[2], y.a[2]):
                    r = self.eq(G, subst(u, {x.a[0]: nb}), subst(v, {y.a[0]: nb}))
                    if r == 'n':
                        return 'n'
                    res.append(r)
                pa.pop(0)
                pb.pop(0)
                continue
            if 'gen' in (x.op, y.op) and 'lit' in (x.op, y.op):
                ql, g = (pa, y) if x.op == 'lit' else (pb, x)
                qg = pb if ql is pa else pa
                r = F.decide(cmp_le(I(1), g.a[1]))
                if r is not True or len(g.a[2]) != 1:
                    # split on emptiness
                    rr = []
                    if r is None and len(g.a[2]) == 1:
                        for G, v in split(F, cmp_le(I(1), g.a[1])):
                            rr.append(self.eq_seq(G, mk('seq', ety(a), tuple(pa)), mk('seq', ety(b), tuple(pb))))
                        return comb(*(res + rr))
                    return 'u'
                r = self.eq(F, ql[0].a[0], subst(g.a[2][0], {g.a[0]: I(0)}))
                if r == 'n':
                    return 'n'
                res.append(r)
                ql.pop(0)
                qg[0] = mk('gen', g.a[0], sub(g.a[1], I(1)), (subst(g.a[2][0], {g.a[0]: add(g.a[0], I(1))}),))
                continue
            return 'u' if self.unint(a, b) or x.op == 'sq' or y.op == 'sq' else 'n'
        return comb(*res)

    # ---- strings
    def eq_str(self, F, a, b):
        x, y = list(a.a), list(b.a)
        res = []
        while x or y:
            if not x or not y:
                if any(t.op in ('sgen', 'ss', 'utf8', 'dyn') for t in (x or y)) :
                    if all(t.op == 'txt' for t in (x or y)):
                        return 'n'
                    q = x or y
                    if any(t.op == 'txt' for t in q):
                        return 'n'
                    return 'u'
                return 'n'
            t, u = x[0], y[0]
            if t is u:
                x.pop(0)
                y.pop(0)
                continue
            if t.op == 'txt' and u.op == 'txt':
                p, q = t.a[0], u.a[0]
                n = min(len(p), len(q))
                if p[:n] != q[:n]:
                    return 'n'
                x[:1] = [mk('txt', p[n:])] if len(p) > n else []
                y[:1] = [mk('txt', q[n:])] if len(q) > n else []
                continue
            if t.op == u.op == 'num':
                r = self.eq(F, t.a[0], u.a[0])
            elif t.op == u.op == 'utf8':
                r = self.eq_seq(F, t.a[0], u.a[0])
            elif t.op == u.op == 'pad' and t.a[:-1] == u.a[:-1]:
                r = self.eq(F, t.a[-1], u.a[-1])
            elif t.op == u.op == 'sgen':
                r = self.eq(F, t.a[1], u.a[1])
                if r == 'y':
                    nb = bv(91)
                    r = self.eq(F, subst(t.a[2], {t.a[0]: nb}), subst(u.a[2], {u.a[0]: nb}))
            elif t.op == u.op == 'ss':
                r = 'u' if self.unint(t, u) else 'n'
            elif {t.op, u.op} <= {'txt', 'num', 'ss', 'utf8', 'pad', 'sgen'}:
                if 'sgen' in (t.op, u.op):
                    r = 'u'
                else:
                    r = 'u' if self.unint(t, u) else 'n'
            else:
                r = 'u'
            if r != 'y':
                return r
            x.pop(0)
            y.pop(0)
        return comb(*res)
