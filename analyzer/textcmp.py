"""Comparison of symbolic texts: sequences of constant pieces, numbers, nested
texts, tables by a discriminant and repetitions, split into cases as needed."""
from terms import *
from values import *
from equiv import Eq, split

def fuzzy(*a):
    import common
    return common.fuzzy(*a)

def unclear(*a, **k):
    import common
    return common.unclear(*a, **k)

KNOWN = ('txt', 'num', 'ss')     # texts of different kinds among these differ for some value
WORDS = (' aB "c" ', 'x', '', 'Main\nEntry point  ')
NUMBERS = (7, 123456, 4294967295)

class TextEq:
    def __init__(self, M, allow=frozenset(), expand=None, budget=40000, dyn=frozenset(), free=frozenset()):
        self.M = M
        self.E = Eq(M, allow)
        self.expand = expand
        self.dyn = frozenset(dyn) | frozenset(free)
        self.free = frozenset(free)     # texts that may be anything, depending on the arguments alone
        self.memo = {}
        self.steps = budget
        self.why = ''

    def eq(self, F, a, b):
        """'y' the same text under F; 'n' different for some value; 'u' unknown"""
        self.base = F
        self.memo = {}
        return self.cmp(F, self.flat(a.a), self.flat(b.a), ())

    def flat(self, toks):
        out = []
        for t in toks:
            if t.op == 'numr' and t.a[2].op == 'int':
                t = mk('txt', {16: '%X' if t.a[1] else '%x', 8: '%o'}[t.a[0]] % t.a[2].a[0] if t.a[0] != 2 else bin(t.a[2].a[0])[2:])
            if t.op == 'pad' and t.a[-1].op == 'str':
                w = self.flat(t.a[-1].a)
                if all(x.op == 'txt' for x in w):
                    import natives
                    width, prec, fill, al = t.a[:4]
                    t = natives.pad_str((ord(fill) | (al << 29) | ((width >= 0) << 27) | ((prec >= 0) << 28), max(width, 0), max(prec, 0)), str_of(*w))
            if t.op == 'str':
                out.extend(self.flat(t.a))
            elif t.op == 'txt' and t.a[0] == '':
                continue
            elif t.op == 'num' and t.a[0].op == 'int':
                out.extend(self.flat((mk('txt', str(t.a[0].a[0])),))) if not (out and out[-1].op == 'txt') else \
                    out.__setitem__(-1, mk('txt', out[-1].a[0] + str(t.a[0].a[0])))
            elif t.op == 'txt' and out and out[-1].op == 'txt':
                out[-1] = mk('txt', out[-1].a[0] + t.a[0])
            else:
                if t.op == 'sgen' and len(t.a[2].a) == 1 and t.a[2].a[0].op == 'txt':
                    # the same text again and again: count its shortest period
                    w = t.a[2].a[0].a[0]
                    k = (w + w).find(w, 1) if w else 0
                    if k and k < len(w):
                        t = mk('sgen', t.a[0], scale(t.a[1], len(w) // k), str_of(mk('txt', w[:k])))
                out.append(t)
        return tuple(out)

    def joined(self, head, rest):
        return self.flat(tuple(head) + tuple(rest))

    def cases(self, F, t):
        """[(facts, tokens)] for a token that distinguishes cases, else None"""
        if t.op in ('stab', 'tab'):
            out = []
            for s, v in t.a[1]:
                while v.op in ('vref', 'box'):
                    v = v.a[0]
                if v.op == 'tab':
                    v = str_of(v)
                if v.op != 'str':
                    return None
                G = F.copy()
                c = t.a[0]
                if c.op in BOOLOPS:
                    ok = [q for q in (0, 1) if ihas(s, q)]
                    good = False
                    for q in ok:
                        H = F.copy()
                        if H.assume(truth(c), bool(q)) and not H.dead:
                            out.append((H, v.a))
                    continue
                if G.assume(mk_in(c, s)) and not G.dead:
                    out.append((G, v.a))
            return out
        if t.op == 'cases':
            out = []
            for conds, v in t.a[0]:
                G = F.copy()
                if all(G.assume(truth(q)) for q in conds) and not G.dead:
                    out.append((G, v.a))
            return out
        if t.op == 'sgen':
            for x in lin(t.a[1])[1]:
                if x.op != 'tab':
                    continue
                out = []
                for s, v in x.a[1]:
                    G = F.copy()
                    if G.assume(mk_in(x.a[0], s)) and not G.dead:
                        out.append((G, (mk('sgen', t.a[0], subst(t.a[1], {x: v}), t.a[2]),)))
                return out
        return None

    def cmp(self, F, A, B, marks):
        if (A, B) == ((), ()):
            return 'y'
        for m in marks:
            if A is m[0] or B is m[1] or A == m[0] or B == m[1]:
                r = self.memo.get((A, B))
                if r is None:
                    self.memo[(A, B)] = 'u'
                    r = self.memo[(A, B)] = self.cmp(self.base, A, B, ())
                if r == 'y':
                    return 'y'
                marks = ()
                break
        while A or B:
            self.steps -= 1
            if self.steps < 0:
                return 'u'
            if A and B and A[0] is B[0]:
                A, B = A[1:], B[1:]
                for m in marks:
                    if A == m[0] or B == m[1]:
                        return self.cmp(F, A, B, marks)
                continue
            a = A[0] if A else None
            b = B[0] if B else None
            if a is not None and b is not None and a.op == b.op == 'txt':
                p, q = a.a[0], b.a[0]
                n = min(len(p), len(q))
                if p[:n] != q[:n]:
                    i = next(j for j in range(n) if p[j] != q[j])
                    self.why = 'text %r where %r is due' % (p[max(0, i - 20):][:50], q[max(0, i - 20):][:50])
                    return 'n'
                A = (() if len(p) == n else (mk('txt', p[n:]),)) + A[1:]
                B = (() if len(q) == n else (mk('txt', q[n:]),)) + B[1:]
                for m in marks:
                    if A == m[0] or B == m[1]:
                        return self.cmp(F, A, B, marks)
                continue
            # case distinctions
            for side, t in ((0, a), (1, b)):
                cs = self.cases(F, t) if t is not None else None
                if cs is None:
                    continue
                rest = (A if side == 0 else B)[1:]
                over = any(fuzzy(x, self.E.allow) for x in ([t.a[0]] if t.op in ('stab', 'tab') else [q for conds, _ in t.a[0] for q in conds] if t.op == 'cases' else []))
                mk_ = ((rest, None),) if side == 0 else ((None, rest),)
                res = []
                for G, toks in cs:
                    x = self.joined(toks, rest)
                    r = self.cmp(G, x, B, marks + mk_) if side == 0 else self.cmp(G, A, x, marks + mk_)
                    if r == 'n' and over and self.depth < 3:
                        # the case may be impossible
                        P, Q = (x, B) if side == 0 else (A, x)
                        def test(m, H):
                            q = TextEq(self.M, self.E.allow, self.expand, min(self.steps, 4000), self.dyn, self.free)
                            q.depth, q.base = self.depth + 1, H
                            return q.cmp(H, self.flat(tuple(subst(y, m) for y in P)), self.flat(tuple(subst(y, m) for y in Q)), ()) == 'n'
                        if unclear(G, self.E.allow, test=test):
                            r = 'u'
                    elif r == 'n' and over:
                        r = 'u'
                    if r == 'n':
                        return 'n'
                    res.append(r)
                return 'u' if 'u' in res else 'y'
            # repetitions
            if a is not None and b is not None and a.op == b.op == 'sgen':
                r = self.E.eq(F, a.a[1], b.a[1])
                for X, Y, p, q in ((A, B, a, b), (B, A, b, a)):
                    # the other text goes on with further elements
                    G = F.copy()
                    less = F.decide(cmp_lt(p.a[1], q.a[1]))
                    if less is None and r == 'n':
                        less = G.assume(cmp_lt(p.a[1], q.a[1])) and not G.dead
                    if less and any(t.op in ('txt', 'num') or t.op == 'dyn' and t.a[0] in self.free for t in q.a[2].a) and self.tail(G, X, Y):
                        n = bv(91)
                        if TextEq(self.M, self.E.allow, self.expand, self.steps, self.dyn, self.free).eq(G, subst(p.a[2], {p.a[0]: n}), subst(q.a[2], {q.a[0]: n})) == 'y':
                            self.why = 'one text has fewer elements than the other'
                            return 'n'
                if r == 'y':
                    nb = bv(91)
                    G = F.copy()
                    G.assume(cmp_le(I(0), nb))
                    G.assume(cmp_lt(nb, a.a[1]))
                    x = subst(a.a[2], {a.a[0]: nb})
                    y = subst(b.a[2], {b.a[0]: nb})
                    r = TextEq(self.M, self.E.allow, self.expand, self.steps, self.dyn, self.free)
                    q = r.eq(G, x, y)
                    if q == 'y':
                        A, B = A[1:], B[1:]
                        continue
                    self.why = r.why
                    # the bodies differ: only the same text if split differently
                return self.counts(F, A, B)
            if (a is not None and a.op == 'sgen') or (b is not None and b.op == 'sgen'):
                return self.counts(F, A, B)
            if self.expand is not None:
                done = False
                for side, t in ((0, a), (1, b)):
                    if t is not None and t.op == 'dyn':
                        s = self.expand(t)
                        if s is not None:
                            if side == 0:
                                A = self.joined(s.a, A[1:])
                            else:
                                B = self.joined(s.a, B[1:])
                            done = True
                            break
                if done:
                    continue
            if any(t is not None and t.op == 'dyn' and t.a[0] not in self.dyn for t in (a, b)):
                self.why = 'uninterpreted text %s' % show(a if a is not None and a.op == 'dyn' else b, 3)[:120]
                return 'u'
            if a is None or b is None:
                c = (a if b is None else b)
                self.why = ('text continues with %s' if b is None else 'text lacks %s') % show(c, 4)[:120]
                if c.op in ('txt', 'num'):
                    return 'n'
                if c.op in ('ss', 'dyn') and not self.E.unint(c):
                    return 'n'
                if c.op == 'dyn' and c.a[0] in self.free and not self.E.unint(*c.a[1:]):
                    return 'n'
                return self.ground(F, A, B)
            if a.op == b.op == 'num':
                r = self.E.eq(F, a.a[0], b.a[0])
            elif a.op == b.op == 'pad' and a.a[:-1] == b.a[:-1]:
                q = TextEq(self.M, self.E.allow, self.expand, self.steps, self.dyn, self.free)
                r = q.eq(F, a.a[-1], b.a[-1])
                self.why = q.why
            elif a.op == b.op == 'dyn' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
                rs = [self.E.eq(F, x, y) if x is not y else 'y' for x, y in zip(a.a[1:], b.a[1:])]
                r = 'n' if 'n' in rs else 'u' if 'u' in rs else 'y'
                if r == 'n' and any(x.op == 'rec' for t in (a, b) for x in atoms_in(t)):
                    r = 'u'
            elif (a.op == 'dyn' and a.a[0] in self.free) or (b.op == 'dyn' and b.a[0] in self.free):
                r = self.ground(F, A, B)
            elif a.op == b.op == 'dyn':
                r = 'u' if self.E.unint(a, b) else 'n'
            elif a.op in KNOWN + ('dyn',) and b.op in KNOWN + ('dyn',):
                r = 'u' if self.E.unint(a, b) else 'n'
            else:
                r = self.ground(F, A, B)
            if r != 'y':
                if not self.why or r == 'n':
                    self.why = '%s where %s is due' % (show(a, 5)[:120], show(b, 5)[:120])
                return r
            A, B = A[1:], B[1:]
        return 'y'

    def ground(self, F, A, B):
        """texts whose pieces do not line up: 'n' when they differ for some
        concrete values of the numbers and strings in them, else 'u'"""
        if self.depth > 0:
            return 'u'
        import loops
        nums, strs = [], []
        subs = []
        if self.free:
            def mark(t):
                if t.op != 'dyn' or t.a[0] not in self.free:
                    return t
                for x, k in subs:
                    if x is t:
                        return k
                    if x.a[0] != t.a[0]:
                        continue
                    rs = [self.E.eq(F, p, q) if p is not q else 'y' for p, q in zip(x.a[1:], t.a[1:])]
                    if 'n' in rs:
                        continue
                    if 'u' in rs:
                        return None
                    return k
                k = mk('txt', '<%d>\n' % (len(subs) + 1))
                subs.append((t, k))
                return k
            A, B = [mark(t) for t in A], [mark(t) for t in B]
            if None in A or None in B:
                return 'u'
            A, B = self.flat(A), self.flat(B)
        for t in A + B:
            for x in atoms_in(t):
                y = x.a[0] if x.op == 'num' else x.a[2] if x.op == 'numr' else None
                if y is not None and y.op not in ('int', 'lin') and y not in nums and not self.E.unint(y):
                    nums.append(y)
                if x.op == 'ss' and x not in strs and not self.E.unint(x):
                    strs.append(x)
        if len(nums) + len(strs) > 24 or not nums + strs + subs:
            return 'u'
        for k in range(4):
            m = {}
            for i, x in enumerate(nums):
                m[x] = I(NUMBERS[(k + i) % 3] if k else NUMBERS[0])
            for i, x in enumerate(strs):
                m[x] = mk('txt', WORDS[(k + i) % 4] if k else WORDS[0])
            if any(not ihas(F.vset(x), v.a[0]) for x, v in m.items() if v.op == 'int'):
                continue
            G = loops.subst_facts(F, m)
            if G is None or G.dead:
                continue
            x = self.flat(tuple(subst(t, m) for t in A))
            y = self.flat(tuple(subst(t, m) for t in B))
            q = TextEq(self.M, self.E.allow, self.expand, self.steps, self.dyn, self.free)
            q.depth = self.depth + 1
            q.base = G
            if q.cmp(G, x, y, ()) == 'n':
                self.why = 'for some values: %s' % q.why
                return 'n'
        return 'u'

    depth = 0

    def tail(self, F, X, Y):
        """what follows the first token is the same text, or nothing follows"""
        if len(X) == 1 or X[1:] == Y[1:]:
            return True
        if self.depth > 2:
            return False
        q = TextEq(self.M, self.E.allow, self.expand, min(self.steps, 4000), self.dyn, self.free)
        q.depth = self.depth + 1
        q.base = F
        return q.cmp(F, X[1:], Y[1:], ()) == 'y'

    def counts(self, F, A, B):
        """repetitions that do not line up: decided for short lists only"""
        for t in (A[:1] + B[:1]):
            if t.op != 'sgen' or self.E.unint(t.a[1]):
                continue
            s = F.vset(t.a[1])
            lo = s[0][0] if s else 0
            ns = {0, 1, 2, lo, lo + 1, lo + 2}
            c, d = lin(t.a[1])
            if len(d) == 1:
                (x, k), = d.items() if isinstance(d, dict) else d
                l0 = (F.vset(x) or ((0, 0),))[0][0]
                ns |= {c + k * (l0 + i) for i in range(3)}
            for n in sorted(ns):
                if not 0 <= n <= 80:
                    continue
                G = F.copy()
                if not G.assume(cmp_eq(t.a[1], I(n))) or G.dead:
                    continue
                x, y = self.fixed(G, A, n), self.fixed(G, B, n)
                if x is None or y is None or G.pin(t.a[1]) is None and G.decide(cmp_eq(t.a[1], I(n))) is not True or (x, y) == (A, B):
                    continue
                if self.cmp(G, x, y, ()) == 'n':
                    self.why = 'with %d elements: %s' % (n, self.why)
                    return 'n'
        return 'u'

    def fixed(self, G, toks, n):
        out = []
        for t in toks:
            if t.op == 'sgen':
                k = G.pin(t.a[1])
                if k is None and G.decide(cmp_eq(t.a[1], I(n))) is True:
                    k = n
                if k is not None and k <= 80:
                    for j in range(k):
                        out.extend(subst(t.a[2], {t.a[0]: I(j)}).a)
                    continue
            out.append(t)
        return self.flat(out)
