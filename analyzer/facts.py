"""Path facts: interval sets per integer atom plus linear constraints, with a
small Fourier-Motzkin entailment test (no external solver)."""
from terms import *
from math import gcd

MAXC = 60

class Facts:
    __slots__ = ('dom', 'lins', 'nes', 'bools', 'foralls', 'exts', '_ec', 'dead')

    def __init__(self):
        self.dom = {}
        self.lins = ()
        self.nes = ()
        self.bools = {}
        self.foralls = ()
        self.exts = {}
        self._ec = None
        self.dead = False

    def copy(self):
        f = Facts()
        f.dom = dict(self.dom)
        f.lins = self.lins
        f.nes = self.nes
        f.bools = dict(self.bools)
        f.foralls = self.foralls
        f.exts = dict(self.exts)
        f.dead = self.dead
        return f

    # ---- integer atoms
    def vset(self, t):
        """interval set of an integer term under the facts"""
        if t.op == 'int':
            return ((t.a[0], t.a[0]),)
        if t.op == 'lin':
            c, d = lin(t)
            if len(d) == 1:
                (k, v), = d.items()
                s = self.vset(k)
                if v == 1:
                    return tuple((a + c, b + c) for a, b in s)
                if isize(s) <= 64:
                    return norm([(x * v + c, x * v + c) for x in ivals(s)])
                return norm([tuple(sorted((a * v + c, b * v + c))) for a, b in s])
            lo = hi = c
            for k, v in d.items():
                s = self.vset(k)
                if not s:
                    return ()
                a, b = s[0][0], s[-1][1]
                lo += v * (a if v > 0 else b)
                hi += v * (b if v > 0 else a)
            return ((lo, hi),)
        if t.op in BOOLOPS:
            r = self.decide(t)
            if r is None:
                return ((0, 1),)
            return ((int(r), int(r)),)
        if t.op == 'tab':
            x = self.vset(t.a[0])
            out = ()
            for s, v in t.a[1]:
                if iinter(s, x):
                    out = iunion(out, self.vset(v))
            return out
        s = domain(t)
        d = self.dom.get(t)
        if d is not None:
            s = d
        if t.op == 'ext':
            a, lo, w = t.a
            pd = self.dom.get(a)
            if pd is not None:
                pr = []
                for l, h in pd:
                    l2, h2 = l >> lo, h >> lo
                    if (l2 >> w) != (h2 >> w):
                        pr = None
                        break
                    m = (1 << w) - 1
                    pr.append((l2 & m, h2 & m))
                    if len(pr) > 600:
                        pr = None
                        break
                if pr is not None:
                    s = iinter(s, norm(pr))
            # other slices of the same atom that cover this one
            for e in self.exts.get(a, ()):
                if e is t:
                    continue
                elo, ew = e.a[1], e.a[2]
                ed = self.dom.get(e)
                if ed is None:
                    continue
                if elo <= lo and elo + ew >= lo + w:
                    sh = lo - elo
                    pr = []
                    for l, h in ed:
                        l2, h2 = l >> sh, h >> sh
                        if (l2 >> w) != (h2 >> w):
                            pr = None
                            break
                        m = (1 << w) - 1
                        pr.append((l2 & m, h2 & m))
                    if pr is not None:
                        s = iinter(s, norm(pr))
                elif lo <= elo and elo + ew == lo + w:
                    sh = elo - lo
                    s = iinter(s, norm([(l << sh, ((h + 1) << sh) - 1) for l, h in ed]))
                elif lo <= elo and elo + ew <= lo + w and isize(s) <= 64:
                    sh = elo - lo
                    m = (1 << ew) - 1
                    s = norm([(v, v) for v in ivals(s) if ihas(ed, (v >> sh) & m)])
        elif t in self.exts:
            s = self._from_exts(t, s)
        return s

    def _from_exts(self, t, s):
        w = awidth(t)
        for e in self.exts[t]:
            ed = self.dom.get(e)
            if ed is None:
                continue
            if e.a[1] + e.a[2] == w:
                sh = e.a[1]
                s = iinter(s, norm([(l << sh, ((h + 1) << sh) - 1) for l, h in ed]))
        # all pinned?
        parts = sorted(self.exts[t], key=lambda e: e.a[1])
        pos = 0
        val = 0
        for e in parts:
            if e.a[1] != pos:
                continue
            ed = self.dom.get(e)
            if ed is None or isize(ed) != 1:
                break
            val |= ed[0][0] << pos
            pos += e.a[2]
        if pos == w:
            s = iinter(s, ((val, val),))
        elif isize(s) <= 1024:
            # filter small sets by every known slice
            keep = []
            for v in ivals(s):
                ok = True
                for e in self.exts[t]:
                    ed = self.dom.get(e)
                    if ed is not None and not ihas(ed, (v >> e.a[1]) & ((1 << e.a[2]) - 1)):
                        ok = False
                        break
                if ok:
                    keep.append((v, v))
            s = norm(keep)
        return s

    def excludes(self, t, v):
        """facts imply t != v"""
        if not ihas(self.vset(t), v):
            return True
        if t in self.exts:
            for e in self.exts[t]:
                if not ihas(self.vset(e), (v >> e.a[1]) & ((1 << e.a[2]) - 1)):
                    return True
        return False

    def pin(self, t):
        s = self.vset(t)
        if len(s) == 1 and s[0][0] == s[0][1]:
            return s[0][0]
        return None

    # ---- conditions
    def decide(self, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self.bools:
            return self.bools[b]
        op = b.op
        if op == 'in':
            s = self.vset(b.a[0])
            i = iinter(s, b.a[1])
            if not i:
                return False
            if i == s:
                return True
            # linear facts may bound the atom further
            if self.lins:
                c = b.a[1]
                if len(c) == 1:
                    lo, hi = c[0]
                    x = b.a[0]
                    r1 = True if lo <= s[0][0] else self._ent(sub(I(lo), x))
                    r2 = True if hi >= s[-1][1] else self._ent(sub(x, I(hi)))
                    if r1 and r2:
                        return True
                    if self._ent(add(sub(I(hi), x), I(1))) or self._ent(add(sub(x, I(lo)), I(1))):
                        return False
                rest = idiff(s, c)
                if len(rest) == 1:
                    lo, hi = rest[0]
                    x = b.a[0]
                    if lo > s[0][0] or hi < s[-1][1]:
                        if self._ent(add(sub(I(hi), x), I(1))) or self._ent(add(sub(x, I(lo)), I(1))):
                            return True
            return None
        if op == 'le0':
            if self._ent(b.a[0]):
                return True
            if self._ent(sub(I(1), b.a[0])):
                return False
            return None
        if op == 'eq0':
            l = b.a[0]
            if b in self.nes:
                return False
            if self._ent(add(l, I(1))) or self._ent(sub(I(1), l)):
                return False
            if self._ent(l) and self._ent(sub(I(0), l)):
                return True
            return None
        if op == 'not':
            r = self.decide(b.a[0])
            return None if r is None else (not r)
        if op == 'and':
            rs = [self.decide(x) for x in b.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if op == 'or':
            rs = [self.decide(x) for x in b.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if op == 'tab':
            x = self.vset(b.a[0])
            res = set()
            for s, v in b.a[1]:
                if iinter(s, x):
                    r = self.decide(truth(v))
                    if r is None:
                        return None
                    res.add(r)
            if len(res) == 1:
                return res.pop()
            return None
        if op == 'eq':
            return None
        s = self.vset(b)
        if s == ((0, 0),):
            return False
        if s == ((1, 1),):
            return True
        return None

    # ---- adding
    def restrict(self, x, s):
        """x in s; returns False on contradiction"""
        if x.op == 'int':
            ok = ihas(s, x.a[0])
            if not ok:
                self.dead = True
            return ok
        if x.op == 'lin':
            c, d = lin(x)
            if len(d) == 1:
                (k, v), = d.items()
                ns = []
                for lo, hi in s:
                    if v > 0:
                        ns.append((-((c - lo) // v) if lo > -BIG else -BIG, (hi - c) // v if hi < BIG else BIG))
                    else:
                        ns.append((-((hi - c) // (-v)) if hi < BIG else -BIG, (c - lo) // (-v) if lo > -BIG else BIG))
                return self.restrict(k, norm(ns))
            if s:
                return self.add_le(sub(I(s[0][0]), x)) and self.add_le(sub(x, I(s[-1][1])))
            self.dead = True
            return False
        self._ec = None
        n = iinter(self.vset(x), s)
        if not n:
            self.dead = True
            return False
        self.dom[x] = n
        if x.op == 'ext':
            e = self.exts.get(x.a[0], ())
            if x not in e:
                self.exts[x.a[0]] = e = e + (x,)
            if len(e) > 1:
                for y in e:
                    if y in self.dom and not self.vset(y):
                        self.dead = True
                        return False
        # propagate a pinned table scrutinee is left to queries
        return True

    def add_le(self, l):
        """l <= 0"""
        b = cmp_le0(l)
        if b is TRUE:
            return True
        if b is FALSE:
            self.dead = True
            return False
        if b.op == 'in':
            return self.restrict(b.a[0], b.a[1])
        return self._add_lin(b.a[0])

    def _add_lin(self, l):
        if l in self.lins:
            return True
        c, d = lin(l)
        drop = None
        n = len(d)
        for o in self.lins:
            if len(o.a[1]) == n and o.a[1] == l.a[1]:
                if o.a[0] >= c:
                    return True
                drop = o
        if drop is not None:
            self.lins = tuple(x for x in self.lins if x is not drop) + (l,)
        else:
            self.lins = self.lins + (l,)
        self._ec = None
        for n in self.nes:
            self._tighten(n)
        return not self.dead

    def _tighten(self, n):
        l = n.a[0]
        if self._ent(l):
            if self._ent(sub(I(0), l)):
                self.dead = True
                return
            b = cmp_le0(add(l, I(1)))
            if b.op == 'le0' and b.a[0] not in self.lins:
                self.lins = self.lins + (b.a[0],)
                self._ec = None
            elif b.op == 'in':
                self.restrict(*b.a)
        elif self._ent(sub(I(0), l)):
            b = cmp_le0(sub(I(1), l))
            if b.op == 'le0' and b.a[0] not in self.lins:
                self.lins = self.lins + (b.a[0],)
                self._ec = None
            elif b.op == 'in':
                self.restrict(*b.a)

    def assume(self, b, val=True):
        """add condition; returns False if contradictory"""
        if self.dead:
            return False
        if b is TRUE or b is FALSE:
            if (b is TRUE) != val:
                self.dead = True
                return False
            return True
        r = self.decide(b)
        if r is not None:
            if r != val:
                self.dead = True
                return False
            return True
        op = b.op
        if op == 'in':
            s = b.a[1] if val else idiff(domain(b.a[0]), b.a[1])
            return self.restrict(b.a[0], s)
        if op == 'le0':
            if val:
                return self._add_lin(b.a[0])
            return self.add_le(sub(I(1), b.a[0]))
        if op == 'eq0':
            l = b.a[0]
            if val:
                return self.add_le(l) and self.add_le(sub(I(0), l))
            self.nes = self.nes + (b,)
            self._tighten(b)
            return not self.dead
        if op == 'not':
            return self.assume(b.a[0], not val)
        if op == 'and' and val or op == 'or' and not val:
            return all(self.assume(x, val) for x in b.a)
        if op == 'tab':
            x = b.a[0]
            s = ()
            rest = []
            for st, v in b.a[1]:
                v = truth(v)
                d = self.decide(v)
                if d is None:
                    s = iunion(s, st)
                    rest.append((st, v))
                elif d == val:
                    s = iunion(s, st)
            if not self.restrict(x, s):
                return False
            cur = self.vset(x)
            rest2 = [(st, v) for st, v in rest if iinter(st, cur)]
            if len(rest2) == 1 and isub(cur, rest2[0][0]):
                return self.assume(rest2[0][1], val)
            self.bools[b] = val
            return True
        if op in ('and', 'or', 'eq'):
            self.bools[b] = val
            return True
        return self.restrict(b, ((1, 1),) if val else ((0, 0),))

    # ---- Fourier-Motzkin entailment: facts |= l <= 0 ?
    def _ent(self, l):
        c, d = lin(l)
        if not d:
            return c <= 0
        s = self.vset(l)
        if s and s[-1][1] <= 0:
            return True
        if not s:
            return True
        if not self.lins:
            return False
        if self._ec is None:
            self._ec = {}
        r = self._ec.get(l)
        if r is None:
            r = self._fm(c, d)
            self._ec[l] = r
        return r

    def _fm(self, c, d):
        # negation: -l + 1 <= 0
        goal = (1 - c, {k: -v for k, v in d.items()})
        # the same constraint or a stronger one
        k0 = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
        for o in self.lins:
            if o.a[1] == k0 and o.a[0] >= c:
                return True
        # connected component
        atoms = set(d)
        pool = [lin(x) for x in self.lins]
        used = [False] * len(pool)
        changed = True
        while changed:
            changed = False
            for i, (cc, dd) in enumerate(pool):
                if not used[i] and any(k in atoms for k in dd):
                    used[i] = True
                    atoms.update(dd)
                    changed = True
        bnds = []
        for k in sorted(atoms, key=lambda t: t.id):
            s = self.vset(k)
            if not s:
                return True
            bnds.append((k, s[0][0], s[-1][1]))
        ck = (tuple(x for i, x in enumerate(self.lins) if used[i]), tuple(bnds), c, k0)
        r = _FM.get(ck)
        if r is not None:
            return r
        cons = [p for i, p in enumerate(pool) if used[i]] + [goal]
        for k, lo, hi in bnds:
            if lo > -BIG:
                cons.append((lo, {k: -1}))
            if hi < BIG:
                cons.append((-hi, {k: 1}))
        r = _elim(cons, len(atoms))
        _FM[ck] = r
        return r

_FM = {}

def _elim(cons, natoms):
    cons = _dedupe(cons)
    if cons is None:
        return True
    for _ in range(natoms + 1):
        if not cons:
            return False
        # choose variable with least product
        cnt = {}
        for cc, dd in cons:
            for k, v in dd.items():
                p = cnt.setdefault(k, [0, 0])
                p[v > 0] += 1
        if not cnt:
            return False
        k = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1], k.id))
        pos = [x for x in cons if x[1].get(k, 0) > 0]
        neg = [x for x in cons if x[1].get(k, 0) < 0]
        rest = [x for x in cons if not x[1].get(k, 0)]
        if len(pos) * len(neg) > 400:
            return False
        for c1, d1 in pos:
            for c2, d2 in neg:
                a, b = d1[k], -d2[k]
                nd = {}
                for q, v in d1.items():
                    nd[q] = nd.get(q, 0) + v * b
                for q, v in d2.items():
                    nd[q] = nd.get(q, 0) + v * a
                rest.append((c1 * b + c2 * a, {q: v for q, v in nd.items() if v}))
        cons = _dedupe(rest)
        if cons is None:
            return True
    return False

def _dedupe(cons):
    """normalise; None when contradictory"""
    best = {}
    for c, d in cons:
        if not d:
            if c > 0:
                return None
            continue
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if g > 1:
            d = {k: v // g for k, v in d.items()}
            c = -((-c) // g)
        key = frozenset(d.items())
        o = best.get(key)
        if o is None or c > o[0]:
            best[key] = (c, d)
    # opposite pairs
    for key, (c, d) in best.items():
        neg = frozenset((k, -v) for k, v in d.items())
        o = best.get(neg)
        if o is not None and c + o[0] > 0:
            return None
    return list(best.values())
