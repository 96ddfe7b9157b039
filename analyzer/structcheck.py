"""C22: equality and cloning of library values are structural.
Each implementation is analysed with the ones it uses assumed structural: all of
them are checked, so the assumption is discharged by induction on the values."""
import re
from common import *
from dispcheck import rebuilt
from equiv import Eq, split, uninterpreted, comb
from dispcheck import fld

def cases(F, conds):
    """the facts extended by the conditions, one per disjunct"""
    conds = list(conds)
    if F.bools:
        # conditions the facts keep without using them
        keep = [b if v else bnot(b) for b, v in F.bools.items()]
        F = F.copy()
        F.bools = {}
        conds = conds + keep
    while conds:
        c = conds.pop(0)
        if c.op == 'not' and c.a[0].op in ('and', 'or'):
            x = c.a[0]
            c = (bor if x.op == 'and' else band)(*[bnot(y) for y in x.a])
        if c.op == 'and':
            conds = list(c.a) + conds
            continue
        r = F.decide(c)
        if r is True:
            continue
        if r is False:
            return
        if c.op == 'or':
            for y in c.a:
                yield from cases(F, [y] + conds)
            return
        G = F.copy()
        if not G.assume(c, True) or G.dead:
            return
        F = G
    if not F.dead and not infeasible(F):
        yield F

def infeasible(G):
    for l in G.lins:
        if G._ent(sub(I(1), l)):
            return True
    for b in G.nes:
        l = b.a[0]
        if G._ent(l) and G._ent(sub(I(0), l)):
            return True
    for k, d in G.dom.items():
        q = seqs_of(k)
        if q is None or len(ivals(d)) != 1:
            continue
        x, y = q
        if ihas(d, 1):
            if G.decide(cmp_eq(mk('len', x), mk('len', y))) is False:
                return True
            if any(pair(t, x, y) is not None for t in differing(G)):
                return True
        else:
            if G.decide(cmp_eq(mk('len', x), mk('len', y))) is True:
                for n, v, conds in G.foralls:
                    if G.decide(cmp_le(mk('len', x), n)) is True and any(pair(c, x, y, G) is v for c in conds):
                        return True
    return False

def seqs_of(k):
    """the two opaque lists a comparison atom is about"""
    if k.op != 'iv' or k.a[0].op != 'eqv':
        return None
    a, b = k.a[0].a
    if a.op == 'seq' and b.op == 'seq' and len(a.a[1]) == 1 and len(b.a[1]) == 1 and a.a[1][0].op == 'sq' and b.a[1][0].op == 'sq':
        return a.a[1][0], b.a[1][0]
    return None

def differing(G):
    for k, d in G.dom.items():
        if k.op == 'iv' and k.a[0].op == 'eqv' and not ihas(d, 1):
            yield mk_in(k, ((1, 1),))
    for b in G.nes:
        yield b

def whole(e, z):
    """e is the element z itself, not a part of it"""
    return e.op in ('obj', 'iv', 'str', 'mapv') and z in (e.a[0], e.a[1])

def pair(c, x, y, G=None):
    """the index i when the condition says x[i] == y[i]"""
    if c.op == 'in' and c.a[0].op == 'iv' and c.a[0].a[0].op == 'eqv':
        es = c.a[0].a[0].a
    elif c.op == 'eq0':
        cc, d = lin(c.a[0])
        if cc or len(d) != 2 or sum(d.values()) != 0:
            return None
        es = list(d)
    else:
        return None
    zs = [next((z for z in atoms_in(e) if z.op == 'elem' and z.a[0] in (x, y)), None) for e in es]
    if G is not None and not all(z is not None and whole(e, z) for e, z in zip(es, zs)):
        return None
    es = zs
    if None in es or es[0].a[1] is not es[1].a[1] or {es[0].a[0], es[1].a[0]} != {x, y}:
        return None
    return es[0].a[1]

def about_elems(F):
    return bool(F.foralls) or any(z.op == 'elem' for t in fact_terms(F) for z in atoms_in(t))

def dyns(t):
    """the calls through trait objects a term depends on"""
    return [x for x in atoms_in(t) if x.op == 'rec' and str(x.a[0]).startswith('dyn ')]

class Struct:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.E = Eq(M)
        self.visited = set()
        self.unknown = set()
        self.n = {'equality_implementations': 0, 'clone_implementations': 0, 'outcomes': 0, 'field_comparisons': 0}

    def impls(self, trait, m):
        out = []
        for fid in sorted(self.M.fns):
            f = self.M.fns[fid]
            if f['local'] and 'bb' in f:
                r = re.match(r'<(.*) as (.*?)>::(\w+)$', f['n'])
                if r and r.group(3) == m and r.group(2).split('<')[0].split('::')[-1] == trait:
                    out.append((fid, r.group(1)))
        return out

    def run(self):
        for fid, x in self.impls('PartialEq', 'eq'):
            self.each('eq', fid, x, self.eq)
        for fid, x in self.impls('PartialEq', 'ne'):
            self.each('ne', fid, x, self.eq)
        for fid, x in self.impls('Clone', 'clone'):
            self.each('clone', fid, x, self.clone)
        self.ext()

    def each(self, kind, fid, x, fn):
        x = x.replace('magmaflow::', '')
        key = '%s:%s' % (kind, x.replace(' ', ''))
        try:
            self.n['equality_implementations' if fn == self.eq else 'clone_implementations'] += 1
            fn(fid, x, key, kind == 'ne')
        except (Undecided, OutOfBudget, RecursionError, KeyError, IndexError, AttributeError, TypeError) as e:
            self.rep.add({'C22'}, 'u', key, 'the analysis gave up: %s %s' % (type(e).__name__, str(e)[:100]))

    okdyn = frozenset()

    def vague(self, *ts):
        return any(fuzzy(t) for t in ts)

    def note(self, I_):
        self.visited |= set(I_.visited)
        self.unknown |= set(I_.unknown)

    def add(self, st, key, msg=''):
        self.rep.add({'C22'}, st, key, msg)

    def eq(self, fid, x, key, neg):
        M = self.M
        f = M.fns[fid]
        if x.endswith('ExtInstBox') or x == "std::boxed::Box<dyn spv::ExtInst>":
            return self.dyneq(fid, x, key, neg)
        ts = [f['locals'][1], f['locals'][2]]
        if len(ts) != 2 or any(M.types[t]['k'] != 'ref' for t in ts):
            raise Undecided('arguments')
        t0, t1 = [M.types[t]['e'] for t in ts]
        if t0 != t1:
            return self.add('u', key, 'compares different types')
        I_, outs, args, _ = run_root(M, fid)
        self.note(I_)
        a, b = args[0].a[0], args[1].a[0]
        report_panics(M, I_, self.rep, {'C22'}, key)
        ty = M.types[t0]
        if not outs:
            return self.add('u', key, 'no outcome')
        for s, v in outs:
            self.n['outcomes'] += 1
            self.outcome(I_, s, bnot(truth(v)) if neg else truth(v), t0, ty, a, b, key, x)

    def variants(self, ty, v, F):
        """[(facts, variant)]"""
        if ty['k'] != 'adt' or ty['a'] != 'enum':
            yield F, 0
            return
        n = len(ty['v'])
        vs = None
        if v.op == 'agg':
            yield F, v.a[1]
            return
        for i in range(n):
            d = mk_in(mk('discr', v, n), ((i, i),))
            for G in cases(F, [d]):
                yield G, i

    def verdict(self, v, F, want, sure=False):
        """does the result v have the wanted value under the facts"""
        bad = next(iter(cases(F, [bnot(v) if want else v])), None)
        if bad is None:
            return 'y'
        if self.vague(v, *fact_terms(bad)) or about_elems(bad) and not sure:
            return 'u'
        if any(d not in self.okdyn for t in [v] + list(fact_terms(bad)) for d in dyns(t)):
            return 'u'
        return 'n'

    def outcome(self, I_, s, v, t0, ty, a, b, key, x):
        """one outcome (facts, result) of comparing a and b, for every pair of variants"""
        M = self.M
        for F1, i in self.variants(ty, a, s.facts):
            for F2, j in self.variants(ty, b, F1):
                if i != j:
                    r = self.verdict(v, F2, False)
                    self.add(r, key if r == 'y' else '%s:variant' % key, 'two values of %s of different kinds (%s, %s) compare equal' % (x, vname(ty, i), vname(ty, j)))
                    continue
                fs = ty['v'][i]['f'] if ty['k'] == 'adt' else [(str(k), q) for k, q in enumerate(ty.get('f', ()))]
                fc = []
                for k in range(len(fs)):
                    c = natives.val_eq(I_, s, fld(M, a, i, k), fld(M, b, i, k))
                    fc.append((fs[k][0], truth(c)))
                    self.n['field_comparisons'] += 1
                self.okdyn = {d for _, c in fc for d in dyns(c)}
                for G in cases(F2, [c for _, c in fc]):
                    r = self.verdict(v, G, True)
                    self.add(r, key if r == 'y' else '%s:equal' % key, 'two equal values of %s compare different' % (vname(ty, i) or x))
                for nm, c in fc:
                    q = seqs_of(c.a[0]) if c.op == 'in' else None
                    if q is not None:
                        n0, n1 = mk('len', q[0]), mk('len', q[1])
                        alts = [([cmp_lt(n0, n1)], True), ([cmp_lt(n1, n0)], True), ([cmp_eq(n0, n1), bnot(c)], False)]
                    else:
                        alts = [([bnot(c)], False)]
                    for cs, sure in alts:
                      for G in cases(F2, cs):
                        r = self.verdict(v, G, False, sure)
                        self.add(r, key if r == 'y' else '%s:%s' % (key, nm), 'two values of %s that differ in %s compare equal' % (vname(ty, i) or x, nm))

    def clone(self, fid, x, key, _):
        M = self.M
        f = M.fns[fid]
        if 'dyn ' in x and 'ExtInst' in x:
            return self.dynclone(fid, x, key)
        I_, outs, args, _ = run_root(M, fid)
        self.note(I_)
        a = args[0].a[0]
        ty = M.types[M.types[f['locals'][1]]['e']]
        if not outs:
            return self.add('u', key, 'no outcome')
        report_panics(M, I_, self.rep, {'C22'}, key)
        for s, v in outs:
            self.n['outcomes'] += 1
            for F, i, w in [(F2, i, w) for F1, i in self.variants(ty, a, s.facts) for F2, w in self.E.resolve(F1, v)]:
                fs = ty['v'][i]['f'] if ty['k'] == 'adt' else ()
                if w is a or v is a:
                    self.add('y', key)
                    continue
                if w.op == 'agg' and ty['k'] == 'adt':
                    if w.a[1] != i:
                        self.add('u' if self.vague(*fact_terms(F)) else 'n', key + ':variant', 'the clone of %s is %s' % (vname(ty, i), vname(ty, w.a[1])))
                        continue
                    for k, (nm, _t) in enumerate(fs):
                        r = self.E.eq(F, w.a[2][k], fld(M, a, i, k))
                        if r != 'y' and boxclone(w.a[2][k], fld(M, a, i, k)):
                            r = 'y'
                        self.n['field_comparisons'] += 1
                        if r == 'n' and self.vague(w.a[2][k], *fact_terms(F)):
                            r = 'u'
                        self.add(r, '%s:%s' % (key, nm) if r != 'y' else key, 'the clone of %s differs from it in %s' % (vname(ty, i) or x, nm))
                    if not fs:
                        self.add('y', key)
                    continue
                r = self.E.eq(F, w, a)
                if r == 'n' and self.vague(w, *fact_terms(F)):
                    r = 'u'
                self.add(r, key, 'the clone of %s differs from it' % x)

    # ---- extended instructions behind their trait object
    def dyneq(self, fid, x, key, neg):
        """the comparison is the one of the instructions inside"""
        M = self.M
        I_, outs, args, _ = run_root(M, fid)
        self.note(I_)
        for s, v in outs:
            self.n['outcomes'] += 1
            t = truth(v)
            if neg:
                t = bnot(t)
            rs = [y for y in atoms_in(t) if y.op == 'rec' and str(y.a[0]).startswith('dyn ')]
            if len(rs) == 1 and 'eq' in str(rs[0].a[0]):
                r = rs[0]
                if t is mk_in(mk('iv', r, 0, 1), ((1, 1),)) or t is r or any(t is mk_in(q, ((1, 1),)) for q in atoms_in(t)):
                    xs = [strip_ref(q) for q in r.a[1:]]
                    want = {y for y in (args[0].a[0], args[1].a[0])}
                    got = [base_of(q) for q in xs]
                    have = [base_of(q) for q in want]
                    if len(got) == 2 and set(got) == set(have) and len(set(got)) == 2:
                        self.add('y', key)
                        continue
            st = 'n' if not self.vague(t, *fact_terms(s.facts)) and not rs and not s.facts.dom else 'u'
            if not s.facts.dom and not s.facts.lins and (not mentions(t, 'a0') or not mentions(t, 'a1')):
                st = 'n'
            if st == 'u':
                st = self.dyneq_known(fid, x, key, neg)
            self.add(st, key, 'the equality of %s is not the one of the instructions inside' % x)

    def dyneq_known(self, fid, x, key, neg):
        """undecided for any instruction: what about those of a known type?"""
        M = self.M
        bad = []
        add = self.add
        try:
            for t in sorted({t for p, t in M.devirt if p.endswith('spv::ExtInst::get_op')}):
                f = M.fns[fid]
                xs, args = [], []
                for i in range(2):
                    inner = mk('obj', t, mk('sym', 'x%d' % i))
                    def known(y):
                        if y.op == 'obj' and M.types[y.a[0]]['k'] == 'dyn':
                            return inner
                    v = opq(M, f['locals'][1 + i], mk('sym', 'a%d' % i))
                    w = rebuilt(v, known)
                    if w is v:
                        return 'u'
                    xs.append(inner)
                    args.append(w)
                I_, outs, _, _ = run_root(M, fid, args=args)
                self.note(I_)
                self.add = lambda st, key, msg='': bad.append(msg) if st == 'n' else None
                for s, v in outs:
                    r = bnot(truth(v)) if neg else truth(v)
                    self.outcome(I_, s, r, t, M.types[t], xs[0], xs[1], key, M.types[t]['p'])
        except (Undecided, OutOfBudget):
            pass
        finally:
            self.add = add
        return 'n' if bad else 'u'

    def dynclone(self, fid, x, key):
        I_, outs, args, _ = run_root(self.M, fid)
        self.note(I_)
        for s, v in outs:
            rs = [y for y in atoms_in(v) if y.op == 'rec' and str(y.a[0]).startswith('dyn ')]
            if len(rs) == 1 and 'clone_box' in str(rs[0].a[0]) and base_of(strip_ref(rs[0].a[1])) is base_of(args[0].a[0]):
                self.add('y', key)
            else:
                self.add('u', key, 'the clone of a boxed instruction')

    def ext(self):
        M = self.M
        for fid, x in self.impls('ExtInst', 'eq'):
            x = x.replace('magmaflow::', '')
            self.each2(fid, x)
        # clone_box of a concrete instruction is a box of its clone
        for fid in sorted(M.fns):
            f = M.fns[fid]
            if f['local'] and 'bb' in f and f['n'].endswith('::clone_box') and 'ExtInstClone' in f['n']:
                key = 'clone_box:%s' % short(f['n']).replace(' ', '')
                try:
                    I_, outs, args, _ = run_root(M, fid)
                    self.note(I_)
                    a = args[0].a[0]
                    for s, v in outs:
                        w = v
                        for _ in range(4):
                            if w.op in ('box', 'vref', 'bptr') and w.a:
                                w = w.a[0]
                        r = self.E.eq(s.facts, w, a)
                        if r == 'n' and (self.vague(w) or M.types[f['locals'][1]]['k'] != 'ref'):
                            r = 'u'
                        self.add(r, key, 'the clone of a boxed instruction differs from it')
                except Exception as e:
                    self.add('u', key, 'the analysis gave up: %s' % str(e)[:100])

    def foreign(self, F, t0):
        """[(facts, certain)] in which the other instruction is not of type t0"""
        its = [k for k in F.dom if k.op == 'iv' and k.a[0].op == 'istype']
        if not its:
            yield F, False
            return
        G = F.copy()
        for k in its:
            if k.a[0].a[1] == t0 and not G.restrict(k, ((0, 0),)):
                return
        if not G.dead:
            yield G, not any(fuzzy(t) for t in fact_terms(F) if t not in its)

    def each2(self, fid, x):
        M = self.M
        key = 'ExtInst::eq:%s' % x
        try:
            f = M.fns[fid]
            t0 = M.types[f['locals'][1]]['e']
            # the other instruction is of the same set
            a = opq(M, f['locals'][1], mk('sym', 'a0'))
            b = opq(M, f['locals'][1], mk('sym', 'a1'))
            I_, outs, args, _ = run_root(M, fid, args=[a, b])
            self.note(I_)
            for s, v in outs:
                if truth(v) is truth(natives.val_eq(I_, s, a.a[0], b.a[0])):
                    # it delegates to the implementation checked above
                    self.add('y', key)
                    continue
                self.outcome(I_, s, truth(v), t0, M.types[t0], a.a[0], b.a[0], key, x)
            # the other instruction is of any set
            I_, outs, args, _ = run_root(M, fid)
            self.note(I_)
            for s, v in outs:
                for F, q in self.foreign(s.facts, t0):
                    r = F.decide(truth(v))
                    self.add('y' if r is False else 'n' if r is True and q else 'u', key + ':foreign' if r is not False else key, 'an instruction of %s equals one of another set' % x)
        except Exception as e:
            self.add('u', key, 'the analysis gave up: %s %s' % (type(e).__name__, str(e)[:100]))

def boxclone(w, x):
    """w is clone_box of the boxed instruction x (every clone_box is checked on its own)"""
    w, x = strip_ref(w), strip_ref(x)
    if w.op != 'obj' or x.op != 'obj' or w.a[1].op != 'deref':
        return False
    r = w.a[1].a[0]
    return r.op == 'rec' and str(r.a[0]) == 'dyn magmaflow::spv::ExtInstClone::clone_box' and len(r.a) == 2 and strip_ref(r.a[1]) is x

def mentions(t, name):
    return any(y.op == 'sym' and y.a[0] == name for y in atoms_in(t))

def strip_ref(v):
    while v.op in ('vref', 'box', 'bptr') and v.a:
        v = v.a[0]
    return v

def base_of(v):
    """the value a term is a part of"""
    while True:
        if v.op in ('vref', 'box', 'bptr'):
            v = v.a[0]
        elif v.op == 'agg' and v.a[2]:
            v = v.a[2][0]
        elif v.op == 'obj':
            v = v.a[1]
        elif v.op == 'fld':
            v = v.a[0]
        elif v.op == 'iv':
            v = v.a[0]
        else:
            return v

def vname(ty, i):
    if ty['k'] != 'adt':
        return ''
    return '%s::%s' % (ty['n_'].split('::')[-1], ty['v'][i]['n']) if ty['a'] == 'enum' else ty['n_'].split('::')[-1]

def check(M, rep):
    S = Struct(M, rep)
    S.run()
    n = dict(S.n)
    n['functions_visited'] = len(S.visited)
    n['uninterpreted_calls'] = sorted(S.unknown)[:20]
    rep.notes['C22'] = n
