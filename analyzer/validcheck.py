"""Validation: the logical module built from an instruction list is compared,
element by element, with the layout grammar of the standard, and every error
outcome is shown to concern an instruction list that the grammar excludes.

The analysis of `validate` yields, for each outcome, sections as terms over the
input elements (`elem(input, i)`) together with the facts known about their
kinds; lists built by loops of irregular stride are covered by an inductive
argument over the loop's summary (one obligation per back edge)."""
import os
import re
from common import *
from equiv import Eq
import loops
from dispcheck import fld

SINGLE = {'OpCapability': 'CAP', 'OpExtension': 'EXT', 'OpExtInstImport': 'IMP', 'OpMemoryModel': 'MEM', 'OpEntryPoint': 'ENT',
          'OpExecutionMode': 'EXE', 'OpDecorate': 'ANN', 'OpMemberDecorate': 'ANN', 'OpFunction': 'FUN', 'OpFunctionParameter': 'PAR',
          'OpFunctionEnd': 'END', 'OpLabel': 'LAB', 'OpLoopMerge': 'MRG', 'OpSelectionMerge': 'MRG', 'OpBranch': 'BRA',
          'OpBranchConditional': 'BRA', 'OpReturn': 'BRA', 'OpSourceContinued': 'DBG', 'OpSource': 'DBG', 'OpSourceExtension': 'DBG',
          'OpName': 'DBG', 'OpMemberName': 'DBG', 'OpString': 'DBG', 'OpConstant': 'GLO', 'OpConstantComposite': 'GLO'}
# body instructions this library decodes
CODE = ('OpNop OpUndef OpExtInst OpLoad OpStore OpAccessChain OpConvertUToF OpBitcast OpIAdd OpFAdd OpISub OpFSub OpIMul OpFMul OpUDiv OpSDiv '
        'OpFDiv OpUMod OpSRem OpSMod OpFRem OpFMod OpIAddCarry OpISubBorrow OpUMulExtended OpSMulExtended OpBitwiseOr OpBitwiseXor '
        'OpBitwiseAnd OpIEqual OpINotEqual OpUGreaterThan OpSGreaterThan OpUGreaterThanEqual OpSGreaterThanEqual OpULessThan OpSLessThan '
        'OpULessThanEqual OpSLessThanEqual OpFOrdEqual OpFUnordEqual OpFOrdNotEqual OpFUnordNotEqual OpFOrdLessThan OpFUnordLessThan '
        'OpFOrdGreaterThan OpFUnordGreaterThan OpFOrdLessThanEqual OpFUnordLessThanEqual OpFOrdGreaterThanEqual OpFUnordGreaterThanEqual OpPhi').split()
SECTIONS = [('capabilities', 'CAP'), ('extensions', 'EXT'), ('ext_inst_imports', 'IMP'), ('memory_model', 'MEM'), ('entry_points', 'ENT'),
            ('execution_modes', 'EXE'), ('debug', 'DBG'), ('annotations', 'ANN'), ('globals', 'GLO')]
ORDER = [c for _, c in SECTIONS]

def category(name):
    if name in SINGLE:
        return SINGLE[name]
    if name.startswith('OpType'):
        return 'GLO'
    if name in CODE:
        return 'COD'
    return None

class Stop(Exception):
    def __init__(self, status, what, props):
        self.status, self.what, self.props = status, what, props

SEC, FUNC = ['C15', 'C16'], ['C15', 'C17']

class Valid:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.core = M.adt_named('raw::Core')
        self.fid = None
        for i, f in sorted(M.fns.items()):
            if f.get('local') and f.get('bb') and f['n'].endswith('::validate') and f['argc'] == 1:
                t = M.types[f['locals'][1]]
                if t['k'] == 'adt' and t['p'].endswith('::RawModule'):
                    self.fid = i
        if self.core < 0 or self.fid is None:
            raise Missing('validate')
        self.names = [v['n'] for v in M.types[self.core]['v']]
        self.groups = {}
        for i, n in enumerate(self.names):
            if n != 'OpVariable':
                self.groups.setdefault(category(n), []).append(i)
        self.var = self.names.index('OpVariable') if 'OpVariable' in self.names else None

    def run(self):
        M = self.M
        self.I, self.outs, args, _ = run_root(M, self.fid)
        a0 = args[0]
        rt = M.types[a0.a[0]]
        idx = [i for i, f in enumerate(rt['v'][0]['f']) if f[0] == 'instructions']
        if not idx:
            raise Missing('instructions')
        self.IN = fld(M, a0, 0, idx[0])
        self.N = seq_len(self.IN)
        allow = set()
        for r in self.I.loops:
            for t in [r.K] + [v for v in r.lvs if v.op in ('iv',)]:
                allow |= {x for x in atoms_in(t) if x.op == 'sym'}
        self.E = Eq(M, allow)
        # loop-carried sequences
        self.lists = {}
        for r in self.I.loops:
            for p, n in loops.node_path(r.nodes):
                if n.k in ('acc', 'lv') and getattr(n, 'lv', None) is not None:
                    t = n.lv
                    if t.op == 'seq':
                        t = t.a[1][0]
                    if t.op == 'sq':
                        self.lists[t] = (r, p, n)
        self.recs = {}
        self.broken = False

    # ---- what is known about one input element
    def at(self, F, pos):
        p = self.IN.a[1]
        if len(p) != 1 or p[0].op != 'sq':
            raise Missing('the instruction list')
        return opq(self.M, self.core, mk('elem', p[0], pos))

    def feasible(self, F, conds):
        G = F.copy()
        for c in conds:
            if not G.assume(c) or G.dead:
                return None
        for b, v in F.bools.items():
            if b.op == 'tab':
                try:
                    t = tab_filter(b, G)
                except Undecided:
                    return None
                r = G.decide(truth(t)) if t is not b else None
                if r is not None and r != v:
                    return None
        return G

    def discr(self, F, pos):
        e = self.at(F, pos)
        return e, mk('discr', e, len(self.names))

    def cats(self, F, pos):
        """{category: [(variant, facts)]} of the element at pos"""
        e, d = self.discr(F, pos)
        S = F.vset(d)
        res = {}
        for c, vs in self.groups.items():
            for k in vs:
                if ihas(S, k):
                    G = self.feasible(F, [mk_in(d, ((k, k),))])
                    if G is not None:
                        res.setdefault(c, []).append((k, G))
        if self.var is not None and ihas(S, self.var):
            sc = self.storage(F, e)
            if sc is None:
                res.setdefault(None, []).append((self.var, F))
            else:
                q, fn, n = sc
                for c, s in (('COD', ((fn, fn),)), ('GLO', idiff(((0, n - 1),), ((fn, fn),)))):
                    G = self.feasible(F, [mk_in(d, ((self.var, self.var),)), mk_in(q, s)])
                    if G is not None:
                        res.setdefault(c, []).append((self.var, G))
        return res

    def storage(self, F, e):
        M = self.M
        p = fld(M, e, self.var, 0)
        pt = M.types[M.types[self.core]['v'][self.var]['f'][0][1]]
        for i, f in enumerate(pt['v'][0]['f']):
            if f[0] == 'storage_class':
                v = fld(M, p, 0, i)
                if v.op != 'obj':
                    return None
                t = M.types[v.a[0]]
                for j, x in enumerate(t['v']):
                    if x['n'] == 'Function':
                        return mk('discr', v, len(t['v'])), j, len(t['v'])
        return None

    def tested(self, F, pos):
        e, d = self.discr(F, pos)
        return F.vset(d) != ((0, len(self.names) - 1),)

    def takes(self, F, v, pos):
        """v is made of one element, and it is clear whether that is the one at pos"""
        if v is None:
            return True
        src = [t for t in atoms_in(v) if t.op == 'elem' and t.a[0] is self.IN.a[1][0]]
        return bool(src) and all(t.a[1] is pos or F.decide(cmp_eq(t.a[1], pos)) is not None for t in src)

    # ---- values
    def wrap(self, ty, pty, payload):
        M = self.M
        if ty == pty:
            return payload
        t, p = M.types[ty], M.types[pty]
        if t['k'] == 'adt' and t['a'] == 'enum':
            for i, v in enumerate(t['v']):
                if len(v['f']) == 1:
                    x = self.wrap(v['f'][0][1], pty, payload)
                    if x is not None:
                        return mk('agg', ty, i, (x,))
        if p['k'] == 'adt' and p['a'] == 'struct' and p['p'].split('::')[-1] in ('OpCapability', 'OpExtension') and len(p['v'][0]['f']) == 1 and p['v'][0]['f'][0][1] == ty:
            return fld(M, payload, 0, 0)
        return None

    def one(self, F, v, ty, pos, cat, props, what):
        """v is the element at pos, which is of the given category"""
        self.count += 1
        if F.decide(cmp_lt(pos, self.N)) is not True:
            raise Stop('u', '%s taken from beyond the instructions' % what, props)
        cs = self.cats(F, pos)
        if set(cs) != {cat}:
            bad = sorted(str(c) for c in cs if c != cat)
            k = [self.names[x[0]] for c in cs for x in cs[c] if c != cat][:4]
            if None in cs:
                raise Stop('u', 'instructions outside the grammar: %s' % k, props)
            raise Stop('n' if self.tested(F, pos) and self.takes(F, v, pos) else 'u', '%s may hold an instruction of another section (%s)' % (what, ', '.join(k)), props)
        if v is None:
            return
        e = self.at(F, pos)
        for k, G in cs[cat]:
            pty = self.M.types[self.core]['v'][k]['f'][0][1]
            want = self.wrap(ty, pty, fld(self.M, e, k, 0))
            if want is None:
                raise Stop('u', 'no place for %s in %s' % (self.names[k], self.M.types[ty]['n_']), props)
            r = self.E.eq(G, v, want)
            if r != 'y':
                raise Stop(r, '%s does not hold the %s of the input unchanged (%s instead of %s)' % (what, self.names[k], show(v, 6)[:160], show(want, 6)[:160]), ['C15'] + props)

    def items(self, F, v, pos, elemfn, what, props):
        """positions after the list v, whose elements come from pos onwards: [(facts, pos)]"""
        if v.op not in ('seq', 'view'):
            raise Stop('u', '%s is not understood (%s)' % (what, v.op), props)
        if v.op == 'view':
            raise Stop('u', '%s is a part of a list' % what, props)
        cur = [(F, pos)]
        for p in v.a[1]:
            nxt = []
            for F, pos in cur:
                if p.op == 'lit':
                    nxt += elemfn(F, p.a[0], pos)
                elif p.op == 'gen':
                    nxt.append((F, self.gen(F, p, pos, elemfn, what, props)))
                elif p.op == 'sq' and self.shuffled(F, p.a[0]):
                    raise Stop('n', '%s is rearranged or thinned out (%s)' % (what, p.a[0].a[0].a[0].split('::')[-1]), props)
                elif p.op == 'sq' and p in self.lists:
                    nxt.append((F, self.loop(F, p, pos, elemfn, what, props)))
                else:
                    raise Stop('u' if self.E.unint(p) else 'n', '%s holds %s' % (what, show(p, 5)[:120]), props)
            cur = nxt
        return cur

    def shuffled(self, F, w):
        """the list after a library call that removes equal neighbours or sorts: two free elements suffice to see it"""
        if w.op != 'after' or w.a[0].op != 'call' or not re.search(r'::(dedup|sort|sort_unstable)$', str(w.a[0].a[0])):
            return False
        old = w.a[1]
        if old.op != 'seq' or not old.a[1] or self.E.unint(old):
            return False
        G = F.copy()
        return G.assume(cmp_le(I(2), seq_len(old))) and not G.dead

    def gen(self, F, p, pos, elemfn, what, props):
        b, count, xs = p.a
        if len(xs) != 1:
            raise Stop('u', '%s gains several elements at a time' % what, props)
        nb = bv(90)
        G = F.copy()
        if not G.assume(cmp_le(I(0), nb)) or not G.assume(cmp_lt(nb, count)) or G.dead:
            return add(pos, count)
        for c, w, conds in F.foralls:
            if c is count or F.decide(cmp_le(count, c)) is True:
                for x in conds:
                    if not G.assume(truth(subst(x, {w: nb}))) or G.dead:
                        return add(pos, count)
        for H, q in elemfn(G, subst(xs[0], {b: nb}), add(pos, nb)):
            if H.decide(cmp_eq(q, add(pos, add(nb, I(1))))) is not True:
                raise Stop('u', '%s has elements of several instructions each' % what, props)
        return add(pos, count)

    def loop(self, F, part, pos, elemfn, what, props):
        r, path, node = self.lists[part]
        q, q0, err = self.induct(r, path, node, part, elemfn, what, props)
        if q is None:
            raise err
        if F.decide(cmp_eq(q0, pos)) is not True:
            s = 'n' if F.decide(cmp_eq(q0, pos)) is False or not self.vague(sub(q0, pos)) else 'u'
            raise Stop(s, '%s does not start where the previous part of the module ends' % what, props)
        return q

    def induct(self, r, path, node, part, elemfn, what, props):
        """the integer loop variable that holds the position after the elements
        collected so far: (its value, its initial value, None)"""
        key = (id(r), part, what)
        if key in self.recs:
            return self.recs[key]
        self.recs[key] = (None, None, Stop('u', '%s: nested in itself' % what, props))
        cand = [(p, n) for p, n in loops.node_path(r.nodes) if n.k in ('lv', 'aff') and self.I.intlike(n.v) and n.v.op not in BOOLOPS]
        first = node.v0
        res = None
        worst = None
        if first.op == 'seq' and not first.a[1]:
            for p, n in cand:
                try:
                    for b in r.backs:
                        L = loops.at_path(b, r.nodes, path)
                        cur = [(b.facts, n.v)]
                        old = node.v
                        k = len(old.a[1])
                        if L.op != 'seq' or L.a[1][:k] != old.a[1]:
                            raise Stop('u', '%s is rebuilt by the loop' % what, props)
                        for x in L.a[1][k:]:
                            if x.op != 'lit':
                                raise Stop('u', '%s gains %s' % (what, x.op), props)
                            cur = [z for F, pos in cur for z in elemfn(F, x.a[0], pos)]
                        new = loops.at_path(b, r.nodes, p)
                        for F, pos in cur:
                            d = F.decide(cmp_eq(pos, new))
                            if d is not True:
                                raise Stop('n' if d is False else 'u', '%s: an iteration leaves instructions out or takes them twice' % what, props)
                    res = (n.v, n.v0, None)
                    break
                except Stop as e:
                    if worst is None or (e.status == 'n' and worst.status != 'n'):
                        worst = e
        if res is None:
            # believed only when there is no doubt which variable is the position
            if worst is None:
                worst = Stop('u', '%s: no loop variable follows the position' % what, props)
            elif len(cand) > 1:
                worst = Stop(worst.status if all(self.E.eq(r.entry.facts, n.v0, cand[0][1].v0) == 'y' for _, n in cand) else 'u', worst.what, worst.props)
            res = (None, None, worst)
        if res[2] is not None:
            self.broken = True
        self.recs[key] = res
        return res

    # ---- grammar-directed
    def field(self, v, name):
        t = self.M.types[v.a[0]]
        for i, f in enumerate(t['v'][0]['f']):
            if f[0] == name:
                return v.a[2][i] if v.op == 'agg' else fld(self.M, v, 0, i), f[1]
        raise Stop('u', 'no field %s' % name, FUNC)

    def simple(self, ty, cat, props, what):
        def f(F, v, pos):
            out = []
            for G, x in self.E.resolve(F, v):
                self.one(G, x, ty, pos, cat, props, what)
            return [(F, add(pos, I(1)))]
        return f

    def listof(self, F, v, vty, pos, cat, props, what):
        t = self.M.types[vty]['g'][0]
        return self.items(F, v, pos, self.simple(t, cat, props, what), what, props)

    def agg(self, F, v, what):
        for G, x in self.E.resolve(F, v):
            if x.op not in ('agg', 'obj'):
                raise Stop('u', '%s is %s' % (what, x.op), FUNC)
            yield G, x

    def ends(self, F, pos, what):
        self.one(F, None, None, pos, 'END', FUNC, what + "'s end")
        return F, add(pos, I(1))

    def header(self, F, v, pos, what):
        f, ft = self.field(v, 'function')
        self.one(F, f, ft, pos, 'FUN', FUNC, what)
        p, pt = self.field(v, 'parameters')
        return self.listof(F, p, pt, add(pos, I(1)), 'PAR', FUNC, what + "'s parameters")

    def decl(self, F, v, pos):
        out = []
        for G, x in self.agg(F, v, 'a declaration'):
            for H, q in self.header(G, x, pos, 'a function declaration'):
                out.append(self.ends(H, q, 'a function declaration'))
        return out

    def defn(self, F, v, pos):
        out = []
        for G, x in self.agg(F, v, 'a definition'):
            for H, q in self.header(G, x, pos, 'a function definition'):
                b, bt = self.field(x, 'blocks')
                for K, q2 in self.items(H, b, q, self.block, "a function's blocks", FUNC):
                    out.append(self.ends(K, q2, 'a function definition'))
        return out

    def block(self, F, v, pos):
        out = []
        for G, x in self.agg(F, v, 'a block'):
            l, lt = self.field(x, 'label')
            self.one(G, l, lt, pos, 'LAB', FUNC, 'a block label')
            c, ct = self.field(x, 'code')
            for H, q in self.listof(G, c, ct, add(pos, I(1)), 'COD', FUNC, "a block's code"):
                m, mt = self.field(x, 'merge')
                for K, y in self.E.resolve(H, m):
                    r = q
                    if y.op != 'agg':
                        raise Stop('u', "a block's merge is %s" % y.op, FUNC)
                    if y.a[1] == 1:
                        self.one(K, y.a[2][0], self.M.types[mt]['g'][0], q, 'MRG', FUNC, "a block's merge")
                        r = add(q, I(1))
                    b, bt = self.field(x, 'branch')
                    self.one(K, b, bt, r, 'BRA', FUNC, "a block's branch")
                    out.append((K, add(r, I(1))))
        return out

    def accepted(self, F, v):
        cur = [(F, I(0))]
        for name, cat in SECTIONS:
            nxt = []
            for G, pos in cur:
                x, ty = self.field(v, name)
                if cat == 'MEM':
                    self.one(G, x, ty, pos, cat, SEC, 'the ' + name)
                    nxt.append((G, add(pos, I(1))))
                else:
                    nxt += self.listof(G, x, ty, pos, cat, SEC, 'the ' + name)
            cur = nxt
        for name, fn in (('function_declarations', self.decl), ('function_definitions', self.defn)):
            nxt = []
            for G, pos in cur:
                x, ty = self.field(v, name)
                nxt += self.items(G, x, pos, fn, 'the ' + name, FUNC)
            cur = nxt
            if fn == self.decl:
                for G, pos in cur:
                    self.leading(G, pos)
        for G, pos in cur:
            self.count += 1
            if G.decide(cmp_eq(pos, self.N)) is not True:
                raise Stop('n', 'a module is accepted though instructions are left over after its functions', ['C15', 'C16', 'C17'])

    def leading(self, F, pos):
        """the declarations end where a function with a body, or no function, follows"""
        what = 'a function without a body, ahead of all functions with one, is not among the declarations'
        self.count += 1
        def put(H, p, cat):
            if H is None:
                return None
            e, d = self.discr(H, p)
            k = self.groups[cat][0]
            return self.feasible(H, [cmp_lt(p, self.N), mk_in(d, ((k, k),))])
        B = put(F, pos, 'FUN')
        B = B and self.feasible(B, [cmp_le(add(pos, I(2)), self.N)])
        if B is None:
            return
        nb = bv(90)
        alls = []
        for c, w, conds in F.foralls:
            e, d = self.discr(F, add(add(pos, I(1)), nb))
            inst = [subst(x, {w: nb}) for x in conds]
            if any(contains(x, d) for x in inst):
                alls.append((c, w, conds))
        at = lambda k: add(add(pos, I(1)), k)
        if len(alls) > 1:
            raise Stop('u', what, ['C17'])
        def num(H, c, j):
            # with the trip count fixed
            H = self.feasible(H, [cmp_eq(c, I(j))])
            if H is None or c.op == 'int':
                return H
            H = loops.subst_facts(H, {c: I(j)})
            return None if H is None or H.dead else H
        # some declaration of up to two parameters
        for k in range(3):
            hs = [B]
            for c, w, conds in alls:
                hs = []
                for j in range(k + 2):
                    H = num(B, c, j) if j <= k else self.feasible(B, [cmp_le(I(j), c)])
                    H = H and self.feasible(H, [truth(subst(x, {w: I(i)})) for x in conds for i in range(j)])
                    if H is not None:
                        hs.append(H)
            for H in hs:
                for i in range(k):
                    H = put(H, at(I(i)), 'PAR')
                H = put(H, at(I(k)), 'END')
                if H is not None:
                    raise Stop('n' if not any(self.E.unint(t) for t in fact_terms(H)) else 'u', what, ['C17'])
        # of any number of parameters
        k = mk('iv', mk('sym', 'k#'), 0, LENMAX)
        hs = []
        for c, w, conds in alls:
            hs.append(put(self.feasible(B, [cmp_lt(k, c)] + [truth(subst(x, {w: k})) for x in conds]), at(k), 'END'))
            hs.append(put(B, at(c), 'END'))
            hs.append(put(self.feasible(B, [cmp_lt(c, k), cmp_lt(at(k), self.N)]), at(c), 'PAR'))
        if not alls:
            hs.append(put(B, at(k), 'END'))
        if any(H is not None for H in hs):
            raise Stop('u', what, ['C17'])

    # ---- error outcomes: walk as far as the grammar explains what is known
    FOLLOW = {'fun': ('PAR', 'LAB', 'END'), 'blocks': ('LAB', 'END'), 'block': ('COD', 'MRG', 'BRA'), 'merged': ('BRA',)}

    def allowed(self, s):
        if isinstance(s, int):
            res = set(ORDER[s:4] if s <= 3 else ORDER[s:])
            if s > 3:
                res.add('FUN')
            return res
        if s == 'top':
            return {'FUN'}
        return set(self.FOLLOW[s])

    def step(self, s, c):
        if c in ORDER:
            return ORDER.index(c) + (1 if c == 'MEM' else 0)
        return {'FUN': 'fun', 'PAR': 'fun', 'LAB': 'block', 'COD': 'block', 'MRG': 'merged', 'BRA': 'blocks', 'END': 'top'}[c]

    def rejected(self, F, v):
        """(state, pos) where the list stops being a module, with the trail of the walk"""
        pos, s = I(0), 0
        used = set()
        trail = []
        while True:
            hit = False
            for (r, path, node), part in [(self.lists[p], p) for p in self.lists]:
                ty = ety(node.v0) if node.v0.op == 'seq' else None
                kind = self.M.types[ty]['p'].split('::')[-1] if ty is not None and self.M.types[ty]['k'] == 'adt' else ''
                fn = {'FunctionDeclaration': self.decl, 'FunctionDefinition': self.defn, 'BasicBlock': self.block}.get(kind)
                if fn is None or (id(r), part) in used:
                    continue
                q, q0, err = self.induct(r, path, node, part, fn, {'FunctionDeclaration': 'the function_declarations', 'FunctionDefinition': 'the function_definitions', 'BasicBlock': "a function's blocks"}[kind], FUNC)
                if q is None or F.decide(cmp_eq(q0, pos)) is not True or q not in self.known(F):
                    continue
                if kind == 'BasicBlock' and s not in ('fun', 'blocks') or kind != 'BasicBlock' and not (s == 'top' or isinstance(s, int) and s > 3):
                    continue
                used.add((id(r), part))
                pos, s = q, 'blocks' if kind == 'BasicBlock' else 'top'
                trail.append(kind)
                hit = True
                break
            if hit:
                continue
            for c, w, conds in F.foralls:
                nb = bv(90)
                G = F.copy()
                G.assume(cmp_le(I(0), nb))
                G.assume(cmp_lt(nb, c))
                if (c, conds) in used:
                    continue
                e, d = self.discr(F, add(pos, nb))
                inst = [subst(x, {w: nb}) for x in conds]
                if not any(contains(x, d) for x in inst):
                    continue
                if F.decide(cmp_le(c, I(0))) is True:
                    used.add((c, conds))
                    pos = add(pos, c)
                    hit = True
                    break
                for x in inst:
                    G.assume(truth(x))
                cs = set(self.cats(G, add(pos, nb)))
                if len(cs) == 1 and cs <= self.allowed(s) and list(cs)[0] != 'MEM':
                    used.add((c, conds))
                    s = self.step(s, list(cs)[0])
                    trail.append('%s*' % list(cs)[0])
                    pos = add(pos, c)
                    hit = True
                    break
            if hit:
                continue
            if F.decide(cmp_lt(pos, self.N)) is True:
                cs = set(self.cats(F, pos))
                if len(cs) == 1 and cs <= self.allowed(s):
                    s = self.step(s, list(cs)[0])
                    trail.append(list(cs)[0])
                    pos = add(pos, I(1))
                    continue
            return s, pos, trail

    def vague(self, t):
        """more than input lengths and trip counts"""
        return self.E.unint(t) or any(x.op == 'sym' and str(x.a[0]).startswith('lv ') for x in atoms_in(t))

    def known(self, F):
        r = set()
        for t in fact_terms(F):
            r |= atoms_in(t)
        return r

    def refused(self, F, v, key):
        """an error outcome: the instruction list is not a module"""
        et = self.M.types[v.a[0]]
        kind = et['v'][v.a[1]]['n']
        q = v.a[2][0] if v.a[2] else None
        s, pos, trail = self.rejected(F, v)
        infn = not isinstance(s, int) and s != 'top'
        props = ['C17'] if infn else ['C16']
        both = ['C16', 'C17']
        self.count += 1
        tr = ' '.join(trail) or 'the start'
        end = F.decide(cmp_eq(pos, self.N)) is True
        if not end:
            if F.decide(cmp_lt(pos, self.N)) is not True:
                raise Stop('u', 'error %s: position unclear after %s' % (kind, tr), both)
            cs = set(self.cats(F, pos))
            ok = not (cs & self.allowed(s))
            if not ok and s in ('top',) + tuple(range(4, 10)) and cs & self.allowed(s) == {'FUN'} and F.decide(cmp_le(self.N, add(pos, I(1)))) is True:
                ok = True           # a lone function instruction at the end
            if not ok and s == 'top' and F.decide(cmp_le(self.N, add(pos, I(1)))) is True:
                ok = True
            if not ok:
                raise Stop('n' if self.tested(F, pos) or s == 'top' else 'u', 'error %s for a list that may go on to be a module: after %s comes %s' % (kind, tr, '/'.join(sorted(map(str, cs & self.allowed(s))))), both)
        else:
            if s in ('top',) or isinstance(s, int) and s > 3:
                raise Stop('n', 'error %s for a complete module' % kind, both)
        # the error that says so
        if isinstance(s, int) and s <= 3:
            want = ('MemoryModelMissing',)
        elif s == 'top' or isinstance(s, int):
            want = ('ExpectedOpFunction', 'UnexpectedInstruction')
        elif s in ('fun', 'blocks'):
            want = ('ExpectedOpFunctionEnd',)
        else:
            want = ('ExpectedBranch',)
        if s == 'fun' and end and kind == 'UnexpectedInstruction' and trail and trail[-1] == 'FUN' and q is not None and F.decide(cmp_eq(q, sub(pos, I(1)))) is True:
            return
        if kind not in want:
            raise Stop('n', 'error %s where %s is due: after %s' % (kind, ' or '.join(want), tr), both)
        if q is not None:
            r = F.decide(cmp_eq(q, pos))
            if r is not True:
                raise Stop('n' if r is False or not self.vague(sub(q, pos)) else 'u', 'error %s names position %s instead of %s' % (kind, show(q, 4), show(pos, 4)), both)

def check(M, rep):
    ALL = ['C15', 'C16', 'C17']
    V = Valid(M, rep)
    unknown = [n for n in V.names if category(n) is None and n != 'OpVariable']
    V.run()
    V.count = 0
    ok = err = 0
    for i, (st, v) in enumerate(V.outs):
        F = st.facts
        for G, x in V.E.resolve(F, v):
            try:
                if x.op != 'agg' or x.a[2] and x.a[2][0].op == 'tab':
                    raise Stop('u', 'outcome %s' % show(x, 3)[:80], ALL)
                if x.a[1] == 0:
                    ok += 1
                    V.accepted(G, x.a[2][0])
                else:
                    err += 1
                    if x.a[2][0].op != 'agg':
                        raise Stop('u', 'outcome %s' % show(x, 3)[:80], ALL)
                    try:
                        V.refused(G, x.a[2][0], i)
                    except Stop as e:
                        # where a list of functions or blocks is not understood, neither is what follows it
                        if V.broken and e.status == 'n':
                            e.status = 'u'
                        raise
                rep.add(ALL, 'y', 'outcome')
            except Stop as e:
                if os.environ.get('VERIF_DEBUG'):
                    print('STOP', i, e.status, e.what, e.props)
                rep.add(sorted(set(e.props)), e.status, 'validate:' + e.what.split(' (')[0][:80].replace(' ', '-'), e.what)
                rest = [p for p in ALL if p not in e.props]
                if rest:
                    rep.add(rest, 'y', 'outcome')
    for p in ALL:
        rep.note(p, 'accepting_outcomes', ok)
        rep.note(p, 'rejecting_outcomes', err)
        rep.note(p, 'obligations_on_elements', V.count)
        rep.note(p, 'loops', len(V.I.loops))
        rep.note(p, 'instruction_kinds', len(V.names))
        if unknown:
            rep.add([p], 'u', 'unknown-instructions', 'instructions outside the analysed table: ' + ' '.join(unknown))
        if not ok:
            rep.add([p], 'n' if not V.I.unknown and not V.I.gaveup and err else 'u', 'never', 'no module is ever accepted')
    return V
