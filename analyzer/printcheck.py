"""Printing of recovered control flow: the text of every kind of construct, at an
arbitrary depth and with arbitrary parts, is compared with the text that is due.
The printing function calls itself for the nested constructs; the comparison for
one construct, with those calls standing for the texts of its parts, is the step
of an induction over the structure."""
from common import *
from textcmp import TextEq
from equiv import split, Eq
from dispcheck import display_fn, fld, num, inner, field
import interp as IT
import loops
import dispcheck
import spec

IND = '    '
DEPTH = 4096

def unwrap(v):
    while v.op in ('vref', 'box'):
        v = v.a[0]
    return v

class Frame:
    """the recursive printing function behind a Display implementation"""
    def __init__(self, M, fid, selfv, chain, opaque):
        self.M = M
        self.chain = chain
        self.opaque = opaque
        g = IT.call_graph(M)
        I_, outs, sink = self.run(fid, [mk('vref', selfv), None], ())
        toks = []
        if len(outs) != 1:
            raise Missing('printing starts in %d ways' % len(outs))
        st, r = outs[0]
        t = st.cells[sink]
        if not (r.op == 'agg' and r.a[1] == 0) or len(t.a) != 1 or t.a[0].op != 'dyn' or I_.unknown:
            raise Missing('printing does not start with one recursive function')
        tok = t.a[0]
        self.name = tok.a[0]
        self.fid = M.fn(self.name)
        if self.fid is None:
            raise Missing('no function %s' % self.name)
        f = M.fns[self.fid]
        self.fmtpos = [i for i, v in enumerate(tok.a[1:]) if v.op == 'fmt']
        if len(self.fmtpos) != 1 or len(tok.a) - 1 != f['argc']:
            raise Missing('arguments of %s' % self.name)
        self.depth = None
        vals = list(tok.a[1:])
        for i, v in enumerate(vals):
            if i not in self.fmtpos:
                vals[i] = self.generalise(v, f['locals'][1 + i])
        if self.depth is None:
            raise Missing('no indentation argument in %s' % self.name)
        self.vals = vals
        if not any(chain in atoms_in(v) for v in vals):
            raise Missing('%s is not given the structure' % self.name)
        # helpers that take part in the recursion are looked into
        comp = self.cycle(g, self.fid)
        rest = {x: {y for y in g.get(x, ()) if y in comp and y != self.fid} for x in comp if x != self.fid}
        if any(x in self.reach(rest, x) for x in rest):
            raise Missing('recursion not through %s' % self.name)
        self.unfold = frozenset(rest)

    def reach(self, g, x):
        seen, st = set(), list(g.get(x, ()))
        while st:
            y = st.pop()
            if y not in seen:
                seen.add(y)
                st.extend(g.get(y, ()))
        return seen

    def cycle(self, g, x):
        fw = self.reach(g, x)
        return {y for y in fw if x in self.reach(g, y)}

    def run(self, fid, args, unfold, facts=()):
        M = self.M
        I_ = Interp(M, opaque=self.opaque, unfold=unfold, lastset=True)
        st = State({}, Facts())
        sink = I_.newcells(1)
        st.cells[sink] = str_of()
        fm = natives.mkfmt(I_, st, mk('ref', sink, ()))
        for c in facts:
            st.assume(c)
        outs = I_.run_fn(fid, [fm if a is None else a for a in args], st, root=True)
        return I_, outs, sink

    def generalise(self, v, ty):
        """the argument for an arbitrary depth"""
        M = self.M
        t = M.types[ty]
        if v.op == 'int' and t['k'] == 'int':
            if self.depth is not None:
                raise Missing('two numbers passed on')
            self.start = v.a[0] == 0
            self.depth = opq(M, ty, mk('sym', 'depth'))
            return self.depth
        if v.op == 'str' and (t['k'] == 'str' or t.get('p') == 'std::string::String'):
            if self.depth is not None:
                raise Missing('two texts passed on')
            self.start = not len(v.a)
            self.depth = mk('ss', mk('sym', 'prefix'))
            return str_of(self.depth)
        if v.op in ('vref', 'box'):
            return mk(v.op, self.generalise(v.a[0], t['e'] if 'e' in t else t['g'][0]))
        if v.op == 'agg' and t['k'] == 'adt' and t['a'] == 'struct':
            return mk('agg', v.a[0], v.a[1], tuple(self.generalise(x, f[1]) for x, f in zip(v.a[2], t['v'][0]['f'])))
        if v.op == 'agg' and t['k'] == 'tuple':
            return mk('agg', v.a[0], v.a[1], tuple(self.generalise(x, f) for x, f in zip(v.a[2], t['f'])))
        return v

    def indent(self):
        if self.depth.op == 'ss':
            return self.depth
        return mk('sgen', bv(1), self.depth, str_of(mk('txt', IND)))

    def call(self, child, deeper):
        m = {self.chain: unwrap(child)}
        if deeper:
            m[self.depth] = str_of(self.depth, mk('txt', IND)) if self.depth.op == 'ss' else add(self.depth, I(1))
        vals = [subst(v, m) if i not in self.fmtpos else v for i, v in enumerate(self.vals)]
        return mk('dyn', self.name, *vals)

    def analyse(self, extra=()):
        fs = list(extra)
        if self.depth.op != 'ss':
            fs += [cmp_le(I(0), self.depth), cmp_le(self.depth, I(DEPTH))]
        return self.run(self.fid, [None if i in self.fmtpos else v for i, v in enumerate(self.vals)], self.unfold, fs)

def assume(F, *cs):
    G = F.copy()
    for c in cs:
        if not G.assume(truth(c)) or G.dead:
            return None
    return G

def is_plain(M, F, v):
    """[(facts, whether no hint is set)]"""
    v = unwrap(v)
    if v.op == 'obj':
        out = []
        for G, n in split(F, mk_in(mk('discr', v, len(M.types[v.a[0]]['v'])), ((0, 0),))):
            out.append((G, n))
        return out
    if v.op == 'agg':
        todo = [(F, 0)]
        out = []
        while todo:
            G, i = todo.pop()
            if i == len(v.a[2]):
                out.append((G, True))
                continue
            for H, n in is_plain(M, G, v.a[2][i]):
                if n:
                    todo.append((H, i + 1))
                else:
                    out.append((H, False))
        return out
    return split(F, mk_in(v, ((0, 0),)))

class Printer:
    def __init__(self, M, rep):
        self.M = M
        self.rep = rep
        self.plain = mk('fmt', *natives.DEF)
        self.C = M.adt_named('control_flow::ControlFlowChain')
        if self.C < 0:
            raise Missing('ControlFlowChain not found')
        self.V = {v['n']: i for i, v in enumerate(M.types[self.C]['v'])}
        if set(self.V) != {'Atom', 'Block', 'Selection', 'Loop', 'Break', 'Continue'}:
            raise Missing('constructs of ControlFlowChain')
        self.own = {}
        for n in ('types::SelectionControl', 'types::LoopControl', 'types::BranchWeights'):
            t = M.adt_named(n)
            f = display_fn(M, t) if t >= 0 else None
            if f is None:
                raise Missing('Display for ' + n)
            self.own[t] = f
        self.bb = M.adt_named('logical::BasicBlock')
        self.fd = M.adt_named('logical::FunctionDefinition')
        names = {}
        if self.bb >= 0:
            names = dict(M.types[self.bb]['v'][0]['f'])
            for n, t in (('code', M.types[names['code']]['g'][0]), ('branch', names['branch'])):
                f = display_fn(M, t)
                if f is None:
                    raise Missing('Display for ' + M.types[t]['n_'])
                self.own[t] = f
        self.opaque = frozenset(self.own.values())

    def text_of(self, ty, v):
        return mk('dyn', self.M.fns[self.own[ty]]['n'], mk('vref', unwrap(v)), self.plain)

    def extras(self, F, vi, hint, hty, weights):
        """[(facts, tokens)] for hints and weights"""
        M = self.M
        for G, none in is_plain(M, F, hint):
            a = [] if none else [mk('txt', ' ['), self.text_of(hty, hint), mk('txt', ']')]
            for H, no in split(G, mk_in(mk('discr', weights, 2), ((0, 0),))):
                b = [] if no else [mk('txt', ' ['), self.text_of(M.types[weights.a[0]]['g'][0], fld(M, weights, 1, 0)), mk('txt', ']')]
                yield H, a + b

    def wants(self, F, R, head):
        """[(facts, text due)]; head(kind, id) = tokens of the construct's own first lines,
        before and after the hints"""
        M, V, c = self.M, self.V, R.chain
        fts = [[f[1] for f in v['f']] for v in M.types[self.C]['v']]
        get = lambda k, i: fld(M, c, V[k], i)
        ind = R.indent()
        for k, vi in V.items():
            G = assume(F, mk_in(mk('discr', c, len(V)), ((vi, vi),)))
            if G is None:
                continue
            if k in ('Break', 'Continue'):
                yield G, str_of(ind, mk('txt', k.lower() + ';\n'))
            elif k == 'Atom':
                yield G, str_of(*head(k, get(k, 0))[0])
            elif k == 'Block':
                v = unwrap(get(k, 0))
                b = bv(2)
                n = seq_len(v)
                P = Facts()
                P.assume(cmp_le(I(0), b)); P.assume(cmp_lt(b, n))
                yield G, str_of(mk('sgen', b, n, str_of(R.call(elem(M, v, b, P), False))))
            elif k == 'Loop':
                pre, post = head(k, get(k, 0))
                for H, ex in self.extras(G, vi, get(k, 2), fts[vi][2], get(k, 3)):
                    yield H, str_of(*(pre + ex + post + [R.call(get(k, 1), True), ind, mk('txt', '}\n')]))
            elif k == 'Selection':
                pre, post = head(k, get(k, 0))
                right = unwrap(get(k, 2))
                inside = unwrap(fld(M, right, V['Block'], 0))
                for H, ex in self.extras(G, vi, get(k, 3), fts[vi][3], get(k, 4)):
                    for J, blk in split(H, mk_in(mk('discr', right, len(V)), ((V['Block'], V['Block']),))):
                        for L, none in split(J, cmp_eq(seq_len(inside), I(0))) if blk else [(J, False)]:
                            els = [] if none else [ind, mk('txt', '} else {\n'), R.call(right, True)]
                            yield L, str_of(*(pre + ex + post + [R.call(get(k, 1), True)] + els + [ind, mk('txt', '}\n')]))

    def kind_of(self, F, R):
        d = F.pin(mk('discr', R.chain, len(self.V)))
        for k, i in self.V.items():
            if i == d:
                return k
        return 'construct'

    def check(self, what, fid, selfv, chain, head, adapt=None):
        M, rep = self.M, self.rep
        R = Frame(M, fid, selfv, chain, self.opaque)
        free = frozenset([R.name]) | frozenset(M.fns[f]['n'] for f in self.own.values())
        I_, outs, sink = R.analyse()
        self.I = I_
        rep.add({'C23'}, 'y' if not I_.unknown else 'u', what + ':interpreted', 'calls the analysis does not interpret: %s' % ', '.join(sorted(I_.unknown))[:200])
        rep.add({'C23'}, 'y' if R.start else 'n', what + ':start', 'the outermost construct is not at depth zero')
        for p in I_.panics:
            fs = [(p.facts, None)]
            if adapt:
                fs = adapt(R, p.facts, None)
            for F, _, vague in fs if adapt else [(p.facts, None, False)]:
                st = 'u' if vague else panic_status(Panic(p.where, p.kind, p.line, F, p.cond))
                rep.add({'C23'}, st, '%s:panic:%s' % (what, p.kind), 'printing a structure of the function can panic (%s) in %s' % (p.kind, short(p.where)))
        seen = set()
        for st, r in outs:
            t = st.cells[sink]
            for F, t, vague in adapt(R, st.facts, t) if adapt else [(st.facts, t, False)]:
                if r.op != 'agg':
                    rep.add({'C23'}, 'u', what + ':result', 'result of printing')
                    continue
                if r.a[1] != 0:
                    rep.add({'C23'}, 'u' if vague or unclear(F) else 'n', what + ':err', 'printing reports an error')
                    continue
                for G, want in self.wants(F, R, lambda k, i: head(R, k, i)):
                    kind = self.kind_of(G, R)
                    E = TextEq(M, frozenset(), None, free=free)
                    q = E.eq(G, t, want)
                    if q == 'n' and (vague or unclear(G, test=lambda m, H: TextEq(M, frozenset(), None, free=free).eq(H, subst(t, m), subst(want, m)) == 'n')):
                        q = 'u'
                    rep.add({'C23'}, q, '%s:%s' % (what, kind), 'the text of a %s is wrong: %s' % (kind, E.why))
                    seen.add(kind)
        for k in self.V:
            if k not in seen:
                rep.add({'C23'}, 'u', '%s:%s:never' % (what, k), 'printing of %s is not reached' % k)

    def chain(self):
        M = self.M
        fid = display_fn(M, self.C)
        if fid is None:
            raise Missing('Display for ControlFlowChain')
        c = mk('obj', self.C, mk('sym', 'chain'))
        def head(R, k, i):
            idt = [mk('txt', '%'), num(inner(M, i))]
            if k == 'Atom':
                return [R.indent()] + idt + [mk('txt', '\n')], []
            return [R.indent(), mk('txt', k.lower() + ' ')] + idt, [mk('txt', ' {\n')]
        self.check('chain', fid, c, c, head)

    def printer(self):
        M = self.M
        ty = M.adt_named('control_flow::ControlFlowFunctionPrinter')
        fid = display_fn(M, ty) if ty >= 0 else None
        if fid is None or self.bb < 0 or self.fd < 0:
            raise Missing('ControlFlowFunctionPrinter not found')
        ty = M.types[M.fns[fid]['locals'][1]]['e']
        sv = opq(M, ty, mk('sym', 'printer'))
        parts = [unwrap(x) for x in sv.a[2]]
        cs = [x for x in parts if x.op == 'obj' and x.a[0] == self.C]
        fs = [x for x in parts if x.op == 'agg' and x.a[0] == self.fd]
        if len(cs) != 1 or len(fs) != 1:
            raise Missing('parts of ControlFlowFunctionPrinter')
        c, fn = cs[0], fs[0]
        blocks = unwrap(field(M, fn, 'blocks'))
        n = seq_len(blocks)
        P = Facts()
        j = mk('iv', mk('sym', 'block'), 0, LENMAX)
        P.assume(cmp_lt(j, n))
        def label(ix):
            q = Facts(); q.assume(cmp_le(I(0), ix)); q.assume(cmp_lt(ix, n))
            x = elem(M, blocks, ix, q)
            return x, inner(M, field(M, field(M, x, 'label'), 'result_id'))
        blk, lab = label(j)
        proto = [t for t in atoms_in(blk) if t.op == 'elem' and t.a[1] is j]
        if len(proto) != 1:
            raise Missing('blocks of a function')
        base = proto[0].a[0]
        def ident(F):
            for k in ('Atom', 'Selection', 'Loop'):
                vi = self.V[k]
                if F.pin(mk('discr', c, len(self.V))) == vi:
                    return inner(M, fld(M, c, vi, 0))
            return None
        def adapt(R, F, t):
            """the state for a structure whose block stands exactly once in the function"""
            if F.pin(mk('discr', c, len(self.V))) is None:
                out = []
                for vi in self.V.values():
                    G = assume(F, mk_in(mk('discr', c, len(self.V)), ((vi, vi),)))
                    if G is not None:
                        out += adapt(R, G, t)
                return out
            i = ident(F)
            if i is None:
                return [(F, t, False)]
            G = assume(F, cmp_lt(j, n), cmp_eq(lab, i))
            if G is None:
                return []
            # the blocks the path looked at
            ixs = set()
            for x in list(fact_terms(G)) + ([t] if t is not None else []):
                ixs |= {y.a[1] for y in atoms_in(x) if y.op == 'elem' and y.a[0] is base and y.a[1].op != 'bv' and not any(z.op == 'bv' for z in atoms_in(y.a[1]))}
            ixs.discard(j)
            m = {}
            for ix in sorted(ixs, key=lambda z: z.id):
                if G.decide(cmp_eq(label(ix)[1], i)) is True:
                    m[ix] = j
            for ix in m:
                G = G and assume(G, cmp_eq(ix, j))
            if G is None:
                return []
            atoms = {ix: j for ix in m if ix.op == 'iv'}
            if atoms:
                G = loops.subst_facts(G, atoms)
                if G is None or G.dead:
                    return []
                if t is not None:
                    t = subst(t, atoms)
            for cnt, b, conds in G.foralls:
                if G.decide(cmp_lt(j, cnt)) is True:
                    for q in conds:
                        H = assume(G, subst(q, {b: j}))
                        if H is None:
                            return []
                        G = H
            return [(G, t, False)]
        tys = dict(M.types[self.bb]['v'][0]['f'])
        code = unwrap(field(M, blk, 'code'))
        ct = ety(code)
        cb = bv(2)
        cn = seq_len(code)
        Q = Facts(); Q.assume(cmp_le(I(0), cb)); Q.assume(cmp_lt(cb, cn))
        op = elem(M, code, cb, Q)
        def head(R, k, i):
            d = R.indent()
            x = num(inner(M, i))
            body = [d, mk('txt', '> Begin '), x, mk('txt', '\n'),
                    mk('sgen', cb, cn, str_of(d, mk('txt', '>>> '), self.text_of(ct, op), mk('txt', '\n'))),
                    d, mk('txt', '>>> '), self.text_of(tys['branch'], field(M, blk, 'branch')), mk('txt', '\n'),
                    d, mk('txt', '> End '), x, mk('txt', '\n')]
            return body, [d, mk('txt', '{\n')]
        self.check('printer', fid, sv, c, head, adapt)

def run(M, rep, prop, tier):
    P = Printer(M, rep)
    for f in (P.chain, P.printer):
        f()
    T_ = dispcheck.Text(M)
    for t in dispcheck.groups(M):
        dispcheck.ops(M, rep, T_, t, {'C23'})
