"""Control-flow recovery (C18, C19, C24).

The recursive search of control_flow.rs is judged one call at a time: its own
recursive calls stay uninterpreted results, and every outcome of a call with an
unconstrained block, construct context, block table and depth is compared with
what the branch and the merge instruction of the block prescribe.  What the
context decides (where an arm or a loop body ends, which loop is innermost) is
established by induction over the contexts the search itself builds: the empty
one of find_control_flow and the extensions passed to the recursive calls."""
import os
from common import *
from equiv import Eq, split
import loops
from dispcheck import fld, field, inner, conds_of

DBG = os.environ.get('VERIF_DEBUG')

def strip(v):
    while v.op in ('vref', 'box'):
        v = v.a[0]
    return v

def scc(M, rec, s):
    """local functions on a cycle with s"""
    g = call_graph(M, rec)
    def reach(x):
        seen, st = set(), list(g[x])
        while st:
            y = st.pop()
            if y not in seen:
                seen.add(y)
                st.extend(g[y])
        return seen
    r = reach(s)
    return {x for x in r if s in reach(x)} | {s}

def add_conds(F, conds):
    G = F.copy()
    for c in conds:
        if not G.assume(truth(c)) or G.dead:
            return None
    for k in list(G.dom):
        if not G.vset(k):
            return None
    return G

class Cfg:
    def __init__(self, M, rep):
        self.M, self.rep = M, rep
        self.fid = None
        for i, f in sorted(M.fns.items()):
            if f.get('local') and f.get('bb') and f['n'].endswith('::find_control_flow'):
                self.fid = i
        if self.fid is None:
            raise Missing('find_control_flow')
        self.bb = M.adt_named('logical::BasicBlock')
        self.idty = M.adt_named('control_flow::BlockId')
        self.chain = M.adt_named('control_flow::ControlFlowChain')
        if min(self.bb, self.idty, self.chain) < 0:
            raise Missing('the types of control_flow')
        self.V = {v['n']: i for i, v in enumerate(M.types[self.chain]['v'])}
        for n in ('Atom', 'Block', 'Selection', 'Loop', 'Break', 'Continue'):
            if n not in self.V:
                raise Missing('ControlFlowChain::' + n)
        self.E = Eq(M)
        self.n = {'functions_visited': set(), 'outcomes': 0, 'recursive_calls': 0, 'contexts': 0, 'comparisons': 0}
        self.firsts = {}

    def note(self, I_):
        self.n['functions_visited'] |= set(I_.visited)

    # ------------------------------------------------------------ entry
    def recs(self, v, F, name=None):
        out = []
        for t in [v] + list(fact_terms(F)):
            for x in atoms_in(t):
                if x.op == 'rec' and (name is None or x.a[0] == name) and x not in out:
                    out.append(x)
        return out

    def entry(self):
        M = self.M
        self.I0, self.outs0, args, _ = run_root(M, self.fid)
        self.note(self.I0)
        self.decl = args[0]
        names = {}
        for s, v in self.outs0:
            for r in self.recs(v, s.facts):
                f = M.fn(r.a[0])
                if f is None:
                    continue
                if any(x == self.idty for x in self.argtys(f)):
                    names[r.a[0]] = f
        for r, _, _, _ in self.I0.rcalls:
            f = M.fn(r.a[0])
            if f is not None and any(x == self.idty for x in self.argtys(f)) and self.mentions_chain(f):
                names[r.a[0]] = f
        names = {n: f for n, f in names.items() if self.mentions_chain(f)}
        if len(names) != 1:
            raise Missing('the recursive search (%d candidates)' % len(names))
        self.S, self.sid = list(names.items())[0]
        f = M.fns[self.sid]
        self.tys = f['locals'][1:1 + f['argc']]
        ids = [i for i, t in enumerate(self.tys) if self.base(t) == self.idty]
        if len(ids) != 1:
            raise Missing('the block argument of the search')
        self.iarg = ids[0]
        self.darg = [i for i, t in enumerate(self.tys) if M.types[t]['k'] == 'int']
        self.rt = f['locals'][0]
        t = M.types[self.rt]
        if t['k'] != 'adt' or t['p'] != 'std::result::Result':
            raise Missing('the result of the search')
        self.okt = t['g'][0]
        ot = M.types[self.okt]
        if ot['k'] != 'tuple' or len(ot['f']) != 2 or self.chain not in ot['f']:
            raise Missing('the result of the search')
        self.ci = ot['f'].index(self.chain)
        ct = M.types[ot['f'][1 - self.ci]]
        if ct['k'] != 'adt' or ct['a'] != 'enum' or len(ct['v']) != 2:
            raise Missing('the continuation of the search')
        nx = [i for i, v in enumerate(ct['v']) if len(v['f']) == 1 and self.base(v['f'][0][1]) == self.idty]
        rt = [i for i, v in enumerate(ct['v']) if not v['f']]
        if len(nx) != 1 or len(rt) != 1:
            raise Missing('the continuation of the search')
        self.NEXT, self.RET = nx[0], rt[0]
        self.group = scc(M, self.I0.rec, self.sid)

    def base(self, t):
        while self.M.types[t]['k'] in ('ref', 'ptr'):
            t = self.M.types[t]['e']
        return t

    def argtys(self, fid):
        f = self.M.fns[fid]
        return [self.base(t) for t in f['locals'][1:1 + f['argc']]] if 'locals' in f else []

    def mentions_chain(self, fid):
        t = self.M.types[self.M.fns[fid]['locals'][0]]
        def has(t, d=0):
            if t == self.chain:
                return True
            x = self.M.types[t]
            if d > 4:
                return False
            if x['k'] == 'tuple':
                return any(has(y, d + 1) for y in x['f'])
            if x['k'] == 'adt':
                return any(has(y, d + 1) for y in x['g'])
            return False
        return has(self.M.fns[fid]['locals'][0])

    # ------------------------------------------------------------ runs of the search
    pre = ()

    def run(self, ctx=None, ident=None, unfold=()):
        """outcomes of one call of the search"""
        M = self.M
        args = []
        for i, ty in enumerate(self.tys):
            a = opq(M, ty, mk('sym', 'a%d' % i))
            if ctx is not None and i in ctx:
                a = ctx[i]
            if ident is not None and i == self.iarg:
                a = opq(M, ty, ident)
            args.append(a)
        I_ = Interp(M, unfold=set(self.group) | set(unfold))
        I_.nomerge |= self.group
        F = Facts()
        for c in self.pre:
            F = add_conds(F, [c]) or F
        outs = I_.run_fn(self.sid, args, State({}, F), root=True)
        self.note(I_)
        return Run(self, I_, args, outs)

    def vague(self, *ts):
        for t in ts:
            for x in atoms_in(t):
                if x.op in UNINT and x.op != 'rec':
                    return True
                if x.op == 'sym' and isinstance(x.a[0], str) and x.a[0].startswith(OPAQUE_SYMS):
                    return True
        return False

    def vague_facts(self, F):
        return any(self.vague(t) for t in fact_terms(F))

    def looped(self, F, R):
        """the path goes through a loop of the search itself: its facts quantify over a position"""
        return bool(F.foralls) or bool(R.I.loops) or any(y.op == 'sym' and isinstance(y.a[0], str) and y.a[0].startswith(('K#', 'J#')) for t in fact_terms(F) for y in atoms_in(t))

    def expand(self, F, depth=0):
        """spell out equalities of continuations"""
        M = self.M
        for k, d in F.dom.items():
            if k.op != 'iv' or k.a[0].op != 'eqv' or depth > 3 or ihas(d, 0) == ihas(d, 1):
                continue
            a, b = strip(k.a[0].a[0]), strip(k.a[0].a[1])
            ok = True
            for x in (a, b):
                if x.op not in ('obj', 'agg') or M.types[x.a[0]]['k'] != 'adt' or not M.types[x.a[0]].get('v'):
                    ok = False
            if not ok or a.a[0] != b.a[0]:
                continue
            vs = M.types[a.a[0]]['v']
            if any(len(v['f']) > 1 for v in vs) or len(vs) < 2:
                continue
            B = F.copy()
            del B.dom[k]
            out = []
            for i, v in enumerate(vs):
                for j in range(len(vs)):
                    same = ihas(d, 1)
                    cs = []
                    for x, n in ((a, i), (b, j)):
                        cs.append(mk_in(mk('discr', x, len(vs)), ((n, n),)) if x.op == 'obj' else TRUE if x.a[1] == n else FALSE)
                    if same:
                        if i != j:
                            continue
                        if v['f']:
                            cs.append(cmp_eq(inner(M, strip(fld(M, a, i, 0))), inner(M, strip(fld(M, b, i, 0)))))
                    elif i == j:
                        if not v['f']:
                            continue
                        cs.append(bnot(cmp_eq(inner(M, strip(fld(M, a, i, 0))), inner(M, strip(fld(M, b, i, 0))))))
                    G = add_conds(B, cs)
                    if G is not None:
                        out += self.expand(G, depth + 1)
            return out
        return [F]

    def induct(self, G):
        """a counting argument that stays within the number of blocks: true at the first call and handed on by every call"""
        try:
            G.roles()
        except Missing:
            return G
        for i in self.darg:
            st = {r.a[1 + i] for s, v in self.outs0 for r in self.recs(v, s.facts, self.S)}
            if not st or not all(x is I(0) or x.op == 'iv' and x.a[0].op == 'mlen' for x in st):
                continue
            if any(x is not I(0) for x in st) and len(st) > 1:
                continue
            if not all(r.a[1 + i] is I(0) or any(r.a[1 + i].a[0].a[0] in atoms_in(strip(y)) or r.a[1 + i].a[0].a[0] is strip(y) for y in r.a[1:]) for s, v in self.outs0 for r in self.recs(v, s.facts, self.S)):
                continue
            self.pre = [cmp_le(G.args[i], G.mlen())]
            try:
                H = self.run()
                H.roles()
                calls = [(r, F) for r, F, _, _ in H.I.rcalls if r.a[0] == self.S]
                if H.map is G.map and calls and not H.I.gaveup and all(F.decide(cmp_le(r.a[1 + i], H.mlen())) is True for r, F in calls):
                    return H
            except Missing:
                pass
            self.pre = []
        return G

    # ------------------------------------------------------------ the whole check
    def check(self):
        rep = self.rep
        self.entry()
        G = self.induct(self.run())
        self.gen = G
        report_panics(self.M, self.I0, rep, {'C19'}, 'find_control_flow')
        report_panics(self.M, G.I, rep, {'C19'}, short(self.S))
        G.roles()
        self.attempt({'C18', 'C19'}, 'entry', self.entry_check)
        G.classify()
        G.discover()
        self.attempt({'C18', 'C19'}, 'search', lambda: G.table('search', G.loopinfo))
        self.attempt({'C24'}, 'termination', lambda: self.termination(G))
        self.attempt({'C18', 'C19', 'C24'}, 'contexts', lambda: self.contexts(G))

    def attempt(self, props, what, fn):
        """a part of the check the analysis gives up on leaves the other parts decided"""
        try:
            fn()
        except Exception as e:
            self.rep.add(props, 'u', 'analysis:%s' % what, 'the analysis gave up: %s: %s' % (type(e).__name__, str(e)[:150]))

    # ------------------------------------------------------------ contexts
    def contexts(self, G):
        rep, M = self.rep, self.M
        ctxs = []
        for r, kind, info in G.inner:
            key = (kind,) + tuple(r.a[1 + i] for i in G.ctxargs)
            if key not in [k for k, _, _, _ in ctxs]:
                ctxs.append((key, r, kind, info))
        recs = set(self.I0.rec)
        for key, r, kind, info in ctxs:
            ctx = {i: r.a[1 + i] for i in G.ctxargs}
            if any(self.vague(v) for v in ctx.values()):
                rep.add({'C18', 'C24'}, 'u', 'context:%s' % kind, 'the context passed to a nested search')
                continue
            R = self.run(ctx, mk('sym', 'b0'), recs)
            R.like(G)
            report_panics(M, R.I, rep, {'C19'}, '%s in a %s' % (short(self.S), kind))
            self.n['contexts'] += 1
            R.classify()
            self.stops(R, G, kind, info)
            if kind == 'loop':
                R.table('in a loop', ('known',) + info)
            else:
                R.discover()
                self.same_loop(R, G, kind)
                R.table('in a selection', R.loopinfo)
        # the context of the whole function
        for r in self.starts:
            ctx = {i: r.a[1 + i] for i in G.ctxargs}
            if any(self.vague(v) for v in ctx.values()):
                rep.add({'C18'}, 'u', 'context:empty', 'the context of the first block')
                continue
            R = self.run(ctx, mk('sym', 'b0'), recs)
            R.like(G)
            report_panics(M, R.I, rep, {'C19'}, '%s at the start' % short(self.S))
            self.n['contexts'] += 1
            R.classify()
            for F, v in R.stops:
                rep.add({'C18'}, 'u' if self.vague_facts(F) else 'n', 'stop:empty', 'outside every construct the search ends without visiting the block')
            rep.add({'C18'}, 'y', 'stop:empty:none')
            R.table('outside constructs', ('none',))

    def err(self, v):
        return v.op == 'agg' and v.a[1] == 1

    def lits(self, F, over):
        """the facts of F over the given symbols only"""
        out = []
        for c in conds_of(F):
            syms = {x.a[0] for x in atoms_in(c) if x.op == 'sym'}
            if syms and syms <= over and not any(x.op in ('mhas', 'mget', 'mlen') for x in atoms_in(c)):
                out.append(c)
        return out

    def stops(self, R, G, kind, info):
        """in an extended context the search ends exactly at the new target and where it ended before"""
        rep = self.rep
        M = self.M
        tgt = inner(M, info[0])
        x = inner(M, strip(R.idv))
        P = []
        over = {'a%d' % i for i in list(G.ctxargs) + [self.iarg]}
        for F, v in G.stops:
            P.append([subst(c, {mk('sym', 'a%d' % self.iarg): mk('sym', 'b0')}) for c in self.lits(F, over)])
        here = cmp_eq(x, tgt)
        known = set()
        sub_ = {mk('sym', 'a%d' % self.iarg): mk('sym', 'b0')}
        for F, v in G.stops + G.rest:
            known |= {subst(t, sub_) for t in fact_terms(F)}
        cs = {'a%d' % i for i in G.ctxargs}
        def foreign(F):
            """a fact about the outer context that a search in that context does not know"""
            for t in fact_terms(F):
                ss = {y.a[0] for y in atoms_in(t) if y.op == 'sym'}
                if ss & cs and t not in known and not any(y.op in ('mget', 'mlen') or (y.op == 'rec' and y.a[0] == self.S) for y in atoms_in(t)):
                    return True
            return False
        what = {'loop': 'the header of the loop', 'selection': 'the merge block of the selection'}[kind]
        n = 0
        for F, v in R.stops:
            H = add_conds(F, [bnot(here)])
            if H is None:
                n += 1
                continue
            # not at the new target: it must be an outer one
            ok = False
            for p in P:
                if p and all(H.decide(truth(c)) is True for c in p):
                    ok = True
            if ok:
                n += 1
                continue
            if self.vague_facts(F) or not P or self.looped(F, R) or any(self.looped(f, G) for f, _ in G.stops):
                st = 'u'
            else:
                # facts about the outer context that are not among the known ones
                out = [c for c in self.lits(H, over | {'b0'})if any(y.op == 'sym' and y.a[0] in over for y in atoms_in(c))]
                out = [c for c in out if any(y.op == 'sym' and y.a[0] in {'a%d' % i for i in G.ctxargs} for y in atoms_in(c))]
                st = 'u' if any(x.op == 'rec' for c in out for x in atoms_in(c)) else 'n'
            if DBG:
                print('STOP', kind, st, [show(c, 9)[:400] for c in conds_of(H)], 'P', [[show(c, 9)[:400] for c in p] for p in P])
            rep.add({'C18', 'C19'}, st, 'stop:%s:other' % kind, 'inside a %s the search ends at a block that is not %s' % (kind, what))
        for F, v in R.rest:
            H = add_conds(F, [here])
            if H is not None:
                st = 'u' if self.vague_facts(F) or self.looped(F, R) else 'n'
                rep.add({'C18'}, st, 'stop:%s:missed' % kind, 'inside a %s the search goes on past %s' % (kind, what))
            for p in P:
                H = add_conds(F, p)
                if H is not None and self.err(v) and R.known_missing(H):
                    continue
                if H is not None and p:
                    hit = R.known_missing(H)
                    st = 'u' if self.vague_facts(F) or hit or foreign(F) or self.looped(F, R) else 'n'
                    if DBG and st == 'n':
                        print('OUTER', [show(c, 9)[:300] for c in conds_of(H)])
                    rep.add({'C18'}, st, 'stop:%s:outer' % kind, 'inside a %s the search goes on past the end of an enclosing construct' % kind)
            n += 1
        rep.add({'C18'}, 'y', 'stop:%s' % kind, n)

    def same_loop(self, R, G, kind):
        rep = self.rep
        a, b = G.loopinfo, R.loopinfo
        if a[0] != 'known':
            return
        if b[0] != 'known':
            st = 'u' if any(self.vague_facts(F) or self.looped(F, R) for F, v in R.rest) else 'n'
            rep.add({'C18'}, st, 'innermost:%s' % kind, 'inside a selection the search knows no enclosing loop')
            return
        for x, y, w in ((a[1], b[1], 'header'), (a[2], b[2], 'merge block')):
            if x is y:
                rep.add({'C18'}, 'y', 'innermost:%s:%s' % (kind, w))
            else:
                rep.add({'C18'}, 'u', 'innermost:%s:%s' % (kind, w), 'the loop around a selection is found differently')

    # ------------------------------------------------------------ find_control_flow
    def entry_check(self):
        rep, M = self.rep, self.M
        self.starts = []
        G = self.gen
        blocks = field(M, self.decl, 'blocks')
        if blocks is None or blocks.op != 'seq' or len(blocks.a[1]) != 1:
            raise Missing('the blocks of a function')
        self.bpart = blocks.a[1][0]
        N = seq_len(blocks)
        def label(pos):
            b = opq(M, self.bb, mk('elem', self.bpart, pos))
            return inner(M, field(M, field(M, b, 'label'), 'result_id'))
        self.label = label
        for s, v in self.outs0:
            F = s.facts
            self.n['outcomes'] += 1
            rs = self.recs(v, F, self.S)
            for F2, w in self.E.resolve(F, v):
                if w.op == 'obj':
                    rep.add({'C18', 'C19'}, 'u', 'entry:result', 'the result of find_control_flow')
                    continue
                okv = M.variant(w.a[0], 'Ok')
                isok = w.a[1] == okv
                if not rs:
                    # before the search: no blocks, or a duplicate
                    if isok:
                        st = 'u' if self.vague_facts(F2) else 'n'
                        rep.add({'C18', 'C19'}, st, 'entry:nosearch', 'a structure is returned without a search')
                    else:
                        self.early(F2, N)
                    continue
                if len(rs) > 1:
                    rep.add({'C18', 'C19'}, 'u', 'entry:searches', 'more than one search')
                    continue
                r = rs[0]
                if r not in self.starts:
                    self.starts.append(r)
                    self.start(r, F2, N)
                val = opq(M, self.rt, r)
                for H, ok in split(F2, mk_in(mk('discr', val, 2), ((0, 0),))):
                    if not ok:
                        self.want_err(isok, H, 'entry:search-error', 'an error of the search is not reported')
                        continue
                    t = fld(M, val, 0, 0)
                    c, nx = t.a[2][self.ci], t.a[2][1 - self.ci]
                    for J, ret in split(H, mk_in(mk('discr', nx, 2), ((self.RET, self.RET),))):
                        if not ret:
                            self.want_err(isok, J, 'entry:dangling', 'a structure that does not reach a return is accepted')
                        elif not isok:
                            rep.add({'C18'}, 'u' if self.vague(*[x for x in fact_terms(J) if not contains_lv(x)]) else 'n', 'entry:refused', 'a complete structure is refused')
                        else:
                            got = w.a[2][0]
                            a = G.flatten(J, got)
                            self.n['comparisons'] += 1
                            if a is None:
                                rep.add({'C18'}, 'u', 'entry:chain', 'the structure returned')
                            else:
                                rep.add({'C18'}, 'y' if len(a) == 1 and a[0] is c else 'n' if not self.vague(*a) else 'u', 'entry:chain', 'the structure returned is not the one found')
        if not self.starts:
            rep.add({'C18', 'C19'}, 'u', 'entry:start', 'find_control_flow never searches')

    def want_err(self, isok, F, key, msg):
        self.rep.add({'C18', 'C19'}, 'y' if not isok else 'n', key, msg)

    def early(self, F, N):
        """an error before the search: no blocks or a duplicate label"""
        rep = self.rep
        if F.decide(cmp_eq(N, I(0))) is True:
            rep.add({'C18', 'C19'}, 'y', 'entry:noblocks')
            return
        for k, d in F.dom.items():
            if k.op == 'iv' and k.a[0].op == 'mhas' and not ihas(d, 0):
                # the label of the current block is already in the table
                rep.add({'C18', 'C19'}, 'y', 'entry:duplicate')
                return
        H = F.copy()
        for r in self.I0.loops:
            for p, n in loops.node_path(r.nodes):
                v = n.v
                if n.k == 'lv' and v.op == 'obj' and self.first_block(r, p, n) and F.pin(mk('discr', v, 2)) == 0:
                    # no first block: the list is empty
                    rep.add({'C18', 'C19'}, 'y', 'entry:noblocks')
                    return
        rep.add({'C18'}, 'u', 'entry:early', 'an error before the search')

    def first_block(self, r, path, n):
        """the loop variable is None before the first block and the first label after it"""
        k = self.firsts.get(id(n))
        if k is not None:
            return k == 'y'
        res = 'y'
        if n.v0.op != 'agg' or n.v0.a[1] != 0 or not r.backs:
            res = 'u'
        else:
            d = mk('discr', n.v, 2)
            for s in r.backs:
                try:
                    w = loops.at_path(s, r.nodes, path)
                except Exception:
                    res = 'u'
                    break
                res = self.first_step(r, n, s.facts, w, d)
                if res != 'y':
                    break
        self.firsts[id(n)] = res
        return res == 'y'

    def first_step(self, r, n, F, v, d):
        for F, w in self.E.resolve(F, v):
            if True:
                H = add_conds(F, [cmp_eq(r.K, I(0)), mk_in(d, ((0, 0),))])
                if H is not None:
                    if w.op != 'agg' or w.a[1] != 1:
                        return 'n' if w.op == 'agg' or w is n.v else 'u'
                    x = self.E.eq(H, inner(self.M, strip(w.a[2][0])), self.label(I(0)))
                    y = self.E.eq(H, inner(self.M, strip(w.a[2][0])), self.label(r.K))
                    if 'y' not in (x, y):
                        return x
                H = add_conds(F, [cmp_le(I(1), r.K), mk_in(d, ((1, 1),))])
                if H is not None:
                    if w is not n.v and self.E.eq(H, w, n.v) != 'y':
                        return 'n' if w.op == 'agg' and not any(x.op in UNINT for x in atoms_in(w)) else 'u'
        return 'y'

    def start(self, r, F, N):
        rep, M = self.rep, self.M
        i = strip(r.a[1 + self.iarg])
        t = inner(M, i)
        st = None
        if self.E.eq(F, t, self.label(I(0))) == 'y':
            st = 'y'
        else:
            for q in self.I0.loops:
                for p, n in loops.node_path(q.nodes):
                    if n.k == 'lv' and n.v.op == 'obj':
                        ty = M.types[n.v.a[0]]
                        if ty['k'] == 'adt' and len(ty['v']) > 1 and ty['v'][1]['f'] and inner(M, fld(M, n.v, 1, 0)) is t:
                            self.first_block(q, p, n)
                            st = self.firsts[id(n)]
            if st is None:
                st = 'u' if self.vague(t) else 'n'
        rep.add({'C18'}, st, 'entry:first', 'the search does not start at the first block')
        # the table
        maps = []
        for j in range(len(self.tys)):
            m = strip(r.a[1 + j])
            if m.op in ('mapv', 'mins', 'mnew'):
                maps.append(m)
            elif m.op == 'agg':
                maps += [strip(x) for x in m.a[2] if strip(x).op in ('mapv', 'mins', 'mnew')]
        if len(maps) != 1:
            rep.add({'C18', 'C19'}, 'u', 'entry:table', 'the block table')
            return
        m = maps[0]
        for q in self.I0.loops:
            for p, n in loops.node_path(q.nodes):
                if n.v is m and n.v0.op == 'mnew':
                    self.table_loop(q, p, n)
                    return
        rep.add({'C18', 'C19'}, 'u', 'entry:table', 'the block table')

    def table_loop(self, q, path, n):
        """every iteration adds the block under its own label, which is new"""
        rep, M = self.rep, self.M
        whole = any(x.k == 'siter' or (x.v.op == 'siter') for _, x in loops.node_path(q.nodes)) or any(
            c.op == 'siter' for s in q.backs for c in s.cells.values())
        for s in q.backs:
            w = loops.at_path(s, q.nodes, path)
            if w.op != 'mins':
                if w is n.v:
                    F = s.facts
                    rep.add({'C18', 'C19'}, 'n' if not self.vague(*[t for t in fact_terms(F) if not contains_lv(t)]) else 'u', 'entry:table:skip', 'a block is left out of the block table')
                else:
                    rep.add({'C18', 'C19'}, 'u', 'entry:table', 'the block table')
                continue
            m, k, v = w.a[:3]
            key = inner(M, strip(k))
            r1 = self.E.eq(s.facts, key, self.label(q.K))
            v = strip(v)
            r2 = self.E.eq(s.facts, v, opq(M, self.bb, mk('elem', self.bpart, q.K)))
            rep.add({'C18', 'C19'}, comb2(r1, r2) if not self.vague(key, v) else 'u' if 'n' in (r1, r2) else comb2(r1, r2), 'entry:table:entry', 'a block is entered under a label that is not its own')
            has = mk_in(mk('iv', mk('mhas', n.v, k), 0, 1), ((1, 1),))
            d = s.facts.decide(has)
            if m is n.v and d is False:
                rep.add({'C18', 'C19'}, 'y', 'entry:table:new')
            else:
                H = add_conds(s.facts, [has])
                rep.add({'C18', 'C19'}, 'n' if m is n.v and H is not None and not self.vague(*[t for t in fact_terms(H) if not contains_lv(t)]) else 'u', 'entry:table:duplicate', 'two blocks of the same label are accepted')
        # every block is entered
        for s in q.exits if hasattr(q, 'exits') else ():
            pass

    # ------------------------------------------------------------ termination
    def termination(self, G):
        rep, M = self.rep, self.M
        seen = set()
        for r, F, fn, line in G.I.rcalls:
            if r.a[0] != self.S:
                continue
            self.n['recursive_calls'] += 1
            got = None
            for i in self.darg:
                d = sub(r.a[1 + i], G.args[i])
                for sign in (1, -1):
                    if F.decide(cmp_le(I(1), scale(d, sign))) is not True:
                        continue
                    if sign == -1:
                        # counts down: unsigned, and it went down without wrapping
                        got = 'y'
                        break
                    # counts up: below a bound that the calls do not change
                    if F.vset(G.args[i]) and F.vset(G.args[i])[-1][1] < (1 << 32) - 1:
                        got = 'y'
                        break
                    for l in F.lins:
                        c = self.bounded(l, G, i)
                        if c:
                            got = 'y'
                            break
                if got:
                    break
            kind = G.callkind(r, F)
            if got is None:
                got = 'n'
                if kind is None or kind == 'loop-body' or any(self.vague(t) for t in fact_terms(F)) or any(self.vague(x) for x in r.a[1:]) or G.otherargs(r):
                    got = 'u'
            rep.add({'C24'}, got, 'terminates:%s' % (kind or 'call'), 'the search can call itself without end: no argument of the recursive call (%s) moves towards a bound that is tested first' % (kind or 'line %d' % line))
        if not self.n['recursive_calls']:
            rep.add({'C24'}, 'u', 'terminates', 'the search never calls itself')
        # the other recursive functions
        for fid in sorted(self.n['functions_visited']):
            if fid in self.I0.rec and fid not in self.group:
                self.structural(fid)
        for I_ in (self.I0, G.I):
            for L in I_.loops:
                self.loop_ends(L)

    def bounded(self, l, G, i):
        """l <= 0 bounds argument i above by something the calls leave alone"""
        d = dict(lin(l)[1]) if isinstance(lin(l), tuple) else None
        if d is None:
            return False
        a = G.args[i]
        if d.get(a, 0) <= 0:
            return False
        for x in d:
            if x is a:
                continue
            ok = False
            for y in atoms_in(x):
                if y.op == 'sym':
                    if not (isinstance(y.a[0], str) and y.a[0].startswith('a') and y.a[0][1:].isdigit()):
                        return False
                    j = int(y.a[0][1:])
                    if j == i or j in G.ctxargs or j == self.iarg:
                        return False
                    if j in self.darg:
                        return False
        return True

    def structural(self, fid):
        rep, M = self.rep, self.M
        f = M.fns[fid]
        grp = scc(M, self.I0.rec, fid)
        I_, outs, args, _ = run_root(M, fid, unfold=grp)
        for r, F, _, line in I_.rcalls:
            if '{closure#' in f['n']:
                return
            if r.a[0] != f['n']:
                rep.add({'C24'}, 'u', 'terminates:%s' % short(f['n']), 'mutual recursion')
                continue
            ok = False
            for a, x in zip(args, r.a[1:]):
                syms = [y for y in atoms_in(a) if y.op == 'sym']
                if len(syms) == 1 and self.inside(strip(x), strip(a)):
                    ok = True
            rep.add({'C24'}, 'y' if ok else 'u', 'terminates:%s' % short(f['n']), 'recursion of %s' % short(f['n']))

    def inside(self, x, a):
        """x is a proper part of a"""
        def root(v):
            w = v
            while True:
                if w.op == 'agg' and w.a[2]:
                    w = w.a[2][0]
                elif w.op in ('obj',):
                    return w.a[1]
                elif w.op == 'iv':
                    return w.a[0]
                elif w.op in ('vref', 'box'):
                    w = w.a[0]
                else:
                    return None
        rx, ra = root(x), root(a)
        if rx is None or ra is None:
            return False
        def chain(t):
            out = [t]
            while t.op in ('fld', 'deref'):
                t = t.a[0]
                out.append(t)
            return out
        return len(chain(rx)) > len(chain(ra)) and chain(rx)[-1] is chain(ra)[-1]

    def loop_ends(self, L):
        for p, n in loops.node_path(L.nodes):
            # a cursor that moves into a part of what it pointed to
            try:
                if n.k == 'lv' and L.backs and all(self.inside(strip(loops.at_path(s, L.nodes, p)), strip(n.v)) for s in L.backs):
                    self.rep.add({'C24'}, 'y', 'loop:%s' % short(L.fn))
                    return
            except Exception:
                pass
        it = any(n.v.op == 'siter' for _, n in loops.node_path(L.nodes)) or any(v.op == 'siter' for s in L.backs for v in s.cells.values())
        self.rep.add({'C24'}, 'y' if it or not L.backs else 'u', 'loop:%s' % short(L.fn), 'the end of a loop in %s' % short(L.fn))

def contains_lv(t):
    return any(x.op == 'sym' and isinstance(x.a[0], str) and x.a[0].startswith('lv ') for x in atoms_in(t))

def comb2(*rs):
    return 'n' if 'n' in rs else 'u' if 'u' in rs else 'y'

class Run:
    """the outcomes of the search in one context"""
    def __init__(self, C, I_, args, outs):
        self.C, self.I, self.args, self.outs = C, I_, args, outs
        self.M, self.E = C.M, C.E
        self.idv = args[C.iarg]
        self.loopinfo = ('none',)
        self.inner = []
        C.n['outcomes'] += len(outs)

    def like(self, G):
        self.ctxargs, self.fixed, self.map = G.ctxargs, G.fixed, G.map
        self.limit = G.limit

    # ---- which argument does what
    def roles(self):
        C, M = self.C, self.M
        chg = set()
        calls = [r for r, _, _, _ in self.I.rcalls if r.a[0] == C.S]
        if not calls:
            raise Missing('recursive calls of the search')
        for r in calls:
            for i in range(len(C.tys)):
                if i == C.iarg or i in C.darg:
                    continue
                if self.E.eq(Facts(), strip(r.a[1 + i]), strip(self.args[i])) != 'y':
                    chg.add(i)
        self.ctxargs = sorted(chg)
        self.fixed = [i for i in range(len(C.tys)) if i not in chg and i != C.iarg and i not in C.darg]
        maps = []
        for s, v in self.outs:
            for t in fact_terms(s.facts):
                for x in atoms_in(t):
                    if x.op == 'mhas' and self.E.eq(s.facts, strip(x.a[1]), strip(self.idv)) == 'y' and x.a[0] not in maps:
                        maps.append(x.a[0])
        if len(maps) != 1:
            raise Missing('the block table of the search (%d)' % len(maps))
        self.map = maps[0]
        # how many blocks are on the current path, when an argument counts them
        self.limit = None
        for i in C.darg:
            st = {r.a[1 + i] for s, v in C.outs0 for r in C.recs(v, s.facts, C.S)}
            if len(st) == 1:
                s0 = list(st)[0]
                steps = {sub(r.a[1 + i], self.args[i]) for r in calls}
                if all(is_int(x) and x.a[0] > 0 for x in steps) and is_int(s0):
                    mx = max(x.a[0] for x in steps)
                    if mx == 1:
                        self.limit = sub(self.args[i], s0)
                elif all(is_int(x) and x.a[0] == -1 for x in steps):
                    ml = [x for x in atoms_in(s0) if x.op == 'iv' and x.a[0].op == 'mlen']
                    if len(ml) == 1:
                        k = sub(s0, ml[0])
                        if is_int(k):
                            # start - arg = path length
                            self.limit = sub(add(self.mlen(), k), self.args[i])

    def mlen(self):
        return mk('iv', mk('mlen', self.map), 0, LENMAX)

    def key(self):
        k = strip(self.idv)
        return k

    # ---- outcomes that end a construct
    def classify(self):
        """an empty structure that continues at the block asked for ends a construct"""
        C, M = self.C, self.M
        self.stops, self.rest = [], []
        for s, v in self.outs:
            for F, w in [(H, w) for G, w in self.E.resolve(s.facts, v) for H in C.expand(G)]:
                if F.dead:
                    continue
                self.C.n['comparisons'] += 1
                if w.op == 'agg' and w.a[1] == 0 and w.a[2][0].op == 'agg':
                    c, n = w.a[2][0].a[2][C.ci], w.a[2][0].a[2][1 - C.ci]
                    fl = self.flatten(F, c)
                    if fl == [] and n.op == 'agg' and n.a[1] == C.NEXT and self.E.eq(F, inner(M, strip(n.a[2][0])), inner(M, strip(self.idv))) == 'y':
                        self.stops.append((F, w))
                        continue
                self.rest.append((F, w))

    def flatten(self, F, v):
        """the chain as a list of non-Block chains; None when not interpreted"""
        C = self.C
        v = strip(v)
        if v.op == 'obj':
            return [v]
        if v.op != 'agg' or v.a[0] != C.chain:
            return None
        if v.a[1] != C.V['Block']:
            return [v]
        s = v.a[2][0]
        if s.op != 'seq':
            return None
        out = []
        for p in s.a[1]:
            if p.op == 'lit':
                r = self.flatten(F, p.a[0])
                if r is None:
                    return None
                out += r
            elif p.op == 'sq' and p.a[0].op == 'fld' and p.a[0].a[1] == C.V['Block'] and p.a[0].a[2] == 0:
                out.append(mk('obj', C.chain, p.a[0].a[0]))
            elif p.op == 'gen' and len(p.a[2]) == 1:
                # a copy of a list element by element
                x = p.a[2][0]
                q = x.a[1].a[0] if x.op == 'obj' and x.a[1].op == 'elem' else None
                if q is None or q.op != 'sq' or q.a[0].op != 'fld' or q.a[0].a[1] != C.V['Block']:
                    return None
                if x.a[1].a[1] is p.a[0] and F.decide(cmp_eq(p.a[1], part_len(q))) is True:
                    out.append(mk('obj', C.chain, q.a[0].a[0]))
                else:
                    out.append(p)
            else:
                return None
        return out

    # ---- recursive calls
    def same_ctx(self, r):
        return all(self.E.eq(Facts(), strip(r.a[1 + i]), strip(self.args[i])) == 'y' for i in self.ctxargs)

    def otherargs(self, r):
        """an argument that is neither block, context, table nor counter changes"""
        return False

    def block(self):
        m = self.map
        b = opq(self.M, m.a[2], mk('mget', m, self.keyterm()))
        return strip(b)

    def keyterm(self):
        """the table key as the code builds it"""
        for s, v in self.outs:
            for t in fact_terms(s.facts):
                for x in atoms_in(t):
                    if x.op == 'mhas' and x.a[0] is self.map and self.E.eq(s.facts, strip(x.a[1]), strip(self.idv)) == 'y':
                        return x.a[1]
        return strip(self.idv)

    def call(self, F, v, target, same):
        """(recursive call for the target, problem)"""
        C, M = self.C, self.M
        found, bad = None, None
        for r in C.recs(v, F, C.S):
            i = inner(M, strip(r.a[1 + C.iarg]))
            if self.E.eq(F, i, target) != 'y':
                continue
            # a different argument term that is only equal on this path is the same call
            if self.same_ctx(r) == same:
                if found is None or i is target:
                    found = r
            else:
                bad = r
        return found, bad

    def make_call(self, target, same):
        C, M = self.C, self.M
        args = []
        for i in range(len(C.tys)):
            if i == C.iarg:
                args.append(mk('agg', C.idty, 0, (target,)))
            elif i in C.darg:
                args.append(add(self.args[i], I(1)))
            elif i in self.ctxargs and not same:
                args.append(mk('sym', 'ctx'))
            else:
                args.append(self.args[i])
        return mk('rec', C.S, *args)

    def outcome(self, F, r):
        """[(facts, chain or None, next)] of a recursive call"""
        C, M = self.C, self.M
        val = opq(M, C.rt, r)
        for G, ok in split(F, mk_in(mk('discr', val, 2), ((0, 0),))):
            if not ok:
                yield G, None, None
            else:
                t = fld(M, val, 0, 0)
                yield G, t.a[2][C.ci], t.a[2][1 - C.ci]

    def reaches(self, F, nx, target):
        """[(facts, bool)]: does the continuation go to the target"""
        C, M = self.C, self.M
        for G, b in split(F, mk_in(mk('discr', nx, 2), ((C.NEXT, C.NEXT),))):
            if not b:
                yield G, False
            else:
                yield from split(G, cmp_eq(inner(M, strip(fld(M, nx, C.NEXT, 0))), target))

    def callkind(self, r, F):
        """which branch a recursive call follows, None when unclear"""
        C, M = self.C, self.M
        b = self.block()
        br, mg = field(M, b, 'branch'), field(M, b, 'merge')
        i = inner(M, strip(r.a[1 + C.iarg]))
        names = {}
        bt = M.types[br.a[0]]
        for k, v in enumerate(bt['v']):
            if not v['f']:
                continue
            op = fld(M, br, k, 0)
            for fn, nm in (('target_label', 'branch target'), ('true_label', 'true target'), ('false_label', 'false target')):
                x = self.opfield(op, fn)
                if x is not None:
                    names[inner(M, x)] = nm
        ms = fld(M, mg, 1, 0)
        for k, v in enumerate(M.types[ms.a[0]]['v']):
            op = fld(M, ms, k, 0)
            x = self.opfield(op, 'merge_block')
            if x is not None:
                names[inner(M, x)] = 'merge block'
        nm = names.get(i)
        if nm == 'branch target' and F.pin(mk('discr', mg, 2)) == 1:
            return 'loop-body'
        return nm

    def opfield(self, op, name):
        op = strip(op)
        t = self.M.types[op.a[0]]
        for i, f in enumerate(t['v'][0]['f']):
            if f[0] == name:
                return fld(self.M, op, 0, i)
        return None

    # ---- what the block's own instructions prescribe
    def known_missing(self, F):
        """the block is unknown or the path too long on this path"""
        has = mk_in(mk('iv', mk('mhas', self.map, self.keyterm()), 0, 1), ((1, 1),))
        return F.decide(has) is False

    def too_long(self, F):
        if self.limit is None:
            return None
        return add_conds(F, [cmp_lt(self.limit, self.mlen())]) is None

    def expect(self, F, v, info):
        """yield (facts, expected, label); expected is 'err', 'u' or (items, next)"""
        C, M = self.C, self.M
        me = strip(self.idv)
        x = inner(M, me)
        has = mk_in(mk('iv', mk('mhas', self.map, self.keyterm()), 0, 1), ((1, 1),))
        b = self.block()
        br, mg = field(M, b, 'branch'), field(M, b, 'merge')
        bt = M.types[br.a[0]]
        mt = M.types[fld(M, mg, 1, 0).a[0]]
        nb, nm = len(bt['v']), len(mt['v'])
        for F1, ok in split(F, has):
            if not ok:
                yield F1, 'err', 'an unknown label'
                continue
            for bi, bv_ in enumerate(bt['v']):
                F2 = add_conds(F1, [mk_in(mk('discr', br, nb), ((bi, bi),))])
                if F2 is None:
                    continue
                bop = strip(fld(M, br, bi, 0))
                for F3, some in split(F2, mk_in(mk('discr', mg, 2), ((1, 1),))):
                    if not some:
                        yield from self.expect1(F3, v, info, me, x, bv_['n'], bop, None, None)
                        continue
                    mv = fld(M, mg, 1, 0)
                    for mi, mvv in enumerate(mt['v']):
                        F4 = add_conds(F3, [mk_in(mk('discr', mv, nm), ((mi, mi),))])
                        if F4 is not None:
                            yield from self.expect1(F4, v, info, me, x, bv_['n'], bop, mvv['n'], strip(fld(M, mv, mi, 0)))

    def get(self, F, v, target, same, what):
        """the recursive call prescribed, or None after reporting"""
        C = self.C
        r, bad = self.call(F, v, target, same)
        if r is None and bad is not None:
            st = 'u' if C.vague_facts(F) or C.vague(*bad.a[1:]) else 'n'
            C.rep.add({'C18'}, st, 'context-of:%s' % what.replace(' ', '-'), '%s is searched %s' % (what, 'in the context of the construct it ends' if same else 'without the context of its construct'))
            return None
        if r is None:
            r = self.make_call(target, same)
        return r

    def nest(self, r, kind, info):
        if not any(x.op == 'sym' and x.a[0] == 'ctx' for a in r.a[1:] for x in atoms_in(a)):
            self.inner.append((r, kind, info))

    def expect1(self, F, v, info, me, x, bname, bop, mname, mop):
        C, M = self.C, self.M
        lab = bname + (' with ' + mname if mname else '')
        if bname == 'OpReturn':
            if mname is None:
                yield F, ([('atom', me)], 'ret'), lab
            else:
                yield F, 'err', lab
            return
        if bname == 'OpBranch':
            tgt = inner(M, self.opfield(bop, 'target_label'))
            if mname is None:
                r = self.get(F, v, tgt, True, 'the target of a plain branch')
                if r is None:
                    return
                for G, c, nx in self.outcome(F, r):
                    yield (G, 'err', lab) if c is None else (G, ([('atom', me), ('chain', c)], nx), lab)
                return
            if mname == 'OpLoopMerge':
                m = inner(M, self.opfield(mop, 'merge_block'))
                r = self.get(F, v, tgt, False, 'the body of a loop')
                if r is None:
                    return
                self.nest(r, 'loop', (x, m))
                for G, c, nx in self.outcome(F, r):
                    if c is None:
                        yield G, 'err', lab
                        continue
                    for H, back in self.reaches(G, nx, x):
                        if not back:
                            yield H, 'err', lab + ' whose body does not return to it'
                            continue
                        r2 = self.get(H, v, m, True, 'the merge block of a loop')
                        if r2 is None:
                            continue
                        for J, c2, nx2 in self.outcome(H, r2):
                            if c2 is None:
                                yield J, 'err', lab
                            else:
                                yield J, ([('loop', me, [('chain', c)], self.opfield(mop, 'loop_control'), None), ('chain', c2)], nx2), lab
                return
            yield F, 'err', lab
            return
        if bname == 'OpBranchConditional':
            t = inner(M, self.opfield(bop, 'true_label'))
            f = inner(M, self.opfield(bop, 'false_label'))
            w = self.opfield(bop, 'weights')
            if mname == 'OpSelectionMerge':
                m = inner(M, self.opfield(mop, 'merge_block'))
                r = self.get(F, v, t, False, 'the true side of a selection')
                q = self.get(F, v, f, False, 'the false side of a selection')
                if r is None or q is None:
                    return
                self.nest(r, 'selection', (m,))
                self.nest(q, 'selection', (m,))
                for G, c, nx in self.outcome(F, r):
                    if c is None:
                        yield G, 'err', lab
                        continue
                    for G2, d, ny in self.outcome(G, q):
                        if d is None:
                            yield G2, 'err', lab
                            continue
                        for H, a in self.reaches(G2, nx, m):
                            for J, b in self.reaches(H, ny, m):
                                if not (a and b):
                                    yield J, 'err', lab + ' whose sides do not meet at its merge block'
                                    continue
                                r2 = self.get(J, v, m, True, 'the merge block of a selection')
                                if r2 is None:
                                    continue
                                for K, c2, nx2 in self.outcome(J, r2):
                                    if c2 is None:
                                        yield K, 'err', lab
                                    else:
                                        yield K, ([('sel', me, [('chain', c)], [('chain', d)], self.opfield(mop, 'selection_control'), w), ('chain', c2)], nx2), lab
                return
            if mname is not None:
                yield F, 'err', lab
                return
            # break or continue of the innermost loop
            if info[0] == 'none':
                yield F, 'err', lab + ' outside a loop'
                return
            if info[0] == 'unknown':
                yield F, 'u', lab
                return
            _, h, m = info[:3]
            if info[-1] == 'found':
                if not any(y is h or y is m for t_ in fact_terms(F) for y in atoms_in(t_)):
                    yield F, 'maybe-err', lab + ' outside a loop'
                    return
            r = self.get(F, v, t, True, 'the true side of a break or continue')
            if r is None:
                return
            for G, brk in split(F, cmp_eq(f, m)):
                for H, cnt in split(G, cmp_eq(f, h)):
                    if not brk and not cnt:
                        yield H, 'err', lab + ' that neither breaks nor continues'
                        continue
                    for J, c, nx in self.outcome(H, r):
                        if c is None:
                            yield J, 'err', lab
                            continue
                        for K, back in self.reaches(J, nx, h):
                            if not back:
                                yield K, 'err', lab + ' whose true side does not return to the header'
                            else:
                                sides = ([('brk',)] if brk else []) + ([('cont',)] if cnt else [])
                                yield K, ([('sel', me, [('chain', c)], ('one of', sides), 'default', w)], ('next', h)), lab
            return
        yield F, 'u', lab

    # ---- innermost loop of an unconstrained context
    def discover(self):
        C, M = self.C, self.M
        b = self.block()
        br = field(M, b, 'branch')
        bi = [k for k, v in enumerate(M.types[br.a[0]]['v']) if v['n'] == 'OpBranchConditional']
        if not bi:
            return
        bop = strip(fld(M, br, bi[0], 0))
        f = inner(M, self.opfield(bop, 'false_label'))
        hs, ms = None, None
        seen = False
        for F, w in self.rest:
            if w.op != 'agg' or w.a[1] != 0 or w.a[2][0].op != 'agg':
                continue
            fl = self.flatten(F, w.a[2][0].a[2][C.ci])
            if not fl or fl[0].op != 'agg' or fl[0].a[1] != C.V['Selection']:
                continue
            side = self.flatten(F, fl[0].a[2][2])
            if not side or side[0].op != 'agg':
                continue
            k = side[0].a[1]
            if k not in (C.V['Break'], C.V['Continue']):
                continue
            seen = True
            if k == C.V['Break']:
                c = self.equal_to(F, f)
                ms = c if ms is None else ms & c
            else:
                c = self.equal_to(F, f)
                hs = c if hs is None else hs & c
            nx = w.a[2][0].a[2][1 - C.ci]
            y = None
            if nx.op == 'agg' and nx.a[1] == C.NEXT:
                y = inner(M, strip(nx.a[2][0]))
            elif nx.op == 'obj':
                y = inner(M, strip(fld(M, nx, C.NEXT, 0)))
            if y is not None:
                c = self.equal_to(F, y) | ({y} if self.ctxterm(y) else set())
                hs = c if hs is None else hs & c
        if not seen:
            self.loopinfo = ('none?',)
            return
        if hs and ms and len(hs) == 1 and len(ms) == 1:
            self.loopinfo = ('known', list(hs)[0], list(ms)[0], 'found')
        else:
            self.loopinfo = ('unknown',)

    def ctxterm(self, y):
        if y.op != 'iv':
            return False
        s = {z.a[0] for z in atoms_in(y) if z.op == 'sym'}
        own = set()
        for i in self.ctxargs:
            own |= {z.a[0] for z in atoms_in(self.args[i]) if z.op == 'sym'}
        return bool(s) and s <= own and not (any(z.op in ('mget', 'rec') and (z.op == 'mget' or z.a[0] == self.C.S) for z in atoms_in(y)))

    def equal_to(self, F, x):
        out = set()
        for t in list(fact_terms(F)):
            for y in atoms_in(t):
                if y is not x and y.op == 'iv' and self.ctxterm(y) and F.decide(cmp_eq(x, y)) is True:
                    out.add(y)
        return out

    # ---- comparison
    def table(self, where, info):
        C, rep = self.C, self.C.rep
        if info[0] == 'none?':
            info = ('none',)
            if self is C.gen:
                rep.add({'C18'}, 'n' if not any(C.vague_facts(F) for F, v in self.rest) else 'u', 'break', 'no branch ever becomes a break or a continue')
        for F, w in self.rest:
            for G, exp, lab in self.expect(F, w, info):
                C.n['comparisons'] += 1
                self.compare(G, w, exp, lab, where)

    def compare(self, F, w, exp, lab, where):
        C, rep = self.C, self.C.rep
        key = '%s:%s' % (where.replace(' ', '-'), lab.replace(' ', '-'))
        if exp == 'u' or w.op != 'agg':
            if w.op == 'obj' and exp != 'u':
                # the result of a recursive call is returned as it is
                for r in C.recs(w, Facts(), C.S):
                    if w is opq(self.M, C.rt, r):
                        for G, c, nx in self.outcome(F, r):
                            if c is None:
                                self.compare(G, mk('agg', C.rt, 1, (mk('sym', 'e'),)), exp, lab, where)
                            else:
                                t = fld(self.M, opq(self.M, C.rt, r), 0, 0)
                                self.compare(G, mk('agg', C.rt, 0, (t,)), exp, lab, where)
                        return
            rep.add({'C18', 'C19'}, 'u', key, 'the result for a block ending in %s' % lab)
            return
        isok = w.a[1] == 0
        vague = C.vague_facts(F) or C.vague(w)
        if not isok:
            if exp in ('err', 'maybe-err'):
                rep.add({'C18', 'C19'}, 'y', key)
                return
            tl = self.too_long(F)
            if tl:
                rep.add({'C18'}, 'y', 'too-long')
                return
            if DBG:
                print('ERR', key, [show(c, 7)[:200] for c in conds_of(F)], 'NES', len(F.nes))
            rep.add({'C18'}, 'u' if vague or (tl is None and self.limited(F)) else 'n', key, '%s, a block ending in %s is refused although its targets are found and converge' % (where, lab))
            return
        if exp == 'maybe-err':
            rep.add({'C18', 'C19'}, 'u', key, '%s, the result for a block ending in %s' % (where, lab))
            return
        if exp == 'err':
            if DBG:
                print('OK', key, show(w, 6)[:300], [show(c, 7)[:200] for c in conds_of(F)])
            rep.add({'C18', 'C19'}, 'u' if vague else 'n', key, '%s, a block ending in %s is accepted' % (where, lab))
            return
        items, nx = exp
        t = w.a[2][0]
        if t.op != 'agg':
            rep.add({'C18'}, 'u', key, 'the result for a block ending in %s' % lab)
            return
        c, n = t.a[2][C.ci], t.a[2][1 - C.ci]
        got = self.flatten(F, c)
        r = self.eq_items(F, got, items)
        if r[0] == 'n' and vague:
            r = ('u', r[1])
        if DBG and r[0] != 'y':
            print('ITEMS', r, key, show(c, 9)[:600])
        rep.add({'C18'}, r[0], key, '%s, the structure for a block ending in %s is wrong: %s' % (where, lab, r[1]))
        q = self.eq_next(F, n, nx)
        if DBG and q != 'y':
            print('NEXT', q, key, show(n, 9)[:600], nx)
        rep.add({'C18'}, 'u' if q == 'n' and vague else q, key + ':next', '%s, the structure for a block ending in %s is said to continue elsewhere' % (where, lab))

    def limited(self, F):
        """some fact of the path concerns a counter argument"""
        C = self.C
        own = {z for i in C.darg for z in atoms_in(self.args[i])}
        return any(z in own for t in fact_terms(F) for z in atoms_in(t))

    def eq_next(self, F, n, nx):
        C, M = self.C, self.M
        n = strip(n)
        if nx == 'ret':
            if n.op == 'agg':
                return 'y' if n.a[1] == C.RET else 'n'
            p = F.pin(mk('discr', n, 2))
            return 'y' if p == C.RET else 'n'
        if isinstance(nx, tuple):
            res = []
            for G, b in self.reaches2(F, n, nx[1]):
                res.append('y' if b else 'n')
            return comb2(*res)
        if n is nx:
            return 'y'
        # a value rebuilt from its parts
        if n.op == 'agg':
            p = F.pin(mk('discr', nx, 2))
            if p is None or p != n.a[1]:
                return 'n'
            if p == C.RET:
                return 'y'
            return 'y' if F.decide(cmp_eq(inner(M, strip(n.a[2][0])), inner(M, strip(fld(M, nx, C.NEXT, 0))))) is True else 'n'
        return 'n'

    def reaches2(self, F, n, target):
        if n.op == 'agg':
            if n.a[1] != self.C.NEXT:
                return [(F, False)]
            return split(F, cmp_eq(inner(self.M, strip(n.a[2][0])), target))
        return self.reaches(F, n, target)

    def eq_items(self, F, got, want):
        if got is None:
            return 'u', 'not interpreted'
        if isinstance(want, tuple) and want[0] == 'one of':
            rs = [self.eq_items(F, got, [x]) for x in want[1]]
            for r in rs:
                if r[0] == 'y':
                    return r
            return rs[0]
        # an empty chain may have been dropped
        if len(got) != len(want):
            g2 = list(got)
            w2 = []
            for x in want:
                if x[0] == 'chain' and (not g2 or g2[0] is not x[1]) and self.empty(F, x[1]):
                    continue
                w2.append(x)
                if g2:
                    g2.pop(0)
            if len(w2) == len(got):
                want = w2
            else:
                return 'n', '%d parts instead of %d' % (len(got), len(want))
        res = ['y']
        why = ''
        for g, w in zip(got, want):
            r, y = self.eq_item(F, strip(g), w)
            if r != 'y':
                why = y
            res.append(r)
        return comb2(*res), why

    def empty(self, F, c):
        C = self.C
        if F.pin(mk('discr', c, len(C.V))) != C.V['Block']:
            return False
        s = fld(self.M, c, C.V['Block'], 0)
        return F.decide(cmp_eq(seq_len(s), I(0))) is True

    def eq_item(self, F, g, w):
        C, M = self.C, self.M
        if w[0] == 'chain':
            if g is w[1]:
                return 'y', ''
            if g.op == 'obj':
                return 'n', 'it contains the structure of another block'
            if g.op == 'gen':
                return 'n', 'the parts of a structure are rearranged'
            # rebuilt from its parts, when the kind is known
            k = F.pin(mk('discr', w[1], len(C.V)))
            if k is not None and k == g.a[1] and all(self.same(x, fld(M, w[1], k, i)) for i, x in enumerate(g.a[2])):
                return 'y', ''
            return 'n', 'a structure found by the search is replaced'
        if g.op in ('obj', 'gen'):
            return 'n', 'a construct is missing'
        names = {v: k for k, v in C.V.items()}
        kind = {'atom': 'Atom', 'sel': 'Selection', 'loop': 'Loop', 'brk': 'Break', 'cont': 'Continue'}[w[0]]
        if names[g.a[1]] != kind:
            return 'n', '%s instead of %s' % (names[g.a[1]], kind)
        if w[0] in ('brk', 'cont'):
            return 'y', ''
        if self.E.eq(F, inner(M, strip(g.a[2][0])), inner(M, strip(w[1]))) != 'y':
            return 'n', 'the label of the %s' % kind
        if w[0] == 'atom':
            return 'y', ''
        if w[0] == 'sel':
            a = self.eq_items(F, self.flatten(F, g.a[2][1]), w[2])
            if a[0] != 'y':
                return a[0], 'the true side: ' + a[1]
            a = self.eq_items(F, self.flatten(F, g.a[2][2]), w[3])
            if a[0] != 'y':
                return a[0], 'the false side: ' + a[1]
            h, wt, hint, weights = g.a[2][3], g.a[2][4], w[4], w[5]
        else:
            a = self.eq_items(F, self.flatten(F, g.a[2][1]), w[2])
            if a[0] != 'y':
                return a[0], 'the body: ' + a[1]
            h, wt, hint, weights = g.a[2][2], g.a[2][3], w[3], w[4]
        if hint == 'default':
            r = self.default(h)
        else:
            r = self.E.eq(F, h, hint)
        if r != 'y':
            return r, 'the hint'
        if weights is None:
            r = 'y' if wt.op == 'agg' and wt.a[1] == 0 else 'u' if wt.op == 'obj' and F.pin(mk('discr', wt, 2)) is None and False else 'n'
            if wt.op == 'obj' and F.pin(mk('discr', wt, 2)) == 0:
                r = 'y'
        else:
            r = self.E.eq(F, wt, weights)
        if r != 'y':
            return r, 'the branch weights'
        return 'y', ''

    def default(self, h):
        if h.op != 'agg':
            return 'n'
        for x in h.a[2]:
            x = strip(x)
            if is_int(x):
                if x.a[0] != 0:
                    return 'n'
            elif x is FALSE:
                pass
            elif x is TRUE:
                return 'n'
            elif x.op == 'agg' and not x.a[2] and x.a[1] == 0:
                pass
            else:
                return 'u' if self.C.vague(x) else 'n'
        return 'y'

    def same(self, a, b):
        return a is b or strip(a) is strip(b)

def check(M, rep):
    C = Cfg(M, rep)
    C.check()
    n = dict(C.n)
    n['functions_visited'] = len(n['functions_visited'])
    for p in ('C18', 'C19', 'C24'):
        rep.notes[p] = n
