"""Reading: every outcome of read_module, on every partition of the input
bytes, is compared with the outcome the SPIR-V standard prescribes there."""
from terms import *
from values import *
from facts import Facts
from interp import *
from equiv import Eq, split, comb
import loops as LP
import spec
from common import fuzzy, fact_terms

READ = 'magmaflow::spv::raw::reader::read_module'

class Found:
    """one obligation that failed or could not be decided"""
    def __init__(self, props, key, msg, status='n', endian=None):
        self.props = set(props)
        self.key = key
        self.msg = msg
        self.status = status
        self.endian = endian

class Missing(Exception):
    pass

def find_read(M):
    fid = M.fn(READ)
    if fid is None:
        c = [i for i, f in M.fns.items() if f['n'].endswith('::read_module') and f['local']]
        if len(c) != 1:
            raise Missing('public function read_module not found')
        fid = c[0]
    return fid

class ReadAnalysis:
    def __init__(self, M):
        self.M = M
        self.fid = find_read(M)
        self.I = Interp(M)
        f = M.fns[self.fid]
        st = State({}, Facts())
        args = [opq(M, f['locals'][1 + i], mk('sym', 'a%d' % i)) for i in range(f['argc'])]
        self.outs = self.I.run_fn(self.fid, args, st, root=True)
        self.core = M.adt_named('raw::Core')
        self.err = M.adt_named('raw::ReadError')
        self.rawmod = M.adt_named('raw::RawModule')
        if min(self.core, self.err, self.rawmod) < 0:
            raise Missing('types Core / ReadError / RawModule not found')
        self.S = mk('sq', mk('deref', mk('sym', 'a0')), None)
        # the data sequence as it appears in terms
        v = args[0]
        while v.op == 'vref':
            v = v.a[0]
        self.S = v.a[1][0]
        self.len = seq_len(v)
        self.known = args[1] if len(args) > 1 else None
        self.mains = self.main_loops()

    # ------------------------------------------------ the instruction loop(s)
    def main_loops(self):
        res = []
        for L in self.I.loops:
            acc = []
            for p, nd in LP.node_path(L.nodes):
                if nd.k in ('lv', 'acc') and nd.v.op == 'seq' and nd.v.a[0] == self.core:
                    acc.append((p, nd))
            if not acc:
                continue
            cnt = {}
            for st in L.backs + [s for _, s in L.exits]:
                ws = set()
                for k in st.facts.dom:
                    k = k.a[0] if k.op == 'ext' else k
                    if k.op == 'word' and k.a[0] is self.S and k.a[1].op != 'int':
                        ws.add(k)
                for k in ws:
                    cnt[k] = cnt.get(k, 0) + 1
            if not cnt:
                continue
            # the word every way round the loop looks at; of two such, the first
            W = None
            for w in sorted(cnt, key=lambda w: (-cnt[w], w.id)):
                if W is None:
                    W = w
                elif cnt[w] == cnt[W] and w.a[2] == W.a[2]:
                    d = sub(w.a[1], W.a[1])
                    if d.op == 'int' and d.a[0] < 0:
                        W = w
            m = Main()
            m.L = L
            m.W = W
            m.acc = acc
            m.o = W.a[1]
            m.e = W.a[2]
            m.leaves = leaves = {}
            for p, nd in LP.node_path(L.nodes):
                if nd.k in ('lv', 'aff', 'acc', 'sacc') and not nd.ch:
                    leaves[p] = nd
            m.allow = frozenset(x for x in atoms_in(m.o) if x.op == 'sym') | frozenset(x for _, nd in acc for x in atoms_in(nd.v) if x.op == 'sym')
            m.maps = [(p, nd) for p, nd in LP.node_path(L.nodes) if nd.v.op in ('mapv', 'mins', 'mnew')]
            m.allow |= frozenset(x for _, nd in m.maps for x in atoms_in(nd.v) if x.op == 'sym')
            res.append(m)
        return res

    def first(self, m, F):
        """the loop as it is when first entered, for facts that say nothing about later instructions"""
        xs = {x for x in atoms_in(m.o) if x.op == 'sym'}
        if any(xs & atoms_in(t) for t in fact_terms(F)):
            return m
        eo = self.entry_offset(m)
        if eo is None or not is_int(eo):
            return m
        n = Main()
        n.__dict__.update(m.__dict__)
        n.o = eo
        n.W = mk('word', m.W.a[0], eo, *m.W.a[2:])
        n.maps = []
        for p, nd in m.maps:
            q = Main()
            q.v = nd.v0
            n.maps.append((p, q))
        return n

    def next_offset(self, m, b):
        sub_ = {}
        for p, nd in m.leaves.items():
            if nd.k == 'lv' and contains(m.o, nd.v) and nd.v is not m.o:
                sub_[nd.v] = LP.at_path(b, m.L.nodes, p)
            elif nd.k == 'lv' and nd.v is m.o:
                return LP.at_path(b, m.L.nodes, p)
            elif nd.k == 'aff' and nd.v is m.o:
                return LP.at_path(b, m.L.nodes, p)
        if contains(m.o, m.L.K):
            sub_[m.L.K] = add(m.L.K, I(1))
        if not sub_:
            return None
        return subst(m.o, sub_)

    def entry_offset(self, m):
        sub_ = {}
        for p, nd in m.leaves.items():
            if nd.k == 'lv' and contains(m.o, nd.v):
                sub_[nd.v] = nd.v0
            elif nd.k == 'aff' and nd.v is m.o:
                return nd.v0
        if contains(m.o, m.L.K):
            sub_[m.L.K] = I(0)
        if not sub_:
            return None
        return subst(m.o, sub_)

class Main:
    pass

END = [('UnexpectedEndOfInstruction', None)]
STREAM = [('UnexpectedEndOfStream', None), ('UnexpectedStreamAlignment', None)]

ERRPROP = {'UnexpectedEndOfStream': {'C05'}, 'UnexpectedStreamAlignment': {'C05'}, 'BadMagic': {'C08'},
           'UnknownVersionBytes': {'C08'}, 'UnknownVersion': {'C08'}, 'UnknownReservedSchema': {'C08'},
           'UnknownOp': {'C01'}, 'UnimplementedOp': {'C01'}, 'WrongWordCountForOp': {'C05'},
           'InvalidString': {'C10'}, 'UnexpectedEndOfInstruction': {'C05', 'C02'},
           'InstructionHadExcessData': {'C05', 'C02'}, 'UnknownInstSet': {'C09'}, 'UnknownInstSetId': {'C09'},
           'UnknownExtInstOp': {'C09'}, 'DuplicateResultId': {'C09'}}
for _e in spec.ENUMS:
    ERRPROP['Unknown' + _e] = {'C03'}
for _e in spec.MASKS:
    ERRPROP['Unknown' + _e] = {'C04'}

class Dec:
    """what the standard prescribes for one instruction at offset o"""
    def __init__(self, A, m):
        self.A = A
        self.M = A.M
        self.m = m
        self.head = m.W
        self.op = ext(m.W, 0, 16)
        self.wc = ext(m.W, 16, 16)
        self.end = scale(self.wc, 4)

    def w(self, rel):
        return mk('word', self.A.S, add(self.m.o, rel), self.m.e)

    def need(self, F, cur):
        return split(F, cmp_le(add(cur, I(4)), self.end))

    def tyid(self, name):
        return self.M.adt_named(name)

    # each yields (facts, 'ok', next, value) | (facts, 'err', alternatives) | (facts, '?', why)
    def operand(self, kind, ty, F, cur):
        M = self.M
        if kind[0] == '?':
            t = M.types[ty]
            sv = M.variant(ty, 'Some')
            nv = M.variant(ty, 'None')
            for G, more in split(F, cmp_lt(cur, self.end)):
                if not more:
                    yield G, 'ok', cur, mk('agg', ty, nv, ())
                else:
                    for r in self.operand(kind[1:], t['v'][sv]['f'][0][1], G, cur):
                        if r[1] == 'ok':
                            yield r[0], 'ok', r[2], mk('agg', ty, sv, (r[3],))
                        else:
                            yield r
            return
        if kind[0] == '*':
            yield from self.rest(kind[1:], ty, F, cur)
            return
        if kind == 'str':
            yield from self.string(F, cur)
            return
        if kind == 'weights':
            yield from self.struct(ty, ['lit', 'lit'], F, cur)
            return
        if kind == 'phi':
            yield from self.struct(ty, ['id', 'id'], F, cur)
            return
        for G, more in self.need(F, cur):
            if not more:
                yield G, 'err', END
                continue
            w = self.w(cur)
            nx = add(cur, I(4))
            if kind == 'lit':
                yield G, 'ok', nx, w
            elif kind in ('id', 'rid', 'mem', 'ver'):
                yield G, 'ok', nx, mk('agg', ty, 0, (w,))
            elif kind.startswith('E:'):
                yield from self.enum(kind[2:], ty, G, nx, w)
            elif kind.startswith('M:'):
                yield from self.mask(kind[2:], ty, G, nx, w)
            else:
                yield G, '?', 'kind ' + kind

    def struct(self, ty, kinds, F, cur):
        fs = self.M.types[ty]['v'][0]['f']
        yield from self.fields(ty, 0, [(k, f[1]) for k, f in zip(kinds, fs)], F, cur)

    def fields(self, ty, variant, kts, F, cur, got=()):
        if not kts:
            yield F, 'ok', cur, mk('agg', ty, variant, got)
            return
        k, t = kts[0]
        for r in self.operand(k, t, F, cur):
            if r[1] == 'ok':
                yield from self.fields(ty, variant, kts[1:], r[0], r[2], got + (r[3],))
            else:
                yield r

    def enum(self, name, ty, F, nx, w):
        M = self.M
        tabl = spec.ENUMS[name]
        cur = F.vset(w)
        simple = []
        known = ()
        for n, v, d, ps in tabl:
            known = iunion(known, ((n, n),))
            if not ihas(cur, n):
                continue
            vi = M.variant(ty, v)
            if vi is None:
                yield F, '?', 'variant %s::%s' % (name, v)
                return
            if ps:
                G = F.copy()
                if G.restrict(w, ((n, n),)):
                    kts = [(p, f[1]) for p, f in zip(ps, M.types[ty]['v'][vi]['f'])]
                    yield from self.fields(ty, vi, kts, G, nx)
            else:
                simple.append((((n, n),), mk('agg', ty, vi, ())))
        if simple:
            s = norm([q[0] for q, _ in simple])
            G = F.copy()
            if G.restrict(w, s):
                yield G, 'ok', nx, tab(w, simple)
        rest = idiff(cur, known)
        if rest:
            G = F.copy()
            if G.restrict(w, rest):
                if name in spec.OPEN:
                    vi = M.variant(ty, spec.OPEN[name][0])
                    yield G, 'ok', nx, mk('agg', ty, vi, (w,))
                else:
                    yield G, 'err', [('Unknown' + name, (w,))]

    def mask(self, name, ty, F, nx, w):
        M = self.M
        bits = spec.MASKS[name]
        hi = max(b[0] for b in bits) + 1
        for G, ok in split(F, cmp_eq(ext(w, hi, 32 - hi), I(0))):
            if not ok:
                yield G, 'err', [('Unknown' + name, (w,))]
                continue
            yield from self.flags(bits, ty, G, nx, w, {})

    def flags(self, bits, ty, F, nx, w, got):
        M = self.M
        if not bits:
            fs = M.types[ty]['v'][0]['f']
            vals = []
            for n, t in fs:
                if n not in got:
                    yield F, '?', 'field ' + n
                    return
                vals.append(got[n])
            yield F, 'ok', nx, mk('agg', ty, 0, tuple(vals))
            return
        b, fld, _, par = bits[0]
        bit = mk_in(ext(w, b, 1), ((1, 1),))
        if not par:
            yield from self.flags(bits[1:], ty, F, nx, w, dict(got, **{fld: bit}))
            return
        ft = [t for n, t in M.types[ty]['v'][0]['f'] if n == fld]
        if not ft:
            yield F, '?', 'field ' + fld
            return
        for G, on in split(F, bit):
            if not on:
                yield from self.flags(bits[1:], ty, G, nx, w, dict(got, **{fld: mk('agg', ft[0], M.variant(ft[0], 'None'), ())}))
            else:
                for H, more in self.need(G, nx):
                    if not more:
                        yield H, 'err', END
                    else:
                        v = mk('agg', ft[0], M.variant(ft[0], 'Some'), (self.w(nx),))
                        yield from self.flags(bits[1:], ty, H, add(nx, I(4)), w, dict(got, **{fld: v}))

    def rest(self, kind, ty, F, cur):
        M = self.M
        et = M.types[ty]['g'][0]
        n4 = sub(self.end, cur)
        c, d = lin(n4)
        n = from_lin(c // 4, {k: v // 4 for k, v in d.items()})     # words left
        lvl = bv(1 + max(maxlevel(cur), maxlevel(n), maxlevel(self.m.o)))
        if kind in ('id', 'lit'):
            w = self.w(add(cur, scale(lvl, 4)))
            x = w if kind == 'lit' else mk('agg', et, 0, (w,))
            yield F, 'ok', self.end, seq(et, [mk('gen', lvl, n, (x,))])
            return
        # pairs
        def val(k):
            fs = M.types[et]['v'][0]['f']
            a = self.w(add(cur, scale(lvl, 8)))
            b = self.w(add(cur, add(scale(lvl, 8), I(4))))
            x = mk('agg', et, 0, (mk('agg', fs[0][1], 0, (a,)), mk('agg', fs[1][1], 0, (b,))))
            return seq(et, [mk('gen', lvl, k, (x,))])
        cands = set()
        for l in F.lins:
            for a in l.a[1] if l.op == 'lin' else ():
                if a[0].op == 'iv' and a[0].a[0].op == 'sym' and str(a[0].a[0].a[0]).startswith('K'):
                    cands.add(a[0])
        for a in F.dom:
            if a.op == 'iv' and a.a[0].op == 'sym' and str(a.a[0].a[0]).startswith('K'):
                cands.add(a)
        p = F.pin(n)
        if p is not None:
            if p % 2:
                yield F, 'err', END
            else:
                yield F, 'ok', self.end, val(I(p // 2))
            return
        for k in sorted(cands, key=lambda t: t.id):
            if F.decide(cmp_eq(scale(k, 2), n)) is True:
                yield F, 'ok', self.end, val(k)
                return
            if F.decide(cmp_eq(add(scale(k, 2), I(1)), n)) is True:
                yield F, 'err', END
                return
        yield F, '?', 'number of operand pairs'

    def string(self, F, cur):
        """bytes up to the first zero byte"""
        byte_ty = None
        for q in self.A.outs[0][0].facts.dom:
            pass
        u8 = self.A.S.a[1]
        # which words are known to be free of zero bytes
        best = None
        for cnt, b, conds in F.foralls:
            w = self.w(add(cur, scale(b, 4)))
            want = {mk_in(ext(w, 8 * i, 8), ((1, 255),)) for i in range(4)}
            if want <= set(conds):
                best = cnt
        k = best if best is not None else I(0)
        lvl = bv(1 + max(maxlevel(cur), maxlevel(k), maxlevel(self.m.o)))
        gw = self.w(add(cur, scale(lvl, 4)))
        body = mk('gen', lvl, k, tuple(ext(gw, 8 * i, 8) for i in range(4)))
        at = add(cur, scale(k, 4))
        for G, more in self.need(F, at):
            if not more:
                yield G, 'err', END + [('InvalidString', None)]
                continue
            yield from self.tail(G, at, body, (), 0, u8)

    def tail(self, F, at, body, lits, i, u8):
        w = self.w(at)
        if i == 4:
            # no zero byte in a word the loop did not account for
            yield F, '?', 'string of undetermined length'
            return
        b = ext(w, 8 * i, 8)
        for G, z in split(F, cmp_eq(b, I(0))):
            if not z:
                yield from self.tail(G, at, body, lits + (mk('lit', b),), i + 1, u8)
                continue
            s = seq(u8, [body] + list(lits))
            c = mk_in(mk('iv', mk('utf8ok', s), 0, 1), ((1, 1),))
            if not s.a[1]:
                c = TRUE
            for H, ok in split(G, c):
                if ok:
                    yield H, 'ok', add(at, I(4)), str_of(mk('utf8', s)) if s.a[1] else str_of()
                else:
                    yield H, 'err', [('InvalidString', None)]

    # ------------------------------------------------ the whole instruction
    def instruction(self, F):
        """yields (facts, 'ok', opcode, [(field, kind, value)]) | (facts, 'err', alts) | (facts, 'ext'/'imp', fields, cur) | (facts,'?',why)"""
        M = self.M
        for G, have in split(F, cmp_le(add(self.m.o, I(4)), self.A.len)):
            if not have:
                yield G, 'err', STREAM, None
                continue
            for H, z in split(G, cmp_eq(self.wc, I(0))):
                if z:
                    yield H, 'err', None, None
                    continue
                for J, fits in split(H, cmp_le(add(self.m.o, self.end), self.A.len)):
                    if not fits:
                        yield J, 'err', STREAM, None
                        continue
                    yield from self.opcode(J)

    def opcode(self, F):
        cur = F.vset(self.op)
        known = ()
        un = ()
        for n in sorted(set(spec.OPS) | set(spec.UNIMPL)):
            known = iunion(known, ((n, n),))
        # unknown numbers
        rest = idiff(cur, known)
        if rest:
            G = F.copy()
            if G.restrict(self.op, rest):
                yield G, 'err', [('UnknownOp', (self.op, self.wc))], None
        for n in ivals(iinter(cur, known)):
            G = F if isize(cur) == 1 else F.copy()
            if isize(cur) != 1 and not G.restrict(self.op, ((n, n),)):
                continue
            if n in spec.UNIMPL:
                yield G, 'err', [('UnimplementedOp', (txt(spec.UNIMPL[n]),))], n
                continue
            yield from self.operands(G, n)

    def operands(self, F, n):
        M = self.M
        name, fields, _ = spec.OPS[n]
        vi = M.variant(self.A.core, name)
        if vi is None:
            yield F, '?', 'variant ' + name, n
            return
        st = M.types[self.A.core]['v'][vi]['f'][0][1]
        ft = {f[0]: f[1] for f in M.types[st]['v'][0]['f']}
        def go(F, cur, i, got):
            if i == len(fields):
                if n == 11:
                    yield F, 'imp', got, n, cur
                    return
                for G, less in split(F, cmp_lt(cur, self.end)):
                    if less:
                        yield G, 'err', [('InstructionHadExcessData', None)], n
                    else:
                        yield G, 'ok', got, n
                return
            f, k = fields[i]
            if k == 'ext':
                for G, more in self.need(F, cur):
                    if not more:
                        yield G, 'err', END, n
                    else:
                        yield G, 'ext', got, n, cur
                return
            if f not in ft:
                yield F, '?', 'field %s.%s' % (name, f), n
                return
            for r in self.operand(k, ft[f], F, cur):
                if r[1] == 'ok':
                    yield from go(r[0], r[2], i + 1, got + [(f, k, r[3])])
                else:
                    yield (r[0], r[1], r[2], n)
        yield from go(F, I(4), 0, [])

# --------------------------------------------------------------- comparison
KINDPROP = {'id': {'C02'}, 'rid': {'C02'}, 'lit': {'C02'}, 'mem': {'C02'}, 'ver': {'C02'}, 'str': {'C10', 'C02'},
            'phi': {'C02'}, 'weights': {'C02'}, 'ext': {'C09', 'C02'}}

def kindprop(k):
    k = k.lstrip('?*')
    if k.startswith('E:'):
        return {'C03', 'C02'}
    if k.startswith('M:'):
        return {'C04', 'C02'}
    return KINDPROP[k]

def valprop(M, k, want):
    """the properties at stake in one operand: an enumerant may carry a mask or a string"""
    ps = set(kindprop(k))
    if want.op == 'agg' and want.a[2]:
        for x in want.a[2]:
            if x.op == 'agg' and M.types[x.a[0]].get('p', '').split('::')[-1] in spec.MASKS:
                ps.add('C04')
            elif x.op == 'str':
                ps.add('C10')
    return ps

def find_terms(t, pred, seen=None):
    seen = set() if seen is None else seen
    out = []
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        st.extend(x.a)
    return out

def fact_terms(F):
    for k in F.dom:
        yield k
    for l in F.lins:
        yield l
    for b in F.bools:
        yield b
    for c, b, conds in F.foralls:
        yield c
        yield from conds

def feasible(F, *vals):
    """false when every alternative of some case distinction contradicts F"""
    for t in list(vals) + list(fact_terms(F)):
        if t is None:
            continue
        for c in find_terms(t, lambda x: x.op == 'cases'):
            ok = False
            for conds, _ in c.a[0]:
                g = F.copy()
                if all(g.assume(truth(q)) for q in conds) and not g.dead:
                    ok = True
                    break
            if not ok:
                return False
    return True

class ReadCheck:
    def __init__(self, M, rep):
        self.M = M
        self.rep = rep
        self.A = A = ReadAnalysis(M)
        self.errs = [v['n'] for v in M.types[A.err]['v']]
        self.cores = [v['n'] for v in M.types[A.core]['v']]
        self.found = []
        self.F = None           # the facts of the case being compared
        self.cov = {'partitions': 0, 'accepting': 0, 'rejecting': 0}

    def add(self, props, status, key, msg='', e=None):
        if not props:
            return
        if status == 'n' and self.F is not None and self.vague(self.F):
            status = 'u'
        self.rep.add(props, status, key, msg)
        self.found.append((status, key, e, msg, tuple(sorted(props))))

    def addf(self, F, props, status, key, msg='', e=None):
        """a violation only where nothing that leads to it is over-approximated"""
        if status == 'n' and self.vague(F):
            status = 'u'
        self.add(props, status, key, msg, e)

    def vague(self, F):
        allow = frozenset().union(*[m.allow for m in self.A.mains])
        return any(fuzzy(t, allow, ('div',)) for t in fact_terms(F))

    def leftover(self, F, recs):
        """does the set leave words: False / True / None (the facts do not say), or '?' if they
        say it in a way the analysis does not know"""
        ls = [q for q in F.dom if q.op == 'len' and find_terms(q, lambda z: z in recs)]
        xs = set()
        for t in F.lins:
            ts = [a for a in atoms_in(t) if a.op in ('len', 'iv') and find_terms(a, lambda z: z in recs)]
            ls += [a for a in ts if a.op == 'len' and a not in ls]
            xs |= {a for a in ts if a.op == 'iv'}
        xs |= {a for a in F.dom if a.op == 'iv' and find_terms(a, lambda z: z in recs)}
        if not ls and not xs:
            return None
        if not xs:
            return False if all(F.pin(q) == 0 for q in ls) else True if all(F.excludes(q, 0) for q in ls) else '?'
        for q in ls:
            for x in xs:
                r = F.decide(cmp_eq(q, x))
                if r is not None:
                    return not r
        return '?'

    # ------------------------------------------------ header
    def magic(self, F):
        """the byte order the facts pin down: 'le', 'be', None (neither), '?'"""
        A = self.A
        sw = int.from_bytes(spec.MAGIC.to_bytes(4, 'little'), 'big')
        for a in F.dom:
            if a.op == 'word' and a.a[0] is A.S and a.a[1] is I(0):
                own = a.a[2]
                oth = 'be' if own == 'le' else 'le'
                p = F.pin(a)
                if p == spec.MAGIC:
                    return own
                if p == sw:
                    return oth
                vs = F.vset(a)
                if not ihas(vs, spec.MAGIC) and not ihas(vs, sw):
                    return None
        return '?'

    def hw(self, off, e):
        return mk('word', self.A.S, I(off), e)

    def version_ok(self, F, e):
        g = F.copy()
        w = self.hw(4, e)
        if not g.assume(cmp_eq(w, I(0x10000))) or g.dead:
            return None
        for i, n in ((0, 0), (8, 0), (16, 1), (24, 0)):
            if not g.assume(cmp_eq(ext(w, i, 8), I(n))) or g.dead:
                return None
        return g

    def version_fixed(self, F, e):
        w = self.hw(4, e)
        return all(F.decide(cmp_eq(ext(w, i, 8), I(n))) is True for i, n in ((0, 0), (8, 0), (16, 1), (24, 0)))

    def header_accept(self, F, key, e=None):
        """F has accepted the header"""
        mg = self.magic(F)
        if mg == '?':
            self.addf(F, {'C08', 'C07'}, 'u' if not any(a.op == 'word' and a.a[1] is I(0) for a in F.dom) and self.A.I.unknown else 'n',
                     key + ':magic', 'a header is accepted although the first word is not pinned to the SPIR-V magic number in one byte order')
            return
        if mg is None:
            self.addf(F, {'C08', 'C07'}, 'n', key + ':magic', 'a header with a wrong magic number is accepted')
            return
        if e is not None:
            self.addf(F, {'C07', 'C08'}, 'y' if mg == e else 'n', key + ':order', 'a stream whose magic number says %s is read as %s' % (mg, e))
        e = mg
        self.addf(F, {'C08'}, 'y' if self.version_fixed(F, e) else 'n', key + ':version', 'a header is accepted without its four version bytes being 0, 1, 0, 0')
        self.addf(F, {'C08'}, 'y' if F.decide(cmp_eq(self.hw(16, e), I(0))) is True else 'n', key + ':schema', 'a header is accepted without its schema word being zero')
        self.addf(F, {'C08', 'C05'}, 'y' if F.decide(cmp_le(I(20), self.A.len)) is True else 'n', key + ':len', 'a header is accepted on fewer than 20 bytes')

    def ok_out(self, F, v):
        A, M = self.A, self.M
        e = self.magic(F)
        self.header_accept(F, 'ok')
        if e not in ('le', 'be'):
            return
        eq = Eq(M)
        t = {f[0]: i for i, f in enumerate(M.types[A.rawmod]['v'][0]['f'])}
        if v.op != 'agg' or set(('version', 'generator', 'bound', 'instructions')) - set(t):
            self.addf(F, {'C08', 'C11'}, 'u', 'ok:shape', 'the returned module is not built in a form the analysis understands')
            return
        f = {n: v.a[2][i] for n, i in t.items()}
        ft = {n: M.types[A.rawmod]['v'][0]['f'][i][1] for n, i in t.items()}
        w4, w8, w12 = (self.hw(x, e) for x in (4, 8, 12))
        ver = mk('agg', ft['version'], 0, (ext(w4, 16, 8), ext(w4, 8, 8)))
        self.addf(F, {'C08'}, eq.eq(F, f['version'], ver), 'ok:version-field', 'the reported version is not the one of the header')
        gt = ft['generator']
        gf = {x[0]: x[1] for x in M.types[gt]['v'][0]['f']}
        tid = ext(w8, 16, 16)
        cases = []
        known = ()
        tt = gf.get('tool')
        if tt is None or f['generator'].op != 'agg' or 'version' not in gf:
            self.addf(F, {'C08'}, 'u', 'ok:generator-field', 'generator')
        else:
            for i, n in enumerate(spec.TOOLS):
                vi = M.variant(tt, n)
                if vi is not None:
                    cases.append((((i, i),), mk('agg', tt, vi, ())))
                    known = iunion(known, ((i, i),))
            oi = M.variant(tt, 'Other')
            cases.append((idiff(((0, 65535),), known), mk('agg', tt, oi, (tid,))))
            order = [x[0] for x in M.types[gt]['v'][0]['f']]
            got = dict(zip(order, f['generator'].a[2]))
            self.addf(F, {'C08'}, eq.eq(F, got['tool'], tab(tid, cases)), 'ok:generator-tool', 'the reported generator tool is not the registered one for the high half of the generator word')
            self.addf(F, {'C08'}, eq.eq(F, got['version'], ext(w8, 0, 16)), 'ok:generator-version', 'the reported generator version is not the low half of the generator word')
        self.addf(F, {'C08'}, eq.eq(F, f['bound'], w12), 'ok:bound', 'the reported bound is not the id bound of the header')
        # instructions: exactly what the loop has accumulated, up to the end
        ins = f['instructions']
        ms = [m for m in A.mains if m.e == e]
        if not ms:
            self.add({'C11'}, 'u', 'ok:loop', 'no instruction loop found for this byte order')
            return
        for m in ms:
            if any(nd.v is ins for _, nd in m.acc):
                self.add({'C11'}, 'y', 'ok:instructions')
                r = F.decide(cmp_eq(m.o, A.len))
                self.add({'C11', 'C05'}, 'y' if r is True else 'n', 'ok:end', 'a module is returned although the data has not been read to its exact end')
                return
        if ins.op == 'seq' and not ins.a[1]:
            r = F.decide(cmp_eq(A.len, I(20)))
            self.add({'C11'}, 'y' if r is True else 'n', 'ok:instructions', 'an empty instruction list is returned for data that goes on after the header')
            return
        st = 'u'
        for m in ms:
            for _, nd in m.acc:
                if ins.op in ('seq', 'view') and find_terms(ins, lambda x: x is nd.v or x in nd.v.a[1]):
                    if not uninterpreted_but(ins, nd.v):
                        st = 'n'
        self.add({'C11'}, st, 'ok:instructions', 'the returned instruction list is not the list of all instructions read, in order')

    # ------------------------------------------------ errors
    def err_is(self, F, v, name, payload):
        """does v equal ReadError::name(payload)?"""
        M, A = self.M, self.A
        vi = M.variant(A.err, name)
        if vi is None:
            return 'u'
        if v.op == 'obj':
            p = F.pin(mk('discr', v, len(self.errs)))
            if p is None:
                return 'u'
            if p != vi:
                return 'n'
            return 'u'
        if v.op != 'agg':
            return 'u'
        if v.a[1] != vi:
            return 'n'
        if payload is None:
            return 'y'
        if len(payload) != len(v.a[2]):
            return 'u'
        eq = Eq(M, self.allow)
        rs = []
        for x, y in zip(v.a[2], payload):
            if x.op == 'agg' and y.op != 'agg' and len(x.a[2]) == 1:
                x = x.a[2][0]
            if y.op == 'txt':
                y = str_of(y)
            rs.append(eq.eq(F, x, y))
        return comb(*rs)

    def ename(self, v):
        return self.errs[v.a[1]] if v.op == 'agg' else None

    def err_out(self, F, v):
        """a rejecting partition: F, error value v"""
        A = self.A
        n = self.ename(v)
        mg = self.magic(F)
        e = mg if mg in ('le', 'be') else None
        key = 'err:%s' % (n or '?')
        short = split(F, cmp_lt(A.len, I(20)))
        for G, isshort in short:
            g = G
            if n in ('UnexpectedEndOfStream', 'UnexpectedStreamAlignment') and isshort:
                self.addf(G, {'C08', 'C05'}, 'y', key + ':header')
                continue
            if n == 'BadMagic':
                st = 'y' if mg is None else 'u' if mg == '?' and A.I.unknown else 'n'
                if G.decide(cmp_lt(A.len, I(4))) is True:
                    st = 'y'
                self.addf(G, {'C08', 'C07'}, st, key, 'a stream with a correct magic number is rejected as bad magic', mg)
                continue
            if n in ('UnknownVersionBytes', 'UnknownVersion') and e:
                w = self.hw(4, e)
                st = 'y' if self.version_ok(G, e) is None else 'n'
                self.addf(G, {'C08'}, st, key, 'version 1.0 is rejected as unknown', e)
                if n == 'UnknownVersionBytes':
                    pay = tuple(ext(w, i, 8) for i in (24, 16, 8, 0))
                    self.allow = frozenset()
                    self.addf(G, {'C08'}, self.err_is(G, v, n, pay), key + ':payload', 'the version error does not carry the four version bytes of the header', e)
                continue
            if n == 'UnknownReservedSchema' and e:
                st = 'n' if G.decide(cmp_eq(self.hw(16, e), I(0))) is not False else 'y'
                self.addf(G, {'C08'}, st, key, 'a zero schema word is rejected', e)
                continue
            # an error of the instructions
            if e is None:
                self.addf(G, {'C08'} | ERRPROP.get(n, set()), 'u' if mg == '?' and A.I.unknown else 'n', key + ':header',
                         'error %s is returned for a stream without a valid magic number' % n)
                continue
            if isshort:
                self.addf(G, {'C08'} | ERRPROP.get(n, set()), 'n' if v.op == 'agg' else 'u', key + ':short', 'error %s is returned for a truncated header' % n, e)
                continue
            if self.version_ok(G, e) is None:
                self.addf(G, {'C08'}, 'n', key + ':version', 'error %s is returned for a header with a wrong version' % n, e)
                continue
            ms = [m for m in A.mains if m.e == e]
            if len(ms) != 1:
                self.addf(G, {'C11'}, 'u', key + ':loop', 'no instruction loop found')
                continue
            self.reject(ms[0], G, v)

    def reject(self, m, F, v):
        A = self.A
        m = A.first(m, F)
        self.allow = m.allow
        n = self.ename(v)
        for G, atend in split(F, cmp_eq(m.o, A.len)):
            if atend:
                self.add({'C11', 'C05'}, 'n', 'err:%s:at-end' % n, 'error %s is returned at the exact end of the instructions' % n, m.e)
                continue
            for r in Dec(A, m).instruction(G):
                self.cov['rejecting'] += 1
                self.reject1(m, r, v, n)

    def opn(self, r):
        return spec.OPS[r][0] if r in spec.OPS else spec.UNIMPL.get(r, 'op%s' % r) if r is not None else '-'

    def reject1(self, m, r, v, n):
        F = self.F = r[0]
        try:
            self.reject2(m, r, F, v, n)
        finally:
            self.F = None

    def reject2(self, m, r, F, v, n):
        if not feasible(F, v):
            return
        op = self.opn(r[3] if r[1] != '?' else r[3])
        if r[1] == '?':
            self.add(ERRPROP.get(n, set()) or {'C02'}, 'u', 'err:%s:%s:%s' % (op, n, r[2]), r[2], m.e)
            return
        if r[1] == 'err':
            if r[2] is None:
                self.add({'C05'}, 'y', 'err')
                return
            best = None
            for name, pay in r[2]:
                s = self.err_is(F, v, name, pay)
                if s == 'y':
                    self.add(set().union(*[ERRPROP[a] for a, _ in r[2]]), 'y', 'err')
                    return
                if s == 'u' or best is None:
                    best = s
            want = ' or '.join(a for a, _ in r[2])
            props = set().union(*[ERRPROP[a] for a, _ in r[2]])
            if props <= {'C05', 'C02'} and n != want:
                props = ERRPROP.get(n, set()) or props
                if props <= {'C05', 'C02'}:
                    props = props | {'C05', 'C02'}
            if n == want:
                msg = '%s is reported with something else than the offending value' % n
            else:
                msg = 'error %s is returned where %s is due' % (n, want)
            if r[3] is None and n not in ('UnknownOp', 'UnimplementedOp') and r[2][0][0] not in ('UnknownOp', 'UnimplementedOp'):
                op = '-'
            self.add(props, best, 'err:%s:%s!=%s' % (op, n, want), '%s: %s' % (op, msg), m.e)
            return
        if r[1] == 'ok':
            st = 'n' if v.op == 'agg' else 'u'
            self.add(ERRPROP.get(n, {'C02'}), st, 'err:%s:%s-on-valid' % (op, n), '%s: a well-formed instruction is rejected with %s' % (op, n), m.e)
            return
        if r[1] == 'imp':
            self.import_err(m, r, v, n)
        elif r[1] == 'ext':
            self.ext_err(m, r, v, n)

    # ------------------------------------------------ imports and extended instructions
    def mapval(self, m):
        return m.maps[0][1].v if len(m.maps) == 1 else None

    def mhas(self, m, key):
        mp = self.mapval(m)
        if mp is None:
            return None
        return mk('iv', mk('mhas', mp, key), 0, 1)

    def known_seq(self):
        k = self.A.known
        while k is not None and k.op in ('vref', 'box'):
            k = k.a[0]
        return k if k is not None and k.op == 'seq' else None

    def name_cond(self, F, conds, name, want):
        """conds hold an equality (want 1) / inequality (0) of name with some set's get_name; returns the elem terms"""
        res = []
        eq = Eq(self.M, self.allow)
        for c in conds:
            for a in ([c] if c.op != 'in' else [c.a[0]]):
                pass
            x, val = cond_atom(c)
            if x is None or val != want:
                continue
            e = x.a[0] if x.op == 'iv' else x
            if e.op != 'eqv':
                continue
            l, r = e.a[0], e.a[1]
            for p, q in ((l, r), (r, l)):
                if any(y.op == 'rec' and 'get_name' in str(y.a[0]) for y in find_terms(q, lambda z: z.op == 'rec')):
                    s = eq.eq(F, p, name)
                    if s == 'y':
                        res += find_terms(q, lambda z: z.op == 'elem')
        return res

    def import_err(self, m, r, v, n):
        F, _, got, op, cur = r
        d = {f: x for f, k, x in got}
        rid = d['result_id']
        key = mk('agg', self.keyty(m), 0, rid.a[2]) if self.keyty(m) is not None else None
        has = self.mhas(m, key) if key is not None else None
        k = 'imp:err:%s' % n
        if n == 'InstructionHadExcessData':
            st = 'y' if F.decide(cmp_lt(cur, scale(ext(m.W, 16, 16), 4))) is True else 'n'
            self.add({'C05', 'C02'}, st, k, 'OpExtInstImport: excess data is reported where all words are used', m.e)
        elif n == 'DuplicateResultId':
            st = 'u' if has is None else 'y' if F.pin(has) == 1 else 'n'
            self.add({'C09'}, st, k, 'OpExtInstImport: a duplicate id is reported although the id has not been imported before', m.e)
            self.add({'C09'}, self.err_is(F, v, n, (rid,)), k + ':payload', 'OpExtInstImport: the duplicate-id error does not carry the result id', m.e)
        elif n == 'UnknownInstSet':
            ks = self.known_seq()
            ok = False
            if ks is not None:
                for cnt, b, conds in F.foralls:
                    if F.decide(cmp_eq(cnt, seq_len(ks))) is True and self.name_cond(F, [subst(c, {}) for c in conds], d['name'], 0):
                        ok = True
                if F.decide(cmp_eq(seq_len(ks), I(0))) is True:
                    ok = True
            st = 'y' if ok else self.weak(F)
            self.add({'C09'}, st, k, 'OpExtInstImport: a set is reported unknown although not every supplied set has been found to have another name', m.e)
            self.add({'C09'}, self.err_is(F, v, n, (d['name'],)), k + ':payload', 'OpExtInstImport: the unknown-set error does not carry the name', m.e)
        else:
            self.add({'C09'} | ERRPROP.get(n, set()), 'n' if v.op == 'agg' else 'u', k, 'OpExtInstImport: well-formed import is rejected with %s' % n, m.e)

    def weak(self, F):
        """'u' if the facts contain something about set names the analysis does not interpret"""
        if self.A.I.unknown:
            return 'u'
        for t in fact_terms(F):
            for x in find_terms(t, lambda z: z.op in ('call', 'bin', 'un', 'cast', 'after')):
                return 'u'
        return 'n'

    def keyty(self, m):
        mp = self.mapval(m)
        return mp.a[1] if mp is not None and mp.op == 'mapv' else None

    def import_ok(self, m, r, b, el, key):
        F, _, got, op, cur = r
        d = {f: x for f, k, x in got}
        self.fields(m, F, el, got, op, key)
        st = F.decide(cmp_eq(cur, scale(ext(m.W, 16, 16), 4)))
        self.add({'C05', 'C02'}, 'y' if st is True else 'n', key + ':excess', 'OpExtInstImport: accepted although words are left over', m.e)
        mp = self.mapval(m)
        kt = self.keyty(m)
        if mp is None or kt is None:
            self.add({'C09'}, 'u', key + ':map', 'no table of imported sets found', m.e)
            return
        kv = mk('agg', kt, 0, d['result_id'].a[2])
        new = LP.at_path(b, m.L.nodes, m.maps[0][0])
        has = self.mhas(m, kv)
        self.add({'C09'}, 'y' if F.pin(has) == 0 else self.weak(F), key + ':dup', 'OpExtInstImport: an id that is already imported is accepted', m.e)
        if new is mp:
            self.add({'C09'}, 'n', key + ':unbound', 'OpExtInstImport: the import does not bind its set', m.e)
            return
        if new.op != 'mins':
            self.add({'C09'}, 'u', key + ':map', 'the table of imported sets is updated in a way the analysis does not follow', m.e)
            return
        eq = Eq(self.M, self.allow)
        self.add({'C09'}, comb(eq.eq(F, new.a[0], mp), eq.eq(F, new.a[1], kv)), key + ':key', 'OpExtInstImport: the set is not bound to the result id of the import', m.e)
        els = set(find_terms(new.a[2], lambda z: z.op == 'elem'))
        conds = [mk_in(k, F.vset(k)) for k in F.dom if any(q.op == 'eqv' for q in find_terms(k, lambda z: z.op == 'eqv'))] + list(F.bools)
        good = set(self.name_cond(F, conds, d['name'], 1))
        if els and els <= good:
            st = 'y'
        else:
            st = self.weak(F)
        self.add({'C09'}, st, key + ':name', 'OpExtInstImport: the bound set is not one whose name has been found equal to the imported name', m.e)

    def ext_call(self, v):
        rs = find_terms(v, lambda z: z.op == 'rec' and 'read_instruction' in str(z.a[0]))
        return rs

    def ext_args(self, m, F, rec, setid, cur, key):
        """the set is the one bound to the operand, the words are the instruction's own"""
        eq = Eq(self.M, self.allow)
        args = rec.a[1:]
        gets = find_terms(args[0], lambda z: z.op == 'mget')
        mp = self.mapval(m)
        kv = mk('agg', self.keyty(m), 0, setid.a[2]) if self.keyty(m) is not None else None
        if len(gets) != 1 or mp is None or kv is None:
            self.add({'C09'}, 'u', key + ':set', 'set lookup', m.e)
        else:
            g = gets[0]
            self.add({'C09'}, comb(eq.eq(F, g.a[0], mp), eq.eq(F, g.a[1], kv)), key + ':set', 'OpExtInst: the instruction is decoded by a set other than the one bound to its set operand', m.e)
        self.add({'C09', 'C02'}, eq.eq(F, args[1], Dec(self.A, m).w(cur)), key + ':number', 'OpExtInst: the instruction number is not taken from its operand word', m.e)
        blk = args[2]
        while blk.op in ('agg', 'vref'):
            if blk.op == 'agg':
                if len(blk.a[2]) != 1:
                    break
                blk = blk.a[2][0]
            else:
                blk = blk.a[0]
        if blk.op not in ('seq', 'view'):
            self.add({'C09'}, 'u', key + ':words', 'operand words', m.e)
            return
        D = Dec(self.A, m)
        at = add(cur, I(4))
        n4 = sub(D.end, at)
        c, dd = lin(n4)
        cnt = from_lin(c // 4, {k: x // 4 for k, x in dd.items()})
        lvl = bv(40)
        want = seq(ety(blk), [mk('gen', lvl, cnt, (D.w(add(at, scale(lvl, 4))),))])
        self.add({'C09', 'C02'}, eq.eq(F, blk, want), key + ':words', 'OpExtInst: the set does not get exactly the operand words of the instruction', m.e)

    def ext_ok(self, m, r, b, el, key):
        F, _, got, op, cur = r
        d = {f: x for f, k, x in got}
        self.fields(m, F, el, got, op, key)
        st_ = self.M.types[self.A.core]['v'][self.M.variant(self.A.core, spec.OPS[op][0])]['f'][0][1]
        names = [f[0] for f in self.M.types[st_]['v'][0]['f']]
        s = el.a[2][0] if el.op == 'agg' and el.a[2] else None
        if s is None or s.op != 'agg' or 'instruction' not in names:
            self.add({'C09'}, 'u', key + ':instruction', '', m.e)
            return
        val = s.a[2][names.index('instruction')]
        recs = self.ext_call(val)
        kv = mk('agg', self.keyty(m), 0, d['set'].a[2]) if self.keyty(m) is not None else None
        has = self.mhas(m, kv) if kv is not None else None
        self.add({'C09'}, 'u' if has is None else 'y' if F.pin(has) == 1 else self.weak(F), key + ':bound', 'OpExtInst: an instruction of a set id that is not imported is accepted', m.e)
        if len(recs) != 1:
            self.add({'C09'}, 'u', key + ':call', 'the extended instruction is not obtained from one call of the set', m.e)
            return
        rec = recs[0]
        self.ext_args(m, F, rec, d['set'], cur, key)
        # nothing may be left over
        left = self.leftover(F, {rec})
        st = self.weak(F) if left is None else 'u' if left == '?' and self.weak(F) == 'u' else 'y' if left is False else 'n'
        self.add({'C09', 'C05'}, st, key + ':excess', 'OpExtInst: accepted although the set left words over', m.e)

    def ext_err(self, m, r, v, n):
        F, _, got, op, cur = r
        d = {f: x for f, k, x in got}
        kv = mk('agg', self.keyty(m), 0, d['set'].a[2]) if self.keyty(m) is not None else None
        has = self.mhas(m, kv) if kv is not None else None
        k = 'ext:err:%s' % n
        if v.op == 'obj':
            recs = self.ext_call(v)
            if len(recs) == 1 and v.a[1].op == 'fld' and v.a[1].a[0] is recs[0]:
                self.add({'C09'}, 'y', k)
                self.ext_args(m, F, recs[0], d['set'], cur, k)
            else:
                self.add({'C09'}, 'u', k, 'error of an extended instruction', m.e)
        elif n == 'UnknownInstSetId':
            self.add({'C09'}, 'u' if has is None else 'y' if F.pin(has) == 0 else self.weak(F), k, 'OpExtInst: an imported set id is reported unknown', m.e)
            self.add({'C09'}, self.err_is(F, v, n, (d['set'],)), k + ':payload', 'OpExtInst: the unknown-set error does not carry the set id', m.e)
        elif n == 'InstructionHadExcessData':
            recs = {z for t in fact_terms(F) for z in find_terms(t, lambda z: z.op == 'rec')}
            left = self.leftover(F, recs)
            st = self.weak(F) if left is None else 'y' if left is True else 'u'
            self.add({'C09', 'C05'}, st, k, 'OpExtInst: excess data is reported where none is left', m.e)
        else:
            self.add({'C09'} | ERRPROP.get(n, set()), 'n' if v.op == 'agg' else 'u', k, 'OpExtInst: a well-formed instruction is rejected with %s' % n, m.e)

    # ------------------------------------------------ accepted instructions
    def fields(self, m, F, el, got, op, key):
        M, A = self.M, self.A
        name = spec.OPS[op][0]
        vi = M.variant(A.core, name)
        eq = Eq(M, self.allow)
        if el.op != 'agg' or el.a[0] != A.core:
            self.add({'C01', 'C02'}, 'u', key, 'instruction value', m.e)
            return
        if el.a[1] != vi:
            self.add({'C01'}, 'n', key + ':variant', 'opcode %d is decoded as %s instead of %s' % (op, self.cores[el.a[1]], name), m.e)
            return
        self.add({'C01'}, 'y', key + ':variant')
        st = M.types[A.core]['v'][vi]['f'][0][1]
        names = [f[0] for f in M.types[st]['v'][0]['f']]
        s = el.a[2][0]
        if s.op != 'agg':
            self.add({'C02'}, 'u', key + ':struct', 'operands of %s' % name, m.e)
            return
        for f, k, want in got:
            r = eq.eq(F, s.a[2][names.index(f)], want)
            if r != 'y' and not feasible(F, s):
                r = 'y'
            self.add(valprop(M, k, want), r, key + ':' + f, '%s: operand %s is not the value the standard assigns to it' % (name, f), m.e)

    def accept(self, m, b):
        """one way round the instruction loop"""
        try:
            self.accept2(m, b)
        finally:
            self.F = None

    def accept2(self, m, b):
        A, M = self.A, self.M
        self.allow = m.allow
        F0 = b.facts
        p, nd = m.acc[0]
        new = LP.at_path(b, m.L.nodes, p)
        eq = Eq(M, self.allow)
        nx = A.next_offset(m, b)
        for r in Dec(A, m).instruction(F0):
            F = self.F = r[0]
            self.cov['accepting'] += 1
            if not feasible(F, new):
                continue
            if r[1] == '?':
                op = r[3]
                self.add({'C02', 'C05'}, 'u', 'ok:%s:%s' % (self.opn(op), r[2]), r[2], m.e)
                continue
            op = r[3]
            name = self.opn(op)
            key = 'ok:%s' % name
            # where the next instruction starts
            if nx is None:
                self.add({'C05', 'C11'}, 'u', key + ':next', 'position of the next instruction', m.e)
            elif r[1] != 'err' or r[2] is not None:
                self.add({'C05', 'C11'}, eq.eq(F, nx, add(m.o, scale(ext(m.W, 16, 16), 4))), key + ':next',
                         '%s: the next instruction is not read from the declared word count after this one' % name, m.e)
            # what was appended
            push = self.pushed(F, nd.v, new)
            if r[1] == 'err':
                if r[2] is None:
                    props, want = {'C05'}, 'an error'
                else:
                    props = set().union(*[ERRPROP[a] for a, _ in r[2]])
                    want = ' or '.join(a for a, _ in r[2])
                if push == []:
                    props = props | {'C11'}
                if op is None and r[2] and r[2][0][0] == 'UnknownOp':
                    key = 'ok:unknown'
                    if isinstance(push, list):
                        for G, el in push:
                            if el is not None and el.op == 'agg':
                                key = 'ok:unknown-as-' + self.cores[el.a[1]]
                self.add(props, 'n', key + ':accepted!=' + want, '%s: accepted where %s is due' % (name, want), m.e)
                continue
            if push is None:
                self.add({'C11'}, 'u', key + ':push', '%s: how the instruction list grows' % name, m.e)
                continue
            if not push:
                self.add({'C11'}, 'n', key + ':push', '%s: an instruction read without error is not appended to the module exactly once, at the end' % name, m.e)
                continue
            self.add({'C11'}, 'y', key + ':push')
            for G, el in push:
                r2 = (G,) + tuple(r[1:])
                if r[1] == 'ok':
                    self.fields(m, G, el, r[2], op, key)
                    self.map_same(m, b, G, key)
                elif r[1] == 'imp':
                    self.import_ok(m, r2, b, el, key)
                else:
                    self.ext_ok(m, r2, b, el, key)
                    self.map_same(m, b, G, key)

    def map_same(self, m, b, F, key):
        for p, nd in m.maps:
            new = LP.at_path(b, m.L.nodes, p)
            if new is not nd.v:
                self.add({'C09'}, 'n' if new.op in ('mins', 'mnew') else 'u', key + ':map', 'an instruction other than an import changes the table of imported sets', m.e)

    def pushed(self, F, old, new):
        """[(facts, element)] appended, [] if not exactly one at the end, None if unclear"""
        eq = Eq(self.M, self.allow)
        out = []
        for G, v in eq.resolve(F, new):
            if v is old:
                return []
            if v.op != 'seq':
                return None
            ps = v.a[1]
            op = old.a[1]
            if ps[:len(op)] == op and len(ps) == len(op) + 1 and ps[-1].op == 'lit':
                for H, x in eq.resolve(G, ps[-1].a[0]):
                    out.append((H, x))
                continue
            # the old list plus other literal elements: clearly not one at the end
            if all(p in op or p.op == 'lit' for p in ps) and sum(1 for p in ps if p in op) <= len(op):
                return []
            # it ends with something that was in the list before
            if ps and ps[-1].op == 'sub' and ps[-1].a[0].op == 'view' and ps[-1].a[0].a[0] is old and G.decide(cmp_lt(I(0), seq_len(ps[-1].a[0]))) is True:
                return []
            return None
        return out

    def run(self):
        A = self.A
        res = self.rep
        ress = M_ = self.M
        seen = 0
        for s, v in A.outs:
            if v.op != 'agg':
                self.add({'C08', 'C11'}, 'u', 'result', 'result value')
                continue
            seen += 1
            self.allow = frozenset()
            eq = Eq(self.M)
            if v.a[1] == 0:
                for G, x in eq.resolve(s.facts, v.a[2][0]):
                    self.cov['partitions'] += 1
                    self.ok_out(G, x)
            else:
                for G, x in eq.resolve(s.facts, v.a[2][0]):
                    self.cov['partitions'] += 1
                    self.err_out(G, x)
        for m in A.mains:
            self.header_accept(m.L.entry.facts, 'loop', m.e)
            eo = A.entry_offset(m)
            self.add({'C08', 'C11'}, 'u' if eo is None else Eq(self.M).eq(m.L.entry.facts, eo, I(20)), 'loop:start', 'the first instruction is not read from right after the header', m.e)
            for p, nd in m.acc:
                v0 = nd.v0
                ok = v0 is not None and v0.op == 'seq' and not v0.a[1]
                self.add({'C11'}, 'y' if ok else 'n' if v0 is not None and v0.op == 'seq' and all(q.op == 'lit' for q in v0.a[1]) else 'u', 'loop:empty', 'the instruction list does not start empty', m.e)
            for p, nd in m.maps:
                v0 = nd.v0
                self.add({'C09'}, 'y' if v0 is not None and v0.op == 'mnew' else 'u', 'loop:maps', 'the table of imported sets does not start empty', m.e)
            for b in m.L.backs:
                self.accept(m, b)
        es = sorted(m.e for m in A.mains)
        self.add({'C07'}, 'y' if es == ['be', 'le'] else 'n' if es in (['be'], ['le']) and not A.I.unknown else 'u', 'orders', 'instructions are read in one byte order only')
        # both byte orders must agree
        by = {}
        for st, key, e, msg, props in self.found:
            if e is not None and st == 'n':
                by.setdefault(key, {}).setdefault(e, (msg, props))
        for key, d in by.items():
            self.rep.add({'C07'}, 'n' if len(d) == 1 else 'y', 'order:' + key, 'only for %s streams: %s' % (list(d)[0], list(d.values())[0][0]))
        self.rep.add({'C07'}, 'y', 'mirror')
        return self

def uninterpreted_but(t, v):
    from equiv import uninterpreted
    return uninterpreted(t, frozenset(x for x in atoms_in(v) if x.op == 'sym'))

def cond_atom(c):
    """(atom, value) of a condition that fixes a 0/1 atom"""
    if c.op == 'in' and isize(c.a[1]) == 1:
        return c.a[0], c.a[1][0][0]
    if c.op == 'not':
        x, v = cond_atom(c.a[0])
        if x is not None:
            return x, 1 - v
    return None, None
