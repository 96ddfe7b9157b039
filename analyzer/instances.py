"""Shapes of input followed to their end.

The general analysis covers inputs of every shape by invariants. Where it is left
undecided, the same abstract interpretation is applied to inputs whose shape (how many
instructions, of which kind) is written out while all operands stay unconstrained: loops
then need no invariant, and an outcome that differs from the one due is a violation with
the shape as its witness. Nothing is concluded from shapes that come out right."""
import resource
import time
import interp
from common import *
from equiv import Eq
from dispcheck import fld
import validcheck
from validcheck import ORDER, SECTIONS

FOLLOW = 600
LAST = [None]           # when everything has to be over
ONE = 25                # seconds for one shape

def until(limit):
    t = time.time() + limit
    return min(t, LAST[0]) if LAST[0] is not None else t

def followed(deadline, *args, **kw):
    interp.CLOCK[0] = min(deadline, time.time() + ONE)
    return run_root(*args, **kw)

class Wrong(Exception):
    def __init__(self, props, what):
        self.props, self.what = props, what

def clean(I_):
    return not I_.unknown and not I_.gaveup

class Shapes:
    n = 0
    bad = 0

    def over(self):
        return time.time() > self.deadline or resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 8 << 20

    def failed(self):
        # nothing at all can be followed: no use trying on
        self.bad += 1
        if self.n == 0 and self.bad >= 60 or self.n < 20 and self.bad > 300:
            self.deadline = 0

class ValidShapes(Shapes):
    def __init__(self, M, rep, deadline):
        self.M, self.rep, self.deadline = M, rep, deadline
        self.V = validcheck.Valid(M, rep)
        self.rt = M.fns[self.V.fid]['locals'][1]
        self.fs = M.types[self.rt]['v'][0]['f']
        if not any(f[0] == 'instructions' for f in self.fs):
            raise Missing('instructions')
        self.E = Eq(M, frozenset())
        self.memo = set()
        self.n = 0

    # ---- the input
    def payload(self, i, k, cat):
        M, V = self.M, self.V
        pty = M.types[V.core]['v'][k]['f'][0][1]
        p = opq(M, pty, mk('sym', 'w%d' % i))
        if k != V.var:
            return p
        t = M.types[pty]
        vals = []
        for j, f in enumerate(t['v'][0]['f']):
            v = fld(M, p, 0, j)
            if f[0] == 'storage_class':
                ns = [x['n'] for x in M.types[f[1]]['v']]
                v = mk('agg', f[1], ns.index('Function') if cat == 'COD' else next(a for a, b in enumerate(ns) if b != 'Function'), ())
            vals.append(v)
        return mk('agg', pty, 0, tuple(vals))

    def kinds(self, cat):
        return list(self.V.groups[cat]) + ([self.V.var] if cat in ('COD', 'GLO') and self.V.var is not None else [])

    # ---- what is due
    def parse(self, cats):
        """('ok', sections, functions) or ('err', state, position, end)"""
        V = self.V
        s, pos = 0, 0
        while pos < len(cats) and cats[pos] in V.allowed(s):
            s = V.step(s, cats[pos])
            pos += 1
        if pos == len(cats) and (s == 'top' or isinstance(s, int) and s > 3):
            return 'ok', None, None
        return 'err', s, pos

    def errors(self, cats, s, pos):
        if isinstance(s, int) and s <= 3:
            return {('MemoryModelMissing', None)}
        n = len(cats)
        res = set()
        if s == 'top' or isinstance(s, int):
            res |= {('ExpectedOpFunction', pos), ('UnexpectedInstruction', pos)}
        elif s in ('fun', 'blocks'):
            res.add(('ExpectedOpFunctionEnd', pos))
        else:
            res.add(('ExpectedBranch', pos))
        if s == 'fun' and pos == n and cats[-1] == 'FUN':
            res |= {('UnexpectedInstruction', n - 1), ('ExpectedOpFunction', n - 1)}
        return res

    def element(self, F, v, ty, i, props, what):
        k, p = self.ks[i], self.ps[i]
        pty = self.M.types[self.V.core]['v'][k]['f'][0][1]
        want = self.V.wrap(ty, pty, p)
        if want is None:
            raise Undecided('no place')
        r = self.E.eq(F, v, want)
        if r == 'u':
            raise Undecided(what)
        if r != 'y':
            raise Wrong(props, '%s does not hold the %s of the input unchanged' % (what, self.V.names[k]))

    def listof(self, F, v, vty, idx, props, what):
        if v.op != 'seq' or any(p.op != 'lit' for p in v.a[1]):
            raise Undecided(what)
        if len(v.a[1]) != len(idx):
            raise Wrong(props, '%s: %d elements instead of %d' % (what, len(v.a[1]), len(idx)))
        for p, i in zip(v.a[1], idx):
            self.element(F, p.a[0], self.M.types[vty]['g'][0], i, props, what)

    def structs(self, v, n, props, what):
        if v.op != 'seq' or any(p.op != 'lit' or p.a[0].op != 'agg' for p in v.a[1]):
            raise Undecided(what)
        if len(v.a[1]) != n:
            raise Wrong(props, '%s: %d instead of %d' % (what, len(v.a[1]), n))
        return [p.a[0] for p in v.a[1]]

    def accepted(self, F, v, cats):
        V, F3 = self.V, ['C15', 'C17']
        if v.op != 'agg':
            raise Undecided('module')
        for name, cat in SECTIONS:
            x, ty = V.field(v, name)
            idx = [i for i, c in enumerate(cats) if c == cat and i < self.bodies]
            if cat == 'MEM':
                self.element(F, x, ty, idx[0], ['C15'], 'the memory_model')
            else:
                self.listof(F, x, ty, idx, ['C15'], 'the ' + name)
        fns = []
        for i in range(self.bodies, len(cats)):
            if cats[i] == 'FUN':
                fns.append([])
            fns[-1].append(i)
        n = 0
        while n < len(fns) and 'LAB' not in [cats[i] for i in fns[n]]:
            n += 1
        decls, _ = V.field(v, 'function_declarations')
        defs, _ = V.field(v, 'function_definitions')
        for kind, xs, got in (('declaration', fns[:n], decls), ('definition', fns[n:], defs)):
            got = self.structs(got, len(xs), F3, 'the function_%ss' % kind)
            for g, idx in zip(got, xs):
                what = 'a function ' + kind
                x, ty = V.field(g, 'function')
                self.element(F, x, ty, idx[0], F3, what)
                x, ty = V.field(g, 'parameters')
                self.listof(F, x, ty, [i for i in idx if cats[i] == 'PAR'], F3, what + "'s parameters")
                if kind == 'declaration':
                    continue
                bs = []
                for i in idx:
                    if cats[i] == 'LAB':
                        bs.append([])
                    if bs and cats[i] != 'END':
                        bs[-1].append(i)
                x, _ = V.field(g, 'blocks')
                for b, js in zip(self.structs(x, len(bs), F3, "a function's blocks"), bs):
                    x, ty = V.field(b, 'label')
                    self.element(F, x, ty, js[0], F3, 'a block label')
                    x, ty = V.field(b, 'code')
                    self.listof(F, x, ty, [i for i in js if cats[i] == 'COD'], F3, "a block's code")
                    x, ty = V.field(b, 'merge')
                    m = [i for i in js if cats[i] == 'MRG']
                    if x.op != 'agg':
                        raise Undecided('merge')
                    if x.a[1] != len(m):
                        raise Wrong(F3, "a block's merge instruction is %s" % ('lost' if m else 'made up'))
                    if m:
                        self.element(F, x.a[2][0], self.M.types[ty]['g'][0], m[0], F3, "a block's merge")
                    x, ty = V.field(b, 'branch')
                    self.element(F, x, ty, js[-1], F3, "a block's branch")

    def shape(self, items):
        """items: (category, variant)"""
        items = tuple(items)
        if items in self.memo or self.over():
            return
        self.memo.add(items)
        M, V = self.M, self.V
        cats = [c for c, _ in items]
        self.ks = [k for _, k in items]
        self.ps = [self.payload(i, k, c) for i, (c, k) in enumerate(items)]
        self.bodies = next((i for i, c in enumerate(cats) if c == 'FUN'), len(cats))
        IN = seq(V.core, [mk('lit', mk('agg', V.core, k, (p,))) for k, p in zip(self.ks, self.ps)])
        a0 = mk('agg', self.rt, 0, tuple(IN if f[0] == 'instructions' else opq(M, f[1], mk('sym', 'a_' + f[0])) for f in self.fs))
        try:
            I_, outs, args, _ = followed(self.deadline, M, V.fid, args=[a0], follow=max(FOLLOW, len(items)))
        except Exception:
            return self.failed()
        if not clean(I_):
            return self.failed()
        self.n += 1
        due = self.parse(cats)
        names = ' '.join(V.names[k] for k in self.ks[:24]) + (' … (%d)' % len(items) if len(items) > 24 else '')
        for p in I_.panics:
            if panic_status(p) == 'n':
                self.rep.add(['C19'], 'n', 'panic:shape:%s' % panic_key(M, p), 'a panic (%s) is reachable in %s for the instructions %s' % (p.kind, short(p.where), names))
        for st, v in outs:
            for F, x in self.E.resolve(st.facts, v):
                if x.op != 'agg' or unclear(F):
                    continue
                try:
                    self.outcome(F, x, cats, due)
                except Undecided:
                    continue
                except validcheck.Stop:
                    continue
                except Wrong as e:
                    self.rep.add(e.props, 'n', 'shape:' + e.what.split(' (')[0][:80].replace(' ', '-'), '%s: for the instructions %s' % (e.what, names))

    def outcome(self, F, x, cats, due):
        if x.a[1] == 0:
            if due[0] != 'ok':
                infn = not isinstance(due[1], int) and due[1] != 'top'
                raise Wrong(['C17'] if infn else ['C16'], 'a list is accepted that stops being a module at instruction %d' % due[2])
            self.accepted(F, x.a[2][0], cats)
            return
        e = x.a[2][0]
        if e.op != 'agg':
            raise Undecided('error')
        kind = self.M.types[e.a[0]]['v'][e.a[1]]['n']
        if due[0] == 'ok':
            raise Wrong(['C16', 'C17'], 'error %s for a complete module' % kind)
        want = self.errors(cats, due[1], due[2])
        if kind not in [k for k, _ in want]:
            raise Wrong(['C16', 'C17'], 'error %s where %s is due' % (kind, ' or '.join(sorted(k for k, _ in want))))
        q = e.a[2][0] if e.a[2] else None
        if q is not None and kind != 'MemoryModelMissing':
            if q.op != 'int':
                raise Undecided('position')
            if (kind, q.a[0]) not in want:
                raise Wrong(['C16', 'C17'], 'error %s names position %d instead of %d' % (kind, q.a[0], due[2]))

    # ---- the shapes
    def all(self, tier):
        g = lambda s: [(c, self.kinds(c)[0]) for c in s.split()]
        every = lambda c, rev=False: [(c, k) for k in (reversed(self.kinds(c)) if rev else self.kinds(c))]
        for rev in (False, True):
            l = []
            for c in ORDER:
                l += every(c, rev) * (1 if c == 'MEM' else 2)
            for k in self.kinds('FUN'):
                l += [('FUN', k)] + every('PAR') * 2 + g('END')
            l += g('FUN PAR LAB') + every('COD', rev) + g('BRA') 
            for m in every('MRG', rev):
                for b in every('BRA', rev):
                    l += g('LAB COD') + [m, b]
            for b in every('BRA'):
                l += g('LAB') + [b]
            l += g('END FUN PAR END FUN LAB BRA END')
            self.shape(l)
        base = g('CAP CAP EXT IMP MEM ENT EXE DBG ANN GLO GLO FUN PAR END FUN PAR PAR LAB COD COD MRG BRA LAB BRA END FUN LAB MRG BRA END')
        small = g('MEM FUN LAB BRA END')
        for l in (g('MEM'), small, g('CAP MEM FUN END'), g('MEM FUN END FUN LAB BRA END FUN END'), g('MEM FUN LAB MRG BRA END FUN PAR PAR PAR END'), base):
            self.shape(l)
        cats = list(self.V.FOLLOW['fun']) + ['COD', 'MRG', 'BRA', 'FUN'] + ORDER
        for l in (small, base):
            for i in range(len(l) + 1):
                self.shape(l[:i])
                if i < len(l):
                    self.shape(l[:i] + l[i + 1:])
                    self.shape(l[:i + 1] + l[i:])
                for c in cats:
                    self.shape(l[:i] + g(c) + l[i:])
        for cat in ORDER + ['COD', 'MRG', 'BRA', 'PAR', 'FUN', 'LAB']:
            for k in self.kinds(cat):
                l = [(cat, k) if d[0] == cat else d for d in base]
                self.shape(l)
                for i in (5, 12, 18, 21, 22):
                    self.shape(base[:i] + [(cat, k)] + base[i:])
        for n in (5, 17, 33, 70, 130, 300) if tier == 'thorough' else (5, 17, 33, 70):
            for c in ORDER + ['PAR', 'COD', 'LAB', 'FUN']:
                if c == 'MEM':
                    continue
                l = []
                for d in base:
                    l += [d] if d[0] != c else {'LAB': g('LAB BRA') * n + [d], 'FUN': g('FUN END') * n + [d]}.get(c, [d] * n)
                self.shape(l)
                if c == 'FUN':
                    self.shape(base + g('FUN LAB BRA END') * n)
        for n in (130, 300, 1100)[:3 if tier == 'thorough' else 2]:
            for c in ('CAP', 'COD', 'GLO', 'PAR'):
                self.shape([e for d in base for e in ([d] * (n if d[0] == c else 1))])

def valid(M, rep, prop, tier, limit=180):
    props = {'C15', 'C16', 'C17'} if prop != 'C19' else {'C19'}
    if tier != 'thorough' and (not any(rep.und.get(p) for p in props) or any(rep.bad.get(p) for p in props)):
        return
    S = ValidShapes(M, rep, until(limit))
    S.all(tier)
    for p in props:
        rep.note(p, 'shapes_followed', S.n)

# ------------------------------------------------------------------ reading
import readcheck
import spec

class Words:
    """stands for the analysis of read_module that the specification refers to"""
    pass

class ShapeDec(readcheck.Dec):
    """the specification at a known offset, with strings and lists written out"""
    def __init__(self, A, o, e, F):
        m = Words()
        m.o, m.e = I(o), e
        m.W = mk('word', A.S, I(o), e)
        readcheck.Dec.__init__(self, A, m)
        p = F.pin(self.wc)
        self.n = p
        if p is not None:
            self.end = I(4 * p)

    def rest(self, kind, ty, F, cur):
        M = self.M
        if not is_int(cur) or not is_int(self.end):
            yield F, '?', 'length'
            return
        et = M.types[ty]['g'][0]
        ws = [self.w(I(x)) for x in range(cur.a[0], self.end.a[0], 4)]
        if kind in ('id', 'lit'):
            yield F, 'ok', self.end, seq(et, [mk('lit', w if kind == 'lit' else mk('agg', et, 0, (w,))) for w in ws])
        elif len(ws) % 2:
            yield F, 'err', readcheck.END
        else:
            fs = M.types[et]['v'][0]['f']
            yield F, 'ok', self.end, seq(et, [mk('lit', mk('agg', et, 0, (mk('agg', fs[0][1], 0, (a,)), mk('agg', fs[1][1], 0, (b,))))) for a, b in zip(ws[::2], ws[1::2])])

    def string(self, F, cur):
        bs = []
        at = cur
        while True:
            n = F.decide(cmp_le(add(at, I(4)), self.end))
            if n is None:
                yield F, '?', 'length'
                return
            if not n:
                yield F, 'err', readcheck.END + [('InvalidString', None)]
                return
            w = self.w(at)
            for i in range(4):
                b = ext(w, 8 * i, 8)
                z = F.decide(cmp_eq(b, I(0)))
                if z is None:
                    yield F, '?', 'string'
                    return
                if z:
                    s = seq(self.A.S.a[1], [mk('lit', x) for x in bs])
                    if not bs:
                        yield F, 'ok', add(at, I(4)), str_of()
                        return
                    c = mk_in(mk('iv', mk('utf8ok', s), 0, 1), ((1, 1),))
                    for H, ok in readcheck.split(F, c):
                        if ok:
                            yield H, 'ok', add(at, I(4)), str_of(mk('utf8', s))
                        else:
                            yield H, 'err', [('InvalidString', None)]
                    return
                bs.append(b)
            at = add(at, I(4))

class ReadShapes(Shapes):
    def __init__(self, M, rep, deadline):
        self.M, self.rep, self.deadline = M, rep, deadline
        self.fid = readcheck.find_read(M)
        f = M.fns[self.fid]
        self.args = [opq(M, f['locals'][1 + i], mk('sym', 'a%d' % i)) for i in range(f['argc'])]
        v = self.args[0]
        while v.op == 'vref':
            v = v.a[0]
        self.S, self.len = v.a[1][0], seq_len(v)
        self.core, self.err, self.rawmod = M.adt_named('raw::Core'), M.adt_named('raw::ReadError'), M.adt_named('raw::RawModule')
        if min(self.core, self.err, self.rawmod) < 0:
            raise Missing('types')
        self.outs = [(State({}, Facts()), None)]
        self.E = Eq(M, frozenset())
        self.n = 0
        self.errs = [v['n'] for v in M.types[self.err]['v']]
        self.cores = [v['n'] for v in M.types[self.core]['v']]
        self.fields = {f[0]: i for i, f in enumerate(M.types[self.rawmod]['v'][0]['f'])}

    def shape(self, insts, e, cut=0, panics=None):
        """insts: (opcode, words, {byte offset in the instruction: ((lo, hi),)}); cut: bytes missing at the end"""
        if self.over():
            return
        M = self.M
        self.insts = insts
        F = Facts()
        w = lambda o: mk('word', self.S, I(o), e)
        size = 20 + 4 * sum(x[1] for x in insts) - cut
        F.restrict(self.len, ((size, size),))
        for o, p in ((0, spec.MAGIC), (4, 0x10000), (16, 0)):
            F.restrict(w(o), ((p, p),))
        if e == 'be':
            p = int.from_bytes(spec.MAGIC.to_bytes(4, 'little'), 'big')
            F.restrict(mk('word', self.S, I(0), 'le'), ((p, p),))
        o = 20
        for op, n, bytes_ in insts:
            if o + 4 <= size:
                F.restrict(w(o), (((n << 16) | op,) * 2,))
                F.restrict(ext(w(o), 0, 16), ((op, op),))
                F.restrict(ext(w(o), 16, 16), ((n, n),))
            for b, r in bytes_.items():
                if o + b // 4 * 4 + 4 <= size:
                    F.restrict(ext(w(o + b // 4 * 4), 8 * (b % 4), 8), r)
            o += 4 * n
        if F.dead:
            return
        try:
            I_, outs, _, _ = followed(self.deadline, M, self.fid, args=self.args, st=State({}, F), follow=max(FOLLOW, size // 4 + 8))
        except Exception:
            return self.failed()
        if not clean(I_):
            return self.failed()
        self.n += 1
        names = '%s-endian: %s' % ('little' if e == 'le' else 'big', ' '.join('%s/%d' % (self.opname(x[0]), x[1]) for x in insts[:8]) + (' … (%d)' % len(insts) if len(insts) > 8 else ''))
        for p in I_.panics:
            if panic_status(p) == 'n':
                self.rep.add(['C06'], 'n', 'panic:shape:%s' % panic_key(M, p), 'a panic (%s) is reachable in %s for %s' % (p.kind, short(p.where), names))
        for st, v in outs:
            for G, x in self.E.resolve(st.facts, v):
                if x.op != 'agg' or self.never(G) or unclear(G):
                    continue
                try:
                    self.match(G, x, 20, 0, size, e)
                except Undecided:
                    continue
                except Wrong as r:
                    self.rep.add(sorted(r.props), 'n', 'shape:' + r.what.split(' (')[0][:80].replace(' ', '-'), '%s: for %s' % (r.what, names))

    def opname(self, n):
        return spec.OPS[n][0] if n in spec.OPS else str(n)

    def never(self, F):
        """the empty string is not invalid"""
        return any(t.op == 'iv' and t.a[0].op == 'utf8ok' and t.a[0].a[0].op == 'seq' and not t.a[0].a[0].a[1] and F.pin(t) == 0 for t in F.dom)

    def match(self, F, x, o, i, size, e):
        M = self.M
        ok = x.a[1] == 0
        ins = None
        if ok:
            ins = x.a[2][0]
            if ins.op != 'agg' or 'instructions' not in self.fields:
                raise Undecided('module')
            ins = ins.a[2][self.fields['instructions']]
            if ins.op != 'seq' or any(p.op != 'lit' for p in ins.a[1]):
                raise Undecided('instructions')
        elif x.a[2][0].op != 'agg':
            raise Undecided('error')
        while True:
            if o == size:
                if not ok:
                    name = self.errs[x.a[2][0].a[1]]
                    if name == 'InvalidString':
                        # about other bytes than the string's, for certain?
                        ts = [(t.a[0].a[0], F.pin(t)) for t in F.dom if t.op == 'iv' and t.a[0].op == 'utf8ok']
                        if any(self.E.eq_seq(F, a, b) != 'n' for a, p in ts if p == 0 for b, q in ts if q == 1):
                            raise Undecided('string')
                    kinds = {frozenset(readcheck.kindprop(k)) for n, _, _ in self.insts for _, k in spec.OPS[n][1]} - {frozenset({'C02'})}
                    props = {'C11', 'C05'} | readcheck.ERRPROP.get(name, set())
                    if len(kinds) == 1:
                        props |= set(list(kinds)[0])
                    raise Wrong(props, 'error %s for a well-formed stream' % name)
                if len(ins.a[1]) != i:
                    raise Wrong({'C11'}, '%d instructions are returned instead of %d' % (len(ins.a[1]), i))
                return
            D = ShapeDec(self, o, e, F)
            rs = list(D.instruction(F))
            if len(rs) > 1:
                for r in rs:
                    self.step(r, x, ok, ins, i, o, size, e, D)
                return
            if not rs:
                raise Undecided('nothing due')
            nx = self.one(rs[0], x, ok, ins, i, D)
            if nx is None:
                return
            F, o, i = rs[0][0], o + nx, i + 1

    def step(self, r, x, ok, ins, i, o, size, e, D):
        nx = self.one(r, x, ok, ins, i, D)
        if nx is not None:
            self.match(r[0], x, o + nx, i + 1, size, e)

    def one(self, r, x, ok, ins, i, D):
        """one instruction compared; the bytes it takes, or None when the stream is refused here"""
        M, F = self.M, r[0]
        if r[1] == 'err':
            if ok:
                alts = r[2]
                props = set()
                for a, _ in alts or [('WrongWordCountForOp', None)]:
                    props |= readcheck.ERRPROP.get(a, {'C02'})
                raise Wrong(props, 'a stream is accepted where %s is due' % ' or '.join(a for a, _ in alts or [('an error', None)]))
            if r[2] is None:
                return None
            v = x.a[2][0]
            name = self.errs[v.a[1]]
            res = 'n'
            for a, pay in r[2]:
                if a != name:
                    continue
                rs = ['y']
                if pay is not None and len(pay) == len(v.a[2]):
                    for g, y in zip(v.a[2], pay):
                        if g.op == 'agg' and y.op != 'agg' and len(g.a[2]) == 1:
                            g = g.a[2][0]
                        if y.op == 'txt':
                            y = str_of(y)
                        rs.append(self.E.eq(F, g, y))
                c = 'n' if 'n' in rs else 'u' if 'u' in rs else 'y'
                res = c if res == 'n' or c == 'y' else res
            if res == 'n':
                props = set(readcheck.ERRPROP.get(name, {'C02'}))
                for a, _ in r[2]:
                    props |= readcheck.ERRPROP.get(a, {'C02'})
                raise Wrong(props, 'error %s where %s is due' % (name, ' or '.join(a for a, _ in r[2])))
            return None
        if r[1] != 'ok':
            raise Undecided(str(r[1]))
        got, n = r[2], r[3]
        name = spec.OPS[n][0]
        if not ok:
            # refused; rightly so only because of a later instruction
            return 4 * D.n
        if i >= len(ins.a[1]):
            raise Wrong({'C11'}, 'instruction %s is left out' % name)
        v = ins.a[1][i].a[0]
        if v.op == 'obj' or v.op != 'agg':
            raise Undecided('instruction')
        if self.cores[v.a[1]] != name:
            raise Wrong({'C01', 'C11'}, '%s is read as %s' % (name, self.cores[v.a[1]]))
        s = v.a[2][0]
        st = M.types[M.types[self.core]['v'][v.a[1]]['f'][0][1]]
        names = [f[0] for f in st['v'][0]['f']]
        for f, k, want in got:
            if f not in names or s.op != 'agg':
                raise Undecided(f)
            c = self.E.eq(F, s.a[2][names.index(f)], want)
            if c == 'n':
                raise Wrong(readcheck.valprop(M, k, want), '%s.%s is not what the words say' % (name, f))
            if c == 'u':
                raise Undecided(f)
        return 4 * D.n

    # ---- the shapes
    def least(self, n):
        k = 1
        for f, kind in spec.OPS[n][1]:
            if kind[0] in '?*':
                continue
            k += 2 if kind in ('weights', 'phi') else 1
        return k

    def text(self, n, size, at=None):
        """(opcode, words, bytes) with strings of the given size"""
        fs = spec.OPS[n][1]
        o = 4
        by = {}
        for f, kind in fs:
            k = kind.lstrip('?')
            if k == 'str':
                for j in range(size):
                    by[o + j] = ((1, 255),)
                for j in range(size, size // 4 * 4 + 4):
                    by[o + j] = ((0, 0),)
                o += size // 4 * 4 + 4
                if kind[0] == '?':
                    break
            elif kind[0] in '*':
                break
            else:
                o += 4 * (2 if k in ('weights', 'phi') else 1)
        return n, o // 4, by

    def all(self, tier):
        ops = [n for n in sorted(spec.OPS) if n not in (11, 12)]
        strs = [n for n in ops if any(k.lstrip('?') == 'str' for _, k in spec.OPS[n][1])]
        plain = [n for n in ops if n not in strs]
        nop = (0, 1, {})
        for e in ('le', 'be'):
            for n in strs:
                for size in (0, 1, 3, 4, 5, 7, 8):
                    self.shape([self.text(n, size)], e)
                    self.shape([self.text(n, size), nop], e)
                x = self.text(n, 6)
                self.shape([(n, x[1] - 1, x[2])], e)
                self.shape([(n, x[1] + 1, x[2])], e)
            for n in plain:
                k = self.least(n)
                for d in range(-2, 4):
                    if k + d >= 1:
                        self.shape([(n, k + d, {})], e)
        for e in ('le', 'be'):
            for size in list(range(9, 70)) + [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 4100]:
                for n in strs[:3] if size < 70 else strs[:1]:
                    self.shape([self.text(n, size)], e)
            for n in plain:
                if any(k[0] == '*' for _, k in spec.OPS[n][1]):
                    for d in (4, 5, 8, 15, 16, 17, 32, 64, 65, 100, 128, 256, 300):
                        self.shape([(n, self.least(n) + d, {})], e)
            for k in (2, 3, 5, 17, 64, 65, 130, 300, 1030):
                self.shape([nop] * k, e)
            for n in plain[:60]:
                if len([1 for _, k in spec.OPS[n][1] if k[:2] in ('E:', 'M:')]) == 0:
                    self.shape([(n, self.least(n), {}), (n, self.least(n), {}), nop], e)
            for cut in (1, 2, 3, 4, 5):
                for n in plain[:20]:
                    self.shape([nop, (n, max(2, self.least(n)), {})], e, cut)

def read(M, rep, prop, tier, limit=240):
    props = set(READ) if prop != 'C06' else {'C06'}
    if tier != 'thorough' and not any(rep.und.get(p) and not rep.bad.get(p) for p in props):
        return
    S = ReadShapes(M, rep, until(limit))
    S.all(tier)
    for p in props:
        rep.notes[p] = dict(rep.notes.get(p, {}), shapes_followed=S.n)

READ = ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C10', 'C11')

# ------------------------------------------------------------------ control flow
class CfgShapes(Shapes):
    """functions whose labels, branches and merge instructions are written out; their code,
    conditions, hints and weights are not"""
    def __init__(self, M, rep, deadline):
        self.M, self.rep, self.deadline = M, rep, deadline
        self.fid = None
        for i, f in sorted(M.fns.items()):
            if f.get('local') and f.get('bb') and f['n'].endswith('::find_control_flow') and f['argc'] == 1:
                self.fid = i
        self.chain = M.adt_named('ControlFlowChain')
        if self.fid is None or self.chain < 0:
            raise Missing('find_control_flow')
        self.aty = M.fns[self.fid]['locals'][1]
        t = self.aty
        while M.types[t]['k'] == 'ref':
            t = M.types[t]['e']
        self.fty = t
        bl = [f[1] for f in M.types[t]['v'][0]['f'] if f[0] == 'blocks']
        if not bl:
            raise Missing('blocks')
        self.bty = M.types[bl[0]]['g'][0]
        self.E = Eq(M, frozenset())
        self.n = 0
        self.memo = set()
        self.vn = [v['n'] for v in M.types[self.chain]['v']]

    def build(self, ty, name, **kw):
        M = self.M
        p = opq(M, ty, mk('sym', name))
        vals = []
        for j, f in enumerate(M.types[ty]['v'][0]['f']):
            v = kw.pop(f[0], None)
            if isinstance(v, int):
                v = mk('agg', f[1], 0, (I(v),))
            elif callable(v):
                v = v(f[1])
            vals.append(v if v is not None else fld(M, p, 0, j))
        if kw:
            raise Missing('field ' + ' '.join(kw))
        return mk('agg', ty, 0, tuple(vals))

    def variant(self, ty, name, payload):
        i = self.M.variant(ty, name)
        if i is None:
            raise Missing(name)
        return mk('agg', ty, i, (payload(self.M.types[ty]['v'][i]['f'][0][1]),))

    def block(self, i, b):
        M = self.M
        lab, br, mg = b
        def weights(ty):
            if i % 2:
                return mk('agg', ty, M.variant(ty, 'None'), ())
            s = M.variant(ty, 'Some')
            return mk('agg', ty, s, (opq(M, M.types[ty]['v'][s]['f'][0][1], mk('sym', 'wt%d' % i)),))
        def branch(ty):
            if br[0] == 'b':
                return self.variant(ty, 'OpBranch', lambda t: self.build(t, 'b%d' % i, target_label=br[1]))
            if br[0] == 'c':
                return self.variant(ty, 'OpBranchConditional', lambda t: self.build(t, 'b%d' % i, true_label=br[1], false_label=br[2], weights=weights))
            return self.variant(ty, 'OpReturn', lambda t: opq(M, t, mk('sym', 'b%d' % i)))
        def merge(ty):
            if mg is None:
                return mk('agg', ty, M.variant(ty, 'None'), ())
            def pay(t):
                if mg[0] == 's':
                    return self.variant(t, 'OpSelectionMerge', lambda u: self.build(u, 'm%d' % i, merge_block=mg[1]))
                return self.variant(t, 'OpLoopMerge', lambda u: self.build(u, 'm%d' % i, merge_block=mg[1], continue_target=mg[2]))
            s = M.variant(ty, 'Some')
            return mk('agg', ty, s, (pay(M.types[ty]['v'][s]['f'][0][1]),))
        return self.build(self.bty, 'k%d' % i, label=lambda t: self.build(t, 'l%d' % i, result_id=lab), branch=branch, merge=merge)

    # ---- what is due
    class No(Exception):
        pass

    def due(self, blocks):
        """nodes: ('atom', id) ('sel', id, left, right, hint, weights) ('loop', id, inner, hint) ('break',) ('continue',)"""
        tab_ = {}
        if not blocks:
            raise self.No
        for i, b in enumerate(blocks):
            if b[0] in tab_:
                raise self.No
            tab_[b[0]] = (i, b)
        def go(id_, ctx, depth):
            if any(c[1] == id_ for c in ctx):
                return [], id_
            if id_ not in tab_ or depth >= len(blocks):
                raise self.No
            i, (_, br, mg) = tab_[id_]
            if br[0] == 'b':
                if mg is None:
                    c, n = go(br[1], ctx, depth + 1)
                    return [('atom', id_)] + c, n
                if mg[0] == 's':
                    raise self.No
                c, n = go(br[1], ctx + [('l', id_, mg[1])], depth + 1)
                if n != id_:
                    raise self.No
                d, n = go(mg[1], ctx, depth + 1)
                return [('loop', id_, c, i)] + d, n
            if br[0] == 'c':
                if mg is not None and mg[0] == 's':
                    inner = ctx + [('s', mg[1], None)]
                    t, tn = go(br[1], inner, depth + 1)
                    f, fn = go(br[2], inner, depth + 1)
                    if tn != mg[1] or fn != mg[1]:
                        raise self.No
                    d, n = go(mg[1], ctx, depth + 1)
                    return [('sel', id_, t, f, i, i)] + d, n
                ls = [c for c in ctx if c[0] == 'l']
                if mg is not None or not ls:
                    raise self.No
                _, head, after = ls[-1]
                if br[2] not in (head, after):
                    raise self.No
                c, n = go(br[1], ctx, depth + 1)
                if n != head:
                    raise self.No
                return [('sel', id_, c, [('break',) if br[2] == after else ('continue',)], None, i)], n
            if mg is not None:
                raise self.No
            return [('atom', id_)], None
        c, n = go(blocks[0][0], [], 0)
        if n is not None:
            raise self.No
        return c

    # ---- what comes out
    def flat(self, v):
        while v.op in ('box', 'vref'):
            v = v.a[0]
        if v.op != 'agg' or v.a[0] != self.chain:
            raise Undecided('chain')
        if self.vn[v.a[1]] == 'Block':
            s = v.a[2][0]
            if s.op != 'seq' or any(p.op != 'lit' for p in s.a[1]):
                raise Undecided('chain')
            return [y for p in s.a[1] for y in self.flat(p.a[0])]
        return [v]

    def same(self, F, vs, due):
        """a complaint, or None"""
        def idv(v):
            while v.op == 'agg':
                v = v.a[2][0]
            p = F.pin(v)
            if p is None:
                raise Undecided('id')
            return p
        if len(vs) != len(due):
            return '%d constructs in a row instead of %d' % (len(vs), len(due))
        for v, d in zip(vs, due):
            k = self.vn[v.a[1]]
            want = {'atom': 'Atom', 'sel': 'Selection', 'loop': 'Loop', 'break': 'Break', 'continue': 'Continue'}[d[0]]
            if k != want:
                return '%s instead of %s' % (k, want)
            a = v.a[2]
            if k in ('Break', 'Continue'):
                continue
            if idv(a[0]) != d[1]:
                return '%s of block %d instead of block %d' % (k, idv(a[0]), d[1])
            if k == 'Atom':
                continue
            if k == 'Selection':
                for x, y in ((a[1], d[2]), (a[2], d[3])):
                    r = self.same(F, self.flat(x), y)
                    if r:
                        return r
                hint, wt, i, j = a[3], a[4], d[4], d[5]
            else:
                r = self.same(F, self.flat(a[1]), d[2])
                if r:
                    return r
                hint, wt, i, j = a[2], a[3], d[3], None
            if i is not None:
                m = self.vals[i][1]
                m = m.a[2][0].a[2][0]       # the merge instruction
                t = self.M.types[m.a[0]]
                w = [m.a[2][q] for q, f in enumerate(t['v'][0]['f']) if f[0] in ('selection_control', 'loop_control')]
                r = self.E.eq(F, hint, w[0])
                if r == 'u':
                    raise Undecided('hint')
                if r == 'n':
                    return '%s: the hint is not that of its merge instruction' % k
            if j is not None:
                b = self.vals[j][0].a[2][0]
                t = self.M.types[b.a[0]]
                w = [b.a[2][q] for q, f in enumerate(t['v'][0]['f']) if f[0] == 'weights']
                r = self.E.eq(F, wt, w[0])
                if r == 'u':
                    raise Undecided('weights')
                if r == 'n':
                    return '%s: the weights are not those of its branch' % k
            elif wt.op == 'agg' and wt.a[1] != self.M.variant(wt.a[0], 'None'):
                return 'a loop has weights'
        return None

    def show(self, blocks):
        def one(b):
            l, br, mg = b
            s = {'b': 'branch %s', 'c': 'conditional %s %s', 'r': 'return'}[br[0]]
            s = s % tuple(br[1:]) if br[1:] else s
            return '%d:%s%s' % (l, {'s': 'selection-merge %s ', 'l': 'loop-merge %s %s '}[mg[0]] % tuple(mg[1:]) if mg else '', s)
        return '; '.join(one(b) for b in blocks[:12]) + (' …' if len(blocks) > 12 else '')

    def shape(self, blocks):
        blocks = tuple(blocks)
        if self.over() or blocks in self.memo:
            return
        self.memo.add(blocks)
        M = self.M
        bs = [self.block(i, b) for i, b in enumerate(blocks)]
        names = [f[0] for f in M.types[self.bty]['v'][0]['f']]
        self.vals = [(b.a[2][names.index('branch')], b.a[2][names.index('merge')]) for b in bs]
        a0 = self.build(self.fty, 'a0', blocks=lambda t: seq(self.bty, [mk('lit', b) for b in bs]))
        if self.aty != self.fty:
            a0 = mk('vref', a0)
        try:
            I_, outs, _, _ = followed(self.deadline, M, self.fid, args=[a0], follow=max(64, 4 * len(blocks)))
        except Exception:
            return self.failed()
        if not clean(I_) or any(r for r in I_.rcalls):
            return self.failed()
        self.n += 1
        for fn, F in I_.endless:
            if not unclear(F):
                self.rep.add(['C24'], 'n', 'shape:endless', '%s goes on for ever on the blocks %s' % (short(fn), self.show(blocks)))
        try:
            due = self.due(blocks)
        except self.No:
            due = None
        txt_ = self.show(blocks)
        for p in I_.panics:
            if panic_status(p) == 'n':
                self.rep.add(['C19'], 'n', 'panic:shape:%s' % panic_key(M, p), 'a panic (%s) is reachable in %s for the blocks %s' % (p.kind, short(p.where), txt_))
        for st, v in outs:
            for F, x in self.E.resolve(st.facts, v):
                if x.op != 'agg' or unclear(F):
                    continue
                if x.a[1] != 0:
                    if due is not None:
                        self.rep.add(['C18'], 'n', 'shape:refused', 'a well-structured function is refused: %s' % txt_)
                    continue
                if due is None:
                    self.rep.add(['C18', 'C19'], 'n', 'shape:accepted', 'a structure is made up for a malformed function: %s' % txt_)
                    continue
                try:
                    r = self.same(F, self.flat(x.a[2][0]), due)
                except (Undecided, IndexError, AttributeError):
                    continue
                if r:
                    self.rep.add(['C18'], 'n', 'shape:structure', 'the structure is not that of the branches (%s): %s' % (r, txt_))

    # ---- the shapes: programs, written out as blocks
    def emit(self, prog):
        """prog: nested lists of 'x' | ('if', A, B) | ('loop', A) with A, B programs; inside a loop, the
        last element may be ('break', A) / ('continue', A)"""
        out = []
        cnt = [0]
        def fresh():
            cnt[0] += 1
            return 7 + 11 * cnt[0]
        def seq_(p, lab, end):
            """emit p from label lab; afterwards go to label end (None: return)"""
            i = 0
            while True:
                if i == len(p):
                    out.append((lab, ('b', end) if end is not None else ('r',), None))
                    return
                x = p[i]
                i += 1
                if x == 'x':
                    if i == len(p):
                        out.append((lab, ('b', end) if end is not None else ('r',), None))
                        return
                    n = fresh()
                    out.append((lab, ('b', n), None))
                    lab = n
                elif x[0] == 'if':
                    m = fresh()
                    t = fresh() if x[1] else m
                    f = fresh() if x[2] else m
                    out.append((lab, ('c', t, f), ('s', m)))
                    if x[1]:
                        seq_(x[1], t, m)
                    if x[2]:
                        seq_(x[2], f, m)
                    lab = m
                elif x[0] == 'loop':
                    m, b = fresh(), fresh()
                    out.append((lab, ('b', b), ('l', m, b)))
                    self.loops.append((lab, m))
                    seq_(x[1], b, lab)
                    self.loops.pop()
                    lab = m
                else:
                    head, m = self.loops[-1]
                    t = fresh() if x[1] else head
                    out.append((lab, ('c', t, m if x[0] == 'break' else head), None))
                    if x[1]:
                        seq_(x[1], t, head)
                    return
        self.loops = []
        seq_(prog, fresh(), None)
        return out

    def all(self, tier):
        X = ['x']
        progs = [X, X * 2, X * 5, [('if', X, X)], [('if', X, [])], [('if', [], X)], [('if', [], [])], [('loop', X)], [('loop', [('break', X)])],
                 [('loop', [('continue', X)])], [('loop', [('break', [])])], [('loop', [('continue', [])])], [('loop', ['x', ('break', ['x', 'x'])])],
                 [('if', [('if', X, X)], [('if', X, [])]), 'x'], [('loop', [('loop', X)])], [('loop', [('loop', [('break', X)]), ('break', X)]), 'x'],
                 [('loop', [('if', X, X), ('break', X)])], [('if', [('loop', [('break', X)])], X)], ['x', ('if', X, X), ('loop', X), ('if', X, []), 'x'],
                 [('loop', [('loop', [('continue', X)]), ('continue', X)])], [('if', X, [('loop', [('continue', [('if', X, X)])])]), ('loop', ['x', ('break', [('break', X)])])],
                 [('loop', [('break', [('continue', X)])])], [('loop', [('continue', [('break', [('if', X, X)])])])],
                 [('if', ['x', ('if', ['x', ('if', X, X)], X)], X)], [('loop', ['x', ('if', [('loop', [('break', X)])], X), ('break', X)]), ('if', X, X)]]
        for d in (12, 20, 36):
            deep = X
            for i in range(d):
                deep = [('if', deep, X)] if i % 2 else [('loop', deep)]
            progs.append(deep)
            deep = [('break', X)]
            for i in range(d):
                deep = [('loop', deep + ([('break', X)] if i else []))] if i % 3 == 0 else [('if', X, deep)]
            progs.append(deep)
        progs += [X * 40, [('if', X, X)] * 8, [('loop', [('break', X)])] * 6]
        good = [self.emit(p) for p in progs]
        self.shape(())
        for g in good:
            self.shape(g)
        for g in good:
            # the order in which the blocks stand does not matter, but for the first
            self.shape([g[0]] + g[:0:-1])
        for g in good:
            if len(g) > 9:
                continue
            self.shape(g + [g[0]])
            self.shape(g + [g[-1]])
            self.shape(g + [(g[0][0] + 1, ('b', 3), None)])
            self.shape(g[1:])
            for i, (l, br, mg) in enumerate(g):
                put = lambda b: self.shape(g[:i] + [b] + g[i + 1:])
                labs = [b[0] for b in g] + [4]
                self.shape(g[:i] + g[i + 1:])
                put((l, ('r',), None))
                put((l, ('r',), mg or ('s', g[-1][0])))
                if mg:
                    put((l, br, None))
                    put((l, br, ('s' if mg[0] == 'l' else 'l', mg[1], mg[1])[:2 if mg[0] == 'l' else 3]))
                    for t in labs:
                        put((l, br, (mg[0], t) + tuple(mg[2:])))
                else:
                    put((l, br, ('s', g[-1][0])))
                    put((l, br, ('l', g[-1][0], l)))
                for t in labs:
                    put((l, ('b', t), mg))
                    if br[0] == 'c':
                        put((l, ('c', t, br[2]), mg))
                        put((l, ('c', br[1], t), mg))
                    else:
                        put((l, ('c', t, t), mg))
                        put((l, ('c', t, g[-1][0]), mg))

def cfg(M, rep, prop, tier, limit=120):
    props = {'C18', 'C24'} if prop != 'C19' else {'C19'}
    if tier != 'thorough' and not any(rep.und.get(p) and not rep.bad.get(p) for p in props):
        return
    S = CfgShapes(M, rep, until(limit))
    S.all(tier)
    for p in props:
        rep.notes[p] = dict(rep.notes.get(p, {}), functions_followed=S.n)
