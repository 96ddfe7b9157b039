"""Loop generalisation: from one trial iteration the state at the loop head is
generalised (counters become affine in an iteration index, accumulators become
repeated parts, everything else unknown), linear invariants are guessed and
kept only if they hold on entry and after every iteration, and the result is
checked to be inductive before the exits are used."""
from terms import *
from values import *
import interp as IT
from facts import Facts

UNROLL = 70
ROUNDS = 12

# ------------------------------------------------------------------ templates
class Node:
    __slots__ = ('k', 'v', 'ty', 'ch', 'c', 'lv', 'xs', 'v0')
    def __init__(self, k, v, ty):
        self.k = k
        self.v = v          # value at an arbitrary iteration
        self.v0 = v         # value on entry
        self.ty = ty
        self.ch = None
        self.c = 0
        self.lv = None
        self.xs = None

class Gen:
    def __init__(self, I_, fr, h):
        self.I = I_
        self.M = I_.M
        self.K = mk('iv', I_.fresh('K'), 0, LENMAX)
        self.lvs = {}       # lv atom -> node
        self.changed = False
        self.line = 0
        self.tag = '%s@%d' % (fr.f['n'], h)

    def sym(self, what):
        return self.I.fresh('lv ' + what)

    def child_types(self, ty, variant, n):
        if ty is None:
            return [None] * n
        t = self.M.types[ty]
        if t['k'] in ('tuple', 'closure'):
            return t['f']
        if t['k'] == 'adt':
            return [f[1] for f in t['v'][variant]['f']]
        return [None] * n

    def inst(self, nd):
        k = nd.k
        if k == 'same':
            return nd.v
        if k == 'agg':
            nd.v = mk('agg', nd.v0.a[0], nd.v0.a[1], tuple(self.inst(c) for c in nd.ch))
        elif k in ('box', 'vref'):
            nd.v = mk(k, self.inst(nd.ch[0]))
        elif k == 'aff':
            nd.v = add(nd.v0, scale(self.K, nd.c))
        elif k == 'siter':
            nd.v = mk('siter', nd.v0.a[0], self.inst(nd.ch[0]), self.inst(nd.ch[1]), nd.v0.a[3])
        elif k == 'view':
            nd.v = mk('view', nd.lv, self.inst(nd.ch[0]), self.inst(nd.ch[1]))
        return nd.v

    def opaque(self, nd):
        """give up on the structure of this node: any value of its type"""
        I_ = self.I
        self.changed = True
        v = nd.v0
        s = self.sym('x')
        nd.k = 'lv'
        nd.ch = None
        if I_.intlike(v):
            if nd.ty is not None:
                nd.v = opq(self.M, nd.ty, s)
            else:
                nd.v = mk('iv', s, -BIG, BIG)
        elif v.op in ('seq', 'view'):
            nd.v = seq(ety(v), [mk('sq', s, ety(v))])
        elif v.op == 'str':
            nd.v = str_of(mk('ss', s))
        elif v.op in ('mnew', 'mins', 'mapv'):
            import natives
            kt, vt = natives.map_types(v)
            nd.v = mk('mapv', s, kt, vt)
        elif nd.ty is not None and v.op in ('agg', 'obj', 'tab', 'box', 'vref', 'iv'):
            nd.v = opq(self.M, nd.ty, s)
        elif v.op in ('agg', 'obj'):
            nd.v = opq(self.M, v.a[0], s)
        elif v.op == 'siter':
            q = seq(ety(v.a[0]), [mk('sq', s, ety(v.a[0]))])
            nd.v = mk('siter', q, I(0), seq_len(q), v.a[3])
        else:
            raise Undecided('loop changes a %s' % v.op)
        nd.lv = nd.v
        self.lvs[nd.v] = nd

    def weaken(self, nd, new, facts):
        """make nd cover the value `new` found after an iteration"""
        I_ = self.I
        cur = nd.v
        if nd.k == 'lv':
            return
        if nd.k == 'same':
            if new is cur:
                return
            v = cur
            if v.op == 'undef':
                # not initialised on entry: irrelevant unless read before written
                return
            if v.op == 'tab' or new.op == 'tab':
                return self.opaque(nd)
            if v.op == 'agg' and new.op == 'agg' and v.a[0] == new.a[0] and v.a[1] == new.a[1]:
                self.changed = True
                nd.k = 'agg'
                tys = self.child_types(v.a[0], v.a[1], len(v.a[2]))
                nd.ch = [Node('same', x, t) for x, t in zip(v.a[2], tys)]
                for c, x in zip(nd.ch, new.a[2]):
                    self.weaken(c, x, facts)
                return
            if v.op in ('box', 'vref') and new.op == v.op:
                self.changed = True
                nd.k = v.op
                t = None
                if nd.ty is not None:
                    tt = self.M.types[nd.ty]
                    t = tt['e'] if 'e' in tt else tt['g'][0] if tt.get('g') else None
                nd.ch = [Node('same', v.a[0], t)]
                self.weaken(nd.ch[0], new.a[0], facts)
                return
            if I_.intlike(v) and I_.intlike(new):
                d = sub(new, v)
                if is_int(d) and v.op not in BOOLOPS and not (nd.ty is not None and self.M.types[nd.ty]['k'] == 'bool'):
                    self.changed = True
                    nd.k = 'aff'
                    nd.c = d.a[0]
                    return
                if facts.decide(cmp_eq(new, v)) is True:
                    return
                return self.opaque(nd)
            if v.op == 'siter' and new.op == 'siter' and v.a[0] is new.a[0] and v.a[3] == new.a[3]:
                self.changed = True
                nd.k = 'siter'
                nd.ch = [Node('same', v.a[1], self.usize()), Node('same', v.a[2], self.usize())]
                self.weaken(nd.ch[0], new.a[1], facts)
                self.weaken(nd.ch[1], new.a[2], facts)
                return
            if v.op in ('seq', 'view') and new.op in ('seq', 'view'):
                b0, o0, e0 = as_view(v)
                b1, o1, e1 = as_view(new)
                if b0 is b1:
                    self.changed = True
                    nd.k = 'view'
                    nd.lv = b0
                    nd.ch = [Node('same', o0, self.usize()), Node('same', e0, self.usize())]
                    self.weaken(nd.ch[0], o1, facts)
                    self.weaken(nd.ch[1], e1, facts)
                    return
                if v.op == 'seq' and new.op == 'seq' and new.a[1][:len(v.a[1])] == v.a[1]:
                    self.changed = True
                    nd.k = 'acc'
                    nd.lv = mk('sq', self.sym('acc'), ety(v))
                    nd.v = mk('seq', v.a[0], v.a[1] + (nd.lv,))
                    nd.c = new_parts(nd.v0, new)
                    self.lvs[nd.lv] = nd
                    return
                return self.opaque(nd)
            if v.op == 'str' and new.op == 'str':
                if str_rest(v, new) is not None:
                    self.changed = True
                    nd.k = 'sacc'
                    nd.lv = mk('ss', self.sym('txt'))
                    nd.v = str_of(v, nd.lv)
                    self.lvs[nd.lv] = nd
                    return
                return self.opaque(nd)
            return self.opaque(nd)
        if nd.k == 'agg':
            if new.op == 'agg' and new.a[0] == cur.a[0] and new.a[1] == cur.a[1]:
                for c, x in zip(nd.ch, new.a[2]):
                    self.weaken(c, x, facts)
                return
            return self.opaque(nd)
        if nd.k in ('box', 'vref'):
            if new.op == nd.k:
                return self.weaken(nd.ch[0], new.a[0], facts)
            return self.opaque(nd)
        if nd.k == 'aff':
            if not I_.intlike(new):
                return self.opaque(nd)
            d = sub(new, cur)
            if is_int(d) and d.a[0] == nd.c:
                return
            if facts.decide(cmp_eq(d, I(nd.c))) is True:
                return
            return self.opaque(nd)
        if nd.k == 'siter':
            if new.op == 'siter' and new.a[0] is cur.a[0] and new.a[3] == cur.a[3]:
                self.weaken(nd.ch[0], new.a[1], facts)
                self.weaken(nd.ch[1], new.a[2], facts)
                return
            raise Undecided('loop replaces an iterator')
        if nd.k == 'view':
            if new.op in ('seq', 'view'):
                b1, o1, e1 = as_view(new)
                if b1 is nd.lv:
                    self.weaken(nd.ch[0], o1, facts)
                    self.weaken(nd.ch[1], e1, facts)
                    return
            return self.opaque(nd)
        if nd.k == 'acc':
            if new.op == 'seq' and new.a[1][:len(cur.a[1])] == cur.a[1]:
                return
            return self.opaque(nd)
        if nd.k == 'sacc':
            if new.op == 'str' and str_rest(cur, new) is not None:
                return
            return self.opaque(nd)
        raise Undecided('template ' + nd.k)

    def usize(self):
        r = getattr(self.M, '_usize', None)
        if r is None:
            for i, t in enumerate(self.M.types):
                if t['k'] == 'int' and t['n_'] == 'usize':
                    r = i
            self.M._usize = r
        return r

    # ---- candidate invariants: list of functions value-getter -> condition
    def nodes(self, roots):
        st = list(roots)
        while st:
            n = st.pop()
            yield n
            if n.ch:
                st.extend(n.ch)

def new_parts(v, new):
    """number of elements an iteration appends; 0 = not a fixed number"""
    xs = new.a[1][len(v.a[1]):]
    return len(xs) if all(p.op == 'lit' for p in xs) else 0

def as_view(v):
    if v.op == 'view':
        return v.a
    return v, I(0), seq_len(v)

def str_rest(v, new):
    """tokens of new after v, or None"""
    n = len(v.a)
    if new.a[:n] == v.a:
        return new.a[n:]
    # a trailing text token may have been extended
    if n and len(new.a) >= n and new.a[:n - 1] == v.a[:n - 1] and v.a[n - 1].op == 'txt' and new.a[n - 1].op == 'txt':
        a, b = v.a[n - 1].a[0], new.a[n - 1].a[0]
        if b.startswith(a):
            r = (mk('txt', b[len(a):]),) if len(b) > len(a) else ()
            return r + new.a[n:]
    return None

# ------------------------------------------------------------------ facts subst
def subst_facts(f, m):
    """facts with atoms replaced; None when contradictory"""
    hit = False
    def touched(t):
        at = atoms_in(t)
        return any(x in at for x in m)
    n = Facts()
    n.foralls = tuple((subst(b, m), v, tuple(subst(c, m) for c in cs)) for b, v, cs in f.foralls)
    conds = []
    for x, s in f.dom.items():
        if touched(x):
            conds.append(REBUILD['in'](subst(x, m), s) if x.op not in BOOLOPS else None)
            if conds[-1] is None:
                conds.pop()
                y = subst(x, m)
                conds.append(y if s == ((1, 1),) else bnot(truth(y)))
        else:
            n.dom[x] = s
    n.exts = {a: tuple(e for e in es if e in n.dom) for a, es in f.exts.items()}
    n.exts = {a: es for a, es in n.exts.items() if es}
    lins = []
    for l in f.lins:
        if touched(l):
            conds.append(cmp_le0(subst(l, m)))
        else:
            lins.append(l)
    n.lins = tuple(lins)
    nes = []
    for e in f.nes:
        if touched(e):
            conds.append(bnot(subst(e, m)))
        else:
            nes.append(e)
    n.nes = tuple(nes)
    for b, v in f.bools.items():
        if touched(b):
            y = truth(subst(b, m))
            conds.append(y if v else bnot(y))
        else:
            n.bools[b] = v
    for c in conds:
        if not n.assume(c):
            return None
    return n

def subst_state(st, m):
    f = subst_facts(st.facts, m)
    if f is None:
        return None
    memo = {}
    cells = {c: subst(v, m, memo) for c, v in st.cells.items()}
    return IT.State(cells, f, st.hist)

# ------------------------------------------------------------------ snapshots
def snap(I_):
    return (len(I_.panics), I_.obligations, I_.discharged, dict(I_.oblist), len(I_.loops), len(I_.allocs), dict(I_.unknown), len(I_.rcalls))

def rollback(I_, s):
    del I_.panics[s[0]:]
    I_.obligations, I_.discharged = s[1], s[2]
    I_.oblist = dict(s[3])
    del I_.loops[s[4]:]
    del I_.allocs[s[5]:]
    I_.unknown = dict(s[6])
    del I_.rcalls[s[7]:]

# ------------------------------------------------------------------ main
def relevant(I_, fr, h, st):
    n = len(fr.f['locals'])
    own = range(fr.base, fr.base + n)
    live = {fr.base + l for l in fr.cfg.live_at(h)}
    keep = {c for c in st.cells if c in live or c not in own}
    work = list(keep)
    while work:
        c = work.pop()
        v = st.cells.get(c)
        if v is None:
            continue
        for t in atoms_in(v):
            if t.op == 'ref' and t.a[0] not in keep and t.a[0] in st.cells:
                keep.add(t.a[0])
                work.append(t.a[0])
    return keep

def do_loop(I_, fr, h, st):
    body = fr.cfg.loops[h]
    out = []
    if I_.follow:
        work = [(st, None)]
        n = 0
        while work:
            n += 1
            if n > 4 * I_.follow:
                raise Undecided('loop followed too far in ' + fr.f['n'])
            s, seen = work.pop()
            exits, backs, _ = I_.run(fr, h, s.fork(), body, h)
            out += exits
            for b in backs:
                if n < 48:
                    work.append((b, None))
                    continue
                # a long run: does it get anywhere?
                keep = sorted(relevant(I_, fr, h, b))
                me = IT.frozen(b, [b.cells[c] for c in keep if c in b.cells])
                if seen is not None and me in seen:
                    I_.endless.append((fr.f['n'], b.facts))
                    continue
                work.append((b, (seen or frozenset()) | {me}))
        return out
    r = straight(I_, fr, h, st, body)
    if r is not None:
        return r
    work = [(st, 0)]
    while work:
        s, n = work.pop()
        r = symbolic(I_, fr, h, s, body)
        if r is not None:
            out += r
            continue
        if n > UNROLL:
            raise Undecided('loop unrolling in ' + fr.f['n'])
        exits, backs, _ = I_.run(fr, h, s, body, h)
        out += exits
        for b in backs:
            work.append((b, n + 1))
    return out

WRITTEN = 1024

def written(v):
    """a list with many elements that is written out in the program"""
    return any(t.op == 'seq' and 64 < len(t.a[1]) <= WRITTEN and all(p.op == 'lit' for p in t.a[1]) for t in atoms_in(v))

def straight(I_, fr, h, st, body):
    """a loop along a long list that is written out, or one whose count depends on the length of
    such a list alone, is followed to its end; None when that does not work out"""
    halving = fr.f['n'].startswith('verif_models::halving_search')
    keep = relevant(I_, fr, h, st)
    if not any(c in keep and written(v) for c, v in st.cells.items()):
        if not halving:
            return None
    sn = snap(I_)
    out = []
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 2 * WRITTEN:
            break
        exits, backs, _ = I_.run(fr, h, s.fork(), body, h)
        if len(backs) > (2 if halving else 1) or halving and exits and backs:
            break
        out += exits
        work += backs
    else:
        return out
    rollback(I_, sn)
    return None

def iterate(I_, fr, h, s, body, entry=None):
    """one iteration; a back edge that sets a flag on which the loop stops at
    once is an exit"""
    exits, backs, x = I_.run(fr, h, s.fork(), body, h)
    if entry is None or not backs:
        return exits, backs, x
    on = []
    for b in backs:
        if flagged(entry, b):
            e2, b2, _ = I_.run(fr, h, b.fork(), body, h)
            if not b2:
                exits = exits + e2
                continue
        on.append(b)
    return exits, on, x

def flagged(st, b):
    for c, v in st.cells.items():
        w = b.cells.get(c)
        if w is None or w is v:
            continue
        if v.op == 'int' and w.op == 'int' and v.a[0] in (0, 1) and w.a[0] in (0, 1):
            return True
        if v.op == 'agg' and w.op == 'agg' and v.a[0] == w.a[0] and v.a[1] != w.a[1]:
            return True
    return False

def facts_delta(I_, f0, f):
    dom, oth = I_.delta(f0, f)
    return [mk_in(x, q) for x, q in dom] + list(oth)

def symbolic(I_, fr, h, st, body, peel=0):
    """exits of the generalised loop; None = unroll this one"""
    sn = snap(I_)
    keep = relevant(I_, fr, h, st)
    st = IT.State({c: st.cells[c] for c in st.cells if c in keep}, st.facts, st.hist)
    exits0, backs0, _ = iterate(I_, fr, h, st, body, st)
    if not backs0:
        return exits0
    G = Gen(I_, fr, h)
    nodes = {c: Node('same', v, I_.cell_type(c)) for c, v in st.cells.items()}
    for b in backs0:
        for c, nd in nodes.items():
            if c in b.cells:
                G.weaken(nd, b.cells[c], b.facts)
    drop = set()
    extra = None
    for rnd in range(ROUNDS):
        rollback(I_, sn)
        G.changed = False
        f = st.facts.copy()
        cells = {c: G.inst(nd) for c, nd in nodes.items()}
        gst = IT.State(cells, f, st.hist)
        cands = candidates(I_, G, nodes, st, extra)
        cands = [c for c in cands if c[0] not in drop]
        use = []
        for key, at in cands:
            e = at('v0')
            r = None if e is None else st.facts.decide(e)
            if r is not True:
                if e is not None and r is None and e.op in ('in', 'le0') and peel % 9 < 3 and all(b.facts.decide(e) is True for b in backs0):
                    # entering the loop at all implies e: treat the two cases apart
                    rollback(I_, sn)
                    out = []
                    for v in (True, False):
                        q = st.fork()
                        if q.assume(e, v):
                            r = symbolic(I_, fr, h, q, body, peel + 1)
                            if r is None:
                                return None
                            out += r
                    return out
                drop.add(key)
                continue
            use.append((key, at))
            if not f.assume(at('v')):
                raise Undecided('loop invariants contradictory')
        exits, backs, _ = iterate(I_, fr, h, gst, body, st)
        # inductiveness
        for b in backs:
            for c, nd in nodes.items():
                if c in b.cells:
                    G.weaken(nd, b.cells[c], b.facts)
                else:
                    raise Undecided('loop cell vanished')
        if G.changed:
            drop = set()
            extra = None
            continue
        bad = False
        for b in backs:
            for key, at in use:
                cond = at('new', nodes, b)
                if cond is None or b.facts.decide(cond) is not True:
                    drop.add(key)
                    bad = True
        if bad:
            continue
        if extra is None:
            extra = derived(I_, G, nodes, st, gst, backs)
            if extra:
                continue
            extra = []
        break
    else:
        raise Undecided('loop does not stabilise in ' + fr.f['n'])
    def wild(ns):
        return sum(1 for n in ns if n.k == 'lv' and is_int(n.v0))
    w = wild(G.nodes(nodes.values()))
    if peel < 9 and w and len(backs0) <= (3 if I_.lastset else 1):
        # the first iteration may differ from the others: take it apart
        rollback(I_, sn)
        exits1, backs1, _ = iterate(I_, fr, h, st, body, st)
        try:
            n0 = len(I_.loops)
            r = []
            for b1 in backs1:
                q = symbolic(I_, fr, h, b1, body, peel + 9)
                r = None if r is None or q is None else r + q
            mine = [l for l in I_.loops[n0:] if l.fid == fr.fid and l.header == h and l.base == fr.base]
            if r is not None and mine and all(wild(G.nodes(l.nodes.values())) == 0 for l in mine):
                return exits1 + r
        except Undecided:
            pass
        rollback(I_, sn)
        return symbolic(I_, fr, h, st, body, peel + 9)
    # a small constant trip count is unrolled instead
    if backs and all(small(b.facts, G.K) for b in backs) and any(nd.k == 'aff' for nd in G.nodes(nodes.values())):
        rollback(I_, sn)
        return None
    # uniform accumulation
    if len(backs) > 1 and fr.fid not in I_.nomerge:
        backs_m = [s for s, _ in I_.merge(gst, 0, [(b, UNDEF) for b in backs])]
    else:
        backs_m = backs
    sub_ = {}
    lvset = {t for t in G.lvs}
    for c, nd in nodes.items():
        for q in G.nodes([nd]):
            q.xs = None
    if len(backs_m) == 1:
        b = backs_m[0]
        accs = []
        for c, nd in nodes.items():
            collect(nd, b.cells[c], accs)
        # accumulated values may mention other accumulators only if those are exact
        ok = {nd.lv for nd, xs in accs}
        changed = True
        pend = list(accs)
        for nd, xs in pend:
            if any(atoms_in(x) & lvset for x in xs):
                continue
            nd.xs = xs
            if nd.k == 'acc':
                sub_[nd.lv] = gen(G.K, G.K, xs) if xs else None
            else:
                sub_[nd.lv] = sgen(G.K, G.K, str_of(*xs)) if xs else None
        sub_ = {k: v for k, v in sub_.items() if v is not None}
    rec = IT.LoopRec(fn=fr.f['n'], fid=fr.fid, header=h, entry=st, head=gst, K=G.K, nodes=nodes, backs=backs, exits=exits,
                     inv=[at('v') for _, at in use], lvs=dict(G.lvs), stack=tuple(I_.stack), base=fr.base)
    I_.loops.append(rec)
    # what every completed iteration established
    alls = None
    if len(backs_m) == 1:
        cs = []
        for cnd in facts_delta(I_, gst.facts, backs_m[0].facts):
            if not (atoms_in(cnd) & lvset):
                cs.append(cnd)
        if cs:
            lvl = 1 + max(maxlevel(x) for x in cs)
            v = bv(lvl)
            alls = (v, tuple(sorted((subst(x, {G.K: v}) for x in cs), key=lambda t: t.id)))
    out = []
    last = last_set(I_, G, nodes, gst, backs, lvset) if I_.lastset else None
    if last is not None:
        exits = [(bb, q, al) for bb, s in exits for q, al in last_cases(I_, G, last, s, alls)]
        I_.panics[sn[0]:] = [q for p in I_.panics[sn[0]:] for q in last_panics(I_, G, last, p)]
    else:
        exits = [(bb, s, alls) for bb, s in exits]
    for bb, s, alls in exits:
        if alls is not None and alls[1]:
            ff = s.facts.copy()
            ff.foralls = ff.foralls + ((G.K, alls[0], alls[1]),)
            if len(ff.foralls) > 1 and not first_ok(ff):
                # no completed iteration agrees with what is known already
                if not ff.assume(cmp_le(G.K, I(0))) or ff.dead:
                    continue
            s = IT.State(s.cells, ff, s.hist)
        m = dict(sub_)
        if m:
            s = subst_state(s, m)
            if s is None:
                continue
        e = solve(s.facts, G.K)
        if e is not None:
            s = subst_state(s, {G.K: e})
            if s is None:
                continue
        elif lower(s.facts, gst.facts, G.K):
            # the number of iterations is not known exactly
            s = subst_state(s, {G.K: mk('iv', I_.fresh('lv count'), 0, LENMAX)})
            if s is None:
                continue
        out.append((bb, s))
    rec.out = out
    return out

def what_of(M, ty, v):
    """the term w with opq(M, ty, w) = v, or None"""
    if v.op in ('obj',):
        w = v.a[1]
    elif v.op == 'iv':
        w = v.a[0]
    elif v.op in ('vref', 'box'):
        t = M.types[ty]
        e = t['e'] if 'e' in t else t['g'][0]
        w = what_of(M, e, v.a[0])
        w = w.a[0] if w is not None and w.op == 'deref' else None
    elif v.op == 'seq':
        w = v.a[1][0].a[0] if len(v.a[1]) == 1 and v.a[1][0].op == 'sq' else None
    elif v.op == 'str':
        w = v.a[0].a[0] if len(v.a) == 1 and isinstance(v.a[0], T) and v.a[0].op == 'ss' else None
    elif v.op == 'agg' and v.a[2]:
        t = M.types[ty]
        f = t['f'][0] if 'f' in t else t['v'][v.a[1]]['f'][0][1]
        w = what_of(M, f, v.a[2][0])
        w = w.a[0] if w is not None and w.op == 'fld' else None
    else:
        w = None
    return w if w is not None and opq(M, ty, w) is v else None

def view_map(M, ty, old, new):
    """replacements that turn the opaque value `old` of type ty, and whatever was read out
    of it, into `new`; None when some part cannot be named"""
    if new.op == 'agg' and M.types[ty]['k'] == 'adt' and old is opq(M, ty, what_of(M, ty, old)):
        m = {old: new}
        w = what_of(M, ty, old)
        for i, (x, f) in enumerate(zip(new.a[2], M.types[ty]['v'][new.a[1]]['f'])):
            r = part_map(M, f[1], mk('fld', w, new.a[1], i), x)
            if r is None:
                return None
            m.update(r)
        return m
    return None

def part_map(M, ty, w, x):
    u = what_of(M, ty, x)
    if u is not None:
        return {w: u}
    t = M.types[ty]
    if x.op in ('vref', 'box') and (t['k'] in ('ref', 'ptr') or t.get('box')):
        return part_map(M, t['e'] if 'e' in t else t['g'][0], mk('deref', w), x.a[0])
    if x.op == 'agg' and t['k'] == 'adt' and t['a'] == 'struct':
        m = {}
        for i, (y, f) in enumerate(zip(x.a[2], t['v'][0]['f'])):
            r = part_map(M, f[1], mk('fld', w, 0, i), y)
            if r is None:
                return None
            m.update(r)
        return m
    return None

def last_set(I_, G, nodes, gst, backs, lvset):
    """a variable that keeps its value or is set to a value of the iteration alone"""
    syms = {x.a[1] if x.op == 'obj' else x for x in lvset}
    found = None
    for path, nd in node_path(nodes):
        if nd.k != 'lv' or nd.v.op != 'obj' or nd.v0.op != 'agg' or nd.ty is None:
            continue
        if not any(nd.v is t or nd.v.a[1] in atoms_in(t) for t in lvset):
            continue
        sets, keep = [], []
        for b in backs:
            v = at_path(b, nodes, path)
            if v is nd.v:
                keep.append(b)
            elif v.op == 'agg' and not (atoms_in(v) & syms) and not (atoms_in(v) & lvset):
                sets.append((b, v))
            else:
                break
        else:
            if sets and len(sets) <= 3 and found is None:
                found = (nd, sets, keep)
    if found is None:
        return None
    nd, sets, keep = found
    M = I_.M
    J = mk('iv', I_.fresh('J'), 0, LENMAX)
    m0 = view_map(M, nd.ty, nd.v, nd.v0)
    if m0 is None:
        return None
    ways = []
    for b, v in sets:
        m = view_map(M, nd.ty, nd.v, subst(v, {G.K: J}))
        if m is None:
            return None
        cs = [subst(c, {G.K: J}) for c in facts_delta(I_, gst.facts, b.facts) if not (atoms_in(c) & (syms | lvset))]
        ways.append((m, cs))
    common = None
    for b in keep:
        cs = {c for c in facts_delta(I_, gst.facts, b.facts) if not (atoms_in(c) & (syms | lvset))}
        common = cs if common is None else common & cs
    return nd, m0, J, ways, sorted(common or (), key=lambda t: t.id), bool(keep)

def last_cases(I_, G, last, s, alls):
    """the exit state s, once for each way the variable may have got its value"""
    nd, m0, J, ways, common, keep = last
    if not any(nd.v.a[1] in atoms_in(v) for v in s.cells.values()) and not any(nd.v.a[1] in atoms_in(t) for t in fact_atoms(s.facts)):
        return [(s, alls)]
    out = []
    q = subst_state(s, m0)
    if q is not None:
        if not keep:
            if q.assume(cmp_le(G.K, I(0))):
                out.append((q, alls))
        else:
            al = alls
            if common:
                v = bv(1 + max(maxlevel(x) for x in common))
                al = (v, tuple(sorted((subst(x, {G.K: v}) for x in common), key=lambda t: t.id)))
            out.append((q, al))
    for m, cs in ways:
        q = subst_state(s, m)
        if q is None:
            continue
        if not q.assume(cmp_lt(J, G.K)):
            continue
        if all(q.assume(c) for c in cs):
            out.append((q, alls))
    return out

def fact_atoms(F):
    yield from F.dom
    yield from F.lins
    yield from F.nes
    yield from F.bools
    for c, b, cs in F.foralls:
        yield c
        yield from cs

def last_panics(I_, G, last, p):
    nd = last[0]
    if not any(nd.v.a[1] in atoms_in(t) for t in fact_atoms(p.facts)):
        return [p]
    out = []
    for q, al in last_cases(I_, G, last, IT.State({} if p.cond is None else {0: p.cond}, p.facts, None), None):
        f = q.facts
        if al is not None:
            f = f.copy()
            f.foralls = f.foralls + ((G.K, al[0], al[1]),)
        out.append(IT.Panic(p.where, p.kind, p.line, f, q.cells.get(0), stack=p.stack))
    return out

def first_ok(f):
    """may the first element of the range last quantified over exist?"""
    K, v, conds = f.foralls[-1]
    g = f.copy()
    if not g.assume(cmp_le(I(1), K)):
        return False
    z = I(0)
    cs = [subst(x, {v: z}) for x in conds]
    at = set()
    for x in cs:
        if not g.assume(truth(x)) or g.dead:
            return False
        at |= {t for t in atoms_in(x) if t.op == 'elem'}
    for K2, w, conds2 in f.foralls[:-1]:
        if K2 is K or g.decide(cmp_le(I(1), K2)) is not True:
            continue
        c2 = [subst(x, {w: z}) for x in conds2]
        if not any(t in at for x in c2 for t in atoms_in(x)):
            continue
        for x in c2:
            if not g.assume(truth(x)) or g.dead:
                return False
    return True

def small(f, K):
    s = f.vset(K)
    if s and s[-1][1] <= 64:
        return True
    return f.decide(cmp_le(K, I(64))) is True

def collect(nd, v, accs):
    if nd.k == 'acc':
        xs = v.a[1][len(nd.v.a[1]):]
        if all(p.op == 'lit' for p in xs):
            accs.append((nd, tuple(p.a[0] for p in xs)))
    elif nd.k == 'sacc':
        accs.append((nd, str_rest(nd.v, v)))
    elif nd.k == 'agg':
        for c, x in zip(nd.ch, v.a[2]):
            collect(c, x, accs)
    elif nd.k in ('box', 'vref'):
        collect(nd.ch[0], v.a[0], accs)

def lower(f, f0, K):
    """did leaving the loop give a lower bound for K that was not there?"""
    for l in f.lins:
        c = -lin(l)[1].get(K, 0)
        if c > 0 and l not in f0.lins and not f._ent(sub(scale(l, -1), I(c - 1))):
            return True
    a, b = f.vset(K), f0.vset(K)
    return bool(a and b and a[0][0] > b[0][0])

def solve(f, K):
    """linear expression the facts force K to equal"""
    p = f.pin(K)
    if p is not None:
        return I(p)
    for l in f.lins:
        c, d = lin(l)
        k = d.get(K)
        if k not in (1, -1):
            continue
        r = {a: v for a, v in d.items() if a is not K}
        e = from_lin(c, r)
        e = scale(e, -1) if k == 1 else e
        # l<=0 : K <= e (k=1) or K >= e (k=-1)
        if contains(e, K):
            continue
        if f.decide(cmp_eq(K, e)) is True:
            return e
        if f._ent(sub(K, e)) and f._ent(sub(e, K)):
            return e
    return None

# ------------------------------------------------------------------ candidates
def getter(nd):
    return nd

def node_path(nodes):
    """(path, node) pairs"""
    out = []
    def go(p, n):
        out.append((p, n))
        if n.ch:
            for i, c in enumerate(n.ch):
                go(p + (i,), c)
    for c in sorted(nodes):
        go((c,), nodes[c])
    return out

def at_path(st, nodes, path):
    """value in a back state corresponding to the template node"""
    v = st.cells[path[0]]
    n = nodes[path[0]]
    for i in path[1:]:
        if n.k == 'agg':
            v = v.a[2][i]
        elif n.k in ('box', 'vref'):
            v = v.a[0]
        elif n.k == 'siter':
            v = v.a[1 + i]
        elif n.k == 'view':
            v = as_view(v)[1 + i]
        n = n.ch[i]
    return v

def candidates(I_, G, nodes, st, extra):
    res = []
    ps = node_path(nodes)
    ints = []
    def val(path, nd, mode, b):
        if mode == 'v0':
            return nd.v0
        if mode == 'v':
            return nd.v
        return at_path(b, nodes, path)
    def rel(key, p1, n1, p2, n2, f):
        def at(mode, nn=None, b=None):
            return f(val(p1, n1, mode, b), val(p2, n2, mode, b))
        res.append((key, at))
    for p, n in ps:
        if n.k in ('siter', 'view'):
            a, b = n.ch
            rel(('le', p), p + (0,), a, p + (1,), b, cmp_le)
        if n.k == 'lv' and I_.intlike(n.v0):
            v0 = n.v0
            def at(mode, nn=None, b=None, p=p, n=n, v0=v0):
                return cmp_le(v0, val(p, n, mode, b))
            res.append((('ge0', p), at))
            def at2(mode, nn=None, b=None, p=p, n=n, v0=v0):
                return cmp_le(val(p, n, mode, b), v0)
            res.append((('le0', p), at2))
        if n.k == 'aff' and n.c < 0 and n.ty is not None and I_.M.types[n.ty]['k'] == 'int':
            lo = domain(opq(I_.M, n.ty, mk('sym', 'any')))[0][0]
            def at6(mode, nn=None, b=None, p=p, n=n, lo=lo):
                return cmp_le(I(lo), val(p, n, mode, b))
            res.append((('tylo', p), at6))
        if n.k == 'agg':
            # sibling integers / lengths
            kids = []
            for i, c in enumerate(n.ch):
                if c.v0.op in ('seq', 'view'):
                    kids.append((i, c, seq_len))
                elif c.v0.op == 'vref' and c.v0.a[0].op in ('seq', 'view'):
                    kids.append((i, c, lambda v: seq_len(v.a[0])))
                elif I_.intlike(c.v0) and c.v0.op not in BOOLOPS:
                    kids.append((i, c, lambda v: v))
            for i, c, g in kids:
                for j, d, g2 in kids:
                    if i != j and (c.k not in ('same',) or d.k not in ('same',)):
                        def at3(mode, nn=None, b=None, p=p, i=i, j=j, c=c, d=d, g=g, g2=g2):
                            return cmp_le(g(val(p + (i,), c, mode, b)), g2(val(p + (j,), d, mode, b)))
                        res.append((('sib', p, i, j), at3))
    # any changing integer against the length of a sequence or another integer
    chg = [(p, n) for p, n in ps if n.k == 'lv' and I_.intlike(n.v0) and n.v0.op not in BOOLOPS]
    if 1 < len(chg) <= 6:
        # two irregular integers that move together, or against each other
        for i, (p, n) in enumerate(chg):
            for q, m in chg[i + 1:]:
                for k, op in (('dif', sub), ('sum', add)):
                    d0 = op(n.v0, m.v0)
                    def at7(mode, nn=None, b=None, p=p, n=n, q=q, m=m, op=op, d0=d0):
                        return cmp_eq(op(val(p, n, mode, b), val(q, m, mode, b)), d0)
                    res.append(((k, p, q), at7))
    lens = []
    for p, n in ps:
        if n.k == 'same' and n.v0.op in ('vref', 'seq', 'view'):
            s = n.v0.a[0] if n.v0.op == 'vref' else n.v0
            if s.op in ('seq', 'view'):
                lens.append((p, seq_len(s)))
        elif n.k == 'same' and n.v0.op in ('iv', 'ext', 'len', 'lin'):
            lens.append((p, n.v0))
        elif n.k == 'same' and n.v0.op == 'agg':
            for i, x in enumerate(n.v0.a[2]):
                s = x.a[0] if x.op == 'vref' else x
                if s.op in ('seq', 'view'):
                    lens.append((p + (i,), seq_len(s)))
    seen = set()
    if len(chg) * len(lens) < 200:
        for p, n in chg:
            for q, e in lens:
                if (p, e) in seen:
                    continue
                seen.add((p, e))
                def at4(mode, nn=None, b=None, p=p, n=n, e=e):
                    return cmp_le(val(p, n, mode, b), e)
                res.append((('len', p, e), at4))
    # as many elements as iterations
    for p, n in ps:
        if n.k == 'acc' and n.c:
            def at8(mode, nn=None, b=None, p=p, n=n):
                if mode == 'v0':
                    return TRUE
                if mode == 'v':
                    return cmp_eq(acc_len(n), scale(G.K, n.c))
                return cmp_eq(sub(seq_len(at_path(b, nodes, p)), seq_len(n.v0)), scale(add(G.K, I(1)), n.c))
            res.append((('cnt', p), at8))
    # derived from what an iteration established
    for l in extra or ():
        def at5(mode, nn=None, b=None, l=l):
            if mode == 'v0':
                return cmp_le0(subst(l, {G.K: I(0)}))
            if mode == 'v':
                return cmp_le0(l)
            return cmp_le0(subst(l, {G.K: add(G.K, I(1))}))
        res.append((('der', l), at5))
    return res

def acc_len(n):
    return sub(seq_len(n.v), seq_len(n.v0))

def derived(I_, G, nodes, st, gst, backs):
    """bounds on the iteration index that every completed iteration gives"""
    ns = list(G.nodes(nodes.values()))
    accs = {}
    for n in ns:
        if n.k == 'acc' and n.c:
            e = cmp_eq(acc_len(n), scale(G.K, n.c))
            if gst.facts.decide(e) is True:
                accs[acc_len(n)] = scale(G.K, n.c)
    if not backs or not (accs or any(n.k == 'aff' for n in ns)):
        return []
    lvset = set(G.lvs)
    sets = []
    for b in backs:
        ls = set()
        for l in b.facts.lins:
            if l in gst.facts.lins:
                continue
            if accs:
                l = subst(l, accs)
            if contains(l, G.K) and not (atoms_in(l) & lvset):
                ls.add(subst(l, {G.K: sub(G.K, I(1))}))
        sets.append(ls)
    out = set.intersection(*sets) if sets else set()
    # a fixed number of iterations
    ub = 0
    for b in backs:
        u = b.facts.vset(G.K)[-1][1]
        for a, e in accs.items():
            u = min(u, b.facts.vset(a)[-1][1] // lin(e)[1][G.K])
        ub = max(ub, u + 1)
    if ub < 1 << 32 and ub < gst.facts.vset(G.K)[-1][1]:
        out.add(sub(G.K, I(ub)))
    return sorted(out, key=lambda t: t.id)[:12]
