"""Abstract interpreter over the MIR dump.

Values are terms over the entry function's inputs; states are partitioned by
the conditions tested (trace partitioning), callees are inlined or modelled,
and loops are generalised to an arbitrary iteration by anti-unification with
inductiveness checks. Nothing is executed."""
import time
import sys, bisect, heapq
from terms import *
from facts import Facts
from values import *
import mir as MIR
import natives

sys.setrecursionlimit(20000)

class State:
    __slots__ = ('cells', 'facts', 'hist')
    def __init__(self, cells, facts, hist=()):
        self.cells = cells
        self.facts = facts
        self.hist = hist
    def fork(self):
        return State(dict(self.cells), self.facts, self.hist)
    def assume(self, b, val=True):
        """copy-on-write; False when contradictory"""
        f = self.facts.copy()
        ok = f.assume(b, val)
        self.facts = f
        return ok
    def restrict(self, x, s):
        f = self.facts.copy()
        ok = f.restrict(x, s)
        self.facts = f
        return ok

class Frame:
    __slots__ = ('fid', 'f', 'base', 'cfg', 'watch', 'active')
    def __init__(self, fid, f, base, cfg):
        self.fid = fid
        self.f = f
        self.base = base
        self.cfg = cfg
        self.active = []

class LoopRec:
    def __init__(self, **kw):
        self.__dict__.update(kw)

class Panic:
    def __init__(self, where, kind, line, facts, cond=None, definite=False, stack=()):
        self.where = where
        self.kind = kind
        self.line = line
        self.facts = facts
        self.cond = cond
        self.stack = stack

import os as _os
DEBUG = _os.environ.get('VERIF_DEBUG')

def call_graph(M, among=None):
    """calls between local functions; a closure runs on behalf of the function that makes it"""
    g = {}
    for fid, f in M.fns.items():
        if not f['local'] or 'bb' not in f:
            continue
        out = set()
        for _, t in f['bb']:
            if t[0] == 'call' and t[1][0] == 'k':
                ty = M.types[t[1][1]['t']]
                if ty['k'] == 'fndef' and 'inst' in ty and M.fns[ty['inst']]['local']:
                    out.add(ty['inst'])
        g[fid] = out
    names = {}
    for fid in g:
        names.setdefault(M.fns[fid]['n'], []).append(fid)
    for fid in g:
        n = M.fns[fid]['n']
        if n.endswith('}') and '::{closure#' in n:
            for q in names.get(n[:n.rindex('::{closure#')], ()):
                g[q].add(fid)
    if among is not None:
        g = {k: {x for x in v if x in among} for k, v in g.items() if k in among}
    return g

def frozen(st, vals):
    """the values with everything they refer to, independent of where it is kept"""
    order, todo, out = {}, [], []
    def go(v):
        m = {}
        for t in sorted((t for t in atoms_in(v) if t.op == 'ref'), key=lambda t: t.id):
            c = t.a[0]
            if c not in order:
                order[c] = len(order)
                todo.append(c)
            m[t] = mk('at', order[c], t.a[1])
        return subst(v, m) if m else v
    for v in vals:
        out.append(go(v))
    while todo:
        c = todo.pop(0)
        out.append((order[c], go(st.cells[c]) if c in st.cells else None))
    return tuple(out)

# when an analysis has to stop
CLOCK = [None]

class Interp:
    def __init__(self, M, opaque=(), budget=3000000, stop_display=(), unfold=(), lastset=False, follow=0):
        self.M = M
        self.lastset = lastset
        self.endless = []
        self.calls_on = []
        self.follow = follow        # along an input that is written out: loops and recursion followed to their end
        self.ncell = 0
        self.budget = budget
        self.look = 0
        self.steps = 0
        self.panics = []
        self.obligations = 0
        self.discharged = 0
        self.oblist = {}
        self.loops = []
        self.stack = []
        self.opaque = set(opaque)
        self.unfold = set(unfold)
        self.rcalls = []
        self.rec = self._recursive()
        self.unknown = {}
        self.gaveup = {}
        self.strict = False
        self.visited = set()
        self.ncalls = 0
        self.uid = 0
        self.kc = {}
        self.maxout = 4000
        self.nomerge = set()
        self.unresolved = []
        self.trace = False
        self.structural = True
        self.allocs = []
        self.cur_line = 0
        self.loop_focus = None
        self.fstart = []
        self.frames = []

    # ------------------------------------------------------------ helpers
    def _recursive(self):
        """ids of local functions on call-graph cycles"""
        if getattr(self.M, '_recfns', None) is not None:
            return self.M._recfns
        g = call_graph(self.M)
        rec = set()
        for fid in g:
            seen = set()
            st = list(g[fid])
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(g.get(x, ()))
            if fid in seen:
                rec.add(fid)
        self.M._recfns = frozenset(rec)
        return self.M._recfns

    def where(self):
        """innermost crate function on the analysis stack"""
        for fid in reversed(self.stack):
            f = self.M.fns[fid]
            if f['local']:
                return f['n']
        return '?'

    def newcells(self, n):
        b = self.ncell
        self.ncell += n
        return b

    def cell_type(self, c):
        i = bisect.bisect_right(self.fstart, c) - 1
        if i >= 0:
            b, f = self.frames[i]
            if c - b < len(f['locals']):
                return f['locals'][c - b]
        return None

    def fresh(self, tag):
        self.uid += 1
        return mk('sym', '%s#%d' % (tag, self.uid))

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise OutOfBudget('analysis budget exhausted')
        if CLOCK[0] is not None and self.steps >= self.look:
            self.look = self.steps + 200
            if time.time() > CLOCK[0]:
                raise OutOfBudget('time for the analysis used up')

    # ------------------------------------------------------------ places
    def place_ty(self, fr, p):
        M = self.M
        if isinstance(p, int):
            return fr.f['locals'][p]
        t = fr.f['locals'][p[0]]
        for e in p[1:]:
            if e == '*':
                tt = M.types[t]
                t = tt['e'] if 'e' in tt else tt['g'][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'c'):
                t = M.types[t]['e']
        return t

    def resolve(self, fr, st, p):
        """-> ('loc', cell, path) or ('val', v)"""
        if isinstance(p, int):
            return ('loc', fr.base + p, ())
        cell, path, val = fr.base + p[0], (), None
        for e in p[1:]:
            if e == '*':
                v = val if val is not None else self.read_loc(st, cell, path)
                if v.op == 'tab':
                    v = tab_filter(v, st.facts)
                if v.op == 'ref':
                    cell, path, val = v.a[0], v.a[1], None
                elif v.op == 'vref':
                    val = v.a[0]
                elif v.op == 'box':
                    if val is None:
                        path = path + ('*',)
                    else:
                        val = v.a[0]
                elif v.op == 'tab':
                    def dr(x):
                        if x.op in ('vref', 'box'):
                            return x.a[0]
                        raise Undecided('deref of table')
                    val = tab_map(v, dr)
                else:
                    raise Undecided('deref of %s' % v.op)
                continue
            if e[0] == 'i':
                e = ('i', st.cells[fr.base + e[1]])
            else:
                e = tuple(e)
            if val is not None:
                val = self.project(st, val, e)
            else:
                path = path + (e,)
        if val is not None:
            return ('val', val)
        return ('loc', cell, path)

    def read_loc(self, st, cell, path):
        v = st.cells.get(cell, UNDEF)
        for e in path:
            v = self.project(st, v, e)
        return v

    def read(self, fr, st, p):
        if isinstance(p, int):
            return st.cells.get(fr.base + p, UNDEF)
        r = self.resolve(fr, st, p)
        if r[0] == 'val':
            return r[1]
        return self.read_loc(st, r[1], r[2])

    def project(self, st, v, e):
        M = self.M
        op = v.op
        if e == '*':
            if op == 'box' or op == 'vref':
                return v.a[0]
            if op == 'ref':
                return self.read_loc(st, v.a[0], v.a[1])
            if op == 'undef':
                return UNDEF
            if op == 'tab':
                return tab_map(tab_filter(v, st.facts), lambda x: self.project(st, x, e))
            raise Undecided('deref %s' % op)
        k = e[0]
        if op == 'tab':
            v = tab_filter(v, st.facts)
            op = v.op
            if op == 'tab':
                if k == 'd':
                    cs = [(s, x) for s, x in v.a[1] if not (x.op == 'agg' and x.a[1] != e[1])]
                    if not cs:
                        raise Undecided('downcast of table')
                    return tab(v.a[0], [(s, self.project(st, x, e)) for s, x in cs])
                return tab_map(v, lambda x: self.project(st, x, e))
        if k == 'f':
            i = e[1]
            if op == 'agg':
                return v.a[2][i]
            if op == 'obj':
                return opq(M, e[2], mk('fld', v.a[1], 0, i))
            if op == 'dc':
                return opq(M, e[2], mk('fld', v.a[0].a[1], v.a[1], i))
            if op == 'uni':
                return v.a[2]
            if op == 'box':
                # Box<T> internals: pointer to the content
                return mk('bptr', v)
            if op == 'bptr':
                return v
            if op == 'undef':
                return UNDEF
            raise Undecided('field of %s' % op)
        if k == 'd':
            if op == 'agg':
                if v.a[1] != e[1]:
                    raise Undecided('wrong variant')
                return v
            if op == 'obj':
                return mk('dc', v, e[1])
            if op == 'undef':
                return v
            raise Undecided('downcast of %s' % op)
        if k == 'i':
            i = e[1]
            if op == 'undef':
                return UNDEF
            r = elem(M, v, i, st.facts)
            if r is None:
                return opq(M, ety(v), mk('elem', v, i))
            return r
        if k == 'c':
            off, _, fe = e[1], e[2], e[3]
            i = sub(seq_len(v), I(off)) if fe else I(off)
            r = elem(M, v, i, st.facts)
            if r is None:
                return opq(M, ety(v), mk('elem', v, i))
            return r
        if k == 's':
            frm, to, fe = e[1], e[2], e[3]
            end = sub(seq_len(v), I(to)) if fe else I(to)
            return view(v, I(frm), end)
        if k == 'o':
            return v
        raise Undecided('projection %s' % k)

    def write_loc(self, st, cell, path, v, ty=None):
        if not path:
            st.cells[cell] = v
        else:
            st.cells[cell] = self.set_path(st, st.cells.get(cell, UNDEF), path, v, ty)

    def set_path(self, st, old, path, v, ty):
        if not path:
            return v
        M = self.M
        e = path[0]
        rest = path[1:]
        if old.op == 'tab':
            old = tab_filter(old, st.facts)
        if e == '*':
            if old.op == 'box':
                return mk('box', self.set_path(st, old.a[0], rest, v, None))
            if old.op == 'ref':
                self.write_loc(st, old.a[0], old.a[1] + tuple(rest), v)
                return old
            raise Undecided('write through %s' % old.op)
        k = e[0]
        if k == 'f':
            i = e[1]
            if old.op == 'agg':
                fs = list(old.a[2])
                fs[i] = self.set_path(st, fs[i], rest, v, e[2])
                return mk('agg', old.a[0], old.a[1], tuple(fs))
            if old.op == 'uni':
                return mk('uni', old.a[0], i, self.set_path(st, old.a[2] if old.a[1] == i else UNDEF, rest, v, e[2]))
            if old.op == 'undef':
                if ty is None:
                    # union content of a fresh box
                    inner = self.set_path(st, UNDEF, rest, v, e[2])
                    return mk('uni', -1, i, inner)
                t = M.types[ty]
                if t['k'] == 'adt' and t['a'] == 'union':
                    return mk('uni', ty, i, self.set_path(st, UNDEF, rest, v, e[2]))
                if t['k'] == 'tuple':
                    n = len(t['f'])
                elif t['k'] == 'closure':
                    n = len(t['f'])
                elif t['k'] == 'adt' and t['a'] == 'struct':
                    n = len(t['v'][0]['f'])
                else:
                    raise Undecided('partial write')
                fs = [UNDEF] * n
                fs[i] = self.set_path(st, UNDEF, rest, v, e[2])
                return mk('agg', ty, 0, tuple(fs))
            if old.op == 'obj':
                t = M.types[old.a[0]]
                if t['k'] == 'adt' and t['a'] == 'struct':
                    fs = [opq(M, f[1], mk('fld', old.a[1], 0, j)) for j, f in enumerate(t['v'][0]['f'])]
                    fs[i] = self.set_path(st, fs[i], rest, v, e[2])
                    return mk('agg', old.a[0], 0, tuple(fs))
            raise Undecided('field write to %s' % old.op)
        if k == 'd':
            if old.op == 'agg' and old.a[1] == e[1]:
                return self.set_path(st, old, rest, v, ty)
            if old.op == 'obj':
                t = M.types[old.a[0]]
                fs = tuple(opq(M, f[1], mk('fld', old.a[1], e[1], j)) for j, f in enumerate(t['v'][e[1]]['f']))
                return self.set_path(st, mk('agg', old.a[0], e[1], fs), rest, v, ty)
            raise Undecided('variant write to %s' % old.op)
        if k in ('i', 'c'):
            i = e[1] if k == 'i' else (sub(seq_len(old), I(e[1])) if e[3] else I(e[1]))
            if old.op == 'seq' and is_int(i) and all(p.op == 'lit' for p in old.a[1][:i.a[0] + 1]) and i.a[0] < len(old.a[1]):
                ps = list(old.a[1])
                ps[i.a[0]] = mk('lit', self.set_path(st, ps[i.a[0]].a[0], rest, v, None))
                return mk('seq', old.a[0], tuple(ps))
            if old.op == 'seq':
                x = self.fresh('upd')
                n = seq_len(old)
                r = mk('sq', x, old.a[0])
                f = st.facts.copy()
                f.assume(cmp_eq(part_len(r), n))
                st.facts = f
                return mk('seq', old.a[0], (r,))
        raise Undecided('write projection %s' % (k,))

    def write(self, fr, st, p, v):
        if isinstance(p, int):
            st.cells[fr.base + p] = v
            return
        r = self.resolve(fr, st, p)
        if r[0] == 'val':
            raise Undecided('write to a value')
        lty = None
        if r[1] == fr.base + p[0]:
            lty = fr.f['locals'][p[0]]
        self.write_loc(st, r[1], r[2], v, lty)

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        k = o[0]
        if k == 'c' or k == 'm':
            v = self.read(fr, st, o[1])
            if v.op == 'dc':
                v = v.a[0]
            return v
        if k == 'k':
            key = id(o[1])
            r = self.kc.get(key)
            if r is None:
                r = self.const(o[1])
                self.kc[key] = r
            return r
        if k == 'r':
            return FALSE
        raise Undecided('operand')

    def op_ty(self, fr, o):
        if o[0] == 'k':
            return o[1]['t']
        if o[0] == 'r':
            return None
        return self.place_ty(fr, o[1])

    def const(self, c):
        t = self.M.types[c['t']]
        if t['k'] == 'fndef':
            return mk('fn', t.get('inst', -1), c['t'])
        if 'z' in c:
            return self.zst(c['t'])
        if 'u' in c:
            return I(c['u'])
        if 'a' in c:
            if c['a'] is None:
                return mk('obj', c['t'], self.fresh('const'))
            return self.decode(c['t'], c['a'], 0)
        return opq(self.M, c['t'], self.fresh('const'))

    def zst(self, ty):
        t = self.M.types[ty]
        k = t['k']
        if k == 'tuple':
            return mk('agg', ty, 0, tuple(self.zst(f) for f in t['f']))
        if k == 'fndef':
            return mk('fn', t.get('inst', -1), ty)
        if k == 'closure':
            return mk('agg', ty, 0, ())
        if k == 'adt':
            v = t.get('single', 0)
            if t['p'] == 'std::vec::Vec':
                return seq(t['g'][0], [])
            if v < len(t['v']):
                return mk('agg', ty, v, tuple(self.zst(f[1]) for f in t['v'][v]['f']))
        if k == 'array':
            return seq(t['e'], [])
        return mk('obj', ty, mk('sym', 'zst'))

    def decode(self, ty, a, off):
        M = self.M
        t = M.types[ty]
        k = t['k']
        def byte(i, n):
            h = a['b'][2 * i:2 * (i + n)]
            if '_' in h or len(h) < 2 * n:
                return None
            return int.from_bytes(bytes.fromhex(h), 'little')
        def ptr(o):
            for po, al in a['p']:
                if po == o:
                    return M.allocs[al]
            return None
        if k in ('int', 'bool', 'char'):
            n = t.get('sz', t.get('w', 8) // 8)
            v = byte(off, n)
            if v is None:
                return UNDEF
            if k == 'int' and t['s'] and v >> (t['w'] - 1):
                v -= 1 << t['w']
            return I(v)
        if k in ('ref', 'ptr'):
            al = ptr(off)
            e = M.types[t['e']]
            if al is None:
                return mk('vref', mk('obj', t['e'], mk('sym', 'ptr')))
            if al['k'] in ('mem', 'static'):
                o2 = byte(off, 8) or 0
                body = al['a']
                if body is None:
                    return mk('vref', opq(M, t['e'], self.fresh('static')))
                if e['k'] == 'str':
                    n = byte(off + 8, 8)
                    raw = bytes.fromhex(body['b'][2 * o2:2 * (o2 + n)])
                    return mk('vref', txt(raw.decode('utf8', 'replace')))
                if e['k'] == 'slice':
                    n = byte(off + 8, 8)
                    es = M.types[e['e']].get('sz', 0)
                    return mk('vref', seq(e['e'], [mk('lit', self.decode(e['e'], body, o2 + i * es)) for i in range(n)]))
                if al['k'] == 'static':
                    return mk('vref', mk('obj', t['e'], mk('sym', 'static ' + al['p']))) if '__' in body['b'] else mk('vref', self.decode(t['e'], body, o2))
                return mk('vref', self.decode(t['e'], body, o2))
            return mk('vref', mk('obj', t['e'], mk('sym', 'ptr')))
        if k == 'fnptr':
            al = ptr(off)
            if al is not None and al['k'] == 'fn':
                return mk('fn', al['inst'], ty)
            return mk('obj', ty, self.fresh('fnptr'))
        if k == 'array':
            es = M.types[t['e']].get('sz', 0)
            if t['n'] > 5000:
                return seq(t['e'], [mk('sq', self.fresh('arr'), t['e'])])
            return seq(t['e'], [mk('lit', self.decode(t['e'], a, off + i * es)) for i in range(t['n'])])
        if k == 'tuple':
            offs = t.get('off', [])
            return mk('agg', ty, 0, tuple(self.decode(f, a, off + offs[i]) for i, f in enumerate(t['f'])))
        if k == 'adt':
            if t['p'] == 'std::vec::Vec':
                return seq(t['g'][0], [])
            if t['p'] == 'std::string::String':
                return str_of()
            if 'tag' in t:
                tg = t['tag']
                v = byte(off + tg['off'], tg['sz'])
                pt = ptr(off + tg['off'])
                enc = tg['enc']
                if enc == 'direct':
                    vi = None
                    for i, x in enumerate(t['v']):
                        if x['d'] & ((1 << (8 * tg['sz'])) - 1) == v:
                            vi = i
                    if vi is None:
                        return mk('obj', ty, self.fresh('const'))
                else:
                    un, s, e, ns = enc
                    if v is None:
                        return mk('obj', ty, self.fresh('const'))
                    m = (1 << (8 * tg['sz'])) - 1
                    rel = (v - ns) & m
                    if pt is None and rel <= e - s:
                        vi = s + rel
                    else:
                        vi = un
                offs = tg['v'][vi]
                return mk('agg', ty, vi, tuple(self.decode(f[1], a, off + offs[i]) for i, f in enumerate(t['v'][vi]['f'])))
            if t['a'] in ('struct', 'enum') and t['v']:
                vi = t.get('single', 0)
                offs = t.get('off', [])
                if t['a'] == 'struct' and t['p'].startswith(('std::', 'core::')) and not t['p'].startswith(('std::ops::', 'core::fmt', 'std::fmt', 'std::num')):
                    return mk('obj', ty, self.fresh('const'))
                return mk('agg', ty, vi, tuple(self.decode(f[1], a, off + (offs[i] if i < len(offs) else 0)) for i, f in enumerate(t['v'][vi]['f'])))
        if k == 'pat':
            return self.decode(t['e'], a, off)
        return mk('obj', ty, self.fresh('const'))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dst):
        k = r[0]
        M = self.M
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref' or k == 'addr':
            res = self.resolve(fr, st, r[2])
            if res[0] == 'val':
                return mk('vref', res[1])
            if r[1]:
                return mk('ref', res[1], res[2])
            if k == 'addr':
                return mk('ref', res[1], res[2])
            v = self.read_loc(st, res[1], res[2])
            if v.op == 'fmtr':
                return mk('ref', res[1], res[2])
            return mk('vref', v)
        if k == 'agg':
            h = r[1]
            vs = tuple(self.operand(fr, st, o) for o in r[2])
            if h[0] == 'array':
                return seq(h[1], [mk('lit', v) for v in vs])
            if h[0] == 'tuple':
                return mk('agg', self.place_ty(fr, dst), 0, vs)
            if h[0] == 'adt':
                if h[3] >= 0:
                    return mk('uni', h[1], h[3], vs[0])
                return mk('agg', h[1], h[2], vs)
            if h[0] == 'closure':
                return mk('agg', h[1], 0, vs)
            raise Undecided('aggregate %s' % h[0])
        if k == 'bin':
            x = self.operand(fr, st, r[2])
            y = self.operand(fr, st, r[3])
            return self.binop(st, r[1], x, y, self.op_ty(fr, r[2]))
        if k == 'chk':
            x = self.operand(fr, st, r[2])
            y = self.operand(fr, st, r[3])
            ty = self.op_ty(fr, r[2])
            lo, hi = int_range(M.types[ty])
            v, fl = self.checked(st, st.facts, r[1], x, y, ty, lo, hi)
            return mk('agg', self.place_ty(fr, dst), 0, (v, fl))
        if k == 'un':
            x = self.operand(fr, st, r[2])
            return self.unop(st, r[1], x, self.op_ty(fr, r[2]))
        if k == 'cast':
            return self.cast(fr, st, r, dst)
        if k == 'discr':
            v = self.read(fr, st, r[1])
            return self.discr(st, v)
        if k == 'len':
            v = self.read(fr, st, r[1])
            return seq_len(v)
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            if r[2] <= 64:
                return seq(self.op_ty(fr, r[1]), [mk('lit', v)] * r[2])
            return seq(self.op_ty(fr, r[1]), [mk('gen', bv(1), I(r[2]), (v,))])
        raise Undecided('rvalue %s' % (r,))

    def checked(self, st, f, op, x, y, ty, lo, hi):
        """the value of a checked operation and whether it overflows"""
        if x.op == 'tab':
            x = tab_filter(x, f)
        if y.op == 'tab':
            y = tab_filter(y, f)
        t = x if x.op == 'tab' else y if y.op == 'tab' else None
        if t is not None:
            if len(t.a[1]) > 32:
                v = opq(self.M, ty, mk('chk', op, x, y))
                return v, opq_bool(mk('ovf', op, x, y))
            vs, fs = [], []
            for q, w in t.a[1]:
                g = f.copy()
                if not g.restrict(t.a[0], q):
                    continue
                v, fl = self.checked(st, g, op, w if t is x else x, w if t is y else y, ty, lo, hi)
                r = g.decide(fl)
                vs.append((q, v))
                fs.append((q, fl if r is None else TRUE if r else FALSE))
            return tab(t.a[0], vs), tab(t.a[0], fs)
        v = self.arith(st, op, x, y)
        if v is None:
            # a product of non-negative values may overflow; keep undecided
            return opq(self.M, ty, mk(op.lower(), x, y)), opq_bool(mk('ovf', op, x, y))
        return v, bnot(band(cmp_le(I(lo), v), cmp_le(v, I(hi))))

    def discr(self, st, v):
        M = self.M
        if v.op == 'tab':
            v = tab_filter(v, st.facts)
            if v.op == 'tab':
                return tab_map(v, lambda x: self.discr(st, x))
        if v.op == 'dc':
            v = v.a[0]
        if v.op == 'undef':
            return v        # moved out: only drop glue looks at it
        if v.op == 'agg':
            t = M.types[v.a[0]]
            if t['k'] == 'adt' and t['a'] == 'enum':
                return I(t['v'][v.a[1]]['d'])
            return I(0)
        if v.op == 'obj':
            t = M.types[v.a[0]]
            if t['k'] != 'adt' or t['a'] != 'enum':
                raise Undecided('discriminant of ' + t['n_'])
            d = mk('discr', v, len(t['v']))
            if all(x['d'] == i for i, x in enumerate(t['v'])):
                return d
            return tab(d, [(((i, i),), I(x['d'])) for i, x in enumerate(t['v'])])
        raise Undecided('discriminant of %s' % v.op)

    def arith(self, st, op, x, y):
        op = op.replace('Unchecked', '').replace('WithOverflow', '')
        if op == 'Add':
            return add(x, y)
        if op == 'Sub':
            return sub(x, y)
        if op == 'Mul':
            if is_int(x):
                return scale(y, x.a[0])
            if is_int(y):
                return scale(x, y.a[0])
            px, py = st.facts.pin(x), st.facts.pin(y)
            if px is not None:
                return scale(y, px)
            if py is not None:
                return scale(x, py)
            return None
        return None

    def binop(self, st, op, x, y, ty):
        M = self.M
        f = st.facts
        if x.op == 'tab':
            x = tab_filter(x, f)
        if y.op == 'tab':
            y = tab_filter(y, f)
        if x.op == 'tab' and not (y.op == 'tab'):
            return tab_map(x, lambda v: self.binop(st, op, v, y, ty))
        if y.op == 'tab' and not (x.op == 'tab'):
            return tab_map(y, lambda v: self.binop(st, op, x, v, ty))
        if x.op == 'tab':
            if x.a[0] is y.a[0]:
                cs = []
                for s, v in x.a[1]:
                    for s2, v2 in y.a[1]:
                        s3 = iinter(s, s2)
                        if s3:
                            cs.append((s3, self.binop(st, op, v, v2, ty)))
                return tab(x.a[0], cs)
            if len(x.a[1]) * len(y.a[1]) <= 64:
                return tab_map(x, lambda v: self.binop(st, op, v, y, ty))
            return self.opaque_bin(op, x, y, ty)
        tt = M.types[ty] if ty is not None else {'k': 'int', 'w': 64, 's': 0}
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if not self.intlike(x) or not self.intlike(y):
                if op in ('Eq', 'Ne') and x is y:
                    return TRUE if op == 'Eq' else FALSE
                b = mk_in(mk('iv', mk('pcmp', x, y), 0, 1), ((1, 1),))
                return b
            if tt['k'] == 'bool' and op in ('Eq', 'Ne'):
                x, y = truth(x), truth(y)
                if is_int(y):
                    r = x if y is TRUE else bnot(x)
                elif is_int(x):
                    r = y if x is TRUE else bnot(y)
                else:
                    r = bor(band(x, y), band(bnot(x), bnot(y)))
                return r if op == 'Eq' else bnot(r)
            if op == 'Eq':
                return cmp_eq(x, y)
            if op == 'Ne':
                return bnot(cmp_eq(x, y))
            if op == 'Lt':
                return cmp_lt(x, y)
            if op == 'Le':
                return cmp_le(x, y)
            if op == 'Gt':
                return cmp_lt(y, x)
            return cmp_le(y, x)
        if tt['k'] == 'bool':
            x, y = truth(x), truth(y)
            if op == 'BitAnd':
                return band(x, y)
            if op == 'BitOr':
                return bor(x, y)
            if op == 'BitXor':
                return bor(band(x, bnot(y)), band(bnot(x), y))
        if not self.intlike(x) or not self.intlike(y) or tt['k'] not in ('int', 'char'):
            return self.opaque_bin(op, x, y, ty)
        w = tt.get('w', 32)
        lo, hi = int_range(tt) if tt['k'] == 'int' else (0, 0x10ffff)
        base = op.replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            v = self.arith(st, base, x, y)
            if v is None:
                return self.opaque_bin(op, x, y, ty)
            if op.endswith('Unchecked'):
                return v
            s = f.vset(v)
            if s and s[0][0] >= lo and s[-1][1] <= hi:
                return v
            if f.decide(band(cmp_le(I(lo), v), cmp_le(v, I(hi)))):
                return v
            if is_int(v):
                n = v.a[0] & ((1 << w) - 1)
                if tt.get('s') and n >> (w - 1):
                    n -= 1 << w
                return I(n)
            return self.opaque_bin(op, x, y, ty)
        if base in ('Div', 'Rem'):
            if is_int(y) and y.a[0] > 0:
                n = y.a[0]
                if is_int(x) and x.a[0] >= 0:
                    return I(x.a[0] // n if base == 'Div' else x.a[0] % n)
                if lo == 0:
                    if n == 1:
                        return x if base == 'Div' else I(0)
                    if n & (n - 1) == 0:
                        segs = bits_of(x, w)
                        if segs is not None:
                            k = n.bit_length() - 1
                            return from_bits(seg_range(segs, k, w - k) if base == 'Div' else seg_range(segs, 0, k))
                    q = self.divq(st, x, n)
                    return q if base == 'Div' else sub(x, scale(q, n))
            return self.opaque_bin(op, x, y, ty)
        if base in ('Shl', 'Shr'):
            if is_int(y):
                n = y.a[0]
                if n < 0 or n >= w:
                    n &= w - 1
                if is_int(x):
                    v = (x.a[0] << n) if base == 'Shl' else (x.a[0] >> n)
                    if base == 'Shl':
                        v &= (1 << w) - 1
                        if tt.get('s') and v >> (w - 1):
                            v -= 1 << w
                    return I(v)
                if not tt.get('s'):
                    segs = bits_of(x, w)
                    if segs is not None:
                        if base == 'Shl':
                            return from_bits([(n, None, 0)] + seg_range(segs, 0, w - n))
                        return from_bits(seg_range(segs, n, w - n))
                    if base == 'Shr':
                        return self.divq(st, x, 1 << n)
            return self.opaque_bin(op, x, y, ty)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if is_int(x) and is_int(y):
                a, b = x.a[0], y.a[0]
                return I(a & b if base == 'BitAnd' else a | b if base == 'BitOr' else a ^ b)
            if not tt.get('s'):
                sx = bits_of(x, w) if not is_int(x) else [(w, None, x.a[0])]
                sy = bits_of(y, w) if not is_int(y) else [(w, None, y.a[0])]
                if sx is not None and sy is not None:
                    r = self.bitwise(base, sx, sy, w)
                    if r is not None:
                        return r
            if base == 'BitAnd' and is_int(y) and y.a[0] >= 0:
                return mk('iv', mk('band', x, y), 0, y.a[0])
            if base == 'BitAnd' and is_int(x) and x.a[0] >= 0:
                return mk('iv', mk('band', y, x), 0, x.a[0])
            return self.opaque_bin(op, x, y, ty)
        if base == 'Cmp':
            # an Ordering: Less, Equal, Greater
            oty = next((i for i, q in enumerate(M.types) if q and q['k'] == 'adt' and q['p'] == 'std::cmp::Ordering'), None)
            if oty is not None:
                ords = [mk('agg', oty, i, ()) for i in range(3)]
                c, d = lin(sub(x, y))
                if not d:
                    return ords[(c > 0) - (c < 0) + 1]
                if len(d) == 1:
                    (a, k), = d.items()
                    if k in (1, -1):
                        z = -c * k              # a where the two are equal
                        cs = [(((-BIG, z - 1),), ords[0 if k == 1 else 2]), (((z, z),), ords[1]), (((z + 1, BIG),), ords[2 if k == 1 else 0])]
                        vs = f.vset(a)
                        cs = [(iinter(q, vs), o) for q, o in cs]
                        cs = [(q, o) for q, o in cs if q]
                        return cs[0][1] if len(cs) == 1 else tab(a, cs)
                for e, o in ((cmp_lt(x, y), 0), (cmp_eq(x, y), 1), (cmp_lt(y, x), 2)):
                    if f.decide(e) is True:
                        return ords[o]
            return mk('cmp3', x, y)
        return self.opaque_bin(op, x, y, ty)

    def divq(self, st, x, n):
        c, d = lin(x)
        if c % n == 0 and all(v % n == 0 for v in d.values()):
            return from_lin(c // n, {k: v // n for k, v in d.items()})
        q = mk('iv', mk('div', x, n), 0, USIZE)
        f = st.facts.copy()
        f.assume(cmp_le(scale(q, n), x))
        f.assume(cmp_le(x, add(scale(q, n), I(n - 1))))
        st.facts = f
        return q

    def bitwise(self, op, sx, sy, w):
        # cut both at common boundaries
        cuts = {0, w}
        for s in (sx, sy):
            p = 0
            for q in s:
                p += q[0]
                cuts.add(p)
            if any(q[1] is None for q in s):
                p = 0
                for q in s:
                    if q[1] is None:
                        # constant: cut at bit changes
                        v = q[2]
                        for i in range(1, q[0]):
                            if ((v >> i) & 1) != ((v >> (i - 1)) & 1):
                                cuts.add(p + i)
                    p += q[0]
        cuts = sorted(cuts)
        out = []
        for a, b in zip(cuts, cuts[1:]):
            n = b - a
            x = seg_range(sx, a, n)
            y = seg_range(sy, a, n)
            if len(x) != 1 or len(y) != 1:
                return None
            x, y = x[0], y[0]
            full = (1 << n) - 1
            if x[1] is None and y[1] is None:
                v = x[2] & y[2] if op == 'BitAnd' else x[2] | y[2] if op == 'BitOr' else x[2] ^ y[2]
                out.append((n, None, v))
                continue
            if x[1] is None:
                x, y = y, x
            if y[1] is None:
                if op == 'BitAnd':
                    out.append((n, None, 0) if y[2] == 0 else x if y[2] == full else None)
                elif op == 'BitOr':
                    out.append(x if y[2] == 0 else (n, None, full) if y[2] == full else None)
                else:
                    out.append(x if y[2] == 0 else None)
                if out[-1] is None:
                    return None
                continue
            if x == y:
                out.append(x if op != 'BitXor' else (n, None, 0))
                continue
            return None
        return from_bits(out)

    def opaque_bin(self, op, x, y, ty):
        if ty is None:
            return mk('obj', 0, mk('bin', op, x, y))
        return opq(self.M, ty, mk('bin', op, x, y))

    def intlike(self, x):
        return x.op in ('int', 'lin', 'iv', 'word', 'ext', 'len', 'discr') or x.op in BOOLOPS

    def unop(self, st, op, x, ty):
        M = self.M
        if x.op == 'tab':
            return tab_map(tab_filter(x, st.facts), lambda v: self.unop(st, op, v, ty)) if tab_filter(x, st.facts).op == 'tab' else self.unop(st, op, tab_filter(x, st.facts), ty)
        t = M.types[ty] if ty is not None else None
        if op == 'Not':
            if t['k'] == 'bool':
                return bnot(truth(x))
            if is_int(x):
                if t['s']:
                    return I(~x.a[0])
                return I(((1 << t['w']) - 1) ^ x.a[0])
            if not t['s']:
                return sub(I((1 << t['w']) - 1), x)
        if op == 'Neg':
            if is_int(x):
                return I(-x.a[0])
            return scale(x, -1)
        if op == 'PtrMetadata':
            v = x.a[0] if x.op == 'vref' else None
            if x.op == 'ref':
                v = self.read_loc(st, x.a[0], x.a[1])
            if v is not None and v.op in ('seq', 'view'):
                return seq_len(v)
            if v is not None and v.op == 'str':
                return strlen(v)
        return opq(M, ty, mk('un', op, x))

    def cast(self, fr, st, r, dst):
        M = self.M
        kind, o, ty, ext_ = r[1], r[2], r[3], r[4]
        x = self.operand(fr, st, o)
        if 'ReifyFnPointer' in kind:
            if ext_ >= 0:
                return mk('fn', ext_, ty)
            return x
        if 'ClosureFnPointer' in kind:
            t = M.types[self.op_ty(fr, o)]
            return mk('fn', t['insts'][2], ty)
        if 'IntToInt' in kind:
            return self.int_cast(st, x, self.op_ty(fr, o), ty)
        if 'BoxDerefTransmute' in kind or kind == 'BoxDerefTransmute':
            # source place is box.0: find the box's own location
            p = o[1]
            b = p[:-1] if len(p) > 2 else p[0]
            res = self.resolve(fr, st, b)
            if res[0] == 'loc':
                return mk('ref', res[1], res[2] + ('*',))
            if res[1].op == 'box':
                return mk('vref', res[1].a[0])
            raise Undecided('box deref of %s' % res[1].op)
        if kind in ('PtrToPtr', 'Transmute', 'Subtype') or 'PointerCoercion' in kind or 'Unsize' in kind or 'MutToConst' in kind:
            st_, dt = M.types[self.op_ty(fr, o)], M.types[ty]
            if kind == 'Transmute' and x.op == 'bptr':
                return mk('vref', x.a[0].a[0])
            if kind == 'Transmute' and st_['k'] == 'int' and dt['k'] in ('bool', 'char', 'int'):
                return x
            if kind == 'Transmute' and dt['k'] == 'int' and not self.intlike(x):
                return opq(M, ty, mk('addr', x))
            if kind == 'Transmute' and x.op in ('seq',) and dt['k'] == 'int' and ety(x) is not None:
                pass
            return x
        return opq(M, ty, mk('cast', kind, x))

    def int_cast(self, st, x, sty, dty):
        M = self.M
        if x.op == 'tab':
            x = tab_filter(x, st.facts)
            if x.op == 'tab':
                return tab_map(x, lambda v: self.int_cast(st, v, sty, dty))
        d = M.types[dty]
        if d['k'] == 'bool':
            return x
        lo, hi = int_range(d) if d['k'] == 'int' else (0, 0x10ffff)
        if is_int(x):
            if d['k'] != 'int':
                return x
            v = x.a[0] & ((1 << d['w']) - 1)
            if d['s'] and v >> (d['w'] - 1):
                v -= 1 << d['w']
            return I(v)
        if x.op in BOOLOPS:
            return x
        if not self.intlike(x):
            return opq(M, dty, mk('icast', x))
        if x.op in ('ext', 'word') and d['k'] == 'int' and not d['s']:
            # the same bits whatever is known of the ones cut off
            return ext(x, 0, d['w'])
        s = st.facts.vset(x)
        if s and s[0][0] >= lo and s[-1][1] <= hi:
            return x
        s_ = M.types[sty]
        if d['k'] == 'int' and not d['s'] and s_.get('s') == 0:
            segs = bits_of(x, s_['w'])
            if segs is not None:
                return from_bits(seg_range(segs, 0, d['w']))
        return opq(M, dty, mk('icast', x))

    # ------------------------------------------------------------ execution
    def run_fn(self, fid, args, st, root=False):
        """-> list of (state, value); args already evaluated.  A callee the
        analysis cannot follow becomes an uninterpreted call."""
        if root:
            return self._run_fn(fid, args, st, True)
        f = self.M.fns[fid]
        if not f.get('local') and self.stack and not self.M.fns[self.stack[-1]].get('local'):
            return self._run_fn(fid, args, st, False)
        depth = len(self.stack)
        nf = (len(self.fstart), len(self.frames))
        import loops
        sn = loops.snap(self)
        try:
            return self._run_fn(fid, args, st, False)
        except (OutOfBudget, RecursionError, MemoryError):
            raise
        except (Undecided, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            if self.strict:
                raise
            if DEBUG:
                import traceback
                print('GAVEUP', f['n'], '| stack', [self.M.fns[x]['n'] for x in self.stack[depth:]][-6:])
                traceback.print_exc(limit=-6)
            del self.stack[depth:]
            del self.fstart[nf[0]:]
            del self.frames[nf[1]:]
            loops.rollback(self, sn)
            self.gaveup[f['n']] = '%s: %s' % (type(e).__name__, str(e)[:120])
            return self.opaque_call(st, f['n'], f, args, None)

    def _run_fn(self, fid, args, st, root):
        M = self.M
        f = M.fns[fid]
        self.ncalls += 1
        self.visited.add(fid)
        nat = None if root and f['local'] else natives.lookup(self, f)
        if nat is not None:
            self.tick()
            r = nat(self, st, f, args)
            if r is not None:
                return r
        if fid in self.opaque or (fid in self.rec and not root and fid not in self.unfold and not self.follow):
            return self.opaque_call(st, f['n'], f, args, None, rec=True)
        if 'bb' not in f:
            return self.opaque_call(st, f['n'], f, args, None)
        if len(self.stack) > 120 + (2 * self.follow if self.follow else 0):
            return self.opaque_call(st, f['n'], f, args, None)
        if fid in self.stack and not (self.follow and self.stack.count(fid) < self.follow):
            return self.opaque_call(st, f['n'], f, args, None, rec=True)
        if self.follow and fid in self.rec:
            me = (fid, frozen(st, args))
            if me in self.calls_on:
                # the same call again, inside itself
                self.endless.append((f['n'], st.facts))
                return []
            self.calls_on.append(me)
        else:
            me = None
        self.stack.append(fid)
        try:
            cfg = M.cfg(fid)
            base = self.newcells(len(f['locals']))
            fr = Frame(fid, f, base, cfg)
            self.fstart.append(base)
            self.frames.append((base, f))
            st = st.fork()
            pre = st
            n = f['argc']
            if f.get('spread', -1) >= 0 and len(args) > 0:
                sp = f['spread']
                # arguments from sp on are passed as one tuple local
                fixed = args[:sp - 1]
                rest = args[sp - 1:]
                if len(rest) == 1 and rest[0].op == 'agg' and M.types[rest[0].a[0]]['k'] == 'tuple':
                    args = fixed + [rest[0]]
                else:
                    args = fixed + [mk('agg', f['locals'][sp], 0, tuple(rest))]
            if n == 2 and len(args) == 2 and '{closure#' in f['n'].rsplit('::', 1)[-1] and args[1].op == 'agg' \
                    and M.types[args[1].a[0]]['k'] == 'tuple' and len(args[1].a[2]) == 1 and args[1].a[0] != f['locals'][2]:
                args = [args[0], args[1].a[2][0]]
            if len(args) != n:
                # untuple rust-call arguments
                if args and args[-1].op == 'agg' and M.types[args[-1].a[0]]['k'] == 'tuple' and len(args) - 1 + len(args[-1].a[2]) == n:
                    args = list(args[:-1]) + list(args[-1].a[2])
                else:
                    raise Undecided('argument count of ' + f['n'])
            for i, a in enumerate(args):
                st.cells[base + 1 + i] = a
            outs = self.run(fr, 0, st)[2]
            res = []
            end = base + len(f['locals'])
            for s in outs:
                v = s.cells.get(base, UNDEF)
                s2 = s.fork()
                for c in range(base, end):
                    s2.cells.pop(c, None)
                if s2.cells and len(s2.cells) > 0:
                    # drop every cell created during the call
                    for c in [c for c in s2.cells if c >= base]:
                        if not self._referenced(c, v):
                            del s2.cells[c]
                res.append((s2, v))
        finally:
            self.stack.pop()
            if me is not None:
                self.calls_on.pop()
        if len(res) > 1 and not root and fid not in self.nomerge:
            res = self.merge(pre, base, res)
        return res

    def _referenced(self, c, v):
        for t in atoms_in(v):
            if t.op == 'ref' and t.a[0] == c:
                return True
        return False

    def opaque_call(self, st, name, f, args, retty, rec=False):
        """uninterpreted call"""
        M = self.M
        if not rec:
            self.unknown[name] = self.unknown.get(name, 0) + 1
        if retty is None:
            retty = None if f is None else f['locals'][0] if 'locals' in f else f.get('ret')
        st = st.fork()
        vals = []
        sinks = []
        muts = []
        for a in args:
            if a.op == 'ref':
                v = self.read_loc(st, a.a[0], a.a[1])
                if v.op == 'fmtr':
                    sinks.append(a)
                    vals.append(mk('fmt', v.a[0], v.a[1], v.a[2]))
                    continue
                muts.append((a, v))
                vals.append(mk('mutref', v))
            else:
                vals.append(a)
                for x in atoms_in(a):
                    if x.op == 'ref' and (x.a[0] in st.cells):
                        v = self.read_loc(st, x.a[0], x.a[1])
                        if v.op == 'fmtr':
                            sinks.append(x)
                        else:
                            muts.append((x, v))
        what = mk('call' if not rec else 'rec', name, *vals)
        if rec:
            self.rcalls.append((what, st.facts, self.stack[-1] if self.stack else None, self.cur_line))
        for a in sinks:
            natives.emit(self, st, a, mk('dyn', name, *vals))
        for a, v in muts:
            self.havoc(st, a, v, what)
        if sinks and retty is not None and M.types[retty]['k'] == 'adt' and M.types[retty]['p'] == 'std::result::Result':
            return [(st, natives.ok_unit(self, retty))]
        if retty is None:
            return [(st, mk('obj', -1, what))]
        return [(st, opq(M, retty, what))]

    def havoc(self, st, a, v, what):
        n = mk('after', what, v)
        self.write_loc(st, a.a[0], a.a[1], self.rename(v, n))

    def rename(self, v, n):
        """opaque value of the same shape"""
        M = self.M
        if v.op in ('agg',) and M.types[v.a[0]]['k'] == 'adt' and M.types[v.a[0]]['a'] == 'enum':
            return mk('obj', v.a[0], n)
        if v.op == 'agg':
            return mk('agg', v.a[0], v.a[1], tuple(self.rename(x, mk('fld', n, 0, i)) for i, x in enumerate(v.a[2])))
        if v.op == 'obj':
            return mk('obj', v.a[0], n)
        if v.op in ('seq', 'view'):
            return seq(ety(v), [mk('sq', n, ety(v))])
        if v.op == 'str':
            return str_of(mk('ss', n))
        if v.op in ('mapv', 'mins', 'mnew'):
            k = natives.map_types(v)
            return mk('mapv', n, k[0], k[1])
        if v.op == 'tab':
            return self.rename(v.a[1][0][1], n)
        if self.intlike(v):
            return mk('iv', n, domain(v)[0][0] if v.op != 'lin' and v.op != 'int' else 0, domain(v)[-1][1] if v.op not in ('lin', 'int') else USIZE)
        if v.op in ('box', 'vref'):
            return mk(v.op, self.rename(v.a[0], mk('deref', n)))
        if v.op == 'siter':
            e = ety(v.a[0])
            q = seq(e, [mk('sq', n, e)])
            return mk('siter', q, I(0), seq_len(q), v.a[3])
        if v.op in ('ref', 'fnref', 'fn', 'undef'):
            return v
        raise Undecided('havoc of %s' % v.op)

    def run(self, fr, bb, st, region=None, header=None):
        """-> (exits [(bb, st)], backs [st], rets [st])"""
        exits, backs, rets = [], [], []
        order = fr.cfg.order
        pre = st.fork()
        seqn = 0
        if bb in fr.cfg.loops and bb != header:
            work = [(order[bb], 0, bb, st)]
        else:
            work = []
            self.tick()
            r = self.block(fr, bb, st)
            if r is None:
                rets.append(st)
            else:
                for b2, s2 in r:
                    if region is not None and b2 == header:
                        backs.append(s2)
                    elif region is not None and b2 not in region:
                        exits.append((b2, s2))
                    else:
                        seqn += 1
                        work.append((order[b2], seqn, b2, s2))
                heapq.heapify(work)
        while work:
            _, _, bb, st = heapq.heappop(work)
            self.tick()
            if len(work) > self.maxout:
                raise Undecided('too many partitions in ' + fr.f['n'])
            if bb in fr.cfg.loops and bb != header:
                group = [st]
                while work and work[0][2] == bb:
                    group.append(heapq.heappop(work)[3])
                if len(group) > 1:
                    import loops
                    g2 = []
                    for s in group:
                        keep = loops.relevant(self, fr, bb, s)
                        g2.append((State({c: v for c, v in s.cells.items() if c in keep}, s.facts, s.hist), UNDEF))
                    group = [s for s, _ in self.merge(pre, 0, g2)]
                r = []
                for s in group:
                    r += self.do_loop(fr, bb, s)
            else:
                r = self.block(fr, bb, st)
                if r is None:
                    rets.append(st)
                    continue
            for b2, s2 in r:
                if region is not None:
                    if b2 == header:
                        backs.append(s2)
                        continue
                    if b2 not in region:
                        exits.append((b2, s2))
                        continue
                seqn += 1
                heapq.heappush(work, (order[b2], seqn, b2, s2))
        return exits, backs, rets

    def block(self, fr, bb, st):
        """execute one block on st (mutated); successors or None for return"""
        stmts, t = fr.f['bb'][bb]
        for s in stmts:
            if s[0] == '=':
                v = self.rvalue(fr, st, s[2], s[1])
                self.write(fr, st, s[1], v)
            elif s[0] == 'setd':
                self.setd(fr, st, s[1], s[2])
            else:
                raise Undecided('statement ' + s[0])
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return None
        if k == 'drop':
            return [(t[2], st)]
        if k == 'switch':
            return self.switch(fr, bb, st, t)
        if k == 'call':
            return self.call(fr, st, t)
        if k == 'assert':
            return self.do_assert(fr, st, t)
        if k in ('unreachable', 'resume', 'abort'):
            return []
        raise Undecided('terminator ' + k)

    def setd(self, fr, st, p, vi):
        v = self.read(fr, st, p)
        ty = self.place_ty(fr, p)
        t = self.M.types[ty]
        n = len(t['v'][vi]['f'])
        if v.op == 'agg' and v.a[1] == vi:
            return
        self.write(fr, st, p, mk('agg', ty, vi, tuple([UNDEF] * n)))

    def switch(self, fr, bb, st, t):
        v = self.operand(fr, st, t[1])
        f = st.facts
        if v.op == 'tab':
            v = tab_filter(v, f)
        ty = self.op_ty(fr, t[1])
        isbool = self.M.types[ty]['k'] == 'bool'
        if isbool:
            v = truth(v)
        # negative discriminants are dumped as unsigned
        tt = self.M.types[ty]
        def norm_v(n):
            if tt['k'] == 'int' and tt['s'] and n >> (tt['w'] - 1):
                return n - (1 << tt['w'])
            return n
        if is_int(v):
            tgt = t[3]
            for n, b in t[2]:
                if norm_v(n) == v.a[0]:
                    tgt = b
                    break
            self._watch(fr, tgt, [b for _, b in t[2]] + [t[3]])
            if fr.f['bb'][tgt][1][0] == 'unreachable' and not fr.f['bb'][tgt][0]:
                raise Undecided('an impossible branch is taken')
            return [(tgt, st)]
        if isbool:
            tb = fb = t[3]
            for n, b in t[2]:
                if n == 0:
                    fb = b
                else:
                    tb = b
            r = f.decide(v)
            if r is not None:
                return [(tb if r else fb, st)]
            return self.fork_bool(st, v, tb, fb)
        if v.op == 'tab':
            out = []
            rest = None
            x = v.a[0]
            cur = f.vset(x)
            for n, b in t[2]:
                s = ()
                und = False
                for q, w in v.a[1]:
                    if is_int(w):
                        if w.a[0] == norm_v(n):
                            s = iunion(s, iinter(q, cur))
                    else:
                        und = True
                if und:
                    return self.switch_general(st, v, t, norm_v)
                if s:
                    s2 = st.fork()
                    if s2.restrict(x, s):
                        out.append((b, s2))
                    cur = idiff(cur, s)
            if cur:
                s2 = st.fork()
                if s2.restrict(x, cur):
                    out.append((t[3], s2))
            return [o for o in out if fr.f['bb'][o[0]][1][0] != 'unreachable']
        c, d = lin(v)
        if len(d) == 1 and abs(list(d.values())[0]) == 1:
            S = f.vset(v)
            out = []
            groups = {}
            order = []
            for n, b in t[2]:
                n = norm_v(n)
                if ihas(S, n):
                    r = True
                    if f.lins:
                        r = f.decide(cmp_eq(v, I(n)))
                        if r is False:
                            S = idiff(S, ((n, n),))
                            continue
                    if b not in groups:
                        groups[b] = []
                        order.append(b)
                    groups[b].append((n, n))
                    S = idiff(S, ((n, n),))
            if S:
                if t[3] not in groups:
                    groups[t[3]] = []
                    order.append(t[3])
                groups[t[3]] += list(S)
            for b in order:
                if fr.f['bb'][b][1][0] == 'unreachable' and not fr.f['bb'][b][0]:
                    continue
                s2 = st.fork() if len(order) > 1 else st
                if s2.restrict(v, norm(groups[b])):
                    out.append((b, s2))
            return out
        return self.switch_general(st, v, t, norm_v)

    def switch_general(self, st, v, t, norm_v):
        out = []
        cur = st
        for n, b in t[2]:
            if v.op == 'tab':
                c = tab_map(v, lambda w: cmp_eq(w, I(norm_v(n))))
            elif self.intlike(v):
                c = cmp_eq(v, I(norm_v(n)))
            else:
                raise Undecided('switch on %s' % v.op)
            r = cur.facts.decide(c)
            if r is False:
                continue
            s2 = cur.fork()
            if s2.assume(c, True):
                out.append((b, s2))
            if r is True:
                return out
            cur = cur.fork()
            if not cur.assume(c, False):
                return out
        out.append((t[3], cur))
        return out

    def fork_bool(self, st, v, tb, fb):
        # break up conjunctions/disjunctions so every part becomes a fact
        if v.op in ('and', 'or'):
            a = v.a[0]
            b = (band if v.op == 'and' else bor)(*v.a[1:])
            out = []
            for val in (True, False):
                s = st.fork()
                if not s.assume(a, val):
                    continue
                if v.op == 'and' and not val:
                    out.append((fb, s))
                elif v.op == 'or' and val:
                    out.append((tb, s))
                else:
                    r = s.facts.decide(b)
                    if r is not None:
                        out.append((tb if r else fb, s))
                    else:
                        out += self.fork_bool(s, b, tb, fb)
            return out
        if v.op == 'tab':
            out = []
            for s_, w in v.a[1]:
                s = st.fork()
                if s.restrict(v.a[0], s_):
                    w = truth(w)
                    r = s.facts.decide(w)
                    if r is not None:
                        out.append((tb if r else fb, s))
                    else:
                        out += self.fork_bool(s, w, tb, fb)
            # merge the decided sides back together per target
            sides = {}
            simple = all(is_int(truth(w)) for _, w in v.a[1])
            if simple:
                out = []
                for val, tgt in ((TRUE, tb), (FALSE, fb)):
                    S = ()
                    for s_, w in v.a[1]:
                        if truth(w) is val:
                            S = iunion(S, s_)
                    if S:
                        s = st.fork()
                        if s.restrict(v.a[0], S):
                            out.append((tgt, s))
            return out
        out = []
        s1 = st.fork()
        if s1.assume(v, True):
            out.append((tb, s1))
        s2 = st.fork()
        if s2.assume(v, False):
            out.append((fb, s2))
        return out

    def _watch(self, fr, tgt, others):
        ret = fr.cfg.returns
        for w in fr.active:
            body = w['body']
            if tgt in body and any(o not in body and o in ret for o in others):
                w['decided'] = True

    def do_assert(self, fr, st, t):
        c = truth(self.operand(fr, st, t[1]))
        if not t[2]:
            c = bnot(c)
        key = (fr.f['n'], t[3], t[5])
        self.obligations += 1
        self.oblist.setdefault(key, True)
        r = st.facts.decide(c)
        if r is True:
            self.discharged += 1
            return [(t[4], st)]
        self.oblist[key] = False
        self.panic(fr.f['n'], t[3], t[5], st, c)
        if r is False:
            return []
        if st.assume(c, True):
            return [(t[4], st)]
        return []

    def panic(self, where, kind, line, st, cond=None):
        self.panics.append(Panic(where, kind, line, st.facts, cond, stack=tuple(self.stack)))

    def call(self, fr, st, t):
        M = self.M
        func, argo, dst, tgt, line = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(fr, st, o) for o in argo]
        dty = self.place_ty(fr, dst)
        self.cur_line = line
        outs = None
        if func[0] == 'k':
            ft = M.types[func[1]['t']]
            outs = self.call_def(fr, st, ft, args, dty, line)
        else:
            fv = self.operand(fr, st, func)
            outs = self.call_value(fr, st, fv, args, dty, line)
        res = []
        for s, v in outs:
            if tgt < 0:
                continue
            if v.op == 'diverge':
                continue
            s = s if len(outs) == 1 else s
            self.write(fr, s, dst, v)
            res.append((tgt, s))
        return res

    def call_def(self, fr, st, ft, args, dty, line):
        M = self.M
        p = ft['p']
        if natives.is_panic(p, M.fns[ft['inst']]['p'] if 'inst' in ft else ''):
            key = (fr.f['n'], 'panic:' + p.split('::')[-1], line)
            self.obligations += 1
            self.oblist[key] = False
            self.panic(fr.f['n'], 'call ' + p, line, st)
            return []
        if 'virt' in ft:
            r = self.devirt(fr, st, ft, args, dty, line)
            if r is not None:
                return r
            return self.opaque_call(st, 'dyn ' + p, None, args, dty, rec=True)
        if 'intr' in ft:
            r = natives.intrinsic(self, st, ft, args, dty)
            if r is not None:
                return r
        if 'inst' in ft:
            return self.run_fn(ft['inst'], args, st)
        return self.opaque_call(st, p, None, args, dty)

    def devirt(self, fr, st, ft, args, dty, line):
        """a call through a trait object whose value is known"""
        if args and args[0].op in ('vref', 'box') and args[0].a and args[0].a[0].op == 'tab':
            t = args[0].a[0]
            args = [mk('tab', t.a[0], tuple((c, mk(args[0].op, v, *args[0].a[1:])) for c, v in t.a[1]))] + list(args[1:])
        if args and args[0].op == 'tab':
            t = tab_filter(args[0], st.facts)
            if t.op != 'tab':
                return self.devirt(fr, st, ft, [t] + list(args[1:]), dty, line)
            out = []
            for c, v in t.a[1]:
                s = st.fork()
                if s.restrict(t.a[0], c):
                    r = self.devirt(fr, s, ft, [v] + list(args[1:]), dty, line)
                    if r is None:
                        r = self.opaque_call(s, 'dyn ' + ft['p'], None, [v] + list(args[1:]), dty, rec=True)
                    out += r
            return out
        if not args or args[0].op not in ('vref', 'ref', 'box'):
            return None
        try:
            v = natives.deep(self, st, args[0])
        except Undecided:
            return None
        if v.op not in ('agg', 'obj'):
            return None
        i = self.M.devirt.get((ft['p'], v.a[0]))
        if i is None:
            return None
        return self.run_fn(i, args, st)

    def call_value(self, fr, st, fv, args, dty, line):
        if fv.op == 'tab':
            fv = tab_filter(fv, st.facts)
        if fv.op == 'fn' and fv.a[0] >= 0:
            return self.run_fn(fv.a[0], args, st)
        if fv.op == 'tab':
            out = []
            for s_, v in fv.a[1]:
                s = st.fork()
                if s.restrict(fv.a[0], s_):
                    out += self.call_value(fr, s, v, args, dty, line)
            return out
        return self.opaque_call(st, 'fnptr', None, [fv] + args, dty)

    # ------------------------------------------------------------ merging
    def delta(self, f0, f):
        """conditions of f not already in f0: (dom items, other conds)"""
        dom = []
        if f is f0:
            return dom, ()
        for x, s in f.dom.items():
            if f0.dom.get(x) != s:
                dom.append((x, s))
        oth = []
        for l in f.lins[len(f0.lins):] if f.lins[:len(f0.lins)] == f0.lins else [l for l in f.lins if l not in f0.lins]:
            oth.append(mk('le0', l))
        for n in f.nes:
            if n not in f0.nes:
                oth.append(mk('not', n))
        for b, v in f.bools.items():
            if b not in f0.bools:
                oth.append(b if v else bnot(b))
        return dom, tuple(oth)

    def merge(self, pre, base, res):
        """merge outcomes that differ only by which case of one scrutinee applies"""
        f0 = pre.facts
        items = []
        for s, v in res:
            dom, oth = self.delta(f0, s.facts)
            items.append([s, v, dict(dom), oth])
        # canonicalise: drop deltas on atoms that do not matter? (kept)
        out = items
        while True:
            groups = {}
            for it in out:
                key = (it[3], it[0].facts.foralls, it[0].hist, frozenset(it[2]))
                groups.setdefault(key, []).append(it)
            n = len(out)
            out = []
            for key, its in groups.items():
                out += self.merge_group(f0, its)
            if len(out) in (n, 1):
                break
        if len(out) > 1:
            out = self.merge_strings(f0, pre, out)
        return [(it[0], it[1]) for it in out]

    def merge_group(self, f0, its):
        if len(its) == 1:
            return its
        # try each atom as the scrutinee: others must agree
        atoms = list(its[0][2])
        best = its
        for x in atoms:
            sub_ = {}
            for it in its:
                k = tuple(sorted(((a, s) for a, s in it[2].items() if a is not x), key=lambda p: p[0].id))
                sub_.setdefault(k, []).append(it)
            out = []
            for k, g in sub_.items():
                out += self.merge_on(f0, x, g)
            if len(out) < len(best):
                best = out
            if len(best) == 1:
                break
        if best is not its and len(best) > 1 and len(best) < len(its):
            groups = {}
            for it in best:
                groups.setdefault(frozenset(it[2]), []).append(it)
            r = []
            for g in groups.values():
                r += self.merge_group(f0, g) if len(g) < len(its) else g
            return r
        return best

    def merge_on(self, f0, x, g):
        out = []
        for it in g:
            for i, o in enumerate(out):
                m = self.merge_two(f0, x, o, it)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(it)
        return out

    def merge_two(self, f0, x, a, b):
        sa, sb = a[2][x], b[2][x]
        if iinter(sa, sb):
            return None
        ca, cb = a[0].cells, b[0].cells
        if ca.keys() != cb.keys():
            return None
        v = self.mval(x, sa, sb, a[1], b[1])
        if v is None:
            return None
        cells = None
        for c, p in ca.items():
            q = cb[c]
            if p is not q:
                r = self.mval(x, sa, sb, p, q)
                if r is None:
                    return None
                if cells is None:
                    cells = dict(ca)
                cells[c] = r
        f = a[0].facts.copy()
        u = iunion(sa, sb)
        f.dom[x] = u
        f._ec = None
        dom = dict(a[2])
        dom[x] = u
        if u == f0.vset(x):
            del dom[x]
        if u == domain(x):
            del f.dom[x]
            if x.op == 'ext':
                f.exts[x.a[0]] = tuple(e for e in f.exts.get(x.a[0], ()) if e is not x)
        st = State(cells if cells is not None else ca, f, a[0].hist)
        return [st, v, dom, a[3]]

    def mval(self, x, sa, sb, a, b):
        """merged value or None"""
        if a is b:
            return a
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
            fs = []
            for p, q in zip(a.a[2], b.a[2]):
                r = self.mval(x, sa, sb, p, q)
                if r is None:
                    return None
                fs.append(r)
            return mk('agg', a.a[0], a.a[1], tuple(fs))
        if a.op == 'vref' and b.op == 'vref' or a.op == 'box' and b.op == 'box':
            r = self.mval(x, sa, sb, a.a[0], b.a[0])
            return None if r is None else mk(a.op, r)
        if a.op == 'str' and b.op == 'str':
            return None if not self.str_mergeable(a, b) else self.str_tab(x, sa, sb, a, b)
        if self.mergeable(a) and self.mergeable(b):
            return tab(x, [(sa, a), (sb, b)])
        return None

    def str_mergeable(self, a, b):
        return True

    def str_tab(self, x, sa, sb, a, b):
        n = 0
        while n < len(a.a) and n < len(b.a) and a.a[n] is b.a[n]:
            n += 1
        # a previous merge leaves a table as the last token
        ra, rb = a.a[n:], b.a[n:]
        if len(ra) == 1 and ra[0].op == 'stab' and ra[0].a[0] is x:
            cs = list(ra[0].a[1])
        else:
            cs = [(sa, mk('str', *ra))]
        if len(rb) == 1 and rb[0].op == 'stab' and rb[0].a[0] is x:
            cs += list(rb[0].a[1])
        else:
            cs += [(sb, mk('str', *rb))]
        m = {}
        for s, v in cs:
            m[v] = iunion(m[v], s) if v in m else s
        cs = tuple(sorted(((s, v) for v, s in m.items()), key=lambda p: p[0]))
        if len(cs) == 1:
            return mk('str', *(a.a[:n] + cs[0][1].a))
        return mk('str', *(a.a[:n] + (mk('stab', x, cs),)))

    def mergeable(self, v, inner=False):
        op = v.op
        if op == 'tab':
            return all(self.mergeable(y, inner) for _, y in v.a[1])
        if op == 'agg':
            t = self.M.types[v.a[0]]
            if t['k'] == 'adt' and t['p'] == 'std::result::Result':
                return False
            inner = inner or (t['k'] == 'adt' and t['a'] == 'enum' and t.get('local'))
            return all(self.mergeable(y, inner) for y in v.a[2])
        if op in ('vref', 'box'):
            return self.mergeable(v.a[0], inner)
        if op in ('seq', 'view') and inner:
            return True
        if op in ('int', 'fn', 'iv', 'ext', 'word', 'discr', 'obj') or op in BOOLOPS:
            return True
        if op == 'str':
            return True
        return False

    def merge_strings(self, f0, pre, items):
        """merge outcomes that differ only in emitted text into one guarded choice"""
        groups = {}
        for it in items:
            groups.setdefault((it[1], it[0].facts.foralls, it[0].hist), []).append(it)
        out = []
        for key, its in groups.items():
            if len(its) == 1:
                out += its
                continue
            keys = its[0][0].cells.keys()
            ok = all(it[0].cells.keys() == keys for it in its)
            diff = []
            if ok:
                for c in keys:
                    vs = [it[0].cells[c] for it in its]
                    if any(v is not vs[0] for v in vs):
                        if all(v.op == 'str' for v in vs):
                            diff.append(c)
                        else:
                            ok = False
                            break
            if not ok or len(diff) != 1:
                out += its
                continue
            c = diff[0]
            old = pre.cells.get(c, str_of())
            n = len(old.a)
            vs = [it[0].cells[c] for it in its]
            # common prefix
            n = 0
            while all(n < len(v.a) for v in vs) and all(v.a[n] is vs[0].a[n] for v in vs):
                n += 1
            cs = []
            for it, v in zip(its, vs):
                g = [mk_in(x, s) for x, s in it[2].items()] + list(it[3])
                cs.append((tuple(sorted(set(g), key=lambda t: t.id)), mk('str', *v.a[n:])))
            tok = mk('cases', tuple(cs))
            st = State(dict(its[0][0].cells), None, its[0][0].hist)
            st.cells[c] = mk('str', *(vs[0].a[:n] + (tok,)))
            # join of facts: keep what holds on every branch
            f = f0.copy()
            f.foralls = its[0][0].facts.foralls
            common = set(its[0][2])
            for it in its[1:]:
                common &= set(it[2])
            dom = {}
            for x in common:
                u = ()
                for it in its:
                    u = iunion(u, it[2][x])
                if u != domain(x):
                    f.restrict(x, u)
                    dom[x] = u
            oth = tuple(o for o in its[0][3] if all(o in it[3] for it in its))
            for o in oth:
                f.assume(o)
            st.facts = f
            out.append([st, its[0][1], dom, oth])
        return out

    # ------------------------------------------------------------ loops
    def do_loop(self, fr, h, st):
        import loops
        return loops.do_loop(self, fr, h, st)

def opq_bool(what):
    return mk('iv', what, 0, 1)
