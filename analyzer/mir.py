"""Loader for the MIR dump: types, constants, functions, CFG helpers."""
import json
from terms import *

class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.allocs = d['allocs']
        self.fns = {f['id']: f for f in d['fns']}
        self.roots = d['roots']
        self.generic = d['generic']
        self.drops = d['drops']
        self.impls = d['impls']
        self.statics = d['statics']
        self.adts = d['adts']
        self.unsafe = d.get('unsafe', [])
        self.devirt = {(p, t): i for p, t, i in d.get('devirt', [])}
        self.by_name = {}
        for f in d['fns']:
            self.by_name.setdefault(f['n'], f['id'])
        self.by_path = {}
        for f in d['fns']:
            self.by_path.setdefault(f['p'], []).append(f['id'])
        self._kc = {}
        self._cfg = {}
        self._aty = {}

    # -- lookups
    def fn(self, name):
        """id of the non-generic function with this name, or None"""
        return self.by_name.get(name)

    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.types[i]['n_']

    def adt_named(self, suffix):
        """type id of the local, non-generic ADT with this path suffix"""
        r = self._aty.get(suffix)
        if r is None:
            c = [t for n, t in self.adts if n == suffix or n.endswith('::' + suffix)]
            r = c[0] if len(c) == 1 else -1
            self._aty[suffix] = r
        return r

    def variant(self, ty, name):
        for i, v in enumerate(self.types[ty]['v']):
            if v['n'] == name:
                return i
        return None

    def is_adt(self, i, path):
        t = self.types[i]
        return t['k'] == 'adt' and t['p'] == path

    # -- cfg
    def cfg(self, fid):
        c = self._cfg.get(fid)
        if c is None:
            c = Cfg(self.fns[fid])
            self._cfg[fid] = c
        return c

def place_local(p):
    return p if isinstance(p, int) else p[0]

def op_places(o):
    return [o[1]] if o[0] in ('c', 'm') else []

def rv_ops(r):
    k = r[0]
    if k in ('use', 'repeat'):
        return [r[1]]
    if k == 'agg':
        return r[2]
    if k in ('bin', 'chk'):
        return [r[2], r[3]]
    if k == 'un':
        return [r[2]]
    if k == 'cast':
        return [r[2]]
    return []

def rv_places(r):
    out = []
    for o in rv_ops(r):
        out += op_places(o)
    if r[0] in ('addr', 'ref'):
        out.append(r[2])
    elif r[0] in ('discr', 'len'):
        out.append(r[1])
    return out

def uses_of_place(p):
    u = []
    if not isinstance(p, int):
        for e in p[1:]:
            if isinstance(e, list) and e[0] == 'i':
                u.append(e[1])
    return u

class Cfg:
    def __init__(self, f):
        self.f = f
        bbs = f['bb']
        n = len(bbs)
        self.succ = [self._succ(t) for _, t in bbs]
        # reachable
        seen = {0}
        order = []
        st = [(0, iter(self.succ[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.order = idx
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
        # blocks that can reach a return
        ret = {b for b in self.rpo if bbs[b][1][0] == 'return'}
        st = list(ret)
        while st:
            x = st.pop()
            for p in self.pred[x]:
                if p not in ret:
                    ret.add(p)
                    st.append(p)
        self.returns = ret
        self._live = None

    def _succ(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        if k == 'assert':
            return [t[4]]
        return []

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom[b]
            if n == b:
                return False
            b = n

    def live_at(self, bb):
        if self._live is None:
            self._compute_live()
        return self._live[bb]

    def _compute_live(self):
        bbs = self.f['bb']
        gen = {}
        kill = {}
        for b in self.rpo:
            g, k = set(), set()
            def use(l):
                if l not in k:
                    g.add(l)
            def useplace(p):
                use(place_local(p))
                for u in uses_of_place(p):
                    use(u)
            def defplace(p):
                if isinstance(p, int):
                    k.add(p)
                else:
                    useplace(p)
            for s in bbs[b][0]:
                if s[0] == '=':
                    for p in rv_places(s[2]):
                        useplace(p)
                    defplace(s[1])
                elif s[0] == 'setd':
                    useplace(s[1])
            t = bbs[b][1]
            if t[0] == 'switch':
                for p in op_places(t[1]):
                    useplace(p)
            elif t[0] == 'call':
                for o in [t[1]] + t[2]:
                    for p in op_places(o):
                        useplace(p)
                defplace(t[3])
            elif t[0] == 'assert':
                for p in op_places(t[1]):
                    useplace(p)
            elif t[0] == 'return':
                use(0)
            gen[b], kill[b] = g, k
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                n = gen[b] | (out - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = live
