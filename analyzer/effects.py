"""C20 (bounded call depth) and C21 (results depend on the arguments alone): call graph, dataflow and effects of the compiled MIR."""
import re
from common import *
from mir import place_local, op_places, rv_ops, rv_places

def tarjan(g):
    idx, low, st, on, out = {}, {}, [], set(), []
    n = [0]
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(g[root]))]
        idx[root] = low[root] = n[0]; n[0] += 1
        st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(g[w])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = set()
                while True:
                    w = st.pop(); on.discard(w); c.add(w)
                    if w == v:
                        break
                if len(c) > 1 or v in g[v]:
                    out.append(c)
    return out

def fn_consts(x, out):
    """types of all constants in a piece of MIR"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict) and 't' in x[1]:
            out.append(x[1]['t'])
            return
        for y in x:
            fn_consts(y, out)

def dyn_in(M, t):
    """the trait of the trait object behind a pointer"""
    for _ in range(6):
        ty = M.types[t]
        if ty['k'] == 'dyn':
            return ty['p']
        if ty['k'] in ('ref', 'ptr') and isinstance(ty.get('e'), int):
            t = ty['e']
        elif ty['k'] == 'adt' and ty.get('g') and isinstance(ty['g'][0], int):
            t = ty['g'][0]
        else:
            return None
    return None

def target_of(M, t):
    ty = M.types[t]
    if ty['k'] in ('ref', 'ptr') and isinstance(ty.get('e'), int):
        return ty['e']
    if ty['k'] == 'adt' and ty.get('g') and isinstance(ty['g'][0], int):
        return ty['g'][0]
    return None

def made_dyn(M):
    """trait -> the types of which trait objects are made anywhere in the program (None: not known)"""
    made, up = {}, {}
    for f in M.fns.values():
        for st, _ in f.get('bb') or ():
            for s in st:
                if s[0] != '=' or s[2][0] != 'cast' or 'Unsize' not in s[2][1]:
                    continue
                tr = dyn_in(M, s[2][3])
                if tr is None:
                    continue
                o = s[2][2]
                src = None
                if o[0] in ('c', 'm') and isinstance(o[1], int):
                    src = f['locals'][o[1]]
                elif o[0] == 'k':
                    src = o[1]['t']
                old = dyn_in(M, src) if src is not None else None
                if old is not None:
                    up.setdefault(tr, set()).add(old)
                elif src is None or target_of(M, src) is None:
                    made[tr] = None
                elif made.get(tr, 1) is not None:
                    made.setdefault(tr, set()).add(target_of(M, src))
    for _ in range(4):
        for tr, olds in up.items():
            for o in olds:
                if o == tr:
                    continue
                if made.get(o, 1) is None:
                    made[tr] = None
                elif made.get(tr, 1) is not None:
                    made.setdefault(tr, set()).update(made.get(o) or ())
    return made

class Graph:
    """who can call whom: every function value mentioned counts as a call, a closure belongs to the function that makes it, a call through a trait object reaches the types that are turned into such an object somewhere"""
    def __init__(self, M):
        self.M = M
        self.g, self.consts = {}, {}
        made = made_dyn(M)
        self.loose = {}           # calls with several possible targets
        for fid, f in M.fns.items():
            out = set()
            cs = []
            if 'bb' in f:
                fn_consts(f['bb'], cs)
            self.consts[fid] = [t for t in cs if M.types[t]['k'] == 'fndef']
            for t in self.consts[fid]:
                ty = M.types[t]
                if 'inst' in ty:
                    out.add(ty['inst'])
                elif 'virt' in ty:
                    tr = dyn_in(M, ty['g'][0]) if ty.get('g') else None
                    ok = made.get(tr)
                    vs = {i for (p_, q), i in M.devirt.items() if p_ == ty['p'] and (ok is None or q in ok)}
                    if len(vs) > 1:
                        self.loose.setdefault(fid, set()).update(vs)
                    out |= vs
            self.g[fid] = out
        names = {}
        for fid in M.fns:
            names.setdefault(M.fns[fid]['n'], []).append(fid)
        for fid in M.fns:
            n = M.fns[fid]['n']
            if n.endswith('}') and '::{closure#' in n:
                for q in names.get(n[:n.rindex('::{closure#')], ()):
                    self.g[q].add(fid)

    def reach(self, roots):
        seen, todo = set(roots), list(roots)
        while todo:
            for y in self.g.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

def walk_types(M, t, seen):
    """all types reachable inside a type"""
    if not isinstance(t, int) or t in seen or t < 0:
        return
    seen.add(t)
    ty = M.types[t]
    for k in ('e',):
        if isinstance(ty.get(k), int):
            walk_types(M, ty[k], seen)
    if isinstance(ty.get('f'), list):
        for x in ty['f']:
            if isinstance(x, int):
                walk_types(M, x, seen)
    for x in ty.get('g') or ():
        if isinstance(x, int):
            walk_types(M, x, seen)
    for v in ty.get('v') or ():
        if isinstance(v, dict):
            for f in v['f']:
                walk_types(M, f[1], seen)

def recursive_adts(M):
    out = set()
    for n, t in M.adts:
        ty = M.types[t]
        if ty['k'] != 'adt' or not ty.get('local'):
            continue
        inner_ = set()
        for v in ty.get('v') or ():
            for f in v['f']:
                walk_types(M, f[1], inner_)
        if t in inner_:
            out.add(t)
    return out

UNB = ('std::vec::Vec', 'std::string::String', 'std::collections::', 'std::slice::', 'std::vec::', 'std::str::', 'std::iter::', 'std::boxed::Box<dyn', 'std::io::')

def unbounded(M, t, rec):
    seen = set()
    walk_types(M, t, seen)
    for x in seen:
        ty = M.types[x]
        if ty['k'] in ('slice', 'str', 'dyn'):
            return True
        if ty['k'] == 'adt' and any(ty['p'].startswith(u) for u in UNB):
            return True
        if x in rec:
            return True
    return False

def proper_locals(M, f, rec):
    """(part, proper): locals that always hold a part / a proper part of a parameter"""
    n = len(f['locals'])
    assigns = {i: [] for i in range(n)}
    for st, t in f['bb']:
        for s in st:
            if s[0] == '=':
                assigns[place_local(s[1])].append((s[1], s[2]))
        if t[0] == 'call':
            assigns[place_local(t[3])].append((t[3], ('call', t)))
    params = set(range(1, f['argc'] + 1))
    def hasfield(p):
        return not isinstance(p, int) and any(isinstance(e, list) and e[0] in ('f', 'i', 'c', 's') or e == 'i' for e in p[1:])
    # greatest fixpoint would need care with cycles; start from "unknown" and descend
    TOP = 3            # no assignment seen yet
    lv = {i: TOP for i in range(n)}
    for i in params:
        lv[i] = 1
    # 2 proper part, 1 part (maybe the whole), 0 anything
    def plv(p):
        l = lv[place_local(p)]
        if l == TOP:
            return TOP
        if l >= 1 and hasfield(p):
            return 2
        return l
    def olv(o):
        ps = op_places(o)
        if not ps:
            return 0
        return plv(ps[0])
    changed = True
    while changed:
        changed = False
        for i in range(n):
            if i in params and not assigns[i]:
                continue
            vals = [1] if i in params else []
            for place, rv in assigns[i]:
                if not isinstance(place, int) and '*' in place[1:]:
                    continue
                if rv[0] == 'call':
                    t = rv[1]
                    a = [olv(o) for o in t[2]]
                    a = [x for x in a if x]
                    v = max([x for x in a if x != TOP], default=TOP if a else 0)
                    # a part of a part
                    vals.append(v)
                else:
                    ops = rv_places(rv)
                    if rv[0] == 'agg':
                        xs = [plv(p) for p in ops]
                        xs = [x for x in xs if x]
                        vals.append(min([x for x in xs if x != TOP], default=TOP if xs else 0))
                    elif len(ops) >= 1:
                        vals.append(min(plv(p) for p in ops))
                    else:
                        vals.append(0)
            if not vals:
                continue
            v = min(vals)
            if v != lv[i] and v < lv[i]:
                lv[i] = v
                changed = True
    return lv, plv

def check20(M, rep):
    G = Graph(M)
    rec = recursive_adts(M)
    comps = [c for c in tarjan(G.g) if any(M.fns[x]['local'] for x in c)]
    bulk = [fid for fid, f in M.fns.items() if f['local'] and (re.search(r'::(read_module|validate)$', f['n']) or re.search(r'RawModule as (std|core)::fmt::Display>::fmt$', f['n']))]
    bulkreach = G.reach(bulk)
    sgroup, sk = set(), None
    n = {'functions_in_call_graph': len(G.g), 'edges': sum(len(v) for v in G.g.values()), 'recursive_groups': [], 'roots': len(bulk), 'functions_reached_by_reading_validating_printing': len([x for x in bulkreach if M.fns[x]['local']])}
    rep.notes['C20'] = n
    search = None
    try:
        import cfgcheck
        from report import Report
        C = cfgcheck.Cfg(M, Report())
        C.entry()
        R = C.run()
        R.roles()
        search = (C, R)
        sgroup = set(C.group) | {C.sid}
    except Exception as e:
        sk = str(e)[:150]
    for fid in sorted(bulk):
        rep.add({'C20'}, 'y', 'root:%s' % short(M.fns[fid]['n']))
    for c in sorted(comps, key=min):
        loc = sorted(x for x in c if M.fns[x]['local'])
        name = short(M.fns[loc[0]]['n'])
        n['recursive_groups'].append(' / '.join(sorted({short(M.fns[x]['n']) for x in loc}))[:200])
        if search and c & sgroup:
            search_calls(M, rep, search)
            continue
        st, why = descent(M, G, c, rec)
        if st == 'y':
            # nesting of a recursive structure; the bulk operations must not depend on it
            if c & bulkreach:
                rep.add({'C20'}, 'u', 'recursion:%s' % name, '%s recurses over a nested structure on behalf of an operation on whole modules' % name)
            else:
                rep.add({'C20'}, 'y', 'recursion:%s' % name)
            continue
        if st == 'b':
            rep.add({'C20'}, 'y', 'recursion:%s' % name)
            continue
        who = ' -> '.join(short(M.fns[x]['n']) for x in loc[:4])
        big = [x for x in loc if any(unbounded(M, t, set()) for t in M.fns[x]['locals'][1:1 + M.fns[x]['argc']])] if all('locals' in M.fns[x] for x in loc) else []
        tight = {x: {y for y in G.g[x] & c if y not in G.loose.get(x, ())} for x in c}
        if big and c & bulkreach and tarjan(tight):
            rep.add({'C20'}, 'n', 'recursion:%s' % name, 'the depth of calls grows with the input: %s calls itself (%s) on data of unbounded size (%s)' % (name, who, why))
        elif big and st == 'n':
            rep.add({'C20'}, 'u', 'recursion:%s' % name, '%s calls itself: %s' % (who, why))
        else:
            rep.add({'C20'}, 'u', 'recursion:%s' % name, '%s calls itself: %s' % (who, why))
    if search is None:
        rep.add({'C20'}, 'u', 'stack:search', 'the recursive search was not recognised: %s' % sk)
    # values whose destruction is recursive, made while handling whole modules
    for t in sorted(rec):
        used = [x for x in bulkreach if M.fns[x]['local'] and 'bb' in M.fns[x] and t in [r[1] if isinstance(r[1], int) else -1 for _ in (0,) for r in aggs(M, M.fns[x])]]
        rep.add({'C20'}, 'u' if used else 'y', 'drop:%s' % M.types[t]['n_'], 'reading, validating or printing a module builds values of the nested type %s' % M.types[t]['n_'])

def aggs(M, f):
    for st, _ in f['bb']:
        for s in st:
            if s[0] == '=' and s[2][0] == 'agg':
                k = s[2][1]
                yield ('agg', k[1] if isinstance(k, list) and len(k) > 1 else k)

def descent(M, G, c, rec):
    """'y' every call inside the group descends into a nested structure, 'b' the depth is bounded by a constant"""
    calls = 0
    bad = None
    for x in sorted(c):
        f = M.fns[x]
        if not f['local'] or 'bb' not in f:
            continue
        lv, plv = proper_locals(M, f, rec)
        direct = set()
        for bb, (st, t) in enumerate(f['bb']):
            if t[0] != 'call' or t[1][0] != 'k':
                continue
            ty = M.types[t[1][1]['t']]
            if ty['k'] != 'fndef' or not ('inst' in ty and ty['inst'] in c):
                continue
            calls += 1
            direct.add(ty['inst'])
            ok = False
            for o in t[2]:
                for p in op_places(o):
                    if plv(p) == 2 and nested(M, f, p, rec):
                        ok = True
            if not ok:
                bad = bad or 'the call in %s at line %s passes no part of a nested structure' % (short(f['n']), t[5] if len(t) > 5 else '?')
        for y in G.g[x] & c:
            if y not in direct and not ('{closure#' in M.fns[y]['n']):
                # a function value, or a call through a trait object
                bad = bad or '%s is used as a value in %s' % (short(M.fns[y]['n']), short(f['n']))
    if calls and bad is None:
        return 'y', ''
    # a counter with a constant bound
    if bounded_depth(M, c):
        return 'b', ''
    return 'n', bad or 'no call'

def nested(M, f, p, rec):
    """the operand can hold a value of a recursive type"""
    t = f['locals'][place_local(p)]
    seen = set()
    walk_types(M, t, seen)
    return bool(seen & rec)

def bounded_depth(M, c):
    loc = [x for x in c if M.fns[x]['local']]
    try:
        done = False
        for x in loc:
            f = M.fns[x]
            if '{closure#' in f['n'] or 'locals' not in f:
                return False
            ints = [i for i, t in enumerate(f['locals'][1:1 + f['argc']]) if M.types[t]['k'] == 'int']
            if not ints:
                return False
            I_, outs, args, _ = run_root(M, x, unfold=set(c))
            for r, F, _, line in I_.rcalls:
                if r.a[0] != f['n']:
                    return False
                done = True
                if not any(F.decide(cmp_le(add(args[i], I(1)), r.a[1 + i])) is True and F.vset(args[i]) and F.vset(args[i])[-1][1] < 4096 for i in ints):
                    return False
        return done
    except Exception:
        return False

KINDS = {'branch target': 'branch-target', 'merge block': 'merge-block'}

def search_calls(M, rep, search):
    C, R = search
    seen = {}
    for r, F, fn, line in R.I.rcalls:
        if r.a[0] != C.S:
            continue
        kind = R.callkind(r, F)
        same = R.same_ctx(r)
        key = 'stack:search:%s' % (kind or 'call').replace(' ', '-')
        vag = C.vague(*r.a[1:])
        if not same or kind in ('true target', 'false target', 'loop-body'):
            st = 'y'
        elif kind in KINDS and not vag:
            st = 'n'
        else:
            st = 'u'
        if seen.get(key) == 'n':
            continue
        seen[key] = st
        rep.add({'C20'}, st, key, 'find_control_flow: %s calls itself to continue at the %s inside the same construct (line %s), so its depth grows with the number of blocks in sequence' % (short(C.S), kind, line))
    if not seen:
        rep.add({'C20'}, 'y', 'stack:search')

# ---------------------------------------------------------------- C21
IMPURE = [
    (r'^(std|core)::time::(SystemTime|Instant)', 'reads the clock'),
    (r'^std::env::', 'reads the environment'),
    (r'^std::fs::', 'accesses the file system'),
    (r'^(std|core)::(net|os)::', 'accesses the system'),
    (r'^std::process::(Command|id|abort|exit|Child)', 'affects the process'),
    (r'^std::thread::', 'depends on threads'),
    (r'^std::io::(stdio::)?(_print|_eprint|stdin|stdout|stderr)', 'performs input or output'),
    (r'^std::io::(stdio::)?(Stdin|Stdout|Stderr)', 'performs input or output'),
    (r'RandomState::new$|<std::hash::RandomState as std::hash::BuildHasher>::|^std::hash::BuildHasher::hash_one$', 'uses a randomly seeded hash'),
    (r'::new_pointer$|::fmt::Pointer', 'prints an address'),
    (r'^(std|core)::sync::atomic::', 'uses shared state'),
    (r'^(std|core)::intrinsics::atomic', 'uses shared state'),
]
IFFY = [
    (r'ptr::(eq|addr_eq|hash)$|::ptr_eq$|::addr$', 'compares addresses'),
    (r'^std::sync::(OnceLock|LazyLock|Once|Mutex|RwLock)|^std::cell::(OnceCell|LazyCell)', 'keeps a cache'),
    (r'^(std|core)::any::type_name|TypeId::of$', None),
]
HASHITER = re.compile(r'(?:^|::)(HashMap|HashSet)(?:::<.*>|<.*>)?::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$')
UNORDERED = re.compile(r'::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|any|all|count|sum|product|max|min|max_by|min_by|max_by_key|min_by_key|is_subset|is_superset|is_disjoint)$')

def strip_args(p):
    """a path without its generic arguments"""
    p = p.replace('magmaflow::', '')
    while True:
        q = re.sub(r'::<[^<>]*>', '', p)
        if q == p:
            return p
        p = q

def callee_path(M, t):
    ty = M.types[t]
    if 'inst' in ty:
        f = M.fns[ty['inst']]
        return f.get('p') or f['n'], f['n']
    return ty.get('p', ''), ty.get('p', '')

def check21(M, rep):
    nf = nc = 0
    for u in M.unsafe:
        rep.add({'C21'}, 'n', 'unsafe:%s' % str(u)[:60].replace(' ', '_'), 'unsafe code: %s' % (u,))
    if not M.unsafe:
        rep.add({'C21'}, 'y', 'unsafe:none')
    for st in M.statics:
        nm, ty, span = st[0], st[1], st[2]
        key = 'static:%s' % nm
        if re.search(r'Atomic|Mutex|RwLock|Cell<|RefCell|UnsafeCell', ty) and not re.search(r'OnceCell|OnceLock|LazyLock|LazyCell|Once\b', ty):
            rep.add({'C21'}, 'n', key, 'state is kept between calls: static %s: %s at %s' % (nm, ty, span))
        elif re.search(r'Once|Lazy|Cell|thread', ty):
            rep.add({'C21'}, 'u', key, 'static %s: %s may keep state between calls' % (nm, ty))
        else:
            rep.add({'C21'}, 'y', key)
    for fid in sorted(M.fns):
        f = M.fns[fid]
        if not f['local'] or 'bb' not in f:
            continue
        nf += 1
        name = short(f['n'])
        cs = []
        fn_consts(f['bb'], cs)
        bad = {}
        for t in cs:
            ty = M.types[t]
            if ty['k'] != 'fndef':
                continue
            nc += 1
            ps = callee_path(M, t)
            if 'inst' in ty and M.fns[ty['inst']]['local']:
                continue
            for rx, why in IMPURE:
                if any(re.search(rx, strip_args(p)) for p in ps):
                    bad[why] = ('n', ps[0])
            for rx, why in IFFY:
                if why and any(re.search(rx, p) for p in ps):
                    bad.setdefault(why, ('u', ps[0]))
        for st, t in f['bb']:
            if t[0] == 'asm':
                bad['uses assembly'] = ('n', 'asm')
            for s in st:
                if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in str(s[2][1]):
                    bad['turns an address into a number'] = ('n', 'a pointer cast')
        hi = hash_iter(M, f)
        if hi:
            bad['lets the iteration order of a hash table reach its result'] = hi
        for why, (st, what) in sorted(bad.items()):
            rep.add({'C21'}, st, 'effect:%s:%s' % (name.replace(' ', '_'), why.split()[-1]), '%s %s (%s)' % (name, why, what))
        if not bad:
            rep.add({'C21'}, 'y', 'effect:%s' % name)
    rep.notes['C21'] = {'functions_visited': nf, 'function_references': nc, 'statics': len(M.statics), 'unsafe_blocks': len(M.unsafe), 'uninstantiated_generics': len(M.generic)}

def is_hash(M, t):
    seen = set()
    while M.types[t]['k'] in ('ref', 'ptr'):
        t = M.types[t]['e']
    ty = M.types[t]
    return ty['k'] == 'adt' and re.search(r'^(std::collections|hashbrown)::.*(HashMap|HashSet)$|^std::collections::hash', ty['p']) is not None

def hash_iter(M, f):
    """('n'|'u', what) when the order of a hash table can reach the result"""
    src = None
    soft = False
    taint = set()
    for st, t in f['bb']:
        if t[0] != 'call' or t[1][0] != 'k':
            continue
        ty = M.types[t[1][1]['t']]
        if ty['k'] != 'fndef':
            continue
        ps = callee_path(M, t[1][1]['t'])
        if any(UNORDERED.search(strip_args(p)) for p in ps):
            soft = True
        hit = any(HASHITER.search(p) for p in ps)
        if any(p.endswith('::into_iter') for p in ps) and t[2] and op_places(t[2][0]):
            p = op_places(t[2][0])[0]
            if isinstance(p, int) and is_hash(M, f['locals'][p]) and not re.search(r'::(Iter|IntoIter|Keys|Values|Drain)$', M.types[f['locals'][p]].get('p', '')):
                hit = True
        if hit:
            src = ps[0]
            taint.add(place_local(t[3]))
    if src is None:
        return None
    # which locals the items reach
    out = False
    changed = True
    refs = {}
    while changed:
        changed = False
        def add_(l):
            nonlocal changed
            if l not in taint:
                taint.add(l)
                changed = True
        for st, t in f['bb']:
            for s in st:
                if s[0] != '=':
                    continue
                if s[2][0] in ('addr', 'ref'):
                    refs.setdefault(place_local(s[1]), set()).add(place_local(s[2][2]))
                if any(place_local(p) in taint for p in rv_places(s[2])):
                    add_(place_local(s[1]))
            if t[0] == 'call':
                ls = [place_local(p) for o in t[2] for p in op_places(o)]
                if any(l in taint for l in ls):
                    d = place_local(t[3])
                    dt = M.types[f['locals'][d]]
                    if not (dt['k'] == 'adt' and re.search(r'HashMap|HashSet|BTree|BinaryHeap', dt['p'])) and dt['k'] != 'bool':
                        add_(d)
                    for l in ls:
                        lt = M.types[f['locals'][l]]
                        if lt['k'] == 'ref' and lt.get('m') and not is_map(M, lt['e']):
                            add_(l)
                            for r in refs.get(l, ()):
                                add_(r)
    if 0 in taint or any(i in taint for i in range(1, f['argc'] + 1)):
        return ('u' if soft else 'n'), src
    return 'u', src

def is_map(M, t):
    ty = M.types[t]
    return ty['k'] == 'adt' and re.search(r'HashMap|HashSet|BTree|BinaryHeap', ty['p']) is not None
