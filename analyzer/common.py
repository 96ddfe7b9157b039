"""Shared helpers of the checks."""
from terms import *
from values import *
from facts import Facts
from interp import *
import natives
from equiv import UNINT, OPAQUE_SYMS, leaves, assignments

class Missing(Exception):
    pass

def run_root(M, fid, opaque=(), args=None, st=None, **kw):
    """analyse one function with unconstrained arguments; (Interp, outs, args, sink cell)"""
    I_ = Interp(M, opaque=opaque, **kw)
    f = M.fns[fid]
    st = st or State({}, Facts())
    sink = None
    if args is None:
        args = []
        for i in range(f['argc']):
            ty = f['locals'][1 + i]
            t = M.types[ty]
            if t['k'] == 'ref' and M.types[t['e']]['n_'].startswith('std::fmt::Formatter'):
                sink = I_.newcells(1)
                st.cells[sink] = str_of()
                args.append(natives.mkfmt(I_, st, mk('ref', sink, ())))
            else:
                args.append(opq(M, ty, mk('sym', 'a%d' % i)))
    outs = I_.run_fn(fid, args, st, root=True)
    return I_, outs, args, sink

def fact_terms(F):
    for k in F.dom:
        yield k
    for l in F.lins:
        yield l
    for b in F.bools:
        yield b
    for c, b, conds in F.foralls:
        yield c
        yield from conds

_fz = {}
def fuzzy(t, allow=frozenset(), fine=()):
    """does the term contain something whose possible values the analysis over-approximates?"""
    k = (t, allow, fine)
    r = _fz.get(k)
    if r is None:
        r = False
        for x in atoms_in(t):
            if x in allow or x.op in fine:
                continue
            if x.op in UNINT and not (x.op == 'rec' and str(x.a[0]).startswith('dyn ')):
                r = True
                break
            if x.op == 'elem' and x.a[0].op in ('seq', 'view'):
                r = True
                break
            if x.op == 'sym' and isinstance(x.a[0], str) and x.a[0].startswith(OPAQUE_SYMS):
                r = True
                break
        _fz[k] = r
    return r

def witnesses(F, allow=frozenset(), fine=()):
    """values of the numbers that the over-approximated facts are computed from, with the facts
    that remain; none where there is more to the facts than arithmetic"""
    fz = [t for t in fact_terms(F) if fuzzy(t, allow, fine)]
    xs = leaves(fz)
    if not xs or len(xs) > 4:
        return
    import loops
    for m in assignments(F, xs, fz):
        if any(not ihas(F.vset(x), v.a[0]) for x, v in m.items()):
            continue
        G = loops.subst_facts(F, m)
        if G is not None and not G.dead and not any(fuzzy(t, allow, fine) for t in fact_terms(G)):
            yield m, G

def unclear(F, allow=frozenset(), fine=(), test=None):
    """do the facts hold something over-approximated, so that they may hold for no input at all?
    Facts about computed numbers are settled by naming values for which they hold, and for which
    the violation (test) is still there."""
    if not any(fuzzy(t, allow, fine) for t in fact_terms(F)):
        return False
    for m, G in witnesses(F, allow, fine):
        if test is None or test(m, G):
            return False
    return True

def panic_status(p, allow=frozenset()):
    """'n' for a panic whose whole path condition is understood, else 'u'"""
    F = p.facts
    if p.cond is not None and any(x.op == 'iv' and x.a[0].op == 'fld' and any(y.op == 'rec' for y in atoms_in(x.a[0])) for x in atoms_in(truth(p.cond))):
        return 'u'      # a number kept in a value that foreign code hands back
    if p.cond is not None:
        # a counter whose bound was lost in a loop: only absurd values of it panic
        xs = [x for x in atoms_in(truth(p.cond)) if x.op == 'iv' and x.a[0].op == 'sym' and str(x.a[0].a[0]).startswith('lv ')]
        if xs:
            G = F.copy()
            if not all(G.restrict(x, ((-LENMAX, LENMAX),)) is not False for x in xs) or G.dead or G.decide(truth(p.cond)) is True:
                return 'u'
    if p.cond is not None and fuzzy(p.cond, allow):
        F = F.copy()
        if not F.assume(truth(p.cond), False) or F.dead or not any(fuzzy(t, allow) for t in fact_terms(F)):
            return 'u'
    return 'u' if unclear(F, allow) else 'n'

def panic_key(M, p):
    n = p.where
    return '%s:%s' % (short(n), p.kind)

def short(n):
    return n.replace('magmaflow::', '').replace('std::', '')

def report_panics(M, I_, rep, props, what, allow=frozenset()):
    for p in I_.panics:
        st = panic_status(p, allow)
        rep.add(props, st, 'panic:%s:%s' % (what, panic_key(M, p)), 'a panic (%s) is reachable in %s%s' % (p.kind, short(p.where), ' when not ' + show(p.cond, 5)[:200] if p.cond is not None else ''))
    for (fn, kind, line), ok in I_.oblist.items():
        if ok:
            rep.add(props, 'y', 'panic-free:%s:%s' % (short(fn), kind))
    rep.add(props, 'y' if not I_.unknown else 'u', 'interpreted:%s' % what, 'calls the analysis does not interpret: %s' % ', '.join(sorted(I_.unknown))[:200])
