"""The library's own extended instruction set (GLSL.std.450)."""
from common import *
from equiv import Eq, split, comb

GLSL = 'GLSL.std.450'
OPS = {13: 'Sin', 14: 'Cos'}

def set_methods(M):
    """methods of the crate's own implementations of the instruction set trait"""
    return [i for i, f in sorted(M.fns.items()) if f.get('local') and ' as magmaflow::spv::ExtInstSet>::' in f['n'] and f['n'].startswith('<')]

def by_method(M, name):
    return [i for i in set_methods(M) if M.fns[i]['n'].endswith('::' + name)]

def text_of(v):
    while v.op in ('vref', 'box'):
        v = v.a[0]
    if v.op == 'str' and all(t.op == 'txt' for t in v.a):
        return ''.join(t.a[0] for t in v.a)
    return None

def named(M, rep, P, glsl):
    """the instructions of the set give themselves and their standard names"""
    inst = M.adt_named('glsl450::Inst')
    for fid, f in sorted(M.fns.items()):
        if not f.get('local') or 'bb' not in f:
            continue
        n = f['n']
        if n.endswith('as magmaflow::spv::Op>::get_name') and '::glsl450::' in n.split(' as ')[0]:
            want = n.split(' as ')[0].split('::')[-1]
            if want not in OPS.values():
                rep.add(P, 'u', 'glsl:%s:name' % want, 'no standard name known for %s' % want)
                continue
            _, outs, _, _ = run_root(M, fid)
            for s, v in outs:
                t = text_of(v)
                rep.add(P, 'y' if t == want else 'u' if t is None or any(fuzzy(x) for x in fact_terms(s.facts)) else 'n',
                        'glsl:%s:name' % want, 'the GLSL instruction %s is named %s' % (want, t))
        if n.endswith('Inst as magmaflow::spv::ExtInst>::get_op') and '::glsl450::' in n:
            _, outs, args, _ = run_root(M, fid)
            a = args[0]
            while a.op in ('vref', 'box'):
                a = a.a[0]
            eq = Eq(M)
            for s, v in outs:
                for F, w in eq.resolve(s.facts, strip(v)):
                    w = strip(w)
                    for i, var in enumerate(M.types[inst]['v']):
                        G = F.copy()
                        if not G.assume(mk_in(mk('discr', a, len(M.types[inst]['v'])), ((i, i),))):
                            continue
                        x = opq(M, var['f'][0][1], mk('fld', a.a[1], i, 0))
                        r = eq.eq(G, w, x) if w.op in ('agg', 'obj') and w.a[0] == x.a[0] else 'n' if w.op in ('agg', 'obj') else 'u'
                        if r == 'n' and (fuzzy(w) or any(fuzzy(t) for t in fact_terms(G))):
                            r = 'u'
                        rep.add(P, r, 'glsl:%s:op' % var['n'], 'the instruction inside %s is not the one reported' % var['n'])
        if n.startswith('<' + glsl + ' as ') and n.endswith('ExtInstSet>::duplicate'):
            _, outs, args, _ = run_root(M, fid)
            a = strip(args[0])
            for s, v in outs:
                w = strip(v)
                r = 'y' if w.op in ('agg', 'obj') and w.a[0] == a.a[0] else 'u' if w.op not in ('agg', 'obj') or any(fuzzy(t) for t in fact_terms(s.facts)) else 'n'
                rep.add(P, r, 'glsl:duplicate', 'a duplicate of the GLSL instruction set is another set')

def strip(v):
    while v.op in ('vref', 'box', 'bptr') and v.a:
        v = v.a[0]
    return v

def made(M, fid, bt):
    """(words, (outcomes, number)) of reading an instruction from a block made from a slice of words"""
    for i, f in M.fns.items():
        if f.get('bb') and f['locals'][0] == bt and f['argc'] == 1 and M.types[f['locals'][1]]['k'] == 'ref':
            I_, outs, args, _ = run_root(M, i)
            if len(outs) != 1 or outs[0][1].op != 'agg':
                continue
            words = args[0]
            while words.op == 'vref':
                words = words.a[0]
            if words.op != 'seq':
                continue
            _, _, a0, _ = run_root(M, fid)
            a = list(a0)
            a[2] = outs[0][1]
            _, outs2, a, _ = run_root(M, fid, args=a, st=outs[0][0])
            return words, (outs2, a[1])
    return None, None

def run(M, rep):
    P = {'C09'}
    rd, nm = by_method(M, 'read_instruction'), by_method(M, 'get_name')
    glsl = None
    for fid in nm:
        I_, outs, _, _ = run_root(M, fid)
        t = {text_of(v) for _, v in outs}
        selfty = M.fns[fid]['n'].split(' as ')[0][1:]
        if 'glsl' in selfty.lower():
            glsl = selfty
            rep.add(P, 'y' if t == {GLSL} else 'u' if None in t else 'n', 'glsl:name', 'the GLSL instruction set is named %s' % t)
    if glsl is None:
        rep.add(P, 'u', 'glsl:set', 'the GLSL.std.450 instruction set is not found')
        return
    fid = [f for f in rd if M.fns[f]['n'].startswith('<' + glsl + ' ')]
    if not fid:
        rep.add(P, 'u', 'glsl:read', 'read_instruction of the GLSL set is not found')
        return
    fid = fid[0]
    err = M.adt_named('raw::ReadError')
    bt = M.fns[fid]['locals'][3]
    if len(M.types[bt]['v'][0]['f']) == 1:
        I_, outs, args, _ = run_root(M, fid)
        num = args[1]
        blk = args[2]
        words = opq(M, M.types[bt]['v'][0]['f'][0][1], mk('fld', blk.a[1], 0, 0)) if blk.op == 'obj' else blk.a[2][0]
        while words.op == 'vref':
            words = words.a[0]
    else:
        # more than a slice: a block as it is made from a slice
        words, outs = made(M, fid, bt)
        if words is None:
            rep.add(P, 'u', 'glsl:block', 'how a block is made from words')
            return
        num = outs[1]
        outs = outs[0]
    n = seq_len(words)
    eq = Eq(M)
    inst = M.adt_named('glsl450::Inst')
    named(M, rep, P, glsl)
    def add(F, props, st, key, msg):
        """a violation only where nothing that leads to it is over-approximated"""
        if st == 'n' and any(fuzzy(t) for t in fact_terms(F)):
            st = 'u'
        rep.add(props, st, key, msg)
    for s, v0 in outs:
        for F0, v in eq.resolve(s.facts, v0):
            if v.op != 'agg':
                rep.add(P, 'u', 'glsl:result', 'result of the GLSL set')
                continue
            # the instruction numbers this partition covers
            vs = F0.vset(num)
            parts = [((k, k),) for k in OPS if ihas(vs, k)]
            rest = idiff(vs, norm([(k, k) for k in OPS]))
            if rest:
                parts.append(rest)
            for q in parts:
                F = F0.copy()
                if not F.restrict(num, q):
                    continue
                k = q[0][0] if isize(q) == 1 and q[0][0] in OPS else None
                name = OPS.get(k, 'other')
                key = 'glsl:%s' % name
                if v.a[1] == 1:
                    for G, e in eq.resolve(F, v.a[2][0]):
                        if e.op != 'agg':
                            rep.add(P, 'u', key + ':err', 'error of the GLSL set')
                            continue
                        en = M.types[err]['v'][e.a[1]]['n']
                        if k is None:
                            ok = en == 'UnknownExtInstOp' and len(e.a[2]) == 2 and text_of(e.a[2][0]) == GLSL and eq.eq(G, e.a[2][1], num) == 'y'
                            add(G, P, 'y' if ok else 'u' if fuzzy(e) else 'n', key + ':err', 'an unknown GLSL instruction number is reported as %s with something else than the set name and the number' % en)
                        else:
                            short_ = G.decide(cmp_eq(n, I(0)))
                            add(G, P, 'y' if en == 'UnexpectedEndOfInstruction' and short_ is True else 'n', key + ':err', 'a well-formed %s is rejected with %s' % (name, en))
                    continue
                if k is None:
                    add(F, P, 'n', key + ':accepted', 'a GLSL instruction number other than 13 and 14 is accepted')
                    continue
                pay = v.a[2][0]
                if pay.op != 'agg' or len(pay.a[2]) != 2:
                    rep.add(P, 'u', key, 'result of the GLSL set')
                    continue
                rb, b = pay.a[2]
                at = I(0)
                if rb.op == 'agg' and len(rb.a[2]) > 1:
                    # a slice and a position in it, in some order
                    ss = [x for x in rb.a[2] if x.op == 'vref']
                    ns = [x for x in rb.a[2] if x.op in ('int', 'lin', 'iv', 'len')]
                    rb, at = (ss[0], ns[0]) if len(ss) == len(ns) == 1 and len(rb.a[2]) == 2 else (UNDEF, None)
                while rb.op in ('agg', 'vref'):
                    rb = rb.a[2][0] if rb.op == 'agg' else rb.a[0]
                while b.op in ('box', 'vref'):
                    b = b.a[0]
                if F.decide(cmp_le(I(1), n)) is not True:
                    add(F, P, 'n', key + ':empty', '%s is accepted without an operand word' % name)
                    continue
                for G, x in eq.resolve(F, b):
                    if x.op != 'agg' or x.a[0] != inst:
                        rep.add(P, 'u', key + ':value', 'instruction value')
                        continue
                    vn = M.types[inst]['v'][x.a[1]]['n']
                    add(G, P, 'y' if vn == name else 'n', key + ':kind', 'GLSL instruction %s is decoded as %s' % (k, vn))
                    y = x.a[2][0]
                    if y.op == 'agg' and len(y.a[2]) == 1 and y.a[2][0].op == 'agg' and len(y.a[2][0].a[2]) == 1:
                        w = elem(M, words, I(0), G)
                        add(G, P, eq.eq(G, y.a[2][0].a[2][0], w) if not fuzzy(y) else 'u', key + ':operand', '%s does not take its operand from the first operand word' % name)
                    else:
                        rep.add(P, 'u', key + ':operand', 'operand of %s' % name)
                if rb.op in ('seq', 'view'):
                    r = F.decide(cmp_eq(sub(seq_len(rb), at), sub(n, I(1))))
                    if at is not I(0) and r is not True:
                        r = None
                    add(F, {'C09', 'C05'}, 'y' if r is True else 'n' if r is False else 'u', key + ':rest', '%s does not use up exactly one operand word' % name)
