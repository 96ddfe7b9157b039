"""Disassembly: the text of every instruction, operand value, error and module
is compared with the text the standard's disassembly prescribes."""
import os
from common import *
from textcmp import TextEq
from equiv import Eq
import spec

def display_fn(M, ty):
    b = M.types[ty]['p']
    n = '<%s as std::fmt::Display>::fmt' % b
    fid = M.fn(n)
    if fid is None:
        c = [i for i, f in M.fns.items() if f['local'] and f['n'].startswith('<' + b) and not f['n'][1 + len(b)].isalnum() and f['n'].endswith(' as std::fmt::Display>::fmt')]
        fid = c[0] if len(c) == 1 else None
    return fid

class Text:
    """runs Display implementations"""
    def __init__(self, M):
        self.M = M
        self.cache = {}
        self.visited = set()
        self.unknown = {}
        self.loops = 0
        self.texts = 0

    def run(self, fid, v, opaque=()):
        """[(facts, text or None when it reports an error)]"""
        M = self.M
        I_ = Interp(M, opaque=opaque)
        st = State({}, Facts())
        sink = I_.newcells(1)
        st.cells[sink] = str_of()
        fm = natives.mkfmt(I_, st, mk('ref', sink, ()))
        outs = I_.run_fn(fid, [mk('vref', v), fm], st, root=True)
        self.visited |= set(I_.visited)
        self.unknown.update(I_.unknown)
        self.loops += len(I_.loops)
        res = []
        for s, r in outs:
            t = s.cells[sink]
            if r.op == 'agg' and r.a[1] == 0:
                res.append((s.facts, t))
            elif r.op == 'agg':
                res.append((s.facts, None))
            else:
                res.append((s.facts, False))
            self.texts += 1
        self.panics = I_.panics
        return res

def opt_cond(M, v):
    return mk('discr', v, 2)

def fld(M, v, variant, i):
    """field i of an opaque or aggregate value"""
    if v.op == 'agg':
        return v.a[2][i]
    t = M.types[v.a[0]]
    return opq(M, t['v'][variant]['f'][i][1], mk('fld', v.a[1], variant, i))

def as_text(v):
    while v.op in ('vref', 'box'):
        v = v.a[0]
    return v

def num(t):
    return mk('num', t)

def inner(M, v):
    """the number inside a one-field wrapper"""
    for _ in range(3):
        if v.op in ('obj', 'agg') and M.types[v.a[0]]['k'] == 'adt' and M.types[v.a[0]]['a'] == 'struct' and len(M.types[v.a[0]]['v'][0]['f']) == 1:
            v = fld(M, v, 0, 0)
        else:
            break
    return v

class Want:
    """builds the text that is due"""
    def __init__(self, M, dynname):
        self.M = M
        self.dynname = dynname      # type -> Display function name, for operands with texts of their own

    def kind(self, k, v, ty):
        """tokens of one operand, without the separating blank"""
        M = self.M
        if k == 'id':
            return [mk('txt', '%'), num(inner(M, v))]
        if k in ('lit', 'mem', 'ver'):
            return [num(inner(M, v))]
        if k == 'str':
            return [mk('txt', '"'), as_text(v), mk('txt', '"')]
        if k == 'phi':
            return self.kind('id', fld(M, v, 0, 0), None) + [mk('txt', ' ')] + self.kind('id', fld(M, v, 0, 1), None)
        if k == 'weights':
            return [num(fld(M, v, 0, 0)), mk('txt', ' '), num(fld(M, v, 0, 1))]
        if k[:2] in ('E:', 'M:') or k == 'ext':
            return [self.dynname(k, v, ty)]
        raise KeyError(k)

    def arg(self, k, v, ty):
        """tokens of one operand with the blank before it"""
        M = self.M
        if k[0] == '?':
            t = M.types[ty]
            x = fld(M, v, 1, 0)
            s = str_of(mk('txt', ' '), *self.kind(k[1:], x, t['g'][0]))
            return [mk('stab', mk('discr', v, 2), ((((0, 0),), str_of()), (((1, 1),), s)))]
        if k[0] == '*':
            et = ety(v)
            n = seq_len(v)
            if all(p.op == 'lit' for p in v.a[1]):
                return [t for p in v.a[1] for t in [mk('txt', ' ')] + self.kind(k[1:], p.a[0], et)]
            b = bv(1)
            x = elem(M, v, b, _pos(b, n))
            if x is None:
                x = opq(M, et, mk('elem', v, b))
            return [mk('sgen', b, n, str_of(mk('txt', ' '), *self.kind(k[1:], x, et)))]
        return [mk('txt', ' ')] + self.kind(k, v, ty)

def _pos(b, n):
    F = Facts()
    F.assume(cmp_le(I(0), b))
    F.assume(cmp_lt(b, n))
    return F

def rebuilt(v, f):
    """v with f applied to its parts, top down, where f gives something"""
    w = f(v)
    if w is not None:
        return w
    if v.op in ('vref', 'box'):
        return mk(v.op, rebuilt(v.a[0], f), *v.a[1:])
    if v.op == 'agg':
        return mk('agg', v.a[0], v.a[1], tuple(rebuilt(x, f) for x in v.a[2]))
    return v

def variations(M, v):
    """narrower inputs: lists with a few elements, boxed instructions of a known type"""
    for k in (1, 2, 0):
        def short_(x):
            if x.op == 'seq' and len(x.a[1]) == 1 and x.a[1][0].op == 'sq':
                p = x.a[1][0]
                return seq(x.a[0], [mk('lit', opq(M, x.a[0], mk('elem', p, I(j)))) for j in range(k)])
        w = rebuilt(v, short_)
        if w is v:
            break
        yield w, 'with lists of %d elements' % k
    for t in sorted({t for p, t in M.devirt if p.endswith('spv::ExtInst::get_op')}):
        def known(x):
            if x.op == 'obj' and M.types[x.a[0]]['k'] == 'dyn':
                return mk('obj', t, x.a[1])
        w = rebuilt(v, known)
        if w is not v:
            yield w, 'with an instruction of %s' % M.types[t]['p'].replace('magmaflow::', '')


def ops(M, rep, T_, core=None, props=frozenset(['C12'])):
    """every instruction, and every instruction as printed from a validated module"""
    if core is None:
        core = M.adt_named('raw::Core')
        if core < 0 or display_fn(M, core) is None:
            raise Missing('Display for Core not found')
        ops(M, rep, T_, core)
        for t in groups(M):
            ops(M, rep, T_, t)
        ops(M, rep, T_, -1)
        return
    # core < 0: the instructions that can be printed but are not part of a module
    cf = display_fn(M, core) if core >= 0 else None
    pre = 'text:' if core < 0 or M.types[core]['p'].endswith('raw::Core') else 'text:%s:' % M.types[core]['p'].split('::')[-1]
    # operand types with texts of their own
    own = {}
    for n in list(spec.ENUMS) + list(spec.MASKS) + list(spec.PRINT_ONLY):
        t = M.adt_named('types::' + n)
        if t >= 0:
            f = display_fn(M, t)
            if f is not None:
                own[t] = f
    opaque = frozenset(M.fns[f]['n'] for f in own.values())
    opq_ids = frozenset(own.values())
    ext = 'dyn std::fmt::Display::fmt'
    plain = mk('fmt', *natives.DEF)
    def dynname(k, v, ty):
        if k == 'ext':
            # the boxed instruction's own text
            x = v
            x = fld(M, x, 0, 0)
            while x.op in ('box', 'vref'):
                x = x.a[0]
            t = M.types[x.a[0]]
            if x.op == 'obj' and t['k'] != 'dyn' and display_fn(M, x.a[0]) is not None:
                n = M.fns[display_fn(M, x.a[0])]['n']
                opened.add(n)
                return mk('dyn', n, mk('vref', x), plain)
            return mk('dyn', ext, mk('vref', x), plain)
        return mk('dyn', M.fns[own[ty]]['n'], mk('vref', v), plain)
    W = Want(M, dynname)
    opened = set()
    cache = {}
    def expand(t):
        """the text an operand's own Display prints"""
        if t.a[0] not in opaque and t.a[0] not in opened:
            return None
        if t not in cache:
            fid = M.fn(t.a[0])
            outs = T_.run(fid, as_text(t.a[1]))
            s = None
            if outs and all(x is not None and x is not False for _, x in outs):
                if len(outs) == 1:
                    s = outs[0][1]
                else:
                    s = str_of(mk('cases', tuple((tuple(conds_of(F)), x) for F, x in outs)))
            cache[t] = s
        return cache[t]
    todo = []
    if core >= 0:
        for vi, var in enumerate(M.types[core]['v']):
            name = var['n']
            if name not in spec.BYNAME or len(var['f']) != 1:
                rep.add(props, 'u', pre + name, 'no specification for %s' % name)
                continue
            todo.append((name, spec.OPS[spec.BYNAME[name]][1], var['f'][0][1], vi))
    else:
        for name, fields in sorted(spec.PRINT_OPS.items()):
            st = M.adt_named('op::' + name)
            if st < 0 or display_fn(M, st) is None:
                rep.add(props, 'u', pre + name, 'no text of %s found' % name)
                continue
            todo.append((name, fields, st, None))
    for name, fields, st, vi in todo:
        sv = opq(M, st, mk('sym', 'op'))
        v = mk('agg', core, vi, (sv,)) if vi is not None else sv
        if vi is None:
            cf = display_fn(M, st)
        names = [f[0] for f in M.types[st]['v'][0]['f']]
        tys = [f[1] for f in M.types[st]['v'][0]['f']]
        miss = [f for f, k in fields if f not in names]
        if miss:
            rep.add(props, 'u', pre + name, 'field %s not found' % miss[0])
            continue
        def due(sv):
            toks = []
            get = lambda f: fld(M, sv, 0, names.index(f))
            if any(k == 'rid' for _, k in fields):
                f = [f for f, k in fields if k == 'rid'][0]
                toks.append(mk('pad', 12, -1, ' ', 1, str_of(mk('txt', '%'), num(inner(M, get(f))))))
                toks.append(mk('txt', ' = '))
            else:
                toks.append(mk('txt', ' ' * 15))
            toks.append(mk('txt', name))
            for f, k in fields:
                if k != 'rid':
                    toks += W.arg(k, get(f), tys[names.index(f)])
            return str_of(*toks)
        vary = lambda: ((mk('agg', core, vi, (w,)) if vi is not None else w, due(w), note) for w, note in variations(M, sv))
        compare(M, rep, props, T_, cf, v, due(sv), pre + name, name, opq_ids, expand, frozenset([ext]) | opaque, vary=vary)

def groups(M):
    """instruction groups of validated modules that can be printed"""
    out = {}
    for n, t in M.adts:
        y = M.types[t]
        if y['k'] == 'adt' and y['a'] == 'enum' and y['local'] and '::logical::' in y['p'] and display_fn(M, t) is not None \
                and all(v['n'] in spec.BYNAME and len(v['f']) == 1 for v in y['v']):
            out[y['p']] = t
    return [out[k] for k in sorted(out)]

def conds_of(F):
    for k, d in F.dom.items():
        yield mk_in(k, d)
    for l in F.lins:
        yield cmp_le0(l)
    for b, x in F.bools.items():
        yield b if x else bnot(b)

def compare(M, rep, props, T_, fid, v, want, key, what, opaque=(), expand=None, dyn=frozenset(), free=frozenset(), vary=None):
    found = []
    def differs(F, t, want):
        E = TextEq(M, frozenset(), expand, dyn=dyn, free=free)
        r = E.eq(F, t, want)
        if os.environ.get('VERIF_DEBUG') and r != 'y':
            print('CMP', r, E.why, [show(x, 6)[:150] for x in fact_terms(F) if fuzzy(x)])
        if r == 'n' and unclear(F, test=lambda m, G: TextEq(M, frozenset(), expand, dyn=dyn, free=free).eq(G, subst(t, m), subst(want, m)) == 'n'):
            r = 'u'
        return r, E.why
    def one(v, want, note=''):
        outs = T_.run(fid, v, opaque)
        for p in T_.panics:
            yield panic_status(p), key + ':panic:' + p.kind, 'printing %s can panic (%s)%s' % (what, p.kind, note)
        if not outs:
            yield 'u', key + ':none', 'printing %s never returns' % what
        for F, t in outs:
            if t is None:
                yield 'n' if not unclear(F) else 'u', key + ':err', 'printing %s reports a formatting error%s' % (what, note)
            elif t is False or t.op != 'str':
                yield 'u', key, 'text of %s' % what
            else:
                r, why = differs(F, t, want)
                yield r, key, 'the text of %s is wrong%s: %s' % (what, note, why)
    found = list(one(v, want))
    for r, k, msg in found:
        rep.add(props, r, k, msg)
    if vary is None or not any(r == 'u' for r, _, _ in found) or any(r == 'n' for r, _, _ in found):
        return
    # undecided in general: is it wrong for narrower inputs?
    for v, want, note in vary():
        try:
            bad = [x for x in one(v, want, ' ' + note) if x[0] == 'n']
        except (Undecided, OutOfBudget):
            continue
        for r, k, msg in bad[:1]:
            rep.add(props, r, k, msg)
            return

# ------------------------------------------------------------ operand values
def enum_want(M, v, vi, var, printed, params, W):
    toks = [mk('txt', printed)]
    for i, (pk, f) in enumerate(zip(params, var['f'])):
        toks.append(mk('txt', ' '))
        toks += W.kind(pk, fld(M, v, vi, i), f[1])
    return str_of(*toks)

def values(M, rep, T_):
    tabs = dict(spec.ENUMS)
    tabs.update(spec.PRINT_ONLY)
    own = {}
    for n in list(tabs) + list(spec.MASKS):
        t = M.adt_named('types::' + n)
        if t >= 0:
            f = display_fn(M, t)
            if f is not None:
                own[t] = f
    opaque = frozenset(M.fns[f]['n'] for f in own.values())
    plain = mk('fmt', *natives.DEF)
    W = Want(M, lambda k, v, ty: mk('dyn', M.fns[own[ty]]['n'], mk('vref', v), plain))
    def expander(me):
        def expand(t):
            if t.a[0] not in opaque:
                return None
            outs = T_.run(M.fn(t.a[0]), as_text(t.a[1]))
            if outs and all(x is not None and x is not False for _, x in outs):
                return str_of(mk('cases', tuple((tuple(conds_of(F)), x) for F, x in outs)))
            return None
        return expand
    for n, rows in tabs.items():
        ty = M.adt_named('types::' + n)
        if ty < 0 or ty not in own:
            rep.add({'C14'}, 'u', 'value:%s' % n, 'type %s not found' % n)
            continue
        fid = own[ty]
        oth = frozenset(f for t, f in own.items() if t != ty)
        byv = {v: (num_, pr, ps) for num_, v, pr, ps in rows}
        for vi, var in enumerate(M.types[ty]['v']):
            v = mk('agg', ty, vi, tuple(opq(M, f[1], mk('sym', 'p%d' % i)) for i, f in enumerate(var['f'])))
            key = 'value:%s::%s' % (n, var['n'])
            if var['n'] in byv:
                _, pr, ps = byv[var['n']]
                if len(ps) != len(var['f']):
                    rep.add({'C14'}, 'u', key, 'parameters of %s' % key)
                    continue
                want = enum_want(M, v, vi, var, pr, ps, W)
            elif n in spec.OPEN and var['n'] == spec.OPEN[n][0]:
                a, b = spec.OPEN[n][1].split('%s')
                want = str_of(mk('txt', a), num(inner(M, v.a[2][0])), mk('txt', b))
            else:
                rep.add({'C14'}, 'u', key, 'no specification for %s' % key)
                continue
            compare(M, rep, {'C14'}, T_, fid, v, want, key, '%s::%s' % (n, var['n']), oth, expander(n), opaque)
    for n, bits in spec.MASKS.items():
        ty = M.adt_named('types::' + n)
        if ty < 0 or ty not in own:
            rep.add({'C14'}, 'u', 'value:%s' % n, 'type %s not found' % n)
            continue
        fs = M.types[ty]['v'][0]['f']
        names = [f[0] for f in fs]
        import itertools
        if any(b[1] not in names for b in bits):
            rep.add({'C14'}, 'u', 'value:%s' % n, 'fields of %s' % n)
            continue
        for combo in itertools.product((0, 1), repeat=len(bits)):
            vals = [opq(M, f[1], mk('sym', 'm%d' % i)) for i, f in enumerate(fs)]
            parts = []
            for on, (bit, f, pr, par) in zip(combo, bits):
                i = names.index(f)
                t = M.types[fs[i][1]]
                if par:
                    if on:
                        x = opq(M, t['g'][0], mk('sym', 'm%d' % i))
                        vals[i] = mk('agg', fs[i][1], 1, (x,))
                        parts.append(str_of(mk('txt', pr + '('), num(inner(M, x)), mk('txt', ')')))
                    else:
                        vals[i] = mk('agg', fs[i][1], 0, ())
                else:
                    vals[i] = I(on)
                    if on:
                        parts.append(str_of(mk('txt', pr)))
            toks = []
            for i, p in enumerate(parts):
                if i:
                    toks.append(mk('txt', ' | '))
                toks.append(p)
            want = str_of(*toks) if parts else str_of(mk('txt', 'None'))
            v = mk('agg', ty, 0, tuple(vals))
            compare(M, rep, {'C14'}, T_, own[ty], v, want, 'value:%s:%s' % (n, ''.join(map(str, combo))), '%s with flags %s' % (n, ' '.join(b[1] for on, b in zip(combo, bits) if on) or 'none'))

def glsl(M, rep, T_):
    ty = M.adt_named('glsl450::Inst')
    fid = display_fn(M, ty) if ty >= 0 else None
    if fid is None:
        rep.add({'C12'}, 'u', 'glsl', 'Display for glsl450::Inst not found')
        return
    for vi, var in enumerate(M.types[ty]['v']):
        if var['n'] not in ('Sin', 'Cos'):
            rep.add({'C12'}, 'u', 'glsl:' + var['n'], 'no specification')
            continue
        sv = opq(M, var['f'][0][1], mk('sym', 'op'))
        want = str_of(mk('txt', var['n'] + ' %'), num(inner(M, sv)))
        compare(M, rep, {'C12'}, T_, fid, mk('agg', ty, vi, (sv,)), want, 'glsl:' + var['n'], 'GLSL ' + var['n'])

# ------------------------------------------------------------------ modules
GEN = [('KhronosReserved', 'Khronos'), ('LunarG', 'LunarG'), ('Valve', 'Valve'), ('Codeplay', 'Codeplay'), ('Nvidia', 'NVIDIA'),
       ('Arm', 'ARM'), ('KhronosLLvmTranslator', 'Khronos LLVM/SPIR-V Translator'), ('KhronosAssembler', 'Khronos SPIR-V Tools Assembler'),
       ('KhronosGlslang', 'Khronos Glslang Reference Front End'), ('Qualcomm', 'Qualcomm'), ('Amd', 'AMD'), ('Intel', 'Intel'), ('Other', 'Unknown')]

def field(M, v, name):
    t = M.types[v.a[0]]
    names = [f[0] for f in t['v'][0]['f']]
    return fld(M, v, 0, names.index(name))

def module(M, rep, T_):
    ty = M.adt_named('raw::RawModule')
    core = M.adt_named('raw::Core')
    fid = display_fn(M, ty) if ty >= 0 else None
    cf = display_fn(M, core)
    if fid is None or cf is None:
        raise Missing('Display for RawModule not found')
    mv = opq(M, ty, mk('sym', 'm'))
    ver, gen_, bound, ins = (field(M, mv, n) for n in ('version', 'generator', 'bound', 'instructions'))
    tool, gv = field(M, gen_, 'tool'), field(M, gen_, 'version')
    plain = mk('fmt', *natives.DEF)
    name = M.fns[cf]['n']
    rows = []
    tv = [q['n'] for q in M.types[tool.a[0]]['v']]
    d = dict(GEN)
    for i, q in enumerate(tv):
        rows.append((((i, i),), str_of(mk('txt', d[q]))))
    def due(mv):
        ins = field(M, mv, 'instructions')
        line = lambda x: [mk('dyn', name, mk('vref', x), plain), mk('txt', '\n')]
        n = seq_len(ins)
        if all(p.op == 'lit' for p in ins.a[1]):
            lines = [t for p in ins.a[1] for t in line(p.a[0])]
        else:
            b = bv(1)
            lines = [mk('sgen', b, n, str_of(*line(elem(M, ins, b, _pos(b, n)))))]
        return str_of(mk('txt', '; SPIR-V\n; Version: '), num(fld(M, ver, 0, 0)), mk('txt', '.'), num(fld(M, ver, 0, 1)),
                      mk('txt', '\n; Generator: '), mk('stab', mk('discr', tool, len(tv)), tuple(rows)), mk('txt', '; '), num(gv),
                      mk('txt', '\n; Bound: '), num(bound), mk('txt', '\n; Schema: 0\n'), *lines)
    cache = {}
    def expand(t):
        if t.a[0] != name:
            return None
        return None
    vary = lambda: ((w, due(w), note) for w, note in variations(M, mv))
    compare(M, rep, {'C13'}, T_, fid, mv, due(mv), 'module', 'a module', frozenset([cf]), expand, frozenset([name]), frozenset([name]), vary=vary)

# ------------------------------------------------------------------- errors
def errors(M, rep, T_):
    ty = M.adt_named('raw::ReadError')
    if ty < 0:
        raise Missing('ReadError not found')
    fid = display_fn(M, ty)
    desc = [i for i, f in M.fns.items() if f['local'] and 'ReadError as std::error::Error>::description' in f['n']]
    if len(desc) != 1 or fid is None:
        raise Missing('description of ReadError not found')
    seen = {}
    for vi, var in enumerate(M.types[ty]['v']):
        v = mk('agg', ty, vi, tuple(opq(M, f[1], mk('sym', 'e%d' % i)) for i, f in enumerate(var['f'])))
        I_ = Interp(M)
        outs = I_.run_fn(desc[0], [mk('vref', v)], State({}, Facts()), root=True)
        T_.visited |= set(I_.visited)
        for p in I_.panics:
            rep.add({'C25'}, panic_status(p), 'error:%s:panic' % var['n'], 'describing %s can panic' % var['n'])
        for s, r in outs:
            t = as_text(r)
            c = const_str(t) if t.op == 'str' else None
            key = 'error:%s' % var['n']
            if c is None:
                rep.add({'C25'}, 'u', key, 'description of %s is not a constant' % var['n'])
                continue
            rep.add({'C25'}, 'y' if c.strip() else 'n', key, 'the description of %s is empty' % var['n'])
            o = seen.setdefault(c, var['n'])
            rep.add({'C25'}, 'y' if o == var['n'] else 'n', key + ':own', '%s and %s have the same description %r' % (o, var['n'], c))
            compare(M, rep, {'C25'}, T_, fid, v, t, key + ':text', 'error %s' % var['n'])
