"""Which analysis decides which property."""
import signal
import traceback
import time
from common import *
import spec
import interp
import instances

ASSUME = [
    'the MIR that rustc emits for the dev profile is what is compiled (overflow checks on)',
    'the models of standard library functions in /verif/models and analyzer/natives.py are faithful',
    'allocation does not fail; slices are shorter than 2^47 bytes, and no loop runs for more than 2^47 rounds',
]

READ = ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C10', 'C11')

def do_read(M, rep, prop, tier):
    import readcheck
    C = readcheck.ReadCheck(M, rep)
    C.run()
    I_ = C.A.I
    n = {'functions_visited': len(I_.visited), 'input_partitions': C.cov['partitions'], 'accepting_cases': C.cov['accepting'],
         'rejecting_cases': C.cov['rejecting'], 'loops_summarised': len(I_.loops), 'uninterpreted_calls': sorted(I_.unknown)[:20],
         'instruction_loops': len(C.A.mains)}
    for p in READ:
        rep.notes[p] = n

def do_ext(M, rep, prop, tier):
    import extcheck
    extcheck.run(M, rep)

def do_read_panics(M, rep, prop, tier):
    import readcheck
    A = readcheck.ReadAnalysis(M)
    allow = frozenset().union(*[m.allow for m in A.mains]) if A.mains else frozenset()
    report_panics(M, A.I, rep, {'C06'}, 'read_module', allow)
    import extcheck
    vis = set(A.I.visited)
    for fid in extcheck.set_methods(M):
        I_, outs, _, _ = run_root(M, fid)
        report_panics(M, I_, rep, {'C06'}, short(M.fns[fid]['n']))
        vis |= set(I_.visited)
    rep.notes['C06'] = {'functions_visited': len(vis), 'panic_sites': len(A.I.oblist), 'panic_site_visits': A.I.obligations, 'loops_summarised': len(A.I.loops)}

def _disp(fn, prop):
    def go(M, rep, prop_, tier):
        import dispcheck
        T_ = dispcheck.Text(M)
        for f in fn.split():
            getattr(dispcheck, f)(M, rep, T_)
        rep.notes[prop] = {'functions_visited': len(T_.visited), 'texts_compared': T_.texts, 'loops_summarised': T_.loops,
                           'uninterpreted_calls': sorted(T_.unknown)[:20]}
    go.__name__ = 'do_' + fn.replace(' ', '_')
    return go

def do_read_shapes(M, rep, prop, tier):
    instances.read(M, rep, prop, tier)

GROUPS = {}
for _p in READ:
    GROUPS[_p] = [do_read, do_read_shapes]
GROUPS['C06'] = [do_read_panics, do_read_shapes]
GROUPS['C09'] = [do_read, do_read_shapes, do_ext]

RULES = {p: ('every partition of the input that the abstract interpretation of read_module distinguishes gives exactly the instruction or error that the SPIR-V tables prescribe on it',
             'Abstract interpretation of the compiled MIR of read_module over all byte strings (interval sets and linear facts, partitioned by control flow, loops summarised by inductive invariants). Every way round the instruction loop and every return is compared with a decoder written from the SPIR-V standard; an obligation is one such comparison.') for p in READ}
RULES['C06'] = ('no panic edge (assert, index, unwrap, explicit panic) in any function reachable from read_module is reachable under the path facts',
                'Abstract interpretation of the compiled MIR of read_module and of the library\'s own instruction sets over all byte strings; every assert terminator and every call of a panicking function is an obligation that the path facts must exclude.')

GROUPS['C12'] = [_disp('ops glsl', 'C12')]
GROUPS['C13'] = [_disp('module', 'C13')]
GROUPS['C14'] = [_disp('values', 'C14')]
GROUPS['C25'] = [_disp('errors', 'C25')]
RULES['C12'] = ('the text printed for every instruction, as a function of its operands, equals the text the disassembly format prescribes',
                'Abstract interpretation of the Display implementation of every instruction with unconstrained operands; the symbolic text is compared piece by piece with the prescribed one, operand texts being those of the operands\' own Display')
RULES['C13'] = ('the text printed for a module with unconstrained fields equals header, then one line per instruction in order',
                'Abstract interpretation of the Display implementation of RawModule with unconstrained fields; the loop over the instructions is summarised for every length')
RULES['C14'] = ('the text printed for every enumerant (with unconstrained parameters) and every combination of mask flags equals the standard name',
                'Abstract interpretation of the Display implementation of every operand type, for every variant and every combination of flags')
RULES['C25'] = ('description() of every variant is a constant, not empty, not shared with another variant, and is what Display prints',
                'Abstract interpretation of description() and Display for every variant of ReadError with unconstrained payload')

def do_valid(M, rep, prop, tier):
    import validcheck
    validcheck.check(M, rep)

def do_shapes(M, rep, prop, tier):
    if prop == 'C19' and tier != 'thorough' and getattr(rep, 'valid_panics', '') == 'decided':
        return
    instances.valid(M, rep, prop, tier)

for _p in ('C15', 'C16', 'C17'):
    GROUPS[_p] = [do_valid, do_shapes]
    RULES[_p] = ('every accepting outcome of validate tiles the input instruction list, in order and without remainder, by the layout grammar; every rejecting outcome concerns a list the grammar excludes and names the right error and position',
                 'Abstract interpretation of validate over all instruction lists; each section of the resulting module is a term over the input elements, compared element by element (for an arbitrary index) with the input; lists built by loops are covered by induction over the loop summary, one obligation per back edge.')

def do_cfg(M, rep, prop, tier):
    import cfgcheck
    cfgcheck.check(M, rep)

def do_valid_panics(M, rep, prop, tier):
    import validcheck
    V = validcheck.Valid(M, rep)
    V.run()
    n = len(rep.und.get('C19', ()))
    report_panics(M, V.I, rep, {'C19'}, 'validate', frozenset(V.E.allow))
    if len(rep.und.get('C19', ())) == n:
        rep.valid_panics = 'decided'

RULES['C18'] = ('every outcome of one step of the control-flow search is the structure, continuation or error that the branch and merge instruction of the block prescribe, in every context the search builds',
                'Abstract interpretation of find_control_flow and of one call of its recursive search with unconstrained block, context, block table and depth; the recursive calls are uninterpreted results (induction on the recursion), contexts are covered by induction over the extensions the search makes')
RULES['C19'] = ('no panic edge is reachable in control-flow recovery and validation; every malformed step of the search gives an error',
                'The same analysis as C18 restricted to the outcomes that must be errors, plus the panic edges of find_control_flow, its search and validate')
RULES['C24'] = ('every recursive call of the search moves a counter towards a bound that was tested before the call; other recursions descend into a part of their argument; loops run over a finite list',
                'Abstract interpretation of one call of the search; the path facts at each recursive call must entail the variant')
def do_cfg_shapes(M, rep, prop, tier):
    instances.cfg(M, rep, prop, tier)

GROUPS['C18'] = [do_cfg, do_cfg_shapes]
GROUPS['C19'] = [do_cfg, do_cfg_shapes, do_valid_panics, do_shapes]
GROUPS['C24'] = [do_cfg, do_cfg_shapes]

def do_stack(M, rep, prop, tier):
    import effects
    effects.check20(M, rep)

def do_pure(M, rep, prop, tier):
    import effects
    effects.check21(M, rep)

GROUPS['C20'] = [do_stack]
GROUPS['C21'] = [do_pure]
RULES['C20'] = ('every cycle of the call graph either descends into a nested construct or is bounded by a constant; none of the operations on whole modules (read, validate, print) is on a cycle that consumes its input',
                'Call graph of the compiled MIR including the monomorphised standard library (function values, closures and trait objects are edges), its strongly connected components, and for each of them a dataflow analysis of the arguments of the recursive calls; the recursive calls of the control-flow search are classified by the abstract interpretation of C18')
RULES['C21'] = ('no function of the crate refers to a function or static with an effect outside its arguments, contains unsafe code, or lets a value obtained by iterating a hash table flow into its result',
                'Effect analysis of the compiled MIR: every reference to a function, static, cast and unsafe block of every function of the crate, and a taint analysis from hash-table iterators')

def do_struct(M, rep, prop, tier):
    import structcheck
    structcheck.check(M, rep)

GROUPS['C22'] = [do_struct]
RULES['C22'] = ('for every implementation of PartialEq and Clone: different variants or a differing field give false, equal fields give true, and the clone has the variant and the fields of the original',
                'Abstract interpretation of every PartialEq and Clone implementation of the crate (and of the extended instructions behind their trait object) with unconstrained values, for every pair of variants and every field; implementations used inside are assumed structural, which is sound by induction because all of them are checked')

def do_print(M, rep, prop, tier):
    import printcheck
    printcheck.run(M, rep, prop, tier)

GROUPS['C23'] = [do_print]
RULES['C23'] = ('for every kind of construct, at any depth and with any parts: the text printed is the construct once, indented by its depth, with its hints and weights when present, an else part exactly when the false side is not empty, and the texts of its parts in order one level deeper; with its function, the block of the same label lists all its code and its branch',
                'Abstract interpretation of the recursive printing functions with unconstrained structure, function and depth; the calls for nested constructs stand for the texts of the parts (induction over the structure); the symbolic text is compared with the text due. The structure is one whose blocks stand exactly once in the function')

class Timeout(Exception):
    pass

def run(prop, M, rep, tier):
    t0 = time.time()
    for g in GROUPS[prop]:
        # the general analysis leaves time for the shapes
        interp.CLOCK[0] = t0 + 430
        instances.LAST[0] = t0 + (640 if tier != 'thorough' else 760)
        try:
            g(M, rep, prop, tier)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            traceback.print_exc()
            rep.add({prop}, 'u', 'analysis:%s' % g.__name__, 'the analysis gave up: %s: %s' % (type(e).__name__, str(e)[:200]))

_AI = 'abstract interpretation of the MIR (interval sets, linear facts, value flow, inductive loop summaries)'
_NOTE = ('Static, sound up to the listed assumptions for every input: all partitions of the abstract interpretation are compared with the oracle; '
         'what the analysis cannot interpret is reported as undecided, never as a violation.')
TECH = {p: (_AI + ', compared with a decoder specification', _NOTE) for p in READ}
TECH['C06'] = (_AI + '; every panic edge must be unreachable', _NOTE)
for _p in ('C12', 'C13', 'C14', 'C25'):
    TECH[_p] = (_AI + '; symbolic texts compared with the disassembly format', _NOTE)
for _p in ('C15', 'C16', 'C17'):
    TECH[_p] = (_AI + '; the module built is compared element by element with the layout grammar', _NOTE)
TECH['C18'] = (_AI + '; one step of the recursive search compared with the structure the branches prescribe (induction on recursion and contexts)', _NOTE)
TECH['C19'] = (_AI + '; malformed steps must be errors, panic edges unreachable', _NOTE)
TECH['C24'] = (_AI + '; termination variant entailed by the path facts at every recursive call', _NOTE)
TECH['C20'] = ('strongly connected components of the monomorphised call graph, with dataflow on the arguments of recursive calls', _NOTE)
TECH['C21'] = ('effect and taint analysis of the MIR (function references, statics, casts, unsafe blocks, hash iterators)', _NOTE)
TECH['C22'] = (_AI + '; every PartialEq and Clone implementation compared with the structural one, variant by variant and field by field', _NOTE)
TECH['C23'] = (_AI + '; symbolic texts compared with the format, induction over the structure', _NOTE)
NA = {}
SHARED = set(READ) | {'C15', 'C16', 'C17', 'C18', 'C24'}
