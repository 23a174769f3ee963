"""The properties: which obligations decide them and what is reported."""
import json, os, shutil, subprocess, sys, tempfile, threading, time
import build, wit

CHECKS, LEVEL, RULE = {}, {}, {}


def witnesses(rep, prop):
    res, bad = wit.run(prop)
    badids = {b['witness']: b for b in bad}
    odd = 0
    for r in res:
        oid = 'witness:' + r[0]
        if r[0] in badids:
            rep.violated(oid, **badids[r[0]])
        else:
            rep.proved(oid)
        if r[1] == 'reject':
            tw = r[0] + '/twin'
            if r[5] is not None:
                if tw in badids:
                    rep.violated('witness:' + tw, **badids[tw])
            odd += not r[4]
    rep.notes['programs_accepted'] = sum(1 for r in res if r[1] == 'accept')
    rep.notes['programs_rejected'] = sum(1 for r in res if r[1] == 'reject')
    rep.notes['rejections_for_an_unlisted_reason'] = odd
    rep.trust('rustc (stable) type checker', 'typenum arithmetic')


def register(prop, level, rule):
    def d(f):
        CHECKS[prop], LEVEL[prop], RULE[prop] = f, level, rule
        return f
    return d


WRULE = ('compile-time witnesses: each program is type-checked against the library metadata built from the current tree; '
         'a program the property forbids must be rejected, its shape-corrected twin and the programs the property allows must be accepted. ')


@register('C05', 'other', WRULE)
def c05(rep, tier):
    witnesses(rep, 'C05')


@register('C21', 'other', WRULE)
def c21(rep, tier):
    witnesses(rep, 'C21')


@register('C26', 'other', WRULE)
def c26(rep, tier):
    witnesses(rep, 'C26')


@register('C27', 'other', WRULE)
def c27(rep, tier):
    witnesses(rep, 'C27')


SRULE = ('abstract interpretation of the MIR of every function the property names (and of everything it calls): loops are '
         'summarised in closed form, paths are merged at join points; the derived summary must have the normal form the property '
         'prescribes at every position, for every shape. A different normal form is reported only together with a shape and an '
         'interpretation of the element operations for which the two closed forms differ.')
AI = ('abstract interpretation of MIR with closed-form loop summaries, compared with the specification by normal form',
      'holds for every shape and every element type; the std models and the interpreter are trusted')


ONE = [False]          # analyse only the combination in build.FEATURES


class Others(threading.Thread):
    """the same check on the feature combinations whose program differs from the default one (outside textual display)"""

    def __init__(self, prop, tier, combos=None):
        super().__init__(daemon=True)
        self.combos = combos
        self.prop, self.tier, self.jobs, self.t0, self.err, self.failed = prop, tier, [], time.time(), None, []
        self.dir = tempfile.mkdtemp(prefix='rcv-')
        self.start()

    def run(self):
        import feat
        try:
            cl, self.failed = feat.classes() if self.combos is None else ([(x, 0) for x in self.combos], [])
            for n, (c, k) in enumerate(cl):
                out = os.path.join(self.dir, '%d.json' % n)
                p = None
                if n < 4:
                    cmd = [sys.executable, os.path.join(build.VERIF, 'check.py'), self.prop, '--features=' + ','.join(c), '--json=' + out]
                    if self.tier == 'thorough':
                        cmd.append('--thorough')
                    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                self.jobs.append((c, k, p, out))
        except Exception as e:
            self.err = repr(e)

    def merge(self, rep):
        import feat
        self.join()
        rep.notes['feature_combinations_compared'] = 8
        rep.notes['feature_combinations_analysed_apart'] = [feat.name(c) for c, k, p, out in self.jobs]
        if self.err:
            rep.undecided('feature combinations', self.err)
        for c in self.failed:
            rep.undecided('feature combination ' + feat.name(c), 'does not build for the analysis')
        base = {o[0]: o[1] for o in rep.ob}
        limit = 840 if self.tier == 'quick' else 3600
        for c, k, p, out in self.jobs:
            tag = '[%s] ' % feat.name(c)
            try:
                if p is None:
                    raise ValueError('too many different combinations')
                p.wait(max(5, limit - (time.time() - self.t0)))
                ob = json.load(open(out))
            except Exception as e:
                if p is not None and p.poll() is None:
                    p.kill()
                rep.undecided(tag + 'analysis', 'not finished: %r (%d functions differ)' % (e, k))
                continue
            for oid, st, d in ob:
                if base.get(oid) == st and st != 'violated':
                    continue
                if st == 'violated' and base.get(oid) != 'violated':
                    d = dict(d or {})
                    d['combination'] = feat.name(c)
                    rep.violated(tag + oid, **d)
                elif st == 'undecided':
                    rep.undecided(tag + oid, d)
                elif st == 'proved':
                    rep.proved(tag + oid)
        shutil.rmtree(self.dir, ignore_errors=True)


def semantic(prop, fn, wit_=False, mod='specs', rule=SRULE, tech=None, combos=None):
    @register(prop, 'other', rule)
    def f(rep, tier):
        import importlib, sem
        specs = importlib.import_module(mod)
        sem.TIER[0] = tier
        if prop != 'C23' and not ONE[0]:
            others = Others(prop, tier, combos)
        if wit_ and not ONE[0]:
            witnesses(rep, prop)
        getattr(specs, fn)(rep)
        sem.accounts(rep)
        if prop != 'C23' and not ONE[0]:
            others.merge(rep)
    TECH[prop] = tech or AI


TECH = {}
W = ('type-level witnesses (must-accept / must-reject programs decided by the type checker)', 'every witness is decided by rustc on the current tree')
for p in ('C05', 'C21', 'C26', 'C27'):
    TECH[p] = W
for p in ('C09', 'C10', 'C11', 'C12', 'C13', 'C16', 'C18'):
    semantic(p, p.lower(), p == 'C18')
semantic('C04', 'c04', True, rule=WRULE + 'Which element: ' + SRULE,
         tech=('type-level witnesses (must-accept / must-reject programs decided by the type checker); designated element by ' + AI[0],
               'every witness is decided by rustc on the current tree; the element holds for every index and shape; the std models and the interpreter are trusted'))
semantic('C22', 'c22', True, rule=WRULE + 'Evaluation and placement: abstract interpretation of the MIR of programs that use the macros (every supported number of '
         'elements; shapes up to 4 x 4, every single row and column, and larger samples) with element expressions that call an unknown function: the call history must be '
         'one call per expression in the order written, and each result must be the element at its place.',
         tech=('type-level witnesses (must-accept / must-reject programs decided by the type checker); evaluation order and placement by abstract interpretation of the MIR of expanded programs',
               'every witness is decided by rustc on the current tree; the placement holds for every element type; the std models and the interpreter are trusted'))
IRULE = ('every method of every iterator type of the crate is summarised from MIR as a transformer of the structure; structure '
         'invariants are inferred (greatest inductive subset of order/divisibility templates over the private integer fields); with the '
         'fields coupled to an interval [lo, hi) of items not yet produced, every transformer must be the step of that interval, for every '
         'shape and reachable state. A violation is reported only with a history: a composition of the derived transformers, from a '
         'constructor on, on which a result differs from the interval.')
II = ('invariant inference (inductive templates) and refinement of MIR-derived state transformers against an interval abstraction',
      'holds for every shape, element type and call history; the std models and the interpreter are trusted')
for p in ('C06', 'C07', 'C08'):
    semantic(p, p.lower(), mod='iters', rule=IRULE, tech=II)
SAFE = ('abstract interpretation of MIR of every public function (polyhedral path conditions, inferred structure invariants); access and panic points '
        'must be excluded by the path conditions for every shape, argument and history. A violation is reported only with inputs - for cursor '
        'structures a history from a constructor on - on which all path conditions to the point hold.')
ST = ('abstract interpretation of MIR with polyhedral path conditions and inferred structure invariants',
      'holds for every shape, argument and history; the std models and the interpreter are trusted')
for p in ('C03', 'C19'):
    semantic(p, p.lower(), mod='safety', rule=SAFE, tech=ST)
ORULE = ('ownership dataflow over MIR including unwind edges: every slot carries a live/moved/uninitialised mark (a closed-form predicate of its '
         'index); reads, drops and hand-overs must hit live slots, writes dead ones, structures keep live = remaining range. A violation is reported only '
         'with a history of the derived transformers on which an element is used twice, lost, or used before it was written.')
OT = ('ownership dataflow on MIR with unwind edges: symbolic liveness marks per slot and inductive structure invariants',
      'holds for every length, element type, source and call history; the std models and the interpreter are trusted')
for p in ('C01', 'C02'):
    semantic(p, p.lower(), mod='owner', rule=ORULE, tech=OT)
ARULE = ('abstract interpretation of MIR; the derived summary is compared with the algebraic specification: quotients of polynomials for the '
         'fixed sizes, and for general sizes an inductive argument on one step of the derived array recurrence (row operation with '
         'column-independent coefficients, cleared columns, products with the original preserved). A violation is reported only with a rational matrix '
         'on which the derived closed form is not the specified value.')
AT = ('abstract interpretation of MIR with array recurrences; inductive matrix invariants decided by polynomial normal forms',
      'holds for every size and every field; the std models and the interpreter are trusted')
for p in ('C14', 'C15'):
    semantic(p, p.lower(), mod='alg', rule=ARULE, tech=AT)
ERULE = ('abstract interpretation of MIR; the derived value is a (nested) fold of selections by comparison. Each step is decided on all weak '
         'orderings of the values it mentions (the selection is at least / at most the accumulator and the values added), and the families of '
         'elements covered must contain every position; clamping is compared with its definition on all weak orderings of element, min and max. '
         'A violation is reported only with a shape and a total preorder for which the derived closed form is not an extreme (not the limited value).')
semantic('C17', 'c17', mod='extreme', rule=ERULE, tech=('abstract interpretation of MIR; inductive selection invariant on folds decided over weak orderings',
         'holds for every shape and every total preorder; values that compare equal are not distinguished; the std models and the interpreter are trusted'))
KRULE = ('order: the output of Debug on a formatter whose writes succeed is derived as a closed form over the shape; it must list every element once in '
         'row-major order with a non-empty separator between consecutive rows and none at the ends (refuted only with a shape). Failures: '
         'path-sensitive typestate dataflow over MIR of every formatting impl, inlining helpers, closures and std models; from the failure of each '
         'write no path may write again, return Ok or unwrap (refuted only with the write and the path continued from it).')
semantic('C20', 'c20', mod='sink', rule=KRULE, tech=('abstract interpretation of MIR (output history in closed form); path-sensitive typestate dataflow for sink failures',
         'holds for every shape, element rendering and failing write; the std models and the interpreter are trusted'))
LRULE = ('the output of Display on a formatter whose writes succeed is derived as a closed form over the shape and the texts of the elements (loops '
         'bounded by maxima of line counts and line widths); it must be the term of the specified layout. A different term is reported only with '
         'a shape and element texts for which the output differs.')
semantic('C25', 'c25', mod='layout', rule=LRULE, combos=[('std',)],
         tech=('abstract interpretation of MIR: output history in closed form (running maxima), compared with the specified layout by normal form',
               'holds for every shape and every element text; the std models (format!, lines, str width) and the interpreter are trusted'))
FRULE = ('for each of the 8 feature combinations: the crate is type-checked; without std every item the library\'s own code names lies in core or a '
         'declared dependency; the call graph of every operation except Display (monomorphic within generic parameters, through every crate whose MIR is '
         'available) reaches no allocator function on a non-unwinding path; public items, impls, exports and macros are textually the same '
         'as in the default build; type-level programs are judged alike.')
semantic('C23', 'c23', mod='feat', rule=FRULE, tech=('type checking of all feature combinations; effect analysis on the cross-crate MIR call graph; comparison of exported interfaces',
         'decided for all 8 combinations on the current tree; the compiler and the declared dependencies are trusted'))
NA = {'C%02d' % i: 'check under construction' for i in range(1, 24)}
NA['C24'] = ('floating-point rounding error depends on run-time values and on the conditioning of the input; no sound static '
             'argument in reach bounds it for every shape')
