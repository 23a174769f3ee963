"""C03 and C19: accesses without a run-time check stay in bounds; no panic or overflow on legal inputs.

Every function a user can call is summarised with the inferred structure invariants assumed for its inputs.  An
access obligation (or a feasible panic) that the path conditions do not settle is reported only together with
concrete inputs - for cursor structures a state reached by composing the derived transformers from a constructor -
on which all path conditions hold and the obligation fails."""
from sem import *
import sem, inv, itertools
import multiprocessing
from evalt import Ev, Free, Undef
from iters import bindpoly
from mir import short

BIGS = ((1 << 63), (1 << 64) - 2, (1 << 64) - 1)
SECONDS = {'quick': 25, 'thorough': 150}
ERASE = ('ref', 'prim', 'life', 'region')


class Strict(Free):
    def iapp(self, f, xs):
        raise Undef('unknown integer')


def roots_of(safe=True):
    out = []
    for f in db().fns.values():
        if f['id'].startswith(db().crate + '::') and f.get('body') and f.get('reach') and f.get('inputs') is not None:
            if not (safe and f.get('unsafe')):
                out.append(f)
    return sorted(out, key=lambda f: f['id'])


def trait_of(fn):
    for L in db().impls.values():
        for i in L:
            if i['id'] == fn.get('impl'):
                return i
    return None


def legal(R, fn, args):
    """the documented conditions on the arguments (index and cofactor index in range, exact number collected)"""
    imp = trait_of(fn)
    tr = short(imp['trait']) if imp and imp.get('trait') else None
    tys = [R.t(x) for x in fn['inputs']]

    def inrange(shp, idx):
        return [lt(i, n) for i, n in zip(idx, shp)]

    def indices(v):
        if v.op == 'adt':
            return [x for x in v.a[2]]
        return [v]
    if tr in ('Index', 'IndexMut') and len(args) == 2:
        shp = shape(R, tys[0])
        ix = indices(args[1])
        if shp and len(shp) == len(ix) and all(isint(x) for x in ix):
            return inrange(shp, ix)
    if label(fn).split('::')[-1].startswith('get_unchecked') and len(args) == 2:
        shp = shape(R, tys[0])
        ix = indices(args[1])
        if shp and len(shp) == len(ix) and all(isint(x) for x in ix):
            return inrange(shp, ix)
    if tr == 'Cofactor' and len(args) == 2:
        shp = shape(R, tys[0])
        ix = indices(args[1])
        if shp and len(shp) == len(ix) and all(isint(x) for x in ix):
            return inrange(shp, ix)
    if tr == 'FromIterator':
        shp = shape(R, R.t(fn['output']))
        if shp:
            return [eq(iv('M'), shp[0])]
    if tr is None and imp is not None and adtname(imp['_self']) == 'ColsIterRefInner' and '::new' in label(fn) and len(args) == 2:
        ds = inv.dims_of(R.I, R.t(fn['output']))
        if len(ds) == 2 and isint(args[1]):
            return [lt(args[1], ds[1])]
    return []


def modular(R, fn):
    """determinants and cofactors called by another function are analysed on their own: a call stands for any element,
    its documented condition (cofactor index in range) becomes a panic of the caller when it can fail"""
    for tr in ('Cofactor', 'Determinant'):
        for imp in impls(tr, 'Matrix'):
            for f in (method(imp, tr.lower()),):
                if f is not None and f['id'] != fn['id']:
                    R.I.prims.override[f['id']] = handler(R, tr, imp)


def handler(R, tr, imp):
    def h(st, ft, args, dt):
        I = R.I
        if tr == 'Cofactor' and len(args) == 2:
            ty = peel(ft[2][0])
            ix = I.prims.val(st, args[1])
            ix = list(ix.a[2]) if ix.op == 'adt' else [ix]
            if ty[0] == 'adt' and len(ty[2]) == 3 and len(ix) == 2:
                cond = and_(*[lt(i, I.num_of(n)) for i, n in zip(ix, ty[2][1:])])
                bad = st.copy()
                bad.assume(not_(cond))
                I.panic(bad, 'panic', 'cofactor index')
                st.assume(cond)
        return I.prims.opaque_call(st, tr.lower(), args, dt)
    return h


def writes(fn):
    """does the function write to a formatter?"""
    return any('Formatter' in repr(x) for x in fn['inputs'])


def analyse(fn, pre, seconds, sink=None):
    R = roots.Root(db(), fn, invs=inv.infer())
    R.I.sink = sink
    modular(R, fn)
    extra = ()
    if pre:
        # argument values are named before the run, so build them once for the condition
        R0 = roots.Root(db(), fn, invs=inv.infer())
        from interp import State
        st = State((), {})
        R0.allocs = {}
        vals = [R0.value(st, 'ABCDEFG'[i], R0.t(x)) for i, x in enumerate(fn['inputs'])]
        extra = tuple(legal(R0, fn, vals))
    return R, R.run(pre=extra, seconds=seconds)


# ------------------------------------------------------------------ reachable states of cursor structures
class Trans:
    """one function as a constructor or transformer of cursor structures"""

    def __init__(self, fn):
        self.fn = fn
        self.R = roots.Root(db(), fn, invs=inv.infer())
        self.S = self.R.run(seconds=20)
        self.ok = self.S.err is None and self.S.ret is not None
        self.ins = []           # (name or position, type, value)
        R, S = self.R, self.S
        for i, t in enumerate(S.tys):
            ref = t[0] == 'ref'
            u = t[2] if ref else t
            if u[0] == 'adt' and u[1] in inv.tracked():
                nm = 'ABCDEFG'[i]
                v0 = S.init[('root', nm)] if ref and t[1] else unref(S.args[i])
                v1 = R.final(S, nm) if ref and t[1] and self.ok else None
                self.ins.append((u, v0, v1))
        self.args = [v for v in S.args if isint(v) and v.op == 'iv']
        self.post = tuple(x for x in S.state.pc if x not in S.pre) if self.ok else ()


def tname(t):
    return t[1]


def unsafe_free(f):
    return not f.get('unsafe')


def transformers():
    if 'trans' not in sem._ctx:
        out = []
        for f, mut, ret in inv.owners():
            if f.get('unsafe'):
                continue
            try:
                T = Trans(f)
            except Exception:
                continue
            if T.ok:
                out.append(T)
        sem._ctx['trans'] = out
    return sem._ctx['trans']


def setup(R, ty, v, shape_, vals):
    """assignment of the symbolic inputs for a concrete structure state (None: not representable)"""
    env = {}
    ds = inv.dims_of(R.I, ty)
    q = getattr(R, 'quot', None)
    for d, x in sorted(zip(ds, shape_), key=lambda t: t[0].op != 'iv'):
        if not bindpoly(env, d, x):
            return None
    for (p, t), x in zip(inv.leaves(R.I, ty, v), vals):
        if not bindpoly(env, t, x):
            return None
    return env


ARGS = (0, 1, 2, 3) + BIGS


def argsets(vs):
    return itertools.product(*[ARGS if True else () for _ in vs])


def shapes(nd, cs):
    m = 3 if sem.TIER[0] == 'quick' else 4
    cs = [x for x in cs if x <= 20]
    if nd == 1:
        return sorted({(x,) for x in range(m + 2)} | {(x + y,) for x in cs for y in range(3)})
    out = [s for s in itertools.product(range(m + 1), repeat=nd)]
    return sorted(out, key=lambda s: (sum(s), s))


def states(adtid):
    """reachable states of a cursor structure: list of (shape, values, history)"""
    key = ('states', adtid)
    if key in sem._ctx:
        return sem._ctx[key]
    out = {}
    work = []

    def put_(sh, vals, hist):
        k = (sh, vals)
        if k not in out and len(out) < 4000:
            out[k] = hist
            if len(hist) < 7:
                work.append(k)
    for T in transformers():
        if not T.S.ret or T.ins:
            continue
        for q, t, v in inv.occurrences(T.R, T.R.t(T.fn['output']), T.S.ret, ()):
            if t[1] != adtid or v is None or v.top:
                continue
            ivs = dimvars(T.R, T.S)
            cs = sem.constants([x for _, x in inv.leaves(T.R.I, t, v)])
            for env in assign(T.R, T.S, ivs, cs):
                E = Ev(Strict(0), env)
                try:
                    if not all(E.boo(x, {}) for x in T.S.pre + T.post + tuple(q)):
                        continue
                    sh = tuple(E.num(d, {}) for d in inv.dims_of(T.R.I, t))
                    vals = tuple(E.num(x, {}) for _, x in inv.leaves(T.R.I, t, v))
                except Undef:
                    continue
                put_(sh, vals, (label(T.fn) + argtxt(T.args, env),))
    ts = [(T, u, v0, v1) for T in transformers() for u, v0, v1 in T.ins if u[1] == adtid and v1 is not None and len(T.ins) == 1]
    # items of other structures that are themselves of this kind
    for T in transformers():
        if len(T.ins) == 1 and T.ins[0][0][1] != adtid and T.ok and mentions_out(T, adtid):
            u, v0, v1 = T.ins[0]
            for (sh, vals), hist in list(states(u[1]).items()):
                env0 = setup(T.R, u, v0, sh, vals)
                if not env0:
                    continue
                for a in argsets(T.args):
                    env = dict(env0)
                    env.update(zip(T.args, a))
                    for q, t, v in inv.occurrences(T.R, T.R.t(T.fn['output']), T.S.ret, ()):
                        if t[1] != adtid:
                            continue
                        E = Ev(Strict(0), env)
                        try:
                            if all(E.boo(x, {}) for x in T.post + tuple(q)):
                                sh2 = tuple(E.num(d, {}) for d in inv.dims_of(T.R.I, t))
                                put_(sh2, tuple(E.num(x, {}) for _, x in inv.leaves(T.R.I, t, v)),
                                     hist + (short(u[1]) + '::' + T.fn['n'] + argtxt(T.args, env),))
                        except Undef:
                            pass
    while work:
        sh, vals = work.pop(0)
        hist = out[(sh, vals)]
        for T, u, v0, v1 in ts:
            env0 = setup(T.R, u, v0, sh, vals)
            if env0 is None:
                continue
            for a in argsets(T.args):
                env = dict(env0)
                env.update(zip(T.args, a))
                E = Ev(Strict(0), env)
                try:
                    if not all(E.boo(x, {}) for x in T.post):
                        continue
                    nv = tuple(E.num(x, {}) for _, x in inv.leaves(T.R.I, u, v1))
                except Undef:
                    continue
                put_(sh, nv, hist + (T.fn['n'] + argtxt(T.args, env),))
    sem._ctx[key] = out
    return out


def mentions_out(T, adtid):
    return bool(T.fn.get('output')) and inv.mentions_one(T.R.t(T.fn['output']), adtid)


def argtxt(args, env):
    return '(%s)' % ', '.join(str(env[a]) for a in args if a in env)


def dimvars(R, S):
    fv = set()
    for f in S.pre:
        fv |= f.fv
    for v in S.args:
        fv |= v.fv
    fv |= set(R.dims)
    return sorted({v for v in fv if v.op == 'iv'}, key=lambda v: (v not in R.dims, v.a[0]))


def assign(R, S, ivs, cs):
    """small (and, for run-time integers, extreme) values of the inputs that satisfy the preconditions"""
    m = 3 if sem.TIER[0] == 'quick' else 4
    base = list(range(m + 1))
    ext = sorted({y for x in cs for y in (x - 1, x, x + 1) if m < y <= 40})[:8]
    dims = set(R.dims)
    pre = S.pre

    def ok(env):
        E = Ev(Strict(0), env)
        for f in pre:
            if all(v in env for v in f.fv):
                try:
                    if not E.boo(f, {}):
                        return False
                except Undef:
                    return False
        return True

    def go(i, env, ex):
        if i == len(ivs):
            yield dict(env)
            return
        v = ivs[i]
        cand = base + (ext if ex < 2 else []) + ([] if v in dims or '/' in v.a[0] else list(BIGS))
        for x in cand:
            env[v] = x
            if ok(env):
                yield from go(i + 1, env, ex + (x > m))
            del env[v]
    yield from itertools.islice(go(0, {}, 0), 20000)


# ------------------------------------------------------------------ refutation
def reachable(R, S, fn, goal, extra, seconds=20):
    """inputs on which all path conditions hold and `goal` evaluates to False (goal None: path conditions suffice)"""
    if any(x.top for x in extra) or (goal is not None and goal.top):
        return None
    if S.stats['unsolved'] or S.stats.get('loose'):
        return None
    ts = list(extra) + ([goal] if goal is not None else [])
    fv = set()
    for t in ts:
        fv |= t.fv
    trk = [(i, t) for i, t in enumerate(S.tys) if (t[2] if t[0] == 'ref' else t)[0] == 'adt' and (t[2] if t[0] == 'ref' else t)[1] in inv.tracked()]
    inputs = dimvars(R, S)
    loops_ = sorted((v for v in fv if v.op == 'iv' and v not in inputs), key=lambda v: v.id)
    if any('!' not in v.a[0] for v in loops_) or len(loops_) > 3:
        return None
    cs = sem.constants(ts)
    end = time.time() + seconds

    def envs():
        if not trk:
            for env in assign(R, S, inputs, cs):
                yield env, None
            return
        if len(trk) > 1:
            return
        i, t = trk[0]
        u = t[2] if t[0] == 'ref' else t
        nm = 'ABCDEFG'[i]
        v0 = S.init[('root', nm)] if t[0] == 'ref' and t[1] else unref(S.args[i])
        rest = [v for v in S.args if isint(v) and v.op == 'iv']
        for (sh, vals), hist in sorted(states(u[1]).items(), key=lambda kv: (len(kv[1]), kv[0])):
            env0 = setup(R, u, v0, sh, vals)
            if env0 is None:
                continue
            for a in argsets(rest):
                env = dict(env0)
                env.update(zip(rest, a))
                yield env, hist
    for env, hist in envs():
        if time.time() > end:
            return None
        for seed in (0, 1, 2, 3, 4, 5, 6):
            w = hit(Strict(seed), env, loops_, extra, goal)
            if w is not None:
                names = {v.a[0]: x for v, x in env.items()}
                d = {'inputs': names, 'element_predicates': 'interpretation %d' % seed}
                if hist:
                    d['history'] = list(hist)
                if w:
                    d['loop_iterations'] = list(w)
                return d
    return None


def hit(m, env, lv, extra, goal):
    def go(i, e):
        E = Ev(m, e)
        try:
            for x in extra:
                if all(v in e for v in x.fv if v.op == 'iv'):
                    if not E.boo(x, {}):
                        return None
            if i == len(lv):
                if goal is None or not E.boo(goal, {}):
                    return [e[v] for v in lv]
                return None
        except Undef:
            return None
        for x in range(8):
            e2 = dict(e)
            e2[lv[i]] = x
            r = go(i + 1, e2)
            if r is not None:
                return r
        return None
    return go(0, env)


def site(x):
    sp = x['sp'] or '?'
    return '%s (%s)' % (x['fn'], sp.replace('/repo/', ''))


def one(job):
    fid, mode, tier = job
    sem.TIER[0] = tier
    fn = db().fns[fid]
    t = time.time()
    out = {'fn': label(fn), 'at': where(fn), 'n': 0, 'res': [], 'err': None, 'sites': [], 'blocks': 0}
    try:
        # proofs assume nothing about the outcome of writes; counterexamples are searched with a formatter that never fails
        R, S = analyse(fn, mode == 'panic' or fn.get('unsafe'), SECONDS[tier] * (2.4 if writes(fn) else 1), 'any' if writes(fn) else None)
        if R.I.sink and not S.err and (S.panics or any(not o['ok'] for o in S.obl)):
            R2, S2 = analyse(fn, mode == 'panic' or fn.get('unsafe'), SECONDS[tier], 'sound')
            if S2.err or mode == 'panic' and not S2.panics or mode == 'bounds' and all(o['ok'] for o in S2.obl):
                out['err'] = S2.err or 'not shown when a write may fail'
            R, S = R2, S2
    except Exception as e:
        out['err'] = repr(e)[:200]
        return out
    out['blocks'] = S.stats['blocks']
    if S.err:
        out['err'] = S.err
    if mode == 'bounds':
        L = [o for o in S.obl if o['kind'] == 'bounds']
        out['n'] = len(L)
        out['sites'] = sorted(S.stats.get('unsafe', ()), key=repr)
        if S.stats.get('unsafe_unknown'):
            out['err'] = 'an unsafe function without a model is called'
        todo = [(o, o['cond']) for o in L if not o['ok']]
    else:
        todo = [(p, None) for p in S.panics]
        out['n'] = max(1, len(S.panics))
    seen = set()
    for o, goal in todo:
        k = (o['fn'], o['sp'], goal.id if goal is not None else o['detail'])
        w = None
        if time.time() - t < 2.5 * SECONDS[tier]:
            try:
                w = reachable(R, S, fn, goal, tuple(o['pc']), seconds=15 if len(todo) < 6 else 6)
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
        d = {'site': site(o), 'detail': o['detail'], 'chain': o['chain'][:6]}
        if goal is not None:
            d['needed'] = show(goal)[:300]
        if w:
            d.update(w)
            out['res'].append(('violated', d))
            break
        if k not in seen:
            out['res'].append(('undecided', d))
        seen.add(k)
    if mode == 'panic' and not S.err and S.ret is None and not S.panics:
        out['err'] = 'no normal return derived'
    if mode == 'panic' and (S.unknown or S.stats['unsolved']) and not S.panics:
        out['note'] = True
    out['s'] = time.time() - t
    return out


def sweep(rep, mode, safe, tag=''):
    fns = roots_of(safe)
    inv.infer()
    transformers()
    for a in inv.tracked():
        states(a)
    slow = ('determinant', 'cofactor', 'inverse', 'fmt')
    jobs = sorted([(f['id'], mode, sem.TIER[0]) for f in fns], key=lambda j: not any(x in j[0] for x in slow))
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as p:
        res = p.map(one, jobs, chunksize=1)
    sites = set()
    nacc = 0
    for r in res:
        oid = r['fn'] + tag
        nacc += r['n']
        sites |= set(map(tuple, r['sites']))
        v = [d for s, d in r['res'] if s == 'violated']
        if v:
            rep.violated(oid, function=r['fn'], at=r['at'], **v[0])
        elif r['err']:
            rep.undecided(oid, 'not analysed completely: %s' % r['err'])
        elif r['res']:
            rep.undecided(oid, '; '.join('%s %s %s' % (d['site'], d['detail'], d.get('needed', '')) for s, d in r['res'])[:600])
        else:
            rep.proved(oid)
    rep.notes['functions_analysed' + tag] = [r['fn'] + ' @ ' + r['at'] for r in res][:260]
    rep.notes['blocks_interpreted' + tag] = sum(r['blocks'] for r in res)
    rep.notes[('unchecked_accesses' if mode == 'bounds' else 'panic_or_clean_return_points') + tag] = nacc
    rep.notes['slowest' + tag] = sorted(((round(r.get('s', 0), 1), r['fn']) for r in res), reverse=True)[:5]
    return sites


def unsafe_sites():
    """calls of unsafe functions of other crates written in this crate: (function, call)"""
    from interp import json_key
    out = set()
    for f in db().fns.values():
        if f['id'].startswith(db().crate + '::') and f.get('body'):
            for b in f['body']['blocks']:
                t = b['term'] if 'term' in b else b
                if t.get('t') == 'call' and t['f']['o'] == 'const' and t['f']['ty'].get('unsafe') and \
                        not t['f']['ty']['d'].startswith((db().crate + '::', 'core::fmt::')):
                    out.add((f['id'], json_key(t)))
    return out


def switch(dbg):
    """analyse the build with or without debug assertions"""
    sem._ctx.clear()
    sem._runs.clear()
    if dbg:
        sem._ctx['db'] = mir.load([build.repo_dump(dbg=True), build.models_dump()])


def c03(rep):
    for dbg in (False, True):
        switch(dbg)
        tag = ' [debug]' if dbg else ''
        sites = sweep(rep, 'bounds', False, tag)
        sites_accounted(rep, sites, tag)
    table(rep)


def sites_accounted(rep, seen, tag):
    """every call of a foreign unsafe function in the source was met by the analysis of some public function"""
    us = unsafe_sites()
    rep.notes['foreign_unsafe_calls_in_source' + tag] = len(us)
    rep.notes['foreign_unsafe_calls_analysed' + tag] = len([x for x in us if x in seen])
    for f, k in sorted(us, key=repr):
        oid = 'unsafe call of %s in %s%s' % (short(k[0]), f, tag)
        if (f, k) in seen:
            rep.proved(oid)
        else:
            rep.undecided(oid, 'not reached by the analysis of any public function')


def table(rep):
    """storage lengths: every ArrayLen impl of the crate maps a number to an array of that length"""
    I = roots.Interp(db(), False) if hasattr(roots, 'Interp') else None
    for imp in db().impls.get(arraylen(), []):
        if imp['_crate'] != db().crate:
            continue
        oid = 'storage of ' + db().show(imp['_self'])
        t = assoc(imp)
        if t is None or t[0] != 'array':
            rep.undecided(oid, 'storage is not an array')
            continue
        try:
            n = I.num_of(imp['_self'])
            m = I.prims.len_node(t[2])
        except Exception as e:
            rep.undecided(oid, repr(e)[:100])
            continue
        if n is m:
            rep.proved(oid)
        elif n.op == 'c' and m.op == 'c':
            rep.violated(oid, what='the storage array has another length than its number says', number=n.a[0], length=m.a[0])
        else:
            rep.undecided(oid, 'length not evaluated')


def arraylen():
    for t in db().impls:
        if t and short(t) == 'ArrayLen':
            return t
    return 'ArrayLen'


def assoc(imp):
    for it in imp['items']:
        if it['kind'] in ('Type', 'AssocTy', 'Ty') or 'ty' in it:
            if it.get('ty') is not None:
                return db().norm(db().ty(it['ty']))
    return None


def c19(rep):
    for dbg in (False, True):
        switch(dbg)
        sweep(rep, 'panic', True, ' [debug]' if dbg else '')
