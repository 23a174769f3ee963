"""C01 and C02: every element is owned by exactly one place.

Ownership mode of the interpreter: reading a slot out by value or dropping it marks it `moved`, a fresh slot is
`uninit`; every read, drop or hand-over of a slot is an obligation that it is live, every write an obligation that it
is not; panics of destructors and of the source follow their unwind edges.  A by-value iterator is analysed with the
invariant "slot k is live exactly when lo <= k < hi", which every constructor must establish, every method must keep
(also when it unwinds: no slot the structure still claims may be dead), and its destructor must use up."""
from sem import *
import sem, inv, safety, iters, prims
from prims import live_cond, TRANSPARENT
from evalt import Ev, Free, Undef, strip
from specs import guarded
from mir import short
import itertools
MOVED = raw('moved')
BIG = (1 << 64) - 1
SECONDS = 30


def storage(v, path=()):
    """path of the element storage (an array behind a no-drop wrapper) inside a structure value"""
    if v.op != 'adt':
        return None
    for i, x in enumerate(v.a[2]):
        if x.op == 'adt' and x.a[0] in TRANSPARENT and len(x.a[2]) == 1 and alen(x.a[2][0]) is not None:
            return path + (i, 0)
    for i, x in enumerate(v.a[2]):
        if x.op == 'adt' and x.a[0] not in TRANSPARENT:
            p = storage(x, path + (i,))
            if p is not None:
                return p
    return None


def at(v, path):
    for i in path:
        v = field(v, i)
    return v


def direct(v):
    return v.op == 'adt' and any(x.op == 'adt' and x.a[0] in TRANSPARENT and len(x.a[2]) == 1 and alen(x.a[2][0]) is not None for x in v.a[2])


class Ghost:
    """the inferred invariants plus liveness marks on the storage of owning cursors"""

    def __init__(self, rng=None):
        self.rng = rng           # type id -> (R, ty, v) -> (lo, hi); None: an uninterpreted set

    def __call__(self, R, ty, v):
        old = v
        v, fs = inv.infer()(R, ty, v)
        m = {a: b for (p, a), (q, b) in zip(inv.leaves(R.I, ty, old), inv.leaves(R.I, ty, v)) if a is not b and a.op == 'iv'}
        if m:
            v = subst(v, m)
        if direct(v):
            p = storage(v)
            a = at(v, p)
            n = alen(a)
            if self.rng is not None:
                r = self.rng(R, ty, v)
                if r is None:
                    return v, fs
                lo, hi = r
                b = comp_f(n, lambda k: ite(and_(le(lo, k), lt(k, hi)), sel(a, k), MOVED))
            else:
                b = comp_f(n, lambda k: ite(pred(raw('in', 'live', (k,))), sel(a, k), MOVED))
            v = inv.setleaf(v, p, b)
        return v, fs


def owning():
    """tracked structures that own a storage themselves"""
    out = []
    for a in inv.tracked():
        v = sample(a)
        if v is not None and direct(v[2]):
            out.append(a)
    return out


def sample(a):
    from interp import State
    for i in db().impls.values():
        for m in i:
            if m['_self'][0] == 'adt' and m['_self'][1] == a:
                for it in m['items']:
                    fn = db().fns.get(it['d'])
                    if fn is not None and fn.get('body') and fn.get('inputs'):
                        R = roots.Root(db(), fn)
                        t = R.t(fn['inputs'][0])
                        t = t[2] if t[0] == 'ref' else t
                        if t[0] == 'adt' and t[1] == a:
                            R.allocs = {}
                            return R, t, R.value(State((), {}), 'A', t)
    return None


class Run:
    def __init__(self, fn, ghost):
        self.fn = fn
        self.R = R = roots.Root(db(), fn, True, invs=ghost)
        self.S = S = R.run(seconds=SECONDS)
        self.ok = S.err is None
        self.name = label(fn).split('::')[-1]
        self.ins = []
        for i, t in enumerate(S.tys):
            u = t[2] if t[0] == 'ref' else t
            if u[0] == 'adt' and u[1] in inv.tracked():
                nm = 'ABCDEFG'[i]
                mut = t[0] == 'ref' and t[1]
                v0 = S.init[('root', nm)] if mut else unref(S.args[i])
                p = storage(v0)
                if p is None:
                    continue
                self.ins.append(dict(nm=nm, ty=u, v0=v0, mut=mut, byval=t[0] != 'ref', path=p,
                                     v1=R.final(S, nm) if mut and self.ok and S.state is not None else None,
                                     vu=S.unw.mem.get(('root', nm)) if mut and self.ok and S.unw is not None else None))
        self.post = tuple(x for x in S.state.pc if x not in S.pre) if self.ok and S.state is not None else ()
        self.args = [v for v in S.args if isint(v) and v.op == 'iv']

    def roots(self):
        S = self.S
        out = list(self.post) + [x for i in self.ins for x in (i['v1'], i['vu']) if x is not None]
        if S.state is not None:
            out.append(S.state.mem[roots.LOG])
        if S.ret is not None:
            out.append(S.ret)
        if S.unw is not None:
            out += list(S.unw.pc)
        return out


def users():
    """functions that take or make an owning cursor (directly or inside another structure), and destructors"""
    own = set(owning())
    d = db()
    out = []
    for f in d.fns.values():
        if not f['id'].startswith(d.crate + '::') or not f.get('body') or f.get('inputs') is None or f.get('unsafe'):
            continue
        imp = safety.trait_of(f)
        dropimp = imp is not None and imp.get('trait') and short(imp['trait']) == 'Drop'
        if not f.get('reach') and not dropimp:
            continue
        try:
            R = roots.Root(d, f)
            ts = [R.t(x) for x in f['inputs']] + ([R.t(f['output'])] if f.get('output') else [])
        except Exception:
            continue
        if any(deep(t, own) for t in ts):
            out.append((f, dropimp))
    return sorted(out, key=lambda x: x[0]['id'])


def deep(t, own, depth=0):
    if not isinstance(t, tuple) or depth > 5:
        return False
    if t and t[0] == 'adt':
        if t[1] in own:
            return True
        if t[1] in inv.tracked():
            a = db().adts[t[1]]
            return any(deep(db().ty(f['ty']), own, depth + 1) for f in a['variants'][0]['fields'])
    return any(deep(x, own, depth + 1) for x in t if isinstance(x, tuple))


# ------------------------------------------------------------------ where elements go
class Shape(Exception):
    pass


def moved_indices(v, name, cond=TRUE):
    """[(condition, index, binders)] of the storage elements inside a value"""
    v = unref(v)
    if v.op == 'in' or v.op == 'app' and v.a[0] == name:
        return [(cond, v.a[1][0], ())] if v.a[0] == name and v.a[1] else []
    if v.op == 'inarr':
        if v.a[0] != name:
            return []
        if len(v.a[3]) >= 1:
            return [(cond, v.a[3][0], ())]
        raise Shape('whole storage')
    if v.op == 'ite':
        return moved_indices(v.a[1], name, and_(cond, v.a[0])) + moved_indices(v.a[2], name, and_(cond, not_(v.a[0])))
    if v.op == 'adt':
        out = []
        fs = v.a[2]
        got = [moved_indices(x, name, cond) for x in fs]
        for g in got:
            out += g
        return out
    if v.op == 'comp':
        k = fresh_iv('e')
        out = moved_indices(sel(v, k), name, cond)
        r = []
        for cnd, i, bs in out:
            if k in i.fv or k in cnd.fv:
                r.append((cnd, i, bs + ((k, v.a[0]),)))
            else:
                r.append((cnd, i, bs))
        return r
    if v.op == 'list':
        out = []
        for x in v.a[0]:
            out += moved_indices(x, name, cond)
        return out
    if v.op in ('moved', 'uninit', 'c', 'poly', 'iv', 'str', 'true', 'false'):
        return []
    if contains(v, lambda n: n.op in ('in', 'inarr') and n.a[0] == name):
        raise Shape('value %s' % v.op)
    if v.top:
        raise Shape('not derived')
    return []


def dropped(log, name, cond=TRUE):
    """[(condition, index, binders)] of the destructor calls in a history"""
    out = []
    if log.op == 'ite':
        return dropped(log.a[1], name, and_(cond, log.a[0])) + dropped(log.a[2], name, and_(cond, not_(log.a[0])))
    if log.op == 'seq':
        for x in log.a[0]:
            out += dropped(x, name, cond)
        return out
    if log.op == 'seqloop':
        k = fresh_iv('d')
        body = inst(log, k)
        r = dropped(body, name, cond)
        return [(cnd, i, bs + ((k, log.a[0]),)) for cnd, i, bs in r]
    if log.op == 'ev':
        if log.a[0] in ('drop', 'dropall'):
            for x in log.a[1]:
                out += moved_indices(x, name, cond)
        elif log.a[0] == 'call':
            for x in log.a[1]:
                if isinstance(x, Node):
                    out += moved_indices(x, name, cond)
        return out
    if log.top or log.op == 'sv':
        raise Shape('history not derived')
    return out


def elimbinder(cond, idx, bs, k):
    """condition under which k is one of the indices (each at most once); None when not of that form"""
    c_ = cond
    for v, n in bs:
        d = pdict(idx)
        a = d.get((v,))
        if a not in (1, -1) or any(v in m and m != (v,) for m in d) or any(v in x.fv for m in d for x in m if x is not v):
            return None
        r = dict(d)
        del r[(v,)]
        rest = mkpoly(r)
        val = sub(k, rest) if a == 1 else sub(rest, k)
        c_ = and_(subst(c_, {v: val}), le(ZERO, val), lt(val, n))
        return c_ if len(bs) == 1 else None
    return and_(c_, eq(k, idx))


def iff(pc, a, b):
    return entails(pc + (a,), b) and entails(pc + (b,), a)


# ------------------------------------------------------------------ proof
def couplings_of(a):
    it = iters.get_iter(short(a))
    return (it, iters.couplings(it)) if it is not None and it.K is not None else (None, [])


def ranger(a, cp):
    def r(R, ty, v):
        if ty[1] != a:
            return None
        return cp.of(inv.leaves(R.I, ty, v), ONE)
    return r


def rng_of(R, ty, v, a, cp):
    """range of the owning cursor inside a structure value"""
    if ty[1] == a:
        return cp.of(inv.leaves(R.I, ty, v), ONE)
    for i, t in enumerate(R.I.prims.field_types(ty, 0)):
        if t[0] == 'adt' and t[1] in inv.tracked():
            x = rng_of(R, t, field(v, i), a, cp)
            if x is not None:
                return x
    return None


def prove(r, a, cp):
    """'proved' or what is missing, for one function in ownership mode"""
    S, R = r.S, r.R
    if not r.ok:
        return 'not analysed: %s' % S.err
    for o in S.obl:
        if o['kind'] in ('live', 'overwrite') and not o['ok']:
            return '%s: %s needs %s' % (safety.site(o), o['detail'], show(o['cond'])[:200])
    pre = tuple(S.pre)
    # what it makes
    if S.state is not None and S.ret is not None:
        for q, t, v in inv.occurrences(R, R.t(r.fn['output']), S.ret, tuple(S.state.pc)):
            if v is None or v.top:
                return 'the structure it returns is not derived'
            if t[1] == a:
                w = marks(R, t, v, cp, a, q, True)
                if w:
                    return 'returned structure: ' + w
    for i in r.ins:
        if not contains_own(i, a):
            continue
        nm = storename(i)
        if S.state is not None:
            pc = tuple(S.state.pc)
            if i['mut']:
                w = marks(R, i['ty'], i['v1'], cp, a, pc, not isdrop(r.fn), isdrop(r.fn))
                if w:
                    return w
            if i['mut'] or i['byval']:
                w = accounts(r, i, nm, pc, a, cp)
                if w:
                    return w
        if S.unw is not None and i['mut'] and not isdrop(r.fn):
            if i['vu'] is None:
                return 'state after a panic not derived'
            w = marks(R, i['ty'], simp(i['vu'], S.unw.pc), cp, a, tuple(S.unw.pc), False)
            if w:
                return 'after a panic: ' + w
    return 'proved'


def isdrop(fn):
    imp = safety.trait_of(fn)
    return imp is not None and bool(imp.get('trait')) and short(imp['trait']) == 'Drop'


def contains_own(i, a):
    return i['path'] is not None


def storename(i):
    v = at(i['v0'], i['path'])
    for n in subterms(v):
        if n.op in ('in', 'inarr') and n.a[0] != 'live':
            return n.a[0]
    return None


def marks(R, ty, v, cp, a, pc, both, used=False):
    """live slots of a structure value against its range"""
    x = rng_of(R, ty, v, a, cp)
    p = storage(v)
    if x is None or p is None:
        return 'range or storage not readable'
    lo, hi = x
    s = at(v, p)
    k = fresh_iv('s')
    n = alen(s)
    lv = live_cond(simp(sel(s, k), pc + (le(ZERO, k), lt(k, n))))
    if lv.top:
        return 'liveness not derived'
    base = pc + (le(ZERO, k), lt(k, n))
    want = and_(le(lo, k), lt(k, hi))
    if used:
        if feasible(base + (lv,)):
            return 'slots that are neither returned nor dropped'
        return None
    if not entails(base + (want,), lv):
        return 'a slot in the remaining range may be dead'
    if both and not entails(base + (lv,), want):
        return 'a live slot may lie outside the remaining range'
    return None


def accounts(r, i, nm, pc, a, cp):
    """each live slot goes to exactly one place"""
    R, S = r.R, r.S
    x = rng_of(R, i['ty'], i['v0'], a, cp)
    if x is None:
        return 'range not readable'
    lo, hi = x
    k = fresh_iv('s')
    n = alen(at(i['v0'], i['path']))
    base = pc + (le(ZERO, k), lt(k, n), le(lo, k), lt(k, hi))
    try:
        places = dropped(S.state.mem[roots.LOG], nm)
        if S.ret is not None:
            places += moved_indices(S.ret, nm) if not r_holds(R, r, S, a) else []
    except Shape as e:
        return 'elements not followed: %s' % e
    ps = []
    for cnd, ix, bs in places:
        q = elimbinder(cnd, ix, bs, k)
        if q is None:
            return 'elements not followed: %s' % show(ix)[:100]
        ps.append(q)
    if i['mut']:
        s = at(i['v1'], i['path'])
        ps.append(live_cond(simp(sel(s, k), base)))
    elif r_holds(R, r, S, a):
        return None
    for p, q in itertools.combinations(ps, 2):
        if feasible(base + (p, q)):
            return 'an element may end up in two places'
    if not entails(base, or_(*ps)):
        return 'an element may end up nowhere'
    return None


def r_holds(R, r, S, a):
    """the result is itself an owner of the storage"""
    t = R.t(r.fn['output'])
    return deep(t, {a}) and inv.mentions(t)


# ------------------------------------------------------------------ refutation by histories
class LiveModel(Free):
    def iapp(self, f, xs):
        if f.startswith('sizeof:'):
            return (8, 0)[ZST[0]]
        return Free.iapp(self, f, xs)


ZST = [0]           # elements of size zero in the models


KS = (0, 1, 2, 3, BIG - 1, BIG)


def explore(a, fns):
    """first history after which an element is used twice or lost"""
    g = Ghost(None)
    runs = []
    drop = None
    for f, isd in fns:
        try:
            r = Run(f, g)
        except Exception:
            if os.environ.get('VERIF_DEBUG'):
                raise
            continue
        if not r.ok or r.S.stats['unsolved'] or r.S.stats.get('loose'):
            continue
        if isd:
            if len(r.ins) == 1 and r.ins[0]['ty'][1] == a:
                drop = r
            continue
        runs.append(r)
    it, cps = couplings_of(a)
    if it is None:
        return None
    if not any(isd for f, isd in fns if True and selfis(f, a)):
        f, R, S, t = it.ctors[0]
        return {'function': 'no destructor for ' + short(a), 'history': [label(f), 'drop'], 'derived': 'remaining elements are never dropped'}
    ms = [r for r in runs if len(r.ins) == 1 and r.ins[0]['ty'][1] == a]
    sized = any(n.op == 'iapp' and n.a[0].startswith('sizeof:') for r in ms + [drop] * (drop is not None) for x in r.roots() for n in subterms(x))
    for (f, R, S, t), z in itertools.product(it.ctors, (0, 1) if sized else (0,)):
        ZST[0] = z
        if S.err or S.ret is None:
            continue
        for n in range(0, 5):
            env = {}
            if not all(iters.bindpoly(env, d, n) for d in inv.dims_of(R.I, t)):
                continue
            E = Ev(LiveModel(0), env)
            try:
                vals = tuple(E.num(v, {}) for _, v in inv.leaves(R.I, t, S.ret))
            except Undef:
                continue
            w = bfs(a, n, vals, frozenset(range(n)), ms, drop, label(f))
            if w:
                return w
    return None


def selfis(f, a):
    imp = safety.trait_of(f)
    return imp is not None and imp['_self'][0] == 'adt' and imp['_self'][1] == a


class Bad(Exception):
    pass


def envfor(r, n, vals, live, extra=()):
    i = r.ins[0]
    env = {}
    for d in inv.dims_of(r.R.I, i['ty']):
        if not iters.bindpoly(env, d, n):
            return None
    for (p, t), x in zip(inv.leaves(r.R.I, i['ty'], i['v0']), vals):
        if not iters.bindpoly(env, t, x):
            return None
    for v, x in extra:
        env[v] = x
    for k in range(-1, n + 40):
        env[('in', 'live', (k,))] = k in live
    return env


def atoms(v, name):
    """storage indices inside an evaluated value (with repetition)"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'in' and v[1] == name:
            return [v[2][0]] if v[2] else []
        if len(v) == 3 and v[0] == 'app' and v[1] == name:
            return [v[2]]
        if v and v[0] == 'ev':
            return atoms(v[2], name)
        out = []
        for x in v:
            out += atoms(x, name)
        return out
    return []


def obligations(r, env, n):
    """a violated obligation of a run under concrete inputs"""
    known = {v for v in env if isinstance(v, Node)}
    for o in r.S.obl:
        if o['kind'] not in ('live', 'overwrite', 'bounds') or o['cond'].top or any(x.top for x in o['pc']):
            continue
        fv = set()
        for x in tuple(o['pc']) + (o['cond'],):
            fv |= x.fv
        lv = sorted((v for v in fv if v.op == 'iv' and v not in known), key=lambda v: v.id)
        if any('!' not in v.a[0] for v in lv) or len(lv) > 2:
            continue
        w = safety.hit(LiveModel(0), env, lv, tuple(o['pc']), o['cond'])
        if w is not None:
            return o
    return None


def outcome(r, env, n, pc, v1, log, ret):
    E = Ev(LiveModel(0), env)
    for x in pc:
        if not E.boo(x, {}):
            return None
    i = r.ins[0]
    nm = storename(i)
    out = {}
    if v1 is not None:
        out['vals'] = tuple(E.num(x, {}) for _, x in inv.leaves(r.R.I, i['ty'], v1))
        s = at(v1, i['path'])
        out['live'] = frozenset(k for k in range(n) if E.boo(live_cond(sel(s, c(k))), {}))
    out['drops'] = [y for x in E.ev(log, {})[1] if x[1] in ('drop', 'dropall') for y in atoms(x[2], nm)]
    out['ret'] = atoms(E.ev(ret, {}), nm) if ret is not None else []
    return out


def describe(r, n, hist, what, o=None):
    d = {'function': label(r.fn), 'at': where(r.fn), 'length': n, 'history': hist, 'derived': what}
    if o is not None:
        d['site'] = safety.site(o)
        d['needed'] = '%s: %s' % (o['detail'], show(o['cond'])[:200])
    return d


def bfs(a, n, vals, live, ms, drop, start):
    seen = {(vals, live, False)}
    work = [(vals, live, [start], False)]
    steps = 0
    end = time.time() + 60
    while work and steps < 4000 and time.time() < end:
        vals, live, hist, torn = work.pop(0)
        # a panic of a destructor may leak, but nothing may be used twice
        if drop is not None:
            env = envfor(drop, n, vals, live)
            if env is not None:
                o = obligations(drop, env, n)
                if o is not None:
                    return describe(drop, n, hist + ['drop'], 'a slot is used that holds no element (used twice or never filled)', o)
                try:
                    if drop.S.state is not None:
                        x = outcome(drop, env, n, drop.post, None, drop.S.state.mem[roots.LOG], None)
                        if x is not None:
                            if sorted(set(x['drops'])) != sorted(x['drops']):
                                return describe(drop, n, hist + ['drop'], 'an element is dropped twice: %s' % x['drops'])
                            if not torn and set(x['drops']) != set(live):
                                return describe(drop, n, hist + ['drop'], 'elements %s are dropped, %s are still owned' % (
                                    sorted(x['drops']), sorted(live)))
                except Undef:
                    pass
        for r in ms:
            i = r.ins[0]
            for ks in itertools.product(*[KS for _ in r.args]):
                steps += 1
                env = envfor(r, n, vals, live, zip(r.args, ks))
                if env is None:
                    continue
                call = r.name + ('(%s)' % ', '.join(map(str, ks)) if ks else '')
                o = obligations(r, env, n)
                if o is not None:
                    return describe(r, n, hist + [call], 'a slot is used that holds no element (used twice or never filled)', o)
                try:
                    if r.S.state is not None and r.S.ret is not None:
                        x = outcome(r, env, n, r.post, i['v1'], r.S.state.mem[roots.LOG], None if r_holds(r.R, r, r.S, a) else r.S.ret)
                        if x is not None and (i['mut'] or i['byval']) and not (i['byval'] and r_holds(r.R, r, r.S, a)):
                            al = list(x['drops']) + list(x['ret']) + list(x.get('live', ()))
                            for k in sorted(live):
                                m = al.count(k)
                                if m > 1:
                                    return describe(r, n, hist + [call], 'element %d ends up in %d places (dropped %s, returned %s, kept %s)' % (
                                        k, m, x['drops'], x['ret'], sorted(x.get('live', ()))))
                                if m == 0 and not torn:
                                    return describe(r, n, hist + [call], 'element %d is neither returned, dropped nor kept' % k)
                            if 'vals' in x:
                                k = (x['vals'], x['live'], torn)
                                if k not in seen and len(hist) < 7:
                                    seen.add(k)
                                    work.append((x['vals'], x['live'], hist + [call], torn))
                except Undef:
                    pass
                if r.S.unw is not None and i['vu'] is not None and not torn:
                    for x in unwound(r, env, n):
                        k = (x['vals'], x['live'], True)
                        if k not in seen and len(hist) < 7:
                            seen.add(k)
                            work.append((x['vals'], x['live'], hist + [call + ' with a panicking destructor'], True))
    return None


def unwound(r, env, n):
    """states in which a call may be left by a panic"""
    S = r.S
    i = r.ins[0]
    pc = [x for x in S.unw.pc if x not in S.pre]
    fv = set()
    for x in pc:
        fv |= x.fv
    fv |= i['vu'].fv
    known = {v for v in env if isinstance(v, Node)}
    lv = sorted((v for v in fv if v.op == 'iv' and v not in known), key=lambda v: v.id)
    if any('!' not in v.a[0] for v in lv) or len(lv) > 2:
        return
    for xs in itertools.product(range(6), repeat=len(lv)):
        e = dict(env)
        e.update(zip(lv, xs))
        try:
            E = Ev(LiveModel(0), e)
            if not all(E.boo(x, {}) for x in pc):
                continue
            s = at(i['vu'], i['path'])
            yield {'vals': tuple(E.num(v, {}) for _, v in inv.leaves(r.R.I, i['ty'], i['vu'])),
                   'live': frozenset(k for k in range(n) if E.boo(live_cond(sel(s, c(k))), {}))}
        except Undef:
            continue


# ------------------------------------------------------------------ C01
def c01(rep):
    own = owning()
    if not own:
        rep.undecided('by-value iterator', 'no structure with a no-drop storage found')
        return
    rep.notes['owning_structures'] = [short(a) for a in own]
    for a in own:
        fns = users()
        it, cps = couplings_of(a)
        best = None
        for cp in cps:
            g = Ghost(ranger(a, cp))
            res = {}
            for f, isd in fns:
                try:
                    r = Run(f, g)
                    sem._runs[(f['id'], 'own', a)] = (r.R, r.S)
                    res[label(f)] = prove(r, a, cp)
                except Exception as e:
                    if os.environ.get('VERIF_DEBUG'):
                        raise
                    res[label(f)] = 'analysis stopped: %r' % e
            sc = sum(1 for x in res.values() if x == 'proved')
            if best is None or sc > best[0]:
                best = (sc, cp, res)
            if sc == len(res):
                break
        hasdrop = any(isd and selfis(f, a) for f, isd in fns)
        w = None
        if best is None or best[0] < len(best[2]) or not hasdrop:
            w = explore(a, fns)
        if w:
            rep.violated(short(a), **w)
            continue
        if best is None:
            rep.undecided(short(a), 'no reading of the remaining range')
            continue
        # the induction is over all functions together
        core = all(best[2][label(f)] == 'proved' for f, isd in fns if selfis(f, a))
        for l, x in sorted(best[2].items()):
            if x == 'proved' and core:
                rep.proved(l)
            else:
                rep.undecided(l, x if x != 'proved' else 'another function of the structure is undecided')
        (rep.proved if hasdrop else rep.undecided)('destructor of ' + short(a))


# ------------------------------------------------------------------ C02
def collectors():
    out = []
    for imp in impls('FromIterator', 'Vector') + impls('FromIterator', 'Matrix'):
        fn = method(imp, 'from_iter')
        if fn is not None:
            out.append(fn)
    return out


class Lying(LiveModel):
    """a source whose size hint says anything"""

    def iapp(self, f, xs):
        if f != 'hint':
            return LiveModel.iapp(self, f, xs)
        return (0, 1, 2, 3, 7, BIG)[(self.seed + xs[1]) % 6] if xs[1] < 2 else self.seed % 2


class Honest(LiveModel):
    """a source whose size hint is right, precise or not"""

    def __init__(self, seed, m):
        LiveModel.__init__(self, seed)
        self.total = m

    def iapp(self, f, xs):
        if f != 'hint':
            return LiveModel.iapp(self, f, xs)
        rem = max(self.total - xs[0], 0)
        if xs[1] == 0:
            return (0, rem, rem // 2)[self.seed % 3]
        if xs[1] == 1:
            return (rem, rem + 1, BIG)[self.seed // 3 % 3]
        return 0 if self.seed // 9 else 1


def c02(rep):
    for dbg in (False, True):
        safety.switch(dbg)
        tag = ' [debug]' if dbg else ''
        fns = collectors()
        if not fns:
            rep.undecided('from_iter' + tag, 'not found')
        for fn in fns:
            guarded(rep, label(fn) + tag, lambda: collect(rep, fn, dbg, tag))
        others(rep, tag)


def collect(rep, fn, dbg, tag):
    base = label(fn) + tag
    R = roots.Root(db(), fn, True, invs=inv.infer())
    safety.modular(R, fn)
    S = R.run(seconds=SECONDS)
    sem._runs[(fn['id'], 'own', dbg)] = (R, S)
    M = iv('M')
    shp = shape(R, R.t(fn['output']))
    if S.err or shp is None:
        for x in ('elements in order', 'too few', 'no dead slot'):
            rep.undecided('%s: %s' % (base, x), 'not analysed: %s' % S.err)
        return
    n = shp[0]
    loc = {'function': label(fn), 'at': where(fn)}
    exact = S.stats['unsolved'] == 0 and not S.stats.get('loose')
    # every slot used is live / every slot written is not
    bad = [o for o in S.obl if o['kind'] in ('live', 'overwrite') and not o['ok']]
    w = None
    for o in bad:
        if exact and not o['cond'].top:
            w = lying(R, S, o)
            if w:
                rep.violated(base + ': no dead slot', needed='%s: %s' % (o['detail'], show(o['cond'])[:300]), site=safety.site(o), **dict(loc, **w))
                break
    if not bad:
        rep.proved(base + ': no dead slot')
    elif not w:
        rep.undecided(base + ': no dead slot', '; '.join('%s %s %s' % (safety.site(o), o['detail'], show(o['cond'])[:200]) for o in bad)[:600])
    # the elements, in order
    pre = tuple(S.pre)
    if S.ret is None or S.state is None:
        rep.undecided(base + ': elements in order', 'no normal return derived')
    else:
        k = fresh_iv('p')
        post = tuple(x for x in S.state.pc if x not in pre)
        got = simp(elem(S.ret, k), pre + post + (le(ZERO, k), lt(k, n)))
        want = elem_of(R, k)
        cond_ = eq(M, n) if dbg else le(n, M)
        same = got is want
        ret1 = entails(pre + post, cond_)
        ret2 = all(entails(pre + (eq(M, n),), x) for x in post)
        if same and ret1 and ret2:
            rep.proved(base + ': elements in order')
        else:
            v = seporder(R, S, n, M, post, k, got, want, dbg) if exact else None
            if v:
                rep.violated(base + ': elements in order', **dict(loc, **v))
            else:
                rep.undecided(base + ': elements in order', 'derived %s when %s' % (show(got)[:200], [show(x)[:200] for x in post]))
    # too few: what was produced is dropped before the panic
    ps = [p for p in S.panics if feasible(tuple(p['pc']) + (lt(M, n),))]
    oid = base + ': too few'
    if not ps:
        rep.undecided(oid, 'no panic on a short source derived')
        return
    good = True
    for p in ps:
        pc = tuple(p['pc']) + (lt(M, n),)
        kk = fresh_iv('s')
        try:
            pl = dropped(p['log'], 'item')
            cs = [elimbinder(cnd, ix, bs, kk) for cnd, ix, bs in pl]
        except Shape as e:
            good = False
            continue
        b = pc + (le(ZERO, kk), lt(kk, M))
        if any(x is None for x in cs) or any(feasible(b + (x, y)) for x, y in itertools.combinations(cs, 2)) or not entails(b, or_(*cs)):
            good = False
    if good:
        rep.proved(oid)
        return
    w = None
    if exact:
        for p in ps:
            w = w or lost(R, S, p, n, M)
    if w:
        rep.violated(oid, **dict(loc, **w))
    else:
        rep.undecided(oid, 'the drops before the panic are not those of the produced elements in normal form')


def elem_of(R, k):
    t = R.t(R.fn['output'])
    return R.I.prims.symval('item', t[2][0], (k,))


def envs(R, S):
    cs = sem.constants(S.state.pc if S.state is not None else ())
    for env in safety.assign(R, S, safety.dimvars(R, S), cs):
        if all(x <= 40 for v, x in env.items()):
            yield env


def lying(R, S, o):
    fv = set()
    for x in tuple(o['pc']) + (o['cond'],):
        if x.top:
            return None
        fv |= x.fv
    for env in envs(R, S):
        lv = sorted((v for v in fv if v.op == 'iv' and v not in env), key=lambda v: v.id)
        if any('!' not in v.a[0] for v in lv) or len(lv) > 2:
            return None
        for seed in range(6):
            w = safety.hit(Lying(seed), env, lv, tuple(o['pc']), o['cond'])
            if w is not None:
                return {'length': env.get(iv('N')), 'inputs': {v.a[0]: x for v, x in env.items()}, 'loop_iterations': w}
    return None


def seporder(R, S, n, M, post, k, got, want, dbg):
    for env in envs(R, S):
        for seed in range(18):
            E = Ev(Honest(seed, env.get(M, 0)), env)
            try:
                N_, M_ = E.num(n, {}), E.num(M, {})
                r = all(E.boo(x, {}) for x in post)
                must = M_ == N_
                mustnot = M_ < N_ or (dbg and M_ > N_)
                d = {'inputs': {v.a[0]: x for v, x in env.items()}}
                if r and mustnot:
                    return dict(d, derived='returns', specified='panics')
                if not r and must:
                    return dict(d, derived='does not return', specified='returns')
                if r:
                    for x in range(N_):
                        g, w = strip(E.ev(got, {k: x})), strip(E.ev(want, {k: x}))
                        if g != w:
                            return dict(d, slot=x, derived=repr(g)[:200], specified=repr(w)[:200])
            except Undef:
                continue
    return None


def lost(R, S, p, n, M):
    if any(x.top for x in p['pc']) or p['log'] is None:
        return None
    for env, seed in itertools.product(envs(R, S), range(18)):
        E = Ev(Honest(seed, env.get(M, 0)), env)
        try:
            if not all(E.boo(x, {}) for x in p['pc']):
                continue
            N_, M_ = E.num(n, {}), E.num(M, {})
            if M_ >= N_:
                continue
            evs = E.ev(p['log'], {})[1]
        except Undef:
            continue
        ds = [y for x in evs if x[1] in ('drop', 'dropall') for y in atoms(x[2], 'item')]
        taken = sorted({x[2][0] for x in evs if x[1] == 'next' and x[2][0] < M_})
        if sorted(ds) != taken:
            return {'site': safety.site(p), 'inputs': {v.a[0]: x for v, x in env.items()}, 'taken_from_the_source': taken,
                    'derived': 'dropped before the panic: %s' % sorted(ds), 'specified': 'dropped before the panic: %s' % taken}
    return None


def own_one(job):
    fid, tier = job
    sem.TIER[0] = tier
    fn = db().fns[fid]
    out = {'fn': label(fn), 'at': where(fn), 'n': 0, 'bad': [], 'err': None, 'w': None}
    try:
        for sink in ('any', 'sound') if safety.writes(fn) else (None,):
            R = roots.Root(db(), fn, True, invs=OTHERGHOST[0])
            R.I.sink = sink
            safety.modular(R, fn)
            S = R.run(seconds=25)
            if S.err or all(o['ok'] for o in S.obl if o['kind'] in ('live', 'overwrite')):
                break
    except Exception as e:
        out['err'] = repr(e)[:200]
        return out
    out['err'] = S.err
    obs = [o for o in S.obl if o['kind'] in ('live', 'overwrite')]
    out['n'] = len(obs)
    for o in obs:
        if o['ok']:
            continue
        out['bad'].append('%s %s %s' % (safety.site(o), o['detail'], show(o['cond'])[:150]))
        if out['w'] is None and len(out['bad']) < 6:
            w = safety.reachable(R, S, fn, o['cond'], tuple(o['pc']), seconds=8)
            if w:
                out['w'] = dict(w, site=safety.site(o), needed='%s: %s' % (o['detail'], show(o['cond'])[:300]))
    return out


OTHERGHOST = [None]


def others(rep, tag):
    """every other public function, with no live structure to start from: the slots it uses are live"""
    import multiprocessing
    inv.infer()
    safety.transformers()
    OTHERGHOST[0] = inv.infer()
    for a in inv.tracked():
        safety.states(a)
    mine = {f['id'] for f, isd in users()} | {f['id'] for f in collectors()}
    jobs = [(f['id'], sem.TIER[0]) for f in safety.roots_of(True) if f['id'] not in mine]
    slow = ('determinant', 'cofactor', 'inverse', 'fmt')
    jobs.sort(key=lambda j: not any(x in j[0] for x in slow))
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as p:
        res = p.map(own_one, jobs, chunksize=1)
    tot = 0
    for r in res:
        oid = r['fn'] + tag
        tot += r['n']
        if r['w']:
            rep.violated(oid, function=r['fn'], at=r['at'], **r['w'])
        elif r['err']:
            rep.undecided(oid, 'not analysed completely: %s' % r['err'])
        elif r['bad']:
            rep.undecided(oid, '; '.join(r['bad'])[:500])
        else:
            rep.proved(oid)
    rep.notes['slot_uses' + tag] = tot
