"""Specification layer: the summary derived from the source of a public function is compared with
the term the property prescribes, at every position and for every shape."""
import sys, os, time, itertools
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'analysis')]
import build, mir, roots, facts
from mir import short
from facts import simp, entails, feasible
from terms import *
from evalt import *

_ctx = {}


def db(features=None):
    if 'db' not in _ctx:
        _ctx['db'] = mir.load([build.repo_dump(), build.models_dump()])
    return _ctx['db']


def peel(t):
    while t[0] == 'ref':
        t = t[2]
    return t


def adtname(t):
    t = peel(t)
    return short(t[1]) if t[0] == 'adt' else None


def impls(trait, selfadt=None):
    """impls of a trait in the analysed crate for a type (behind any number of references)"""
    out = []
    for i in db().impls.get(trait, []):
        if i['_crate'] != db().crate or i.get('neg'):
            continue
        if selfadt is None or adtname(i['_self']) == selfadt:
            out.append(i)
    return out


def method(imp, name):
    return db().impl_method(imp, name)


def inherent(selfadt, name):
    """the inherent functions of that name (several impl blocks may exist)"""
    out = []
    for i in impls(None, selfadt):
        for it in i['items']:
            if it['n'] == name and it['kind'] == 'Fn':
                f = db().fns.get(it['d'])
                if f is not None:
                    out.append(f)
    return out


def label(fn):
    """stable readable name of a function (independent of impl numbering)"""
    imp = None
    for L in db().impls.values():
        for i in L:
            if i['id'] == fn.get('impl'):
                imp = i
    if imp is None:
        return fn['path']
    s = db().show(imp['_self'])
    if imp.get('trait'):
        t = short(imp['trait'])
        ex = imp['_targs'][1:]
        if ex:
            t += '<%s>' % ','.join(db().show(x) for x in ex)
        return '<%s as %s>::%s' % (s, t, fn['n'])
    return '%s::%s' % (s, fn['n'])


def where(fn):
    sp = fn['sp']
    return sp[len('/repo/'):] if sp.startswith('/repo/') else sp


_runs = {}


def run(fn, own=False, invs=None, pre=None, tag=None):
    k = (fn['id'], own, tag)
    if k not in _runs:
        R = roots.Root(db(), fn, own, invs=invs)
        t = time.time()
        S = R.run(pre=pre or ())
        S.time = time.time() - t
        _runs[k] = (R, S)
    return _runs[k]


# ---------------------------------------------------------------- views of values
def elem(v, *idx):
    """element at a position of a vector or matrix value, whatever the wrapping"""
    for i in idx:
        v = arr(v)
        if v is None:
            return top('no array')
        v = sel(v, i)
    return unref(v)


def unref(v):
    while v.op in ('vref',):
        v = v.a[0]
    return v


def arr(v, depth=0):
    v = unref(v)
    if alen(v) is not None or v.op == 'svarr':
        return v
    if v.op == 'adt' and depth < 4:
        fs = [x for x in v.a[2] if not (x.op == 'adt' and x.a[0] == 'PhantomData')]
        if len(fs) == 1:
            return arr(fs[0], depth + 1)
        c_ = [arr(x, depth + 1) for x in fs]
        c_ = [x for x in c_ if x is not None]
        if len(c_) == 1:
            return c_[0]
    if v.op == 'ite':
        x, y = arr(v.a[1], depth), arr(v.a[2], depth)
        if x is not None and y is not None and alen(x) is alen(y):
            return ite(v.a[0], x, y)
    return None


def shape(R, ty):
    """dimension nodes of a vector / matrix type"""
    t = peel(ty)
    n = short(t[1]) if t[0] == 'adt' else None
    if n == 'Vector':
        return (R.I.num_of(t[2][1]),)
    if n == 'Matrix':
        return (R.I.num_of(t[2][1]), R.I.num_of(t[2][2]))
    return None


# ---------------------------------------------------------------- comparison
MAXSH = {'quick': 3, 'thorough': 4}
TIER = ['quick']
FREESEEDS = list(range(5)) + list(range(20, 26)) + list(range(40, 46))
SEPTIME = {'quick': 40, 'thorough': 150}


def constants(ts):
    cs = set()
    for t in ts:
        for x in subterms(t):
            if x.op in ('le0', 'eq0', 'ne0') and x.a[0].op == 'poly':
                for m, k in x.a[0].a[0]:
                    if m == () and 2 <= abs(k) <= 64:
                        cs.add(abs(k))
            elif x.op == 'imod' and x.a[1].op == 'c' and 1 < x.a[1].a[0] < 64:
                cs.add(x.a[1].a[0])
    return cs


WIDE = [x for k in (3, 4, 5, 6, 7, 8, 16, 32, 63) for x in (2**k - 1, 2**k, 2**k + 1)] + [100, 1000, 2**64 - 1]


def grid(ivs, dims, facts_, cs, wide={}):
    """assignments to try: small shapes first; the variables of `wide` then also range over large values"""
    m = MAXSH[TIER[0]] + (2 if len(ivs) <= 2 else 0)
    base = list(range(m + 1))
    ext = sorted({y for x in cs for y in (x - 1, x, x + 1, x + 2, x + 3) if m < y <= 64})[:12]
    if cs and len(cs) <= 6:
        ext += sorted({y for a in cs for b in cs if a <= b for y in (a + b, a + b + 1)
                       if max(m, *ext, 0) < y <= 64})[:6]
    ivs = sorted(ivs, key=lambda v: (v not in dims, v.id))

    def ok(env):
        E = Ev(Free(), env)
        for f in facts_:
            if all(v in env for v in f.fv):
                try:
                    if not E.boo(f, {}):
                        return False
                except Undef:
                    return False
        return True

    def go(i, env, extused):
        if i == len(ivs):
            yield dict(env)
            return
        for x in base + (ext if extused < 2 else []):
            env[ivs[i]] = x
            if ok(env):
                yield from go(i + 1, env, extused + (x > m))
            del env[ivs[i]]
    every = list(itertools.islice(go(0, {}, 0), 6000))
    every.sort(key=lambda e: (max(e.values(), default=0), sum(e.values())))
    yield from every
    small = [e for e in every if wide and max([x for v, x in e.items() if v not in wide], default=0) <= 3]
    for v, xs in wide.items():
        for x in xs:
            for e in {tuple(sorted(((w, y) for w, y in e.items() if w is not v), key=lambda t: t[0].id)): e for e in small}.values():
                env = dict(e)
                env[v] = x
                if ok(env):
                    yield env


class Item:
    """one comparison: for all binders (v < bound): actual == expected"""

    def __init__(self, name, actual, expected, binders=(), pred=None, when=TRUE):
        self.name, self.actual, self.expected, self.binders, self.when = name, actual, expected, binders, when
        self.pred = pred


def canon(t):
    """bring equivalent operator spellings to one form"""
    def f(n):
        if n.op == 'app' and n.a[0] == 'powi' and n.a[1][1] is c(2):
            return app('mul', n.a[1][0], n.a[1][0])
        if n.op == 'app' and n.a[0] == 'eq' and n.a[1][0].id > n.a[1][1].id:
            return app('eq', n.a[1][1], n.a[1][0])
        return n
    return map_nodes(t, f)


def compare(rep, oid, R, S, items, models=(Free,), seeds=None, returns=True, dims=None, extra=(), fn=None, wide=None):
    """decide one function against its specification"""
    fn = fn or R.fn
    loc = {'function': label(fn), 'at': where(fn)}
    if S.err or S.ret is None:
        if S.err is None and S.ret is None:
            rep.undecided(oid, 'no normal return derived')
            return 'undecided'
        rep.undecided(oid, 'not analysed: ' + str(S.err))
        return 'undecided'
    pre = tuple(S.pre)
    post = tuple(x for x in S.state.pc if x not in S.pre)
    bad = None
    und = []
    allok = True
    for it in items:
        if it.pred is not None:
            allok = False
            continue
        pc = pre + post + tuple(x for v, n in it.binders for x in (le(ZERO, v), lt(v, n)))
        if it.when.op != 'true':
            pc += (it.when,)
        if it.actual.top:
            allok = False
            und.append('%s: not derived' % it.name)
            continue
        if it.actual is it.expected:
            continue
        a, e = canon(simp(it.actual, pc)), canon(simp(it.expected, pc))
        if a is not e:
            if is_bool(a) and is_bool(e) and entails(pc + (a,), e) and entails(pc + (e,), a):
                continue
            if isint(a) and isint(e) and entails(pc, eq(a, e)):
                continue
            allok = False
            und.append('%s: derived %s, specified %s' % (it.name, show(a)[:300], show(e)[:300]))
    total = True
    if returns:
        for x in post:
            if not entails(pre, x):
                total = False
                und.append('normal return needs %s' % show(x)[:600])
    if allok and total:
        rep.proved(oid)
        return 'proved'
    # a separating assignment turns "not the same normal form" into a violation
    w = separate(R, S, items, models, seeds, returns, pre, post, wide)
    for note, its, q, p in () if w is not None else aliased(S, items, pre, post):
        w = separate(R, S, its, models, seeds, returns, q, p, wide)
        if w is not None:
            w['aliasing'] = note
            break
    if w is not None:
        d = dict(loc)
        d.update(w)
        rep.violated(oid, **d)
        return 'violated'
    rep.undecided(oid, '; '.join(und)[:600])
    return 'undecided'


def addressed(t):
    """the addresses of values matter to t"""
    return any(x.op == 'poly' and any(y.op in ('vref', 'ptr') for m, k in x.a[0] for y in m if isinstance(y, Node)) for x in subterms(t))


def aliased(S, items, pre, post):
    """the same comparison for calls that pass one object by two shared references; only when addresses are compared"""
    if not any(addressed(t) for it in items for t in (it.actual, it.when) if isinstance(t, Node)) and not any(addressed(t) for t in post):
        return
    refs = [a for a in S.args if isinstance(a, Node) and a.op == 'vref']

    def names(t):
        return {x.a[0] for x in subterms(t) if x.op in ('in', 'inarr')}
    for i, x in enumerate(refs):
        for y in refs[i + 1:]:
            if len(names(x)) != 1 or len(names(y)) != 1:
                continue
            (nx,), (ny,) = names(x), names(y)

            def f(n):
                return raw(n.op, nx, *n.a[1:]) if n.op in ('in', 'inarr') and n.a[0] == ny else n

            def go(t):
                return map_nodes(t, f) if isinstance(t, Node) else t
            if nx == ny or go(y) is not x:
                continue
            yield ('%s and %s are the same object' % (nx, ny),
                   [Item(it.name, go(it.actual), go(it.expected), it.binders, it.pred, go(it.when)) for it in items],
                   tuple(go(t) for t in pre), tuple(go(t) for t in post))


def isint(n):
    return n.op in ('c', 'poly', 'iv', 'idiv', 'imod', 'iapp', 'count', 'first', 'imax')


def occurs(t, *fs):
    """some of the element operations fs is applied in t"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, Node) and x not in seen:
            seen.add(x)
            if x.op == 'app' and x.a[0] in fs:
                return True
            todo += x.a
    return False


def separate(R, S, items, models, seeds, returns, pre, post, wide=None):
    ts = [x for it in items for x in (it.actual, it.expected) if isinstance(x, Node)] + list(post)
    cs = constants(ts)
    fvs = set()
    for t in ts + list(pre):
        fvs |= t.fv
    bound = {v for it in items for v, n in it.binders}
    ivs = {v for v in fvs if v.op == 'iv' and v not in bound and '!' not in v.a[0]}
    dims = set(getattr(R, 'dims', []))
    end = time.time() + SEPTIME[TIER[0]]
    tests = any(occurs(t, 'is_zero', 'is_one', 'eq') for t in ts)
    for env in grid(ivs, dims, pre, cs, {v: x for v, x in (wide or {}).items() if v in ivs}):
        if time.time() > end:
            break
        for M in models:
            ss = seeds if seeds is not None else range(8) if M is not Free else FREESEEDS
            if M in (Ring, CRing) and tuple(ss) == (0,) and tests:
                ss = (0, 1, 2, 3)
            for seed in ss:
                m = M(seed)
                w = sep1(m, env, items, returns, post)
                if w:
                    w['shape'] = {v.a[0]: x for v, x in env.items()}
                    w['structure'] = m.name
                    return w
    return None


def sep1(m, env, items, returns, post):
    E = Ev(m, env)
    try:
        for x in post:
            if not E.boo(x, {}):
                if returns:
                    return {'derived': 'the function does not return normally', 'specified': 'returns',
                            'condition': show(x)[:300]}
                return None
    except Undef:
        return None
    for it in items:
        rngs = []
        try:
            def go(i, loc):
                if i == len(it.binders):
                    try:
                        if it.when.op != 'true' and not E.boo(it.when, loc):
                            return None
                        if it.pred is not None:
                            r = it.pred(E, loc)
                            if r:
                                return {'what': it.name, 'problem': r}
                            return None
                        a = strip(E.ev(it.actual, loc))
                        e = strip(E.ev(it.expected, loc))
                    except Undef:
                        return None
                    if a != e:
                        return {'what': it.name, 'position': [loc[v] for v, n in it.binders],
                                'derived': repr(a)[:400], 'specified': repr(e)[:400]}
                    return None
                v, n = it.binders[i]
                for x in range(E.num(n, loc)):
                    r = go(i + 1, E.ext(loc, v, x))
                    if r:
                        return r
                return None
            r = go(0, {})
        except Undef:
            continue
        if r:
            return r
    return None


def missing(rep, oid, what):
    rep.violated(oid, what='the public item is missing or its impl no longer has it', item=what)


def accounts(rep):
    """what was analysed in this run"""
    if not _runs:
        return
    rep.notes['functions_analysed'] = [label(R.fn) + ' @ ' + where(R.fn) for R, S in _runs.values()][:200]
    rep.notes['blocks_interpreted'] = sum(S.stats['blocks'] for R, S in _runs.values())
    rep.notes['loops_unsolved'] = sum(S.stats['unsolved'] for R, S in _runs.values())
    rep.notes['path_condition_queries'] = facts.STATS['queries']
    rep.trust('mirdump (rustc MIR as built from the current tree)', 'models/ (Rust models of the std iterators used)',
              'analysis/ (abstract interpreter)')
