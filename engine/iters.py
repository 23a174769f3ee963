"""C06 - C08: the crate's iterators against the interval [lo, hi) of items not yet produced.

Proof: the machine integers of the structure are coupled with lo and hi, the inferred invariants are assumed,
and the summary of every method must be the step of the interval.  Refutation: the derived summaries are
composed, as state transformers, from the constructors on at small shapes; a history on which a summary
disagrees with the interval is reported."""
from sem import *
import sem, inv
from specs import guarded, need, binders, elementwise
from evalt import Ev, Free, Undef, strip
from mir import short

BIG = (1 << 64) - 1


class Kind:
    """what an iterator of the crate enumerates"""

    def __init__(self, name, item, pos, total, ctors, chunk=False):
        self.name, self.item, self.pos, self.total, self.ctors, self.chunk = name, item, pos, total, ctors, chunk


def nums(I, ty):
    return [n for n in (I.num_of(t) for t in ty[2] if t != ('tp', 'T') and t[0] not in ('ref', 'life', 'region')) if not n.top]


def kinds():
    """per structure: dimensions of an item, element at a position of item k, number of items, constructors"""
    K = {}

    def mk(name, **kw):
        K[name] = Kind(name, **kw)
    # d: the type-level numbers of the structure in order of declaration
    mk('IntoIter', item=lambda d: (), pos=lambda d, k: (k,), total=lambda d: d[0], ctors=[('IntoIterator', 'Vector', 'into_iter')])
    mk('Chunks', item=lambda d: (d[1],), pos=lambda d, k, j: (add(mul(k, d[1]), j),), total=None,
       ctors=[(None, 'Vector', 'into_chunks')], chunk=True)
    for nm, cn in (('RowsIter', 'rows_iter'), ('RowsIterRef', 'rows_iter_ref')):
        mk(nm, item=lambda d: (d[1],), pos=lambda d, k, j: (k, j), total=lambda d: d[0], ctors=[(None, 'Matrix', cn), (None, nm, 'new')])
    for nm, cn in (('ColsIter', 'cols_iter'), ('ColsIterRef', 'cols_iter_ref')):
        mk(nm, item=lambda d: (d[0],), pos=lambda d, k, i: (i, k), total=lambda d: d[1], ctors=[(None, 'Matrix', cn), (None, nm, 'new')])
    mk('ColsIterRefInner', item=lambda d: (), pos=None, total=lambda d: d[0], ctors=[(None, 'ColsIterRefInner', 'new')])
    return K


class Meth:
    """summary of one method as a transformer of the structure"""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        I = inv.infer()
        self.R = roots.Root(db(), fn, invs=I)
        self.S = self.R.run()
        sem._runs[(fn['id'], 'inv', None)] = (self.R, self.S)
        self.ok = self.S.err is None and self.S.ret is not None
        ty = self.S.tys[0]
        self.byref = ty[0] == 'ref'
        self.ty = ty[2] if self.byref else ty
        if self.byref and ty[1]:
            self.v0 = self.S.init[('root', 'A')]
            self.v1 = self.R.final(self.S, 'A') if self.ok else None
        else:
            self.v0 = unref(self.S.args[0])
            self.v1 = None
        self.leaves = inv.leaves(self.R.I, self.ty, self.v0)
        self.dims = inv.dims_of(self.R.I, self.ty)
        self.post = tuple(x for x in self.S.state.pc if x not in self.S.pre) if self.ok else ()

    def after(self):
        return inv.leaves(self.R.I, self.ty, self.v1) if self.v1 is not None else []


class Iter:
    def __init__(self, adtid):
        self.id = adtid
        self.name = short(adtid)
        self.K = kinds().get(self.name)
        self.m = {}
        for tr in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
            for imp in impls(tr, self.name):
                if peel(imp['_self'])[1] != adtid:
                    continue
                for it in imp['items']:
                    fn = db().fns.get(it['d'])
                    if fn is not None and fn.get('body'):
                        self.m[it['n']] = fn
                if tr == 'Iterator':
                    self.has = True
        self.M = {}
        for n, fn in self.m.items():
            try:
                self.M[n] = Meth(fn, n)
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
        self.ctors = []
        for tr, a, n in (self.K.ctors if self.K else ()):
            fs = [method(i, n) for i in impls(tr, a)] if tr else inherent(a, n)
            for f in fs:
                if f is not None:
                    try:
                        R = roots.Root(db(), f, invs=inv.infer())
                        S = R.run()
                        t = R.t(f['output'])
                        if t[0] == 'adt' and t[1] == adtid:
                            self.ctors.append((f, R, S, t))
                            sem._runs[(f['id'], 'inv', None)] = (R, S)
                    except Exception:
                        if os.environ.get('VERIF_DEBUG'):
                            raise

    def total(self, R, dims):
        if self.K.chunk:
            q = getattr(R, 'quot', None)
            return q[2] if q else None
        return self.K.total(dims)

    def pos(self, dims, v):
        """position of (item k, place in item) in the contents of structure value v"""
        if self.name == 'ColsIterRefInner':
            col = self.col
            return lambda k: (k, col(v))
        return lambda *a: self.K.pos(dims, *a)


def quot(p, s):
    """exact quotient of a polynomial by a dimension"""
    if s is ONE:
        return p
    if p.op == 'c' and p.a[0] == 0:
        return p
    if p.op == 'ite':
        a, b = quot(p.a[1], s), quot(p.a[2], s)
        return ite(p.a[0], a, b) if a is not None and b is not None else None
    r = {}
    for m, k in pdict(p).items():
        if s not in m:
            # a conditional atom may hold the factor
            if len(m) == 1 and m[0].op == 'ite':
                x = quot(m[0], s)
                if x is None:
                    return None
                for m2, k2 in pdict(x).items():
                    r[m2] = r.get(m2, 0) + k * k2
                continue
            return None
        mm = list(m)
        mm.remove(s)
        r[tuple(mm)] = r.get(tuple(mm), 0) + k
    return mkpoly(r)


class Coupling:
    def __init__(self, kind, u, v):
        self.kind, self.u, self.v = kind, u, v

    def of(self, lv, s):
        lv = dict(lv)
        a, b = lv.get(self.u), lv.get(self.v)
        if a is None or b is None or a.top or b.top:
            return None
        lo, hi = quot(a, s), quot(b, s)
        if lo is None or hi is None:
            return None
        if self.kind == 'len':
            hi = add(lo, hi)
        return lo, hi


def couplings(it):
    """ways of reading [lo, hi) off the structure that every constructor sets to [0, number of items)"""
    out = []
    if not it.ctors:
        return out
    R, S = it.ctors[0][1], it.ctors[0][2]
    if S.err or S.ret is None:
        return out
    ls = [p for p, _ in inv.leaves(R.I, it.ctors[0][3], S.ret)]
    for kind in ('ends', 'len'):
        for u in ls:
            for v in ls:
                if u != v:
                    out.append(Coupling(kind, u, v))
    good = []
    for cp in out:
        if all(init_ok(it, cp, c_) for c_ in it.ctors):
            good.append(cp)
    return good


def scale(it, R, ty):
    if it.K.chunk:
        return inv.dims_of(R.I, ty)[1]
    return ONE


def init_ok(it, cp, ct):
    f, R, S, t = ct
    if S.err or S.ret is None:
        return False
    x = cp.of(inv.leaves(R.I, t, S.ret), scale(it, R, t))
    if x is None:
        return False
    n = it.total(R, inv.dims_of(R.I, t))
    return n is not None and entails(S.state.pc, eq(x[0], ZERO)) and entails(S.state.pc, eq(x[1], n))


# ------------------------------------------------------------------ what each method must do
def someitem(it, M, lo_k, ret, when, content0):
    """items: the returned option holds item number lo_k"""
    its = []
    dims = M.dims
    ish = it.K.item(dims)
    b = binders(ish)
    vs = [v for v, n in b]
    v = field(ret, 0, 1)
    x = unref(v)
    if it.name == 'ColsIterRef':
        # the item is itself one of the crate's iterators: it must be a fresh one over that column
        inner = fresh_inner(M, content0, lo_k)
        its.append(Item('item', unref(v), inner if inner is not None else top('inner'), when=when))
        return its
    want = elem(content0, *it.pos(dims, content0)(lo_k, *vs))
    its.append(Item('item', elem(v, *vs) if vs else x, want, b, when=when))
    return its


def fresh_inner(M, content0, k):
    """ColsIterRefInner::new(matrix, k) as derived from its source"""
    fs = inherent('ColsIterRefInner', 'new')
    if not fs:
        return None
    R = roots.Root(db(), fs[0])
    base = [field(content0, i) for i in range(len(content0.a[2]))] if content0.op == 'adt' else []
    mats = [x for x in base if arr(x) is not None]
    if len(mats) != 1:
        return None
    # same type-level numbers as in the method under analysis
    S = M.R
    bind = {}
    ins = [R.t(x) for x in fs[0]['inputs']]
    S2 = R.run()
    if S2.err or S2.ret is None:
        return None
    # instantiate: argument A -> matrix, B -> k
    ren = {}
    r = S2.ret
    r = rename_in(r, 'A', mats[0])
    r = subst(r, {iv('B'): k})
    return simp(r, tuple(M.S.state.pc)) if M.ok else r


def rename_in(v, name, by):
    """replace the symbolic input called name by another value"""
    def go(n):
        if n.op == 'inarr' and n.a[0] == name:
            w = by
            for i in n.a[3]:
                w = sel(arr(w), i) if arr(w) is not None else top('x')
            w = arr(w)
            return w if w is not None else top('rename')
        if n.op == 'in' and n.a[0] == name:
            w = by
            for i in n.a[1]:
                w = elem(w, i)
            return w
        return n
    return map_nodes(v, go)


def steps(it, M, lo, hi, after, spec_only=False):
    """the comparisons that say what the method does to [lo, hi)"""
    n = M.name
    S = M.S
    rem = sub(hi, lo)
    its = []
    some = lt(lo, hi)
    c0 = M.v0
    A = after

    def kept(when, a, b):
        """elements not yet produced stay where they are"""
        if M.v1 is None:
            return []
        ish = it.K.item(M.dims)
        bb = [(fresh_iv('p'), it.total(M.R, M.dims))] + binders(ish)
        vs = [v for v, x in bb]
        p0 = it.pos(M.dims, M.v0)(*vs)
        p1 = it.pos(M.dims, M.v1)(*vs)
        w = and_(when, le(a, vs[0]), lt(vs[0], b))
        return [Item('items kept', elem(M.v1, *p1), elem(M.v0, *p0), bb, when=w)]

    def isome(x):
        return eq(discr(x), ONE)
    if n in ('next', 'next_back'):
        fr = n == 'next'
        k = lo if fr else sub(hi, ONE)
        its.append(Item('returns an item exactly while some remain', isome(S.ret), some))
        its += someitem(it, M, k, S.ret, some, c0)
        if A:
            its.append(Item('front', A[0], add(lo, ONE) if fr else lo, when=some))
            its.append(Item('back', A[1], hi if fr else sub(hi, ONE), when=some))
            its.append(Item('nothing remains afterwards', le(A[1], A[0]), TRUE, when=le(hi, lo)))
            its += kept(some, add(lo, ONE) if fr else lo, hi if fr else sub(hi, ONE))
    elif n in ('nth', 'nth_back'):
        k = S.args[1]
        fr = n == 'nth'
        h = lt(k, rem)
        its.append(Item('returns an item exactly when enough remain', isome(S.ret), h))
        its += someitem(it, M, add(lo, k) if fr else sub(sub(hi, ONE), k), S.ret, h, c0)
        if A:
            a, b = (add(add(lo, k), ONE), hi) if fr else (lo, sub(sub(hi, ONE), k))
            its.append(Item('front', A[0], a, when=h))
            its.append(Item('back', A[1], b, when=h))
            its.append(Item('nothing remains afterwards', le(A[1], A[0]), TRUE, when=not_(h)))
            its += kept(h, a, b)
    elif n == 'last':
        its.append(Item('returns an item exactly while some remain', isome(S.ret), some))
        its += someitem(it, M, sub(hi, ONE), S.ret, some, c0)
    elif n in ('len', 'count'):
        its.append(Item('number', S.ret, rem))
    elif n == 'size_hint':
        its.append(Item('lower bound', field(S.ret, 0), rem))
        its.append(Item('has an upper bound', eq(discr(field(S.ret, 1)), ONE), TRUE))
        its.append(Item('upper bound', field(field(S.ret, 1), 0, 1), rem))
    elif n == 'is_empty':
        its.append(Item('empty', S.ret, not_(some)))
    else:
        return None
    return its


LENS = ('len', 'count', 'size_hint', 'is_empty')
STEP = ('next', 'next_back', 'nth', 'nth_back', 'last')


class Quiet:
    """collects the outcome of a comparison"""

    def __init__(self):
        self.out = []

    def proved(self, o):
        self.out.append('proved')

    def violated(self, o, **d):
        self.out.append('violated')

    def undecided(self, o, why=''):
        self.out.append('undecided')
        self.why = why


def prove(it, cp, M):
    """'proved' or a reason"""
    if not M.ok:
        return 'not analysed: %s' % M.S.err
    s = scale(it, M.R, M.ty)
    x = cp.of(M.leaves, s)
    if x is None:
        return 'positions not readable'
    lo, hi = x
    pre = tuple(M.S.pre)
    if not entails(pre, le(lo, hi)) and not (s is not ONE and entails(pre + (le(ONE, s),), le(lo, hi))):
        return 'lo <= hi is not an invariant'
    A = None
    if M.v1 is not None:
        al = [(p, simp(v, M.S.state.pc)) for p, v in M.after()]
        A = cp.of(al, s)
        if A is None:
            return 'positions after the step not readable'
    its = steps(it, M, lo, hi, A)
    if its is None:
        return 'no specification for this method'
    q = Quiet()
    old = M.S.state.pc
    saved = sem.separate
    sem.separate = lambda *a, **k: None
    try:
        compare(q, 'x', M.R, M.S, its, fn=M.fn)
    finally:
        sem.separate = saved
    return q.out[0] if q.out[0] == 'proved' else getattr(q, 'why', q.out[0])


# ------------------------------------------------------------------ histories of the derived transformers
class Sim:
    """the derived summaries as transformers of concrete positions"""

    def __init__(self, it):
        self.it = it
        self.cost = 0

    def env_of(self, M, shape_, vals):
        """assignment of the symbolic inputs of a method for a concrete state; None when not representable"""
        env = {}
        for d, x in sorted(zip(M.dims, shape_), key=lambda t: t[0].op != 'iv'):
            if not bindpoly(env, d, x):
                return None
        for (p, t), x in zip(M.leaves, vals):
            if not bindpoly(env, t, x):
                return None
        return env

    def ok_pre(self, E, M):
        for f in M.S.pre:
            try:
                if not E.boo(f, {}):
                    return False
            except Undef:
                pass
        return True


def bindpoly(env, t, x):
    """solve t == x for the unassigned variable of a monomial"""
    if t.op == 'c':
        return t.a[0] == x
    if t.op == 'iv':
        if t in env:
            return env[t] == x
        env[t] = x
        return True
    if t.op == 'poly':
        d = pdict(t)
        if len(d) == 1:
            (m, k), = d.items()
            free = [v for v in m if v not in env]
            known = k
            for v in m:
                if v in env:
                    known *= env[v]
            if not free:
                return known == x
            if len(free) == 1 and free[0].op == 'iv':
                if known == 0:
                    env[free[0]] = 0
                    return x == 0
                if x % known:
                    return False
                env[free[0]] = x // known
                return True
            if len(free) == 2 and all(v.op == 'iv' for v in free):
                return None
    return False


class Model(Free):
    pass


def shapes_for(it, tier):
    m = 4 if tier == 'quick' else 6
    ts = []
    for M in it.M.values():
        if M.ok:
            ts += [M.S.ret] + list(M.post) + ([M.v1] if M.v1 is not None else [])
    cs = [x for x in sem.constants(ts) if x <= 24]
    if it.K.chunk:
        out = [(n, i) for i in range(1, m + 1) for n in range(0, 3 * i + 1, i)]
        out += [(n * i, i) for x in cs for i in (1, 2, x - 1, x, x + 1) for n in (1, 2, x - 1, x, x + 1, x + 2) if i > 0 and n * i <= 64]
    elif len(inv.dims_of(it.ctors[0][1].I, it.ctors[0][3])) == 1:
        out = [(x,) for x in range(m + 2)] + [(x + y,) for x in cs for y in range(4)]
    else:
        out = [(x, y) for x in range(m + 1) for y in range(m + 1)]
        big = sorted({x + y for x in cs for y in (-1, 0, 1, 2)} - set(range(m + 1)))[:6]
        out += [s for x in big for y in (1, 2, 3) for s in ((x, y), (y, x))]
    return sorted(set(out), key=lambda s: (sum(s), s))


def chunk_env(env, M, shape_):
    return env


class Found(Exception):
    pass


def explore(it, rep, what, tier):
    """first history on which a derived summary disagrees with the interval; None if there is none"""
    names = [n for n in it.M if it.M[n].ok]
    for sh in shapes_for(it, tier):
        for f, R, S, t in it.ctors:
            if S.err or S.ret is None:
                continue
            env = {}
            dims = inv.dims_of(R.I, t)
            q = getattr(R, 'quot', None)
            if q and it.K.chunk:
                env[q[2]] = sh[0] // sh[1]
                env[q[1]] = sh[1]
            if not all(bindpoly(env, d, x) for d, x in zip(dims, sh)):
                continue
            cols = [None]
            if it.name == 'ColsIterRefInner':
                cols = list(range(sh[1]))
            for col in cols:
                e = dict(env)
                if col is not None:
                    e[iv('B')] = col
                E = Ev(Model(0), e)
                try:
                    vals = tuple(E.num(v, {}) for _, v in inv.leaves(R.I, t, S.ret))
                except Undef:
                    continue
                total = sh[0] // sh[1] if it.K.chunk else int(E.num(it.total(R, dims), {}))
                w = bfs(it, sh, col, vals, total, names, what, label(f))
                if w:
                    return w
    return None


ARGS = (0, 1, 2, 3, 5, 1 << 63, BIG - 1, BIG)


def bfs(it, sh, col, vals, total, names, what, start):
    seen = {(vals, 0, total)}
    work = [((vals, 0, total), [start])]
    steps_ = 0
    while work and steps_ < 1500:
        (vals, lo, hi), hist = work.pop(0)
        for n in names:
            M = it.M[n]
            ks = ARGS if n in ('nth', 'nth_back') else (None,)
            if n not in LENS and n not in STEP:
                continue
            for k in ks:
                steps_ += 1
                env = Sim(it).env_of(M, sh, vals)
                if env is None or env is False:
                    continue
                if it.K.chunk:
                    q = getattr(M.R, 'quot', None)
                    if q:
                        env.setdefault(q[2], sh[0] // sh[1])
                if k is not None:
                    env[M.S.args[1]] = k
                E = Ev(Model(0), env)
                call = n if k is None else '%s(%d)' % (n, k)
                try:
                    okn = all(E.boo(x, {}) for x in M.post)
                except Undef:
                    continue
                rem = hi - lo
                mine = n in LENS if what == 'len' else n in STEP
                if not okn:
                    if mine:
                        return wit(M, sh, hist + [call], 'returns', 'panics or overflows')
                    continue
                try:
                    if n in LENS:
                        bad = lens(it, M, E, n, rem, sh, col, vals, names) if mine else None
                        if bad:
                            return wit(M, sh, hist + [call], *bad)
                        continue
                    exp = None
                    if n in ('next', 'nth'):
                        j = k or 0
                        if j < rem:
                            exp, nlo, nhi = lo + j, lo + j + 1, hi
                        else:
                            nlo, nhi = hi, hi
                    elif n in ('next_back', 'nth_back'):
                        j = k or 0
                        if j < rem:
                            exp, nlo, nhi = hi - 1 - j, lo, hi - 1 - j
                        else:
                            nlo, nhi = hi, hi
                    else:
                        exp = hi - 1 if rem > 0 else None
                        nlo = nhi = None
                    if mine:
                        try:
                            got = E.num(discr(M.S.ret), {})
                        except Undef:
                            got = None
                        if got is not None and (got == 1) != (exp is not None):
                            return wit(M, sh, hist + [call], 'item %s' % exp if exp is not None else 'nothing',
                                       'an item' if got == 1 else 'nothing')
                        if exp is not None and got == 1:
                            bad = itemdiff(it, M, E, sh, col, exp)
                            if bad:
                                return wit(M, sh, hist + [call], *bad)
                    if nlo is None or M.v1 is None:
                        continue
                    nv = tuple(E.num(v, {}) for _, v in M.after())
                except Undef:
                    continue
                st = (nv, nlo, nhi)
                if st not in seen and len(hist) < 9:
                    seen.add(st)
                    work.append((st, hist + [call]))
    return None


def wit(M, sh, hist, want, got):
    return {'function': label(M.fn), 'at': where(M.fn), 'shape': list(sh), 'history': hist, 'specified': str(want), 'derived': str(got)}


def remaining(it, sh, vals):
    """items the derived `next` still produces from a state"""
    M = it.M.get('next')
    if M is None or not M.ok:
        raise Undef('next')
    n = 0
    while n < 40:
        env = Sim(it).env_of(M, sh, vals)
        if env is None or env is False:
            raise Undef('state')
        if it.K.chunk:
            q = getattr(M.R, 'quot', None)
            if q:
                env.setdefault(q[2], sh[0] // sh[1])
        E = Ev(Model(0), env)
        if not all(E.boo(x, {}) for x in M.post):
            raise Undef('panics')
        if E.num(discr(M.S.ret), {}) != 1:
            return n
        n += 1
        vals = tuple(E.num(v, {}) for _, v in M.after())
    return 40


def lens(it, M, E, n, rem, sh, col, vals, names):
    real = remaining(it, sh, vals)
    S = M.S
    if n in ('len', 'count'):
        g = E.num(S.ret, {})
        return None if g == real else (real, g)
    if n == 'is_empty':
        g = E.boo(S.ret, {})
        return None if g == (real == 0) else (real == 0, g)
    lo = E.num(field(S.ret, 0), {})
    up = E.num(discr(field(S.ret, 1)), {})
    if up != 1:
        return (real, 'no upper bound')
    hi = E.num(field(field(S.ret, 1), 0, 1), {})
    return None if lo == hi == real else (real, '(%d, Some(%d))' % (lo, hi))


def content_atom(it, sh, col, exp, place):
    if it.K.chunk:
        return (exp * sh[1] + place[0],)
    if it.name == 'ColsIterRefInner':
        return (exp, col)
    if it.name == 'IntoIter':
        return (exp,)
    if it.name.startswith('Rows'):
        return (exp, place[0])
    return (place[0], exp)


def itemdiff(it, M, E, sh, col, exp):
    v = unref(field(M.S.ret, 0, 1))
    if it.name == 'ColsIterRef':
        return innerdiff(it, M, E, v, sh, exp)
    dims = it.K.item(list(sh)) if it.name != 'Chunks' else (sh[1],)
    n = dims[0] if dims else None
    for j in (range(n) if n is not None else (None,)):
        pos = content_atom(it, sh, col, exp, (j,))
        want = strip(E.ev(elem(M.v0, *[c(x) for x in pos]), {}))
        got = strip(E.ev(elem(v, c(j)) if j is not None else v, {}))
        if want != got:
            return ('element %s' % (pos,), repr(got)[:200])
    if n is not None and arr(v) is not None and alen(arr(v)) is not None:
        ln = E.num(alen(arr(v)), {})
        if ln != n:
            return ('an item of length %d' % n, 'length %d' % ln)
    return None


def innerdiff(it, M, E, v, sh, exp):
    """drain the derived inner iterator"""
    inner = get_iter('ColsIterRefInner')
    if inner is None or 'next' not in inner.M or not inner.M['next'].ok:
        raise Undef('inner')
    N = inner.M['next']
    ity = N.ty
    try:
        vals = tuple(E.num(x, {}) for _, x in inv.leaves(N.R.I, ity, v))
    except Undef:
        raise
    mat = [field(v, i) for i in range(len(v.a[2]))] if v.op == 'adt' else []
    mat = [m for m in mat if arr(m) is not None]
    if len(mat) != 1:
        raise Undef('inner matrix')
    for i in range(sh[0] + 1):
        env = Sim(inner).env_of(N, sh, vals)
        if env is None or env is False:
            raise Undef('inner state')
        E2 = Ev(Model(0), env)
        if not all(E2.boo(x, {}) for x in N.post):
            return ('column %d' % exp, 'a panic')
        some = E2.num(discr(N.S.ret), {}) == 1
        if some != (i < sh[0]):
            return ('%d entries of column %d' % (sh[0], exp), '%s after %d' % ('more' if some else 'no more', i))
        if some:
            got = strip(E2.ev(unref(field(N.S.ret, 0, 1)), {}))
            want = strip(E2.ev(elem(N.v0, c(i), c(exp)), {}))
            if got != want:
                return ('entry %s' % ((i, exp),), repr(got)[:200])
        vals = tuple(E2.num(x, {}) for _, x in N.after())
    return None


_iters = {}


def get_iter(name):
    if name not in _iters:
        ids = [a for a in inv.tracked() if short(a) == name]
        _iters[name] = Iter(ids[0]) if ids else None
    return _iters[name]


def all_iters():
    ks = kinds()
    names = []
    for a in inv.tracked():
        n = short(a)
        if any(peel(i['_self'])[1] == a for i in impls('Iterator', n)):
            names.append(n)
    return names


def col_of(it):
    """for column entries: the field that holds the column (set by the constructor to its second argument)"""
    for f, R, S, t in it.ctors:
        for p, v in inv.leaves(R.I, t, S.ret):
            if v is iv('B'):
                return p
    return None


def run_iters(rep, names, what, tier):
    """what: 'len' (C06) or 'step' (C07/C08)"""
    for nm in names:
        it = get_iter(nm)
        if it is None:
            rep.undecided(nm, 'not found')
            continue
        if it.K is None:
            rep.undecided(nm, 'an iterator without a specification')
            continue
        todo = [n for n in it.M if n in (LENS if what == 'len' else STEP)]
        other = [n for n in it.m if n not in LENS and n not in STEP]
        if nm == 'ColsIterRefInner':
            p = col_of(it)
            if p is None:
                rep.undecided(nm, 'the column is not stored')
                continue
            it.col = lambda v, p=p: getpath(v, p)
        best = None
        for cp in couplings(it):
            res = {n: prove(it, cp, it.M[n]) for n in it.M if n in LENS + STEP}
            sc = sum(1 for n in res if res[n] == 'proved')
            if best is None or sc > best[0]:
                best = (sc, cp, res)
            if sc == len(res):
                break
        allproved = best is not None and best[0] == len(best[2])
        wit_ = None
        if not allproved:
            wit_ = explore(it, rep, what, tier)
        if what == 'len' and 'size_hint' not in it.m and 'next' in it.m:
            wit_ = {'function': nm + ' has no size_hint', 'specified': 'the number of remaining items', 'derived': '(0, None)'}
        if wit_:
            rep.violated('%s (%s)' % (nm, 'lengths' if what == 'len' else 'steps'), **wit_)
            continue
        # one step of the wrong kind leaves the others without their induction hypothesis
        for n in todo:
            oid = label(it.m[n])
            r = best[2][n] if best else 'no reading of the remaining interval'
            if r == 'proved' and allproved:
                rep.proved(oid)
            else:
                rep.undecided(oid, r if r != 'proved' else 'another method is undecided')
        for n in it.m:
            if n not in it.M:
                rep.undecided(label(it.m[n]), 'not analysed')
        for n in other:
            rep.undecided(label(it.m[n]), 'no specification for this overriding method')
        for f, R, S, t in it.ctors:
            if what == 'step':
                oid = label(f)
                if best is not None:
                    content(rep, it, f, R, S, t, oid)
                else:
                    rep.undecided(oid, 'no coupling')


def getpath(v, p):
    for i in p:
        v = field(v, i)
    return v


def content(rep, it, f, R, S, t, oid):
    """the constructor stores its argument"""
    def go():
        shp = shape(R, S.tys[0])
        if shp is None or len(shp) == 1 and shp and it.name != 'IntoIter' and not it.K.chunk:
            # a vector of rows
            t0 = peel(S.tys[0])
            inner = t0[2][0]
            shp = (R.I.num_of(t0[2][1]), R.I.num_of(inner[2][1]))
        elementwise(rep, R, S, f, S.ret, shp, lambda *p: elem(S.args[0], *p), oid, returns=it.name != 'ColsIterRefInner')
    guarded(rep, oid, go)


def c06(rep):
    run_iters(rep, all_iters(), 'len', sem.TIER[0])


def c07(rep):
    run_iters(rep, [n for n in all_iters() if n != 'Chunks'], 'step', sem.TIER[0])


def c08(rep):
    run_iters(rep, ['Chunks'], 'step', sem.TIER[0])
    for imp in impls('From', 'Matrix'):
        src = imp['_targs'][1]
        if adtname(src) != 'Vector':
            continue
        fn = method(imp, 'from')
        oid = label(fn)

        def go():
            R, S = run(fn, invs=inv.infer(), tag='inv')
            r, k = shape(R, R.t(fn['output']))
            elementwise(rep, R, S, fn, S.ret if S.ret is not None else UNIT, (r, k), lambda i, j: elem(S.args[0], add(mul(i, k), j)), oid)
        guarded(rep, oid, go)
