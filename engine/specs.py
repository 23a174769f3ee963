"""Semantic obligations: what each public operation must compute, at every position and shape."""
from sem import *
import sem
import evalt


def binders(shape_):
    return [(fresh_iv('p'), n) for n in shape_]


def ids(fn):
    return label(fn)


def each(rep, trait, adts, name, f):
    """run f on the method of every impl of a trait for the given types"""
    n = 0
    for a in adts:
        for imp in impls(trait, a):
            fn = method(imp, name)
            if fn is None:
                continue
            n += f(imp, fn, a) or 0
    return n


def guarded(rep, oid, f):
    try:
        f()
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        rep.undecided(oid, 'analysis stopped: %r' % e)


def need(rep, oid, n, least):
    if n < least:
        rep.undecided(oid, 'only %d of %d forms found' % (n, least))


# ---------------------------------------------------------------- C09
def elementwise(rep, R, S, fn, ret, shp, spec, oid, models=(Free,), **kw):
    b = binders(shp)
    vs = [v for v, n in b]
    compare(rep, oid, R, S, [Item('element', elem(ret, *vs), spec(*vs), b)], models, fn=fn, **kw)


def c09(rep):
    for tr, op in (('Add', 'add'), ('Sub', 'sub')):
        def f(imp, fn, a):
            other = imp['_targs'][1] if len(imp['_targs']) > 1 else imp['_self']
            if adtname(other) != a:
                return 0
            oid = label(fn)

            def go():
                R, S = run(fn)
                shp = shape(R, S.tys[0])
                elementwise(rep, R, S, fn, S.ret if S.ret is not None else UNIT, shp,
                            lambda *v: app(op, elem(S.args[0], *v), elem(S.args[1], *v)), oid)
            guarded(rep, oid, go)
            return 1
        for a in ('Vector', 'Matrix'):
            n = each(rep, tr, (a,), op, f)
            need(rep, '%s forms for %s' % (tr, a), n, 4)

        def g(imp, fn, a):
            other = imp['_targs'][1] if len(imp['_targs']) > 1 else imp['_self']
            if adtname(other) != a:
                return 0
            oid = label(fn)

            def go():
                R, S = run(fn)
                shp = shape(R, S.tys[0])
                old = S.init[('root', 'A')]
                elementwise(rep, R, S, fn, R.final(S, 'A') if S.state is not None else UNIT, shp,
                            lambda *v: app(op, elem(old, *v), elem(S.args[1], *v)), oid)
            guarded(rep, oid, go)
            return 1
        for a in ('Vector', 'Matrix'):
            n = each(rep, tr + 'Assign', (a,), op + '_assign', g)
            need(rep, '%sAssign forms for %s' % (tr, a), n, 1)

    def h(imp, fn, a):
        oid = label(fn)

        def go():
            R, S = run(fn)
            elementwise(rep, R, S, fn, S.ret if S.ret is not None else UNIT, shape(R, S.tys[0]),
                        lambda *v: app('neg', elem(S.args[0], *v)), oid)
        guarded(rep, oid, go)
        return 1
    for a in ('Vector', 'Matrix'):
        need(rep, 'Neg for ' + a, each(rep, 'Neg', (a,), 'neg', h), 1)


# ---------------------------------------------------------------- C10
def c10(rep):
    for tr, op in (('Mul', 'mul'), ('Div', 'div')):
        def f(imp, fn, a):
            other = imp['_targs'][1] if len(imp['_targs']) > 1 else imp['_self']
            if adtname(other) in ('Vector', 'Matrix'):
                return 0
            oid = label(fn)

            def go():
                R, S = run(fn)
                elementwise(rep, R, S, fn, S.ret if S.ret is not None else UNIT, shape(R, S.tys[0]),
                            lambda *v: app(op, elem(S.args[0], *v), unref(S.args[1])), oid)
            guarded(rep, oid, go)
            return 1

        def g(imp, fn, a):
            other = imp['_targs'][1] if len(imp['_targs']) > 1 else imp['_self']
            if adtname(other) in ('Vector', 'Matrix'):
                return 0
            oid = label(fn)

            def go():
                R, S = run(fn)
                old = S.init[('root', 'A')]
                elementwise(rep, R, S, fn, R.final(S, 'A') if S.state is not None else UNIT, shape(R, S.tys[0]),
                            lambda *v: app(op, elem(old, *v), unref(S.args[1])), oid)
            guarded(rep, oid, go)
            return 1
        for a, n in (('Vector', 1), ('Matrix', 2)):
            need(rep, '%s forms for %s' % (tr, a), each(rep, tr, (a,), op, f), n)
            need(rep, '%sAssign forms for %s' % (tr, a), each(rep, tr + 'Assign', (a,), op + '_assign', g), 1)


# ---------------------------------------------------------------- C11
def summ(n, f, init=None):
    k, acc = fresh_iv(), fresh_sv('acc')
    return fold(n, k, acc, app('zero') if init is None else init, app('add', acc, f(k)))


def c11(rep):
    def product(fn, a_shape, get, b_ty, B, R, S, ret, oid):
        bs = shape(R, b_ty)
        row, inner = a_shape
        if len(bs) == 1:
            b = binders((row,))
            (i, _), = b
            it = Item('entry', elem(ret, i), summ(inner, lambda j: app('mul', get(i, j), elem(B, j))), b)
        else:
            b = binders((row, bs[1]))
            (i, _), (k, _) = b
            it = Item('entry', elem(ret, i, k), summ(inner, lambda j: app('mul', get(i, j), elem(B, j, k))), b)
        compare(rep, oid, R, S, [it], (Ring,), seeds=(0,), fn=fn)

    def f(imp, fn, a):
        other = imp['_targs'][1] if len(imp['_targs']) > 1 else imp['_self']
        if adtname(other) not in ('Vector', 'Matrix'):
            return 0
        oid = label(fn)

        def go():
            R, S = run(fn)
            product(fn, shape(R, S.tys[0]), lambda i, j: elem(S.args[0], i, j), S.tys[1], S.args[1], R, S,
                    S.ret if S.ret is not None else UNIT, oid)
        guarded(rep, oid, go)
        return 1
    need(rep, 'product forms', each(rep, 'Mul', ('Matrix',), 'mul', f), 6)

    def g(imp, fn, a):
        other = imp['_targs'][1] if len(imp['_targs']) > 1 else imp['_self']
        if adtname(other) != 'Matrix':
            return 0
        oid = label(fn)

        def go():
            R, S = run(fn)
            old = S.init[('root', 'A')]
            product(fn, shape(R, S.tys[0]), lambda i, j: elem(old, i, j), S.tys[1], S.args[1], R, S,
                    R.final(S, 'A') if S.state is not None else UNIT, oid)
        guarded(rep, oid, go)
        return 1
    need(rep, 'compound product forms', each(rep, 'MulAssign', ('Matrix',), 'mul_assign', g), 1)

    for fn in inherent('Matrix', 'pow'):
        oid = label(fn)

        def go():
            R, S = run(fn)
            n = shape(R, S.tys[0])[0]
            A = unref(S.args[0])
            compare(rep, oid, R, S, [Item('power', S.ret, app('pow', A, S.args[1]))], (MatRing,), seeds=(0, 1),
                    fn=fn, wide={S.args[1]: WIDE})
        guarded(rep, oid, go)
        rep.trust('num::pow::pow(x, n) is the n-fold product starting from One::one()')
    for imp in impls('One', 'Matrix'):
        fn = method(imp, 'one')
        if fn is not None:
            oid = label(fn)
            guarded(rep, oid, lambda: identity(rep, fn, oid))


class MatRing(Free):
    """matrices over the integers modulo a prime: products and powers of whole values, with any exponent"""
    name = 'integers modulo 2^61 - 1'
    P = 2**61 - 1
    limit = 1100

    def atom(self, a):
        h = evalt.H(self.seed, a)
        return (h % 5 - 2 if self.seed % 2 else h) % self.P

    def app(self, f, xs):
        if f == 'pow' and isinstance(xs[0], tuple) and xs[0][0] in ('adt', 'arr') and isinstance(xs[1], int) and xs[1] >= 0:
            return self.mpow(xs[0], xs[1])
        if f in ('zero', 'one'):
            return int(f == 'one')
        if all(isinstance(x, int) and not isinstance(x, bool) for x in xs):
            P = self.P
            if f == 'add':
                return (xs[0] + xs[1]) % P
            if f == 'sub':
                return (xs[0] - xs[1]) % P
            if f == 'mul':
                return xs[0] * xs[1] % P
            if f == 'neg':
                return -xs[0] % P
            if f == 'div' and xs[1] % P:
                return xs[0] * pow(xs[1], P - 2, P) % P
            if f in ('is_zero', 'is_one'):
                return xs[0] == int(f == 'is_one')
            if f == 'eq':
                return xs[0] == xs[1]
            if f == 'pow' and xs[1] >= 0:
                return pow(xs[0], xs[1], P)
        raise evalt.Undef('modular ' + f)

    def cmp(self, a, b):
        raise evalt.Undef('order')

    def iapp(self, f, xs):
        raise evalt.Undef(f)

    def rows(self, v):
        v = strip(v)
        while v[0] == 'adt':
            v = v[3][0]
        out = []
        for r in v[1]:
            r = strip(r)
            while r[0] == 'adt':
                r = r[3][0]
            out.append(list(r[1]))
        return out

    def wrap(self, like, rows):
        return ('adt', 'Matrix', 0, (('adt', 'Vector', 0, (('arr', tuple(
            ('adt', 'Vector', 0, (('arr', tuple(r)),)) for r in rows)),)),))

    def mpow(self, v, n):
        a = self.rows(v)
        d = len(a)
        if not all(isinstance(x, int) for r in a for x in r):
            raise evalt.Undef('entries')

        def mul(x, y):
            return [[sum(x[i][j] * y[j][k] for j in range(d)) % self.P for k in range(d)] for i in range(d)]
        r = [[int(i == j) for j in range(d)] for i in range(d)]
        for bit in bin(n)[2:]:
            r = mul(r, r)
            if bit == '1':
                r = mul(r, a)
        return self.wrap(v, r)


def identity(rep, fn, oid):
    R, S = run(fn)
    n = shape(R, R.t(fn['output']))
    elementwise(rep, R, S, fn, S.ret if S.ret is not None else UNIT, n,
                lambda i, j: ite(eq(i, j), app('one'), app('zero')), oid)


# ---------------------------------------------------------------- C12
def c12(rep):
    for a in ('Vector', 'Matrix'):
        for fn in inherent(a, 'generate'):
            oid = label(fn)

            def go():
                R, S = run(fn)
                shp = shape(R, R.t(fn['output']))
                b = binders(shp)
                vs = [v for v, n in b]
                arg = vs[0] if a == 'Vector' else tup(*vs)
                call = raw('ev', 'call:F', (arg,))
                val = callval(R, fn, (arg,))
                log = call
                for v, n in reversed(b):
                    log = seqloop(n, v, seq(log))
                compare(rep, oid, R, S, [Item('element', elem(S.ret, *vs), val, b),
                                         Item('calls', S.state.mem[roots.LOG], seq(log))], fn=fn)
            guarded(rep, oid, go)
    for tr, nm, v in (('Default', 'default', 'default'), ('Zero', 'zero', 'zero'),
                      ('Bounded', 'min_value', 'min_value'), ('Bounded', 'max_value', 'max_value')):
        for a in ('Vector', 'Matrix'):
            for imp in impls(tr, a):
                fn = method(imp, nm)
                if fn is None:
                    continue
                oid = label(fn)

                def go():
                    R, S = run(fn)
                    elementwise(rep, R, S, fn, S.ret, shape(R, R.t(fn['output'])), lambda *p: app(v), oid)
                guarded(rep, oid, go)
    for fn in inherent('Matrix', 'identity'):
        guarded(rep, label(fn), lambda: identity(rep, fn, label(fn)))
    for imp in impls('One', 'Matrix'):
        fn = method(imp, 'one')
        if fn is not None:
            guarded(rep, label(fn), lambda: identity(rep, fn, label(fn)))
    for a in ('Vector', 'Matrix'):
        for nm in ('new', 'into_inner'):
            for fn in inherent(a, nm):
                oid = label(fn)

                def go():
                    R, S = run(fn)
                    shp = shape(R, R.t(fn['output'])) if nm == 'new' else shape(R, S.tys[0])
                    elementwise(rep, R, S, fn, S.ret, shp, lambda *p: elem(S.args[0], *p), oid)
                guarded(rep, oid, go)
        for imp in impls('Clone', a):
            fn = method(imp, 'clone')
            if fn is None:
                continue
            oid = label(fn)

            def go():
                R, S = run(fn)
                elementwise(rep, R, S, fn, S.ret, shape(R, S.tys[0]), lambda *p: elem(S.args[0], *p), oid)
            guarded(rep, oid, go)
    for fn in inherent('Matrix', 'diag'):
        oid = label(fn)

        def go():
            R, S = run(fn)
            shp = shape(R, R.t(fn['output']))
            elementwise(rep, R, S, fn, S.ret, shp,
                        lambda i, j: ite(eq(i, j), elem(S.args[0], i), app('zero')), oid)
        guarded(rep, oid, go)


def callval(R, fn, args):
    """the value of calling the closure parameter"""
    for p in fn['preds']:
        if p['c'] == 'proj' and p['n'] == 'Output' and short(p['tr']) == 'FnOnce':
            t = R.t(p['ty'])
            return R.I.prims.symval('call:F', t, tuple(args))
    return app('call:F', *args)


# ---------------------------------------------------------------- C13
def c13(rep):
    for a in ('Vector', 'Matrix'):
        for tr, nm in (('Index', 'index'), ('IndexMut', 'index_mut')):
            for imp in impls(tr, a):
                it = imp['_targs'][1]
                if not runtime_index(it):
                    continue
                fn = method(imp, nm)
                if fn is None:
                    continue
                oid = label(fn)
                guarded(rep, oid, lambda: index(rep, fn, oid, a, tr == 'IndexMut'))
    for fn in inherent('Matrix', 'map'):
        oid = label(fn)

        def go():
            R, S = run(fn)
            shp = shape(R, S.tys[0])
            b = binders(shp)
            vs = [v for v, n in b]
            arg = (tup(*vs), elem(S.args[0], *vs))
            log = raw('ev', 'call:F', arg)
            for v, n in reversed(b):
                log = seqloop(n, v, seq(log))
            compare(rep, oid, R, S, [Item('element', elem(S.ret, *vs), callval(R, fn, arg), b),
                                     Item('calls', S.state.mem[roots.LOG], seq(log))], fn=fn)
        guarded(rep, oid, go)
    for nm in ('all', 'any'):
        for fn in inherent('Matrix', nm):
            oid = label(fn)
            guarded(rep, oid, lambda: search(rep, fn, oid, nm))
    for fn in inherent('Matrix', 'transposed'):
        oid = label(fn)

        def go():
            R, S = run(fn)
            r, c_ = shape(R, S.tys[0])
            elementwise(rep, R, S, fn, S.ret, (c_, r), lambda i, j: elem(S.args[0], j, i), oid)
        guarded(rep, oid, go)
    for fn in inherent('Matrix', 'transpose'):
        oid = label(fn)

        def go():
            R, S = run(fn)
            old = S.init[('root', 'A')]
            elementwise(rep, R, S, fn, R.final(S, 'A'), shape(R, S.tys[0]), lambda i, j: elem(old, j, i), oid)
        guarded(rep, oid, go)
    for fn in inherent('Matrix', 'conjugate'):
        oid = label(fn)

        def go():
            R, S = run(fn)
            elementwise(rep, R, S, fn, S.ret, shape(R, S.tys[0]), lambda i, j: app('conj', elem(S.args[0], i, j)), oid)
        guarded(rep, oid, go)
    # slices and reference views
    for nm, mut in (('as_slice', False), ('as_slice_mut', True)):
        for fn in inherent('Vector', nm):
            guarded(rep, label(fn), lambda: view(rep, fn, label(fn), mut))
    for tr, nm, mut in (('Deref', 'deref', False), ('DerefMut', 'deref_mut', True), ('AsRef', 'as_ref', False), ('AsMut', 'as_mut', True)):
        for imp in impls(tr, 'Vector'):
            fn = method(imp, nm)
            if fn is not None:
                guarded(rep, label(fn), lambda: view(rep, fn, label(fn), mut))
    for nm, mut in (('iter', False), ('iter_mut', True)):
        for fn in inherent('Vector', nm):
            guarded(rep, label(fn), lambda: refiter(rep, fn, label(fn), mut))


def runtime_index(t):
    if t == ('prim', 'usize'):
        return True
    return t[0] == 'tuple' and all(x == ('prim', 'usize') for x in t[1])


def refview(R, S, v, mut):
    """the array a returned reference designates"""
    if v.op == 'mref':
        x = R.I.read(S.state, R.I.follow(v))
        return x
    return unref(v)


def target(R, S, v):
    """the element a returned reference points at, as (array position path) or value"""
    if v.op == 'mref':
        return tup(*[x[1] for x in v.a[1] if x[0] == 'i'])
    return unref(v)


def index(rep, fn, oid, a, mut):
    R, S = run(fn)
    ixs = [S.args[1]] if a == 'Vector' else [field(S.args[1], 0), field(S.args[1], 1)]
    shp = shape(R, S.tys[0])
    inb = and_(*[lt(i, n) for i, n in zip(ixs, shp)])
    post = and_(*[x for x in S.state.pc if x not in S.pre])
    if mut:
        items = [Item('designated element', target(R, S, S.ret), tup(*ixs) if S.ret.op == 'mref' else
                 elem(S.init[('root', 'A')], *ixs), when=inb)]
        items.append(Item('value left in place', elem(R.final(S, 'A'), *ixs), elem(S.init[('root', 'A')], *ixs), when=inb))
    else:
        items = [Item('designated element', unref(S.ret), elem(S.args[0], *ixs), when=inb)]
    compare(rep, oid + ' (element)', R, S, items, returns=False, fn=fn)
    compare(rep, oid + ' (returns exactly in range)', R, S, [Item('returns', post, inb)], returns=False, fn=fn)


# ---------------------------------------------------------------- C04
def c04(rep):
    """an index given by its type designates the element the run-time index of the same value designates"""
    for a, per in (('Vector', 2), ('Matrix', 4)):
        for tr, nm in (('Index', 'index'), ('IndexMut', 'index_mut')):
            n = 0
            for imp in impls(tr, a):
                it = imp['_targs'][1]
                if runtime_index(it):
                    continue
                fn = method(imp, nm)
                if fn is None:
                    continue
                n += 1
                guarded(rep, label(fn), lambda: typeindex(rep, fn, label(fn), a, it, tr == 'IndexMut'))
            if n == 0:
                rep.undecided('type-level %s for %s' % (tr, a), 'no form found')


def typeindex(rep, fn, oid, a, it, mut):
    R, S = run(fn)
    ixs = [R.I.num_of(db().subst(t, R.env)) for t in (it[1] if it[0] == 'tuple' else [it])]
    if any(i is None or i.top for i in ixs):
        ixs = []
    shp = shape(R, S.tys[0])
    if len(ixs) != len(shp):
        rep.undecided(oid, 'index type not recognised')
        return
    inb = and_(*[lt(i, n) for i, n in zip(ixs, shp)])
    if mut:
        items = [Item('designated element', target(R, S, S.ret), tup(*ixs) if S.ret.op == 'mref' else
                 elem(S.init[('root', 'A')], *ixs), when=inb)]
        items.append(Item('value left in place', elem(R.final(S, 'A'), *ixs), elem(S.init[('root', 'A')], *ixs), when=inb))
    else:
        items = [Item('designated element', unref(S.ret), elem(S.args[0], *ixs), when=inb)]
    compare(rep, oid, R, S, items, returns=False, fn=fn)


def search(rep, fn, oid, nm):
    R, S = run(fn)
    shp = shape(R, S.tys[0])
    b = binders(shp)
    vs = [v for v, n in b]
    arg = (tup(*vs), elem(S.args[0], *vs))
    e = pred(callval(R, fn, arg))
    q = all_ if nm == 'all' else any_
    for v, n in reversed(b):
        e = q(n, v, e)
    compare(rep, oid + ' (result)', R, S, [Item('result', S.ret, e)], fn=fn)

    def visits(E, loc):
        """events are a prefix of the row-major positions and nothing is decided too early"""
        log = E.seqof(E.ev(S.state.mem[roots.LOG], loc))
        r = [E.num(n, loc) for n in shp]
        want = []
        for i in range(r[0]):
            for j in range(r[1]):
                l = E.ext(E.ext(loc, vs[0], i), vs[1], j)
                want.append(('ev', 'call:F', tuple(E.ev(x, l) for x in arg)))
        got = [strip(x) for x in log]
        want = [strip(x) for x in want]
        if got != want[:len(got)]:
            return 'positions visited: %s' % ([x[2][0] for x in got],)
        return None

    def shortcircuit():
        """the events are exactly those of a row-major walk that stops at the first decisive position"""
        def hit(i, j):
            h = pred(callval(R, fn, (tup(i, j), elem(S.args[0], i, j))))
            return not_(h) if nm == 'all' else h

        def ev_(i, j):
            return raw('ev', 'call:F', (tup(i, j), elem(S.args[0], i, j)))
        i, j = vs
        F = first(shp[0], i, any_(shp[1], j, hit(i, j)))
        G = first(shp[1], j, hit(F, j))
        whole = seqloop(shp[0], i, seq(seqloop(shp[1], j, seq(ev_(i, j)))))
        part = seq(seqloop(F, i, seq(seqloop(shp[1], j, seq(ev_(i, j))))), seqloop(G, j, seq(ev_(F, j))), ev_(F, G))
        want = ite(all_(shp[0], i, all_(shp[1], j, not_(hit(i, j)))), seq(whole), part)
        return simp(S.state.mem[roots.LOG], S.state.pc) is simp(seq(want), S.state.pc)
    compare_pred(rep, oid + ' (visits in row-major order, at most once)', R, S, visits, fn, proved=shortcircuit)


def compare_pred(rep, oid, R, S, p, fn, models=(Free,), seeds=range(12), proved=None):
    """violated when the predicate fails at some shape / structure; proved only by a separate argument"""
    if S.err or S.state is None:
        rep.undecided(oid, 'not analysed: %s' % S.err)
        return
    post = tuple(x for x in S.state.pc if x not in S.pre)
    w = separate(R, S, [Item(oid, S.ret, None, pred=p)], models, seeds, False, tuple(S.pre), post)
    if w is not None:
        d = {'function': label(fn), 'at': where(fn)}
        d.update(w)
        rep.violated(oid, **d)
    elif proved is not None and proved():
        rep.proved(oid)
    else:
        rep.undecided(oid, 'no counter-example among the derived summaries')


def view(rep, fn, oid, mut):
    R, S = run(fn)
    v = S.ret
    if v.op == 'mref':
        old = S.init[('root', 'A')]
        x = R.I.read(S.state, R.I.follow(v))
    else:
        old = unref(S.args[0])
        x = unref(v)
    shp = shape(R, S.tys[0])
    ln = R.I.length(x) if arr(x) is None else alen(arr(x))
    elementwise(rep, R, S, fn, x, shp, lambda *p: elem(old, *p), oid)
    compare(rep, oid + ' (length)', R, S, [Item('length', ln, shp[0])], fn=fn)


def refiter(rep, fn, oid, mut):
    R, S = run(fn)
    v = S.ret
    n, = shape(R, S.tys[0])
    if not (v.op == 'adt' and v.a[0] in ('SliceIter', 'SliceIterMut')):
        rep.undecided(oid, 'not a slice iterator')
        return
    base, lo, hi = v.a[2][:3]
    x = R.I.read(S.state, R.I.follow(base)) if base.op == 'mref' else unref(base)
    old = S.init[('root', 'A')] if base.op == 'mref' else unref(S.args[0])
    b = binders((n,))
    k = b[0][0]
    compare(rep, oid, R, S, [Item('item', elem(x, add(lo, k)), elem(old, k), b), Item('length', sub(hi, lo), n)], fn=fn)


# ---------------------------------------------------------------- C16
def c16(rep):
    for fn in inherent('Vector', 'dot'):
        def go():
            R, S = run(fn)
            n, = shape(R, S.tys[0])
            compare(rep, label(fn), R, S, [Item('value', S.ret, summ(n, lambda k: app('mul', elem(S.args[0], k), elem(S.args[1], k))))],
                    (Ring,), seeds=(0,), fn=fn)
        guarded(rep, label(fn), go)
    for fn in inherent('Vector', 'cross'):
        def go():
            R, S = run(fn)
            A, B = [[elem(x, c(i)) for i in range(3)] for x in S.args[:2]]
            its = []
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                its.append(Item('component %d' % i, elem(S.ret, c(i)), app('sub', app('mul', A[j], B[k]), app('mul', A[k], B[j]))))
            compare(rep, label(fn), R, S, its, (Ring,), seeds=(0,), fn=fn)
        guarded(rep, label(fn), go)

    def norm(R, S):
        n, = shape(R, S.tys[0])
        return app('sqrt', summ(n, lambda k: app('mul', elem(S.args[0], k), elem(S.args[0], k))))
    for fn in inherent('Vector', 'norm'):
        def go():
            R, S = run(fn)
            compare(rep, label(fn), R, S, [Item('value', S.ret, norm(R, S))], (CRing,), seeds=(0,), fn=fn)
        guarded(rep, label(fn), go)
    for fn in inherent('Vector', 'normalized'):
        def go():
            R, S = run(fn)
            elementwise(rep, R, S, fn, S.ret, shape(R, S.tys[0]), lambda k: app('div', elem(S.args[0], k), norm(R, S)),
                        label(fn), (CRing,), seeds=(0,))
        guarded(rep, label(fn), go)
    for a in ('Vector', 'Matrix'):
        for fn in inherent(a, 'sum'):
            def go():
                R, S = run(fn)
                shp = shape(R, S.tys[0])
                if a == 'Vector':
                    e = summ(shp[0], lambda k: elem(S.args[0], k))
                else:
                    e = summ(shp[0], lambda i: summ(shp[1], lambda j: elem(S.args[0], i, j)))
                compare(rep, label(fn), R, S, [Item('value', S.ret, e)], (Ring,), seeds=(0,), fn=fn)
            guarded(rep, label(fn), go)


# ---------------------------------------------------------------- C18
def c18(rep):
    for a in ('Vector', 'Matrix'):
        for imp in impls('PartialEq', a):
            fn = method(imp, 'eq')
            if fn is None or adtname(imp['_targs'][1] if len(imp['_targs']) > 1 else imp['_self']) != a:
                continue

            def go():
                R, S = run(fn)
                quant(rep, label(fn), R, S, fn, shape(R, S.tys[0]), lambda *v: app('eq', elem(S.args[0], *v), elem(S.args[1], *v)))
            guarded(rep, label(fn), go)
            ne = method(imp, 'ne')
            if ne is not None:
                def go():
                    R, S = run(ne)
                    quant(rep, label(ne), R, S, ne, shape(R, S.tys[0]),
                          lambda *v: app('eq', elem(S.args[0], *v), elem(S.args[1], *v)), neg=True)
                guarded(rep, label(ne), go)
        for imp in impls('Zero', a):
            fn = method(imp, 'is_zero')
            if fn is None:
                continue

            def go():
                R, S = run(fn)
                quant(rep, label(fn), R, S, fn, shape(R, S.tys[0]), lambda *v: app('is_zero', elem(S.args[0], *v)))
            guarded(rep, label(fn), go)
        for imp in impls('ApproxEq', a):
            for nm in ('relative_eq', 'ulps_eq'):
                fn = method(imp, nm)
                if fn is None:
                    continue

                def go():
                    R, S = run(fn)
                    quant(rep, label(fn), R, S, fn, shape(R, S.tys[0]),
                          lambda *v: app(nm, elem(S.args[0], *v), elem(S.args[1], *v), unref(S.args[2]), unref(S.args[3])))
                guarded(rep, label(fn), go)
            for nm in ('relative_ne', 'ulps_ne'):
                fn = method(imp, nm)
                if fn is None:
                    continue

                def go():
                    R, S = run(fn)
                    quant(rep, label(fn), R, S, fn, shape(R, S.tys[0]),
                          lambda *v: app(nm[:-2] + 'eq', elem(S.args[0], *v), elem(S.args[1], *v), unref(S.args[2]), unref(S.args[3])), neg=True)
                guarded(rep, label(fn), go)
            for nm in ('default_epsilon', 'default_max_relative', 'default_max_ulps'):
                fn = method(imp, nm)
                if fn is None:
                    continue

                def go():
                    R, S = run(fn)
                    e = R.I.prims.symval(nm, R.t(fn['output']), ())
                    compare(rep, label(fn), R, S, [Item('value', S.ret, e)], fn=fn)
                guarded(rep, label(fn), go)


def quant(rep, oid, R, S, fn, shp, p, neg=False):
    b = binders(shp)
    e = pred(p(*[v for v, n in b]))
    for v, n in reversed(b):
        e = all_(n, v, e)
    if neg:
        e = not_(e)
    compare(rep, oid, R, S, [Item('result', S.ret, e)], seeds=range(10), fn=fn)


# ---------------------------------------------------------------- C22
def c22(rep):
    """programs of /verif/probe: every element expression is evaluated once, in order, and lands at its place"""
    import build, mir
    try:
        sem._ctx['db'] = mir.load([build.repo_dump(), build.probe_dump(), build.models_dump()])
    except build.BuildError as e:
        db()
        rep.undecided('programs', 'do not compile: ' + str(e)[-300:])      # which of them must: decided by the type-level programs
        return
    fns = sorted((f for f in db().fns.values() if f['_crate'] == 'probe' and f['kind'] == 'Fn'), key=lambda f: f['id'])
    rep.notes['programs_analysed'] = len(fns)
    for fn in fns:
        nm = fn['id'].split('::')[-1]
        dims = [int(x) for x in nm[1:].split('_')]
        oid = ('vector![%d]' if len(dims) == 1 else 'matrix![%d x %d]') % tuple(dims)

        def go():
            R, S = run(fn)
            total = 1
            for d in dims:
                total *= d
            items = [Item('shape', tup(*shape(R, R.t(fn['output']))), tup(*[c(d) for d in dims]))] if total else []
            log = seq()
            for k in range(total):
                log = seq(log, raw('ev', 'call:F', (c(k),)))
                pos = (k,) if len(dims) == 1 else divmod(k, dims[1])
                items.append(Item('element ' + ', '.join(map(str, pos)), elem(S.ret, *[c(x) for x in pos]), callval(R, fn, (c(k),))))
            items.append(Item('evaluations', S.state.mem[roots.LOG], log))
            compare(rep, oid, R, S, items, fn=fn)
        guarded(rep, oid, go)
