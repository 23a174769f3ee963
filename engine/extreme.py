"""C17: extremes and clamping, for every total preorder on the elements.

A derived extreme is a (nested) fold whose steps select between values by comparisons.  Each step is decided on the
finitely many weak orderings of the values it mentions: the selected value must be at least (at most) the accumulator
and the values the step adds; the families of elements so covered must contain every position."""
from specs import *
import itertools

ORDER = ('cmp', 'partial_cmp')


class Order(Free):
    """elements ranked by a total preorder, with ties for odd seeds"""
    name = 'total preorder'

    def plain(self, v):
        while isinstance(v, tuple) and len(v) == 2 and v[0] == 'ref':
            v = v[1]
        return v

    def rank(self, v):
        v = self.plain(v)
        if not (isinstance(v, tuple) and v and v[0] == 'in'):
            raise Undef('rank')
        if self.seed >= 4 and v[2] and v[1] == 'A':
            # extremes at particular places
            last = sum(v[2])
            return {4: last, 5: -last, 6: abs(v[2][-1] - 1), 7: -abs(v[2][-1] - 1), 8: v[2][0] * 2 - 3 * v[2][-1],
                    9: 3 * v[2][-1] - 2 * v[2][0]}.get(self.seed, H(self.seed, v) % 5) + 3
        return H(self.seed, 'rank', v) % (3 if self.seed % 2 else 50)


def isorder(n):
    return n.op == 'discr' and n.a[0].op == 'app' and (n.a[0].a[0] in ORDER or n.a[0].a[0].startswith('call:')) and len(n.a[0].a[1]) == 2


def hasorder(n):
    return contains(n, isorder)


class No(Exception):
    pass


def literals(cnd, out):
    if cnd.op in ('and', 'or'):
        for x in cnd.a[0]:
            literals(x, out)
    elif cnd.op not in ('true', 'false'):
        out.append(cnd)


def conditions(t, atoms, out):
    """literals of the conditions that select between values"""
    if t in atoms:
        return
    t = unref(t)
    if t in atoms:
        return
    if t.op == 'ite':
        ls = []
        literals(t.a[0], ls)
        for x in ls:
            if hasorder(x):
                for y in subterms(x):
                    if isorder(y):
                        for z in y.a[0].a[1]:
                            conditions(z, atoms, out)
            out.append(x)
        conditions(t.a[1], atoms, out)
        conditions(t.a[2], atoms, out)


def cases(t, pc, atoms, depth=0):
    """(path condition, term) with every condition decided that no comparison of elements enters"""
    if depth > 8:
        raise No('too many cases')
    t = unref(simp(t, pc))
    ls = []
    conditions(t, atoms, ls)
    for x in ls:
        if not hasorder(x):
            for y, b in ((x, TRUE), (not_(x), FALSE)):
                if facts.feasible(pc + (y,)):
                    m = {x: b, not_(x): not_(b)}
                    yield from cases(map_nodes(t, lambda n: m.get(n, n)), pc + (y,), atoms, depth + 1)
            return
    yield pc, t


def value(t, rank):
    t = unref(t)
    if t in rank:
        return t
    if t.op == 'ite':
        return value(t.a[1] if truth(t.a[0], rank) else t.a[2], rank)
    raise No('not a selection: ' + show(t)[:80])


def truth(cnd, rank):
    o = cnd.op
    if o in ('true', 'false'):
        return o == 'true'
    if o == 'and':
        return all(truth(x, rank) for x in cnd.a[0])
    if o == 'or':
        return any(truth(x, rank) for x in cnd.a[0])
    if o in ('le0', 'eq0', 'ne0'):
        v = number(cnd.a[0], rank)
        return v <= 0 if o == 'le0' else (v == 0) == (o == 'eq0')
    raise No('condition ' + show(cnd)[:80])


def number(p, rank):
    if p.op == 'c':
        return p.a[0]
    if isorder(p):
        x, y = (rank[value(z, rank)] for z in p.a[0].a[1])
        return (x > y) - (x < y)
    if p.op == 'poly':
        r = 0
        for m, k in p.a[0]:
            for x in m:
                k *= number(x, rank)
            r += k
        return r
    if p.op == 'ite':
        return number(p.a[1] if truth(p.a[0], rank) else p.a[2], rank)
    raise No('number ' + show(p)[:80])


def leaves(t, out):
    """the values a selection may return or compare"""
    t = unref(t)
    if t.op == 'ite':
        for x in subterms(t.a[0]):
            if isorder(x):
                for z in x.a[0].a[1]:
                    leaves(z, out)
        leaves(t.a[1], out)
        leaves(t.a[2], out)
    elif t.op in ('in', 'fold', 'sv', 'svsel', 'sel'):
        out[t] = None
    else:
        raise No('value ' + show(t)[:80])


def orderings(atoms, cons):
    """weak orderings of the atoms: rank assignments without gaps, subject to the constraints (a >= b)"""
    n = len(atoms)
    if n > 6:
        raise No('too many values in one step')
    for r in itertools.product(range(n), repeat=n):
        if set(r) != set(range(max(r) + 1)):
            continue
        rank = dict(zip(atoms, r))
        if all(rank[a] >= rank[b] for a, b in cons):
            yield rank


def flip(cons, sign):
    return [(a, b) if sign > 0 else (b, a) for a, b in cons]


def extreme(t, pc, sign):
    """[(guards, binders, element)]: the elements the value of t is at least (at most) equal to, being one of them"""
    out = []
    t0 = t
    for pc2, u in cases(t, pc, ()):
        g = tuple(x for x in pc2 if x not in pc)
        at = {}
        leaves(u, at)
        fams, cons = {}, []
        for a in at:
            if a.op == 'fold':
                fams[a] = foldfam(a, pc2, sign)
                for gs, bs, e in fams[a]:
                    if not gs and not bs and e in at:
                        cons.append((a, e))
        atoms = list(at)
        for a in atoms:
            if contains(a, isorder) and a.op != 'fold':
                raise No('selected index')
        cov = set(atoms)
        for rank in orderings(atoms, flip(cons, sign)):
            r = rank[value(u, rank)]
            cov = {a for a in cov if (r >= rank[a] if sign > 0 else r <= rank[a])}
        for a in cov:
            for gs, bs, e in fams.get(a, [((), (), a)]):
                out.append((g + gs, bs, e))
    return out


def foldfam(t, pc, sign):
    n, init = t.a[0], t.a[2]
    k, acc, body = open_fold(t)
    pck = pc + (le(ZERO, k), lt(k, n))
    fam = list(extreme(init, pc, sign))
    step = extreme(body, pck, sign)
    keep = [and_(*g) for g, bs, e in step if e is acc and not bs]
    if not keep or not facts.entails(pck, or_(*keep)):
        raise No('a step may lose the best value so far')
    for g, bs, e in step:
        if e is not acc:
            fam.append((g, bs + ((k, n),), e))
    return fam


def covered(fam, A, vs, shp, pc):
    """condition under which position vs is an element of the families"""
    out = []
    for g, bs, e in fam:
        # the index expressions of this element, as a function of the binders
        ix = indices(e, A, len(vs))
        if ix is None:
            continue
        conds = list(g) + [x for v, n in bs for x in (le(ZERO, v), lt(v, n))]
        m = {}
        rest = []
        names = {v for v, n in bs}
        for i, p in zip(ix, vs):
            own = [v for v in names if v in i.fv]
            if not own:
                rest.append(eq(i, p))
            elif len(own) == 1 and own[0] not in m:
                v = own[0]
                for s in (1, -1):
                    d = sub(i, scale(v, s))
                    if v not in d.fv:
                        m[v] = scale(sub(p, d), s)
                        break
                else:
                    m = None
                    break
            else:
                rest.append(eq(i, p))
        if m is None:
            m = {}
            rest = [eq(i, p) for i, p in zip(ix, vs)]
        if len(names - set(m)) == 1 and len(vs) == 2:
            # one counter walks all positions
            v, = names - set(m)
            m[v] = add(mul(vs[0], shp[1]), vs[1])
        cond = and_(*[subst(subst(x, m), m) for x in conds + rest])
        if not any(v in cond.fv for v in names):
            out.append(cond)
    return or_(*out)


def indices(e, A, n):
    vs = [fresh_iv('q') for _ in range(n)]
    w = elem(A, *vs)
    if e.op == 'in' and w.op == 'in' and e.a[0] == w.a[0] and len(e.a[1]) == len(w.a[1]) == n:
        return e.a[1]
    return None


def prove_extreme(t, A, shp, pc, sign):
    fam = extreme(t, pc, sign)
    b = binders(shp)
    vs = [v for v, n in b]
    pcv = pc + tuple(x for v, n in b for x in (le(ZERO, v), lt(v, n)))
    c_ = covered(fam, A, vs, shp, pcv)
    return facts.entails(pcv, c_) or facts.entails(pcv, simp(c_, pcv))


def extremes(rep):
    for a in ('Vector', 'Matrix'):
        for nm, sign in (('max', 1), ('min', -1), ('max_by', 1), ('min_by', -1)):
            n = 0
            for fn in inherent(a, nm):
                n += 1
                oid = label(fn)
                guarded(rep, oid, lambda: extreme_of(rep, fn, oid, sign))
            need(rep, '%s::%s' % (a, nm), n, 1)


def extreme_of(rep, fn, oid, sign):
    R, S = run(fn)
    if S.err or S.state is None:
        rep.undecided(oid, 'not analysed: %s' % S.err)
        return
    shp = shape(R, S.tys[0])
    A = S.args[0]

    def check(E, loc):
        r = E.m.plain(strip(E.ev(S.ret, loc)))
        dims = [E.num(n, loc) for n in shp]
        every = [('in', elem(A, *[c(0)] * len(dims)).a[0], p) for p in itertools.product(*[range(d) for d in dims])]
        if r not in every:
            return 'the result %r is not an element' % (r,)
        best = E.m.rank(r) * sign
        for x in every:
            if E.m.rank(x) * sign > best:
                return 'the result %r is beaten by %r' % (r[2], x[2])
        return None

    def proof():
        if S.ret.top:
            return False
        try:
            return prove_extreme(unref(S.ret), A, shp, tuple(S.pre) + tuple(x for x in S.state.pc if x not in S.pre), sign)
        except No as e:
            rep.notes.setdefault('no_proof', []).append('%s: %s' % (oid, e))
            return False
    compare_pred(rep, oid, R, S, check, fn, models=(Order,), seeds=range(16), proved=proof)


# ---------------------------------------------------------------- clamping
def order_equal(t, spec, pc, cons, assume):
    """do both select values of equal rank for every weak ordering satisfying the assumption?"""
    for pc2, u in cases(t, pc, ()):
        at = {}
        leaves(u, at)
        leaves(spec, at)
        for a in at:
            if a.op != 'in' or contains(a, isorder):
                raise No('value ' + show(a)[:60])
        for rank in orderings(list(at), []):
            if not truth(assume, rank):
                continue
            if rank[value(u, rank)] != rank[value(spec, rank)]:
                return False
    return True


def clamping(rep):
    for a in ('Vector', 'Matrix'):
        for nm in ('clamp', 'clamped'):
            n = 0
            for fn in inherent(a, nm):
                n += 1
                oid = label(fn)
                guarded(rep, oid, lambda: clamp_of(rep, fn, oid, nm == 'clamp'))
            need(rep, '%s::%s' % (a, nm), n, 1)


def clamp_of(rep, fn, oid, inplace):
    R, S = run(fn)
    if S.err or S.state is None:
        rep.undecided(oid, 'not analysed: %s' % S.err)
        return
    shp = shape(R, S.tys[0])
    old = S.init[('root', 'A')] if inplace else S.args[0]
    got = R.final(S, 'A') if inplace else S.ret
    mn, mx = unref(S.args[1]), unref(S.args[2])
    b = binders(shp)
    vs = [v for v, n in b]
    v = elem(old, *vs)
    lo, hi = discr(app('cmp', v, mn)), discr(app('cmp', v, mx))
    spec = ite(lt(lo, ZERO), mn, ite(lt(ZERO, hi), mx, v))
    t = elem(got, *vs)
    ordered = le(discr(app('cmp', mn, mx)), ZERO)
    post = tuple(x for x in S.state.pc if x not in S.pre)

    def check(E, loc):
        try:
            if not E.boo(ordered, loc):
                return None
        except Undef:
            return None
        dims = [E.num(n, loc) for n in shp]
        for p in itertools.product(*[range(d) for d in dims]):
            l = dict(loc)
            l.update(zip(vs, p))
            x, y = E.m.plain(strip(E.ev(t, l))), E.m.plain(strip(E.ev(spec, l)))
            if E.m.rank(x) != E.m.rank(y):
                return 'position %s becomes %r instead of %r' % (list(p), x, y)
        return None

    def proof():
        pc = tuple(S.pre) + post + tuple(x for w, n in b for x in (le(ZERO, w), lt(w, n)))
        if t.top or any(not facts.entails(tuple(S.pre) + (ordered,), x) for x in post):
            return False
        try:
            return order_equal(t, spec, pc, (), ordered)
        except No as e:
            rep.notes.setdefault('no_proof', []).append('%s: %s' % (oid, e))
            return False
    compare_pred(rep, oid, R, S, check, fn, models=(Order,), seeds=range(24), proved=proof)
    if not inplace:
        x = R.final(S, 'A') if ('root', 'A') in S.init else None
        if x is not None and x is not S.init[('root', 'A')]:
            rep.undecided(oid + ' (receiver unchanged)', 'changed')


def c17(rep):
    extremes(rep)
    clamping(rep)
