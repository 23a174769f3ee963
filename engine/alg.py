"""C14 and C15: determinants, cofactors and inverses over a field with exact arithmetic.

Small sizes: the derived value is brought to a quotient of polynomials in the entries and compared with the Leibniz
expansion (determinants), with minors (cofactors), with A^-1 A = I (inverses).
General size: the derived loop summary is an array rewritten step by step. One step, at a symbolic row and column,
must be a row operation with coefficients that do not depend on the column; the invariants 'columns left of the
current one are cleared' / 'are those of the identity' and 'inverse-so-far times A = matrix-so-far' are shown to be
preserved by one step, for every size.
"""
from sem import *
import sem, specs, inv, roots, terms
from specs import guarded, need
from evalt import Field, Undef, H
from fractions import Fraction



def ne(a, b):
    return not_(eq(a, b))


LIMIT = {'quick': 90, 'thorough': 240}


# ---------------------------------------------------------------- quotients of polynomials over opaque element terms
class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Stuck(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, k in b.items():
        v = r.get(m, 0) + s * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > 20000:
        raise Stuck('large polynomial')
    r = {}
    for m1, k1 in a.items():
        for m2, k2 in b.items():
            m = tuple(sorted(m1 + m2, key=lambda n: n.id))
            v = r.get(m, 0) + k1 * k2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


P1 = {(): 1}


class Norm:
    """conversion of element terms to quotients under path conditions; `hyp` gives known values of matrix entries"""

    def __init__(self, pc, hyp=None, track=()):
        self.pc, self.hyp = pc, hyp
        self.reps = []
        self.memo = {}
        self.dens = []
        self.nz = []
        self.zero = set()
        for x in units(pc):
            if x.op in ('b', 'nb') and x.a[0].op == 'app' and x.a[0].a[0] == 'is_zero':
                try:
                    n, d = self.rf(x.a[0].a[1][0])
                except (Stuck, Split):
                    continue
                if x.op == 'nb':
                    self.nz.append(n)
                elif len(n) == 1 and all(len(m) == 1 for m in n):
                    self.zero.add(list(n)[0][0])
        self.memo = {}
        self.dens = []

    def rf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.rf1(t)
        return r

    def rf1(self, t):
        if t.top:
            raise Stuck('not derived')
        if t.op in ('vref', 'deref'):
            return self.rf(t.a[0])
        if t.op == 'app':
            f, xs = t.a
            if f == 'zero':
                return {}, P1
            if f == 'one':
                return P1, P1
            if f in ('add', 'sub'):
                (a, b), (c_, d) = self.rf(xs[0]), self.rf(xs[1])
                s = 1 if f == 'add' else -1
                if b == d:
                    return padd(a, c_, s), b
                return padd(pmul(a, d), pmul(c_, b), s), pmul(b, d)
            if f == 'mul':
                (a, b), (c_, d) = self.rf(xs[0]), self.rf(xs[1])
                return pmul(a, c_), pmul(b, d)
            if f == 'neg':
                a, b = self.rf(xs[0])
                return {m: -k for m, k in a.items()}, b
            if f == 'div':
                (a, b), (c_, d) = self.rf(xs[0]), self.rf(xs[1])
                self.dens.append(c_)
                return pmul(a, d), pmul(b, c_)
            if f in ('pow', 'powi') and isinstance(xs[1], Node) and xs[1].op == 'c' and 0 <= xs[1].a[0] <= 4:
                r = P1, P1
                a = self.rf(xs[0])
                for _ in range(xs[1].a[0]):
                    r = pmul(r[0], a[0]), pmul(r[1], a[1])
                return r
        if t.op == 'ite':
            raise Split(t.a[0])
        return self.atom(t)

    def atom(self, t):
        if t.op == 'svsel' and self.hyp is not None:
            v = self.hyp(self.pc, t)
            if v is not None:
                return ({} if v == 0 else {(): v}), P1
        for u in self.reps:
            if u is t:
                break
            if same_place(self.pc, u, t):
                t = u
                break
        else:
            self.reps.append(t)
        if t in self.zero:
            return {}, P1
        return {(t,): 1}, P1

    def nonzero(self, d):
        """is the polynomial known to be different from zero?"""
        if not d:
            return False
        if set(d) == {()}:
            return True
        for n in self.nz:
            if multiple(d, n):
                return True
        if len(d) == 1:
            (m, k), = d.items()
            return all(any(multiple({(x,): 1}, n) for n in self.nz) for x in m)
        for n in self.nz:
            for p in self.nz:
                if multiple(d, pmul(n, p)):
                    return True
        return False


def multiple(a, b):
    """a = k * b for a constant k"""
    if set(a) != set(b) or not a:
        return False
    r = {Fraction(a[m], b[m]) for m in a}
    return len(r) == 1


def lits(pc):
    for x in pc:
        if x.op == 'and':
            yield from lits(x.a[0])
        else:
            yield x


def units(pc):
    """literals, with disjunctions of which only one member is possible"""
    pc = tuple(pc)
    for x in lits(pc):
        if x.op == 'or':
            left = [y for y in x.a[0] if feasible(pc + (y,))]
            if len(left) == 1:
                yield from lits((left[0],))
        else:
            yield x


def same_place(pc, u, t):
    """do two reads of the same array designate the same place under the path conditions?"""
    if u.op != t.op:
        return False
    if u.op == 'svsel':
        return u.a[0] is t.a[0] and len(u.a[1]) == len(t.a[1]) and all(entails(pc, eq(x, y)) for x, y in zip(u.a[1], t.a[1]))
    if u.op == 'in':
        return u.a[0] == t.a[0] and len(u.a[1]) == len(t.a[1]) and all(
            isinstance(x, Node) and isinstance(y, Node) and entails(pc, eq(x, y)) for x, y in zip(u.a[1], t.a[1]))
    return False


def find_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return None
    seen.add(t)
    if t.op == 'ite':
        return t
    if t.op in terms.BINDERS or t.op == 'rec':
        return None
    for x in terms._children(t.a):
        r = find_ite(x, seen)
        if r is not None:
            return r
    return None


def zeroes(t):
    """x == zero() is is_zero(x)"""
    def f(n):
        if n.op == 'app' and n.a[0] == 'eq':
            for x, y in (n.a[1], n.a[1][::-1]):
                if y.op == 'app' and y.a[0] == 'zero':
                    return app('is_zero', x)
        return n
    return map_nodes(t, f)


def found(pc, *ts):
    """facts about the result of a successful search"""
    out = ()
    seen = set()
    for t in list(pc) + list(ts):
        for f in subterms(t):
            if f.op == 'first' and f not in seen and not any(v.a[0].startswith('#') for v in f.fv):
                seen.add(f)
                v, b = open1(f)
                if entails(pc, any_(f.a[0], v, b)):
                    out += (le(ZERO, f), lt(f, f.a[0])) + tuple(lits((inst(f, f),)))
    return out


def cases(ts, pc, budget):
    """splits on the conditionals in the terms; yields (path condition, terms)"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Stuck('too many cases')
    ts = tuple(simp(t, pc) for t in ts)
    i = None
    for t in ts:
        i = find_ite(t)
        if i is not None:
            break
    if i is None:
        yield pc, ts
        return
    for x in (i.a[0], not_(i.a[0])):
        q = pc + (x,)
        if feasible(q):
            yield from cases(ts, q, budget)


def over(ts, pc, hyp, f, budget=None):
    """f(norm, terms) must hold in every case; returns None or the case in which it does not"""
    budget = budget or [120]
    for q, us in cases(ts, pc, budget):
        q2 = q + found(q, *us)
        n = Norm(q2, hyp)
        try:
            r = f(n, us)
        except Split as s:
            r = None
            for x in (s.cond, not_(s.cond)):
                if feasible(q2 + (x,)):
                    r = r or over(us, q2 + (x,), hyp, f, budget)
        if r:
            return r
    return None


def equal(a, b, pc, hyp=None):
    """None, or why the two element terms are not known to be equal in every field"""
    def f(n, us):
        (p, q), (r, s) = n.rf(us[0]), n.rf(us[1])
        if padd(pmul(p, s), pmul(r, q), -1):
            return 'differs when %s: %s / %s' % ([show(x)[:100] for x in n.pc if x not in pc], show(us[0])[:200], show(us[1])[:200])
        for d in n.dens:
            if not n.nonzero(d):
                return 'divisor may be zero'
        return None
    return over((a, b), pc, hyp, f)


# ---------------------------------------------------------------- specification terms
ZR, ON = app('zero'), app('one')


def leibniz(A, rows, cols):
    """determinant of the submatrix by expansion along the first row"""
    if not rows:
        return ON
    r = ZR
    for k, cc in enumerate(cols):
        t = app('mul', elem(A, c(rows[0]), c(cc)), leibniz(A, rows[1:], cols[:k] + cols[k + 1:]))
        r = app('add' if k % 2 == 0 else 'sub', r, t)
    return r


def dims(R, S):
    return shape(R, S.tys[0])


class Alg(Field):
    """matrices over the rationals chosen to hit every case of elimination: sparse, singular, with zero pivots"""
    name = 'rationals'
    NAN = ('nan',)

    def atom(self, a):
        if len(a[2]) != 2:
            return Fraction(H(self.seed, a) % 7 - 3)
        return self.entry(a[1], a[2][0], a[2][1])

    def rnd(self, *k):
        return H(self.seed, *k)

    def entry(self, nm, i, j):
        s = self.seed
        k = s % 12
        R = self.rnd
        base = Fraction(R(nm, i, j) % 9 - 4)
        if k == 0:
            return base
        if k == 1:
            return Fraction(R(nm, i, j) % 3 - 1)
        if k == 2:
            return Fraction(0) if (i, j) == (0, 0) else base
        if k == 3:
            return Fraction(1 if R(nm, i, j) % 4 == 0 else 0)
        if k == 4:
            # rows 0 and 1 with proportional heads
            return self.half(nm, i, j, 2)
        if k == 5:
            # the last but one leading block is singular
            return self.half(nm, i, j, 3)
        if k == 6:
            # anti-diagonal
            return Fraction(1 + R(nm, i) % 3) if (i + j) == 3 or i + j > 3 and i == j else Fraction(0)
        if k == 7:
            # cyclic permutation of rows
            return Fraction(1 + R(nm, i) % 4) if j == (i + 1 + s // 12) % 4 and i < 4 and j < 4 or i >= 4 and i == j else Fraction(0)
        if k == 8:
            # second row the double of the first: singular
            return 2 * self.entry1(nm, 0, j) if i == 1 else self.entry1(nm, i, j)
        if k == 9:
            return Fraction(R(nm, i, j) % 5 - 2) if i <= j else Fraction(0)
        if k == 10:
            # a zero column
            return Fraction(0) if j == s // 12 % 4 else base
        return Fraction(R(nm, i, j) % 23 - 11, 1 + R(nm, j, i) % 4)

    def entry1(self, nm, i, j):
        return Fraction(self.rnd(nm, i, j) % 9 - 4)

    def half(self, nm, i, j, m):
        if i == m - 1 and j < m:
            return sum((Fraction(x + 1) * self.entry1(nm, x, j) for x in range(m - 1)), Fraction(0))
        return self.entry1(nm, i, j)

    def app(self, f, xs):
        if self.NAN in xs:
            return self.NAN
        if f == 'div' and xs[1] == 0:
            return self.NAN
        if f in ('determinant', 'cofactor'):
            A = mat(xs[0])
            if f == 'determinant':
                return det(A)
            if f == 'cofactor':
                ij = xs[1]
                i, j = ij[3] if isinstance(ij, tuple) and ij[0] == 'adt' else (None, None)
                return cof(A, i, j)
        return Field.app(self, f, xs)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        raise Undef('truth')


def mat(v):
    """list of rows from an evaluated matrix value"""
    def un(x):
        while isinstance(x, tuple) and x and (x[0] == 'ref' or x[0] == 'adt' and len(x[3]) >= 1):
            x = x[1] if x[0] == 'ref' else x[3][0]
        return x
    v = un(v)
    if not (isinstance(v, tuple) and v and v[0] == 'arr'):
        raise Undef('matrix')
    out = []
    for r in v[1]:
        r = un(r)
        if not (isinstance(r, tuple) and r and r[0] == 'arr'):
            raise Undef('matrix')
        if not all(isinstance(x, (int, Fraction)) or x == Alg.NAN for x in r[1]):
            raise Undef('entries')
        out.append(list(r[1]))
    return out


def det(A):
    A = [r[:] for r in A]
    n = len(A)
    if any(len(r) != n for r in A) or any(x == Alg.NAN for r in A for x in r):
        raise Undef('det')
    d = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            A[i], A[p] = A[p], A[i]
            d = -d
        d *= A[i][i]
        for r in range(i + 1, n):
            q = A[r][i] / Fraction(A[i][i])
            if q:
                A[r] = [x - q * y for x, y in zip(A[r], A[i])]
    return d


def minor(A, i, j):
    return [[x for b, x in enumerate(r) if b != j] for a, r in enumerate(A) if a != i]


def cof(A, i, j):
    if i is None or not (0 <= i < len(A) and 0 <= j < len(A)):
        raise Undef('cofactor')
    return (-1) ** (i + j) * det(minor(A, i, j))


def seeds():
    return range(36 if TIER[0] == 'quick' else 120)


def refute(rep, oid, R, S, pred_, what, why):
    """a matrix of rationals on which the derived function is not the specified one, else undecided"""
    if S.ret is not None:
        it = Item(what, None, None, pred=pred_)
        pre = tuple(S.pre)
        post = tuple(x for x in S.state.pc if x not in S.pre)
        ivs = set()
        for t in (S.ret,) + tuple(S.args) + post:
            ivs |= {v for v in t.fv if v.op == 'iv' and '!' not in v.a[0]}
        facts_ = tuple(x for x in pre if x.fv <= ivs)
        envs = list(itertools.islice(grid(ivs, set(getattr(R, 'dims', [])), facts_, sem.constants((S.ret,) + facts_ + post)), 400))
        end = time.time() + 2 * sem.SEPTIME[TIER[0]]
        for seed in seeds():
            m = Alg(seed)
            for env in envs:
                if time.time() > end:
                    break
                w = sem.sep1(m, env, [it], False, post)
                if w:
                    w['shape'] = {v.a[0]: x for v, x in env.items()}
                    w['structure'] = m.name
                    rep.violated(oid, function=label(R.fn), at=where(R.fn), **w)
                    return
    rep.undecided(oid, str(why)[:600])


def showm(A):
    return '[%s]' % '; '.join(' '.join(str(x) for x in r) for r in A)


# ---------------------------------------------------------------- row operations
def entry_of(step, r, cc):
    return elem(step, r, cc)


class Op:
    """one elimination step as a row operation: for each case of the row r, the new row is sum of coef * row x"""

    def __init__(self, root, E, r, cc, pc, hyp):
        self.cases = []
        why = over((E,), pc, hyp, lambda n, us: self.take(n, us[0], root, r, cc, pc))
        self.why = why

    def take(self, n, t, root, r, cc, pc):
        num, den = n.rf(t)
        for d in n.dens:
            if not n.nonzero(d):
                return 'divisor may be zero'
        for x in n.pc:
            if x not in pc and cc in x.fv:
                return 'the case depends on the column: ' + show(x)[:200]
        out = {}
        for m, k in num.items():
            rows = [x for x in m if cc in x.fv]
            if len(rows) != 1 or rows[0].op != 'svsel' or rows[0].a[0] is not root or rows[0].a[1][1] is not cc or cc in rows[0].a[1][0].fv:
                return 'not a row operation: ' + show(t)[:200]
            x = rows[0].a[1][0]
            rest = list(m)
            rest.remove(rows[0])
            out.setdefault(x, {})
            out[x] = padd(out[x], {tuple(rest): k})
        if any(cc in x.fv for m in den for x in m):
            return 'the divisor depends on the column'
        self.cases.append((n.pc, {x: p for x, p in out.items() if p}, den))
        return None


def poly_term(p):
    r = ZR
    for m, k in p.items():
        t = ON
        for x in m:
            t = app('mul', t, x)
        for _ in range(abs(k)):
            r = app('add' if k > 0 else 'sub', r, t)
    return r


def combo(op_case, root, cc):
    """the new entry in column cc as a term"""
    pc, rows, den = op_case
    r = ZR
    for x, p in rows.items():
        r = app('add', r, app('mul', poly_term(p), raw('svsel', root, (x, cc))))
    return app('div', r, poly_term(den))


def instances(pc, d, init, args, acc, j):
    """what the path condition says about step j of a definition, with acc for the array before the step"""
    here = raw('rec', d, j, init, args)
    out = ()
    for x in lits(pc):
        if x.op == 'all':
            v, b = open1(x)
            if entails(pc + (le(ZERO, j),), TRUE):
                out += ((x.a[0], inst(x, j)),)
    return here, out


def swap_root(t, here, acc):
    """reads of `here` become reads of the array variable acc"""
    def f(n):
        return acc if n is here else n
    return replace(t, {here: acc})


def replace(t, m, memo=None):
    """replace whole subterms (not under a different binding)"""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ('c', 'iv', 'sv', 'true', 'false'):
        return t
    if t.op in terms.BINDERS and t.op != 'fold':
        v, b = open1(t)
        r = {'comp': comp, 'all': all_, 'any': any_, 'first': first, 'count': count, 'imax': terms.imax, 'seqloop': terms.seqloop}[t.op](
            replace(t.a[0], m, memo), v, replace(b, m, memo))
    elif t.op == 'fold':
        k, a, b = open_fold(t)
        r = fold(replace(t.a[0], m, memo), k, a, replace(t.a[2], m, memo), replace(b, m, memo))
    elif t.op == 'svsel':
        r = raw('svsel', replace(t.a[0], m, memo), tuple(replace(x, m, memo) for x in t.a[1]))
    else:
        def g(x):
            if isinstance(x, Node):
                return replace(x, m, memo)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return x
        na = tuple(g(x) for x in t.a)
        r = t if na == t.a else rebuild(t.op, na)
    memo[t] = r
    return r


class Elim:
    """an array rewritten step by step, opened at step j: M before the step, entry (r, c) after it"""

    def __init__(self, node, pre):
        self.d, self.k, self.init, self.args = node.a
        self.n = RECS[self.d].spec[1]
        self.j, self.r, self.cc = fresh_iv('j'), fresh_iv('r'), fresh_iv('c')
        self.M = fresh_sv('M', *RECS[self.d].acc.a[1:])
        self.here = raw('rec', self.d, self.j, self.init, self.args)
        j, r, cc = self.j, self.r, self.cc
        self.pc = tuple(pre) + (le(ZERO, j), lt(j, self.n), le(ZERO, r), lt(r, self.n), le(ZERO, cc), lt(cc, self.n))
        self.E = zeroes(elem(rec_step(self.d, j, self.M, self.args), r, cc))

    def at(self, leaf):
        """the path condition of the result, instantiated at step j"""
        out = ()
        for x in lits(leaf):
            if x.op == 'all' and entails(self.pc, lt(self.j, x.a[0])):
                out += tuple(lits((replace(zeroes(inst(x, self.j)), {self.here: self.M}),)))
        return out


def leaves(t, pc):
    """the top-level cases of a result"""
    t = simp(t, pc)
    if t.op == 'ite':
        for x, y in ((t.a[0], t.a[1]), (not_(t.a[0]), t.a[2])):
            if feasible(pc + (x,)):
                yield from leaves(y, pc + (x,))
    else:
        yield pc, t


def recs_in(t):
    out = []
    for x in subterms(t):
        if x.op == 'rec' and x not in out:
            out.append(x)
    return out


# ---------------------------------------------------------------- determinants
def expansion(R, S, t, pc):
    """None when t is the expansion along a row or column with this crate's cofactors"""
    A = S.args[0]
    n = dims(R, S)[0]
    if t.op != 'fold':
        return 'no sum'
    if t.a[2] is not ZR or not entails(pc, eq(t.a[0], n)):
        return 'not a sum over all rows'
    k, a, b = open_fold(t)
    pk = pc + (le(ZERO, k), lt(k, n))
    why = None
    for q in (ZERO, sub(n, ONE)):
        for rowwise in (False, True):
            i, j = (q, k) if rowwise else (k, q)
            e = app('mul', elem(A, i, j), cofactor(unref(A), i, j, n))
            b2 = named_minors(b, A, n, pk)
            w = equal(b2, app('add', a, e), pk)
            if w is None:
                return None
            why = why or w
    return why


def cofactor(A, i, j, n):
    return app('mul', ite(eq(imod(add(i, j), c(2)), ZERO), ON, app('neg', ON)), raw('app', 'minor', (i, j)))


def named_minors(t, A, n, pc):
    """determinants of matrices that are A without one row and column get a name; cofactor(A, (i, j)) is expanded"""
    def f(x):
        if x.op == 'app' and x.a[0] == 'cofactor' and unref(x.a[1][0]) is unref(A):
            ij = unref(x.a[1][1])
            return cofactor(A, field(ij, 0), field(ij, 1), n)
        if x.op == 'app' and x.a[0] == 'determinant':
            X = unref(x.a[1][0])
            w = which_minor(X, A, n, pc)
            if w is not None:
                return raw('app', 'minor', w)
        return x
    return map_nodes(t, f)


def which_minor(X, A, n, pc):
    """(i, j) such that X is A without row i and column j (or its transpose)"""
    a = arr(X)
    if a is None or not entails(pc, eq(alen(a), sub(n, ONE))):
        return None
    p, q = fresh_iv('p'), fresh_iv('q')
    e = elem(X, p, q)
    pq = pc + (le(ZERO, p), lt(p, sub(n, ONE)), le(ZERO, q), lt(q, sub(n, ONE)))
    cands = set()
    for x in subterms(e):
        # row and column numbers that the positions are compared with
        if x.op in ('le0', 'eq0', 'ne0'):
            for v in (p, q):
                l = terms.lin_of(x.a[0], v)
                if l is not None and abs(l[0]) == 1:
                    b = scale(l[1], -l[0])
                    for d in (-1, 0, 1):
                        cands.add((v, add(b, c(d))))
    rows = [b for v, b in cands if v is p] + [ZERO, sub(n, ONE)]
    cols = [b for v, b in cands if v is q] + [ZERO, sub(n, ONE)]
    for i in rows:
        if p in i.fv or q in i.fv:
            continue
        for j in cols:
            if p in j.fv or q in j.fv:
                continue
            if not entails(pc, and_(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n))):
                continue
            if equal(e, elem(A, ite(lt(p, i), p, add(p, ONE)), ite(lt(q, j), q, add(q, ONE))), pq) is None:
                return i, j
    return None


def elimination(R, S, t, pc):
    """None when t is the product of the diagonal of the matrix after determinant-preserving elimination"""
    A = S.args[0]
    n = dims(R, S)[0]
    if t.op != 'fold' or t.a[2] is not ON or not entails(pc, eq(t.a[0], n)):
        return 'no product over the diagonal'
    k, a, b = open_fold(t)
    pk = pc + (le(ZERO, k), lt(k, n))
    rs = recs_in(b)
    if len(rs) != 1:
        return 'no elimination'
    M = Elim(rs[0], S.pre)
    if k in rs[0].fv or not entails(pc, and_(le(sub(n, ONE), M.k), le(M.k, n))):
        return 'not the matrix after all steps'
    w = equal(b, app('mul', a, elem(rs[0], k, k)), pk)
    if w:
        return 'not the diagonal: ' + w
    r, cc, j = M.r, M.cc, M.j
    w = equal(elem(M.init, r, cc), elem(A, r, cc), M.pc)
    if w:
        return 'does not start from the matrix: ' + w
    cond = M.at(pc)
    base = M.pc + cond
    # columns left of j are zero below the diagonal
    def hyp(q, x):
        if x.a[0] is not M.M:
            return None
        u, v = x.a[1]
        z = and_(lt(v, j), lt(v, u))
        if entails(q, z):
            return 0
        if feasible(q + (z,)):
            raise Split(z)
        return None
    op = Op(M.M, M.E, r, cc, base + (lt(j, cc),), None)
    if op.why:
        return 'step: ' + op.why
    for q, rows, den in op.cases:
        if den != P1 and not all(len(m) for m in den):
            return 'denominator'
    q0 = base + (lt(j, cc),)
    drop = lambda q: tuple(x for x in q if cc not in x.fv)
    for q, rows, den in op.cases:
        qr = drop(q)
        # row r itself with factor one, plus multiples of the pivot row, which itself is unchanged
        own = [x for x in rows if entails(qr, eq(x, r))]
        other = [x for x in rows if x not in own]
        if len(own) != 1 or padd(rows[own[0]], den, -1):
            return 'a step scales or replaces a row'
        for x in other:
            if not entails(qr, eq(x, j)) or not entails(qr, ne(r, j)):
                return 'a step adds a row that changes itself'
        # the same operation describes every column
        full = base + tuple(x for x in qr if x not in base)
        w = equal(M.E, combo((q, rows, den), M.M, cc), full, hyp)
        if w:
            return 'not the same operation in every column: ' + w
    # the invariant: zero below the diagonal in columns up to and including j
    w = equal(M.E, ZR, base + (le(cc, j), lt(cc, r)), hyp)
    if w:
        return 'does not clear the column: ' + w
    return None


def c14(rep):
    got = 0
    for imp in impls('Determinant', 'Matrix'):
        fn = method(imp, 'determinant')
        if fn is None:
            continue
        got += 1
        guarded(rep, label(fn), lambda: determinant(rep, fn))
    need(rep, 'Determinant impls', got, 4)
    got = 0
    for imp in impls('Cofactor', 'Matrix'):
        fn = method(imp, 'cofactor')
        if fn is None:
            continue
        got += 1
        guarded(rep, label(fn), lambda: cofactors(rep, fn))
    need(rep, 'Cofactor impls', got, 3)


def analyse(fn, modular=()):
    k = ('alg', fn['id'])
    if k not in sem._runs:
        R = roots.Root(db(), fn, False)
        for f in modular:
            R.I.prims.override[f['id']] = (lambda nm: lambda st, ft, args, dt: R.I.prims.opaque_call(st, nm, args, dt))(f['n'])
        S = R.run(seconds=LIMIT[TIER[0]])
        sem._runs[k] = (R, S)
    return sem._runs[k]


def size(R, S):
    n = dims(R, S)[0]
    return n.a[0] if n.op == 'c' else None


def sound(rep, oid, R, S):
    if S.err or S.ret is None or S.state is None:
        rep.undecided(oid, 'not analysed: %s' % (S.err or 'no normal return'))
        return False
    return True


def determinant(rep, fn):
    oid = label(fn)
    others = [method(i, 'cofactor') for i in impls('Cofactor', 'Matrix')] if peel_size(fn) is None else []
    R, S = analyse(fn, [f for f in others if f is not None])
    if not sound(rep, oid, R, S):
        return
    n = size(R, S)
    A = S.args[0]
    why = None
    pre = tuple(S.pre)
    for x in S.state.pc:
        if x not in pre and not entails(pre, x):
            why = 'normal return needs ' + show(x)[:200]
    ret = zeroes(S.ret)
    if why is None and n is not None:
        try:
            why = equal(ret, leibniz(A, tuple(range(n)), tuple(range(n))), pre)
        except Stuck as e:
            why = str(e)
    elif why is None:
        for pc, t in leaves(ret, pre):
            try:
                w = expansion(R, S, t, pc)
                if w:
                    w2 = elimination(R, S, t, pc)
                    if w2:
                        why = '%s; %s' % (w, w2)
            except Stuck as e:
                why = str(e)
            if why:
                break
    if why is None:
        rep.proved(oid)
        return

    def bad(E, loc):
        a = mat(E.ev(A, loc))
        v = E.ev(S.ret, loc)
        if v != det(a):
            return 'matrix %s: derived value %s, determinant %s' % (showm(a), v, det(a))
        return None
    refute(rep, oid, R, S, bad, 'determinant', why)


def peel_size(fn):
    """size of the matrix type a method belongs to, when it is a number"""
    R = roots.Root(db(), fn, False)
    s = shape(R, R.t(fn['inputs'][0]))
    return s[0].a[0] if s and s[0].op == 'c' else None


def cofactors(rep, fn):
    oid = label(fn)
    R, S = analyse(fn)
    if not sound(rep, oid, R, S):
        return
    A = S.args[0]
    n = dims(R, S)[0]
    i, j = field(S.args[1], 0), field(S.args[1], 1)
    inb = and_(lt(i, n), lt(j, n))
    pre = tuple(S.pre)
    post = tuple(x for x in S.state.pc if x not in S.pre)
    compare(rep, oid + ' (panics outside the matrix)', R, S, [Item('returns', and_(*post), inb)], returns=False, fn=fn)
    pc = pre + (inb,) + post
    ret = zeroes(S.ret)
    why = None
    try:
        if n.op == 'c':
            for a in range(n.a[0]):
                for b in range(n.a[0]):
                    m = {i: c(a), j: c(b)}
                    rows = tuple(x for x in range(n.a[0]) if x != a)
                    cols = tuple(x for x in range(n.a[0]) if x != b)
                    e = leibniz(A, rows, cols)
                    if (a + b) % 2:
                        e = app('neg', e)
                    why = why or equal(simp(subst(ret, m), pre), e, pre)
        else:
            why = equal(named_minors(ret, A, n, pc), cofactor(A, i, j, n), pc)
    except Stuck as e:
        why = str(e)
    if why is None:
        rep.proved(oid + ' (value)')
        return

    def bad(E, loc):
        x, y = E.num(i, loc), E.num(j, loc)
        if not (x < E.num(n, loc) and y < E.num(n, loc)):
            return None
        a = mat(E.ev(A, loc))
        v = E.ev(S.ret, loc)
        if v != cof(a, x, y):
            return 'matrix %s at (%d, %d): derived value %s, cofactor %s' % (showm(a), x, y, v, cof(a, x, y))
        return None
    refute(rep, oid + ' (value)', R, S, bad, 'cofactor', why)


# ---------------------------------------------------------------- inverses
def c15(rep):
    got = 0
    for imp in impls('Inverse', 'Matrix'):
        fn = method(imp, 'inverse')
        if fn is None:
            continue
        got += 1
        guarded(rep, label(fn), lambda: inverse(rep, fn))
    need(rep, 'Inverse impls', got, 4)


def inverse(rep, fn):
    oid = label(fn)
    R, S = analyse(fn)
    if not sound(rep, oid, R, S):
        return
    A = S.args[0]
    n = size(R, S)
    pre = tuple(S.pre)
    why = None
    for x in S.state.pc:
        if x not in pre and not entails(pre, x):
            why = 'normal return needs ' + show(x)[:200]
    ret = zeroes(S.ret)
    some, none = False, ()
    if why is None:
        for pc, t in leaves(ret, pre):
            try:
                if t.op == 'adt' and t.a[0] == 'Option' and t.a[1] == 1:
                    w = small_some(A, t.a[2][0], n, pc) if n is not None else gauss(R, S, t.a[2][0], pc)
                    some = True
                elif t.op == 'adt' and t.a[0] == 'Option' and t.a[1] == 0:
                    w = small_none(A, n, pc) if n is not None else None
                    none = none + (pc,)
                else:
                    w = 'result not derived'
            except Stuck as e:
                w = str(e)
            if w:
                why = w
                break
        if why is None and not some:
            why = 'no inverse is ever returned'
        if why is None and n is None and none:
            try:
                for pc in none:
                    why = why or singular(R, S, ret, pc)
            except Stuck as e:
                why = str(e)
    st = S.init.get(('root', 'A'))
    oid2 = oid + ' (original unchanged)'
    if st is None or R.final(S, 'A') is simp(st, S.state.pc):
        rep.proved(oid2)
    else:
        rep.undecided(oid2, 'original may change')
    if why is None:
        rep.proved(oid)
        return

    def bad(E, loc):
        a = mat(E.ev(A, loc))
        v = E.ev(S.ret, loc)
        if not (isinstance(v, tuple) and v[0] == 'adt' and v[1] == 'Option'):
            return None
        d = det(a)
        if v[2] == 0:
            return None if d == 0 else 'matrix %s is invertible, nothing is returned' % showm(a)
        x = mat(v[3][0])
        if d == 0:
            return 'matrix %s is singular, %s is returned' % (showm(a), showm(x))
        p = [[sum(x[r][k] * a[k][cc] for k in range(len(a))) if Alg.NAN not in x[r] else Alg.NAN for cc in range(len(a))] for r in range(len(a))]
        if any(p[r][cc] != (r == cc) for r in range(len(a)) for cc in range(len(a))):
            return 'matrix %s: result %s, product with the original %s' % (showm(a), showm(x), showm(p))
        return None
    refute(rep, oid, R, S, bad, 'inverse', why)


def small_some(A, X, n, pc):
    for i in range(n):
        for j in range(n):
            e = ZR
            for k in range(n):
                e = app('add', e, app('mul', elem(X, c(i), c(k)), elem(A, c(k), c(j))))
            w = equal(e, ON if i == j else ZR, pc)
            if w:
                return 'entry (%d, %d) of the product: %s' % (i, j, w)
    return None


def small_none(A, n, pc):
    """nothing is returned only when the determinant vanishes"""
    d = leibniz(A, tuple(range(n)), tuple(range(n)))

    def f(nm, us):
        p, q = nm.rf(us[0])
        for x in lits(nm.pc):
            if x.op == 'b' and x.a[0].op == 'app' and x.a[0].a[0] == 'is_zero':
                m = Norm(tuple(y for y in pc if y not in lits(pc)))
                a, b = m.rf(x.a[0].a[1][0])
                p0, _ = m.rf(us[0])
                if multiple(p0, a):
                    return None
        return 'nothing is returned although the determinant may differ from zero' if p else None
    return over((d,), pc, None, f)


def gauss(R, S, X, pc):
    """None when X is the inverse by Gauss-Jordan elimination"""
    A = S.args[0]
    n = dims(R, S)[0]
    V = outer_rec(X, n)
    if V is None:
        return 'not an array rewritten step by step'
    V = Elim(V, S.pre)
    j, r, cc = V.j, V.r, V.cc
    if not entails(pc, eq(V.k, n)):
        return 'not all columns are eliminated'
    w = equal(elem(V.init, r, cc), ite(eq(r, cc), ON, ZR), V.pc)
    if w:
        return 'does not start from the identity: ' + w
    # the matrix that is eliminated along
    rs = [x for x in recs_in(V.E) if x.a[1] is j] + [x for l in lits(pc) if l.op == 'all' for x in recs_in(inst(l, j)) if x.a[1] is j]
    rs = [x for i, x in enumerate(rs) if x not in rs[:i]]
    if len(rs) != 1:
        return 'no matrix is eliminated along'
    W = Elim(rs[0], S.pre)
    m = {rs[0]: W.M, V.here: V.M}
    back = {W.j: j, W.r: r, W.cc: cc}
    VE = replace(V.E, m)
    WE = subst(replace(W.E, {W.here: W.M}), back)
    w = equal(subst(elem(W.init, W.r, W.cc), back), elem(A, r, cc), V.pc)
    if w:
        return 'does not start from the matrix: ' + w
    cond = ()
    for x in lits(pc):
        if x.op == 'all' and entails(V.pc, lt(j, x.a[0])):
            cond += tuple(lits((replace(zeroes(inst(x, j)), m),)))
    base = V.pc + cond

    def hyp(q, x):
        # columns left of j are those of the identity
        if x.a[0] is not W.M:
            return None
        u, v = x.a[1]
        z = lt(v, j)
        if entails(q, z):
            if entails(q, eq(u, v)):
                return 1
            if entails(q, ne(u, v)):
                return 0
            raise Split(eq(u, v))
        if feasible(q + (z,)):
            raise Split(z)
        return None
    op = Op(V.M, VE, r, cc, base, None)
    if op.why:
        return 'step: ' + op.why
    for q, rows, den in op.cases:
        qr = base + tuple(x for x in q if x not in base and cc not in x.fv)
        # the matrix goes through the same row operation
        w = equal(WE, combo((q, rows, den), W.M, cc), qr, hyp)
        if w:
            return 'the two arrays do not go through the same operation: ' + w
    w = equal(WE, ite(eq(r, cc), ON, ZR), base + (le(cc, j),), hyp)
    if w:
        return 'the column does not become that of the identity: ' + w
    S.gauss = (V, W, op, base, m)
    return None


def outer_rec(X, n):
    """the rec node behind a matrix value"""
    p, q = fresh_iv('p'), fresh_iv('q')
    e = elem(X, p, q)
    if e.op == 'svsel' and e.a[0].op == 'rec' and e.a[1] == (p, q):
        return e.a[0]
    return None


def singular(R, S, ret, pc):
    """None when nothing is returned only for singular matrices"""
    g = getattr(S, 'gauss', None)
    if g is None:
        return 'no elimination'
    V, W, op, base, m = g
    j, r, cc = V.j, V.r, V.cc
    n = V.n
    ls = [x for x in lits(pc) if x not in S.pre]
    anys = [x for x in ls if x.op == 'any']
    if len(anys) != 1 or len(ls) != 1:
        return 'nothing is returned in cases that are not those of a failing pivot search'
    x = anys[0]
    if not entails(V.pc, lt(j, x.a[0])) or not entails(tuple(S.pre), le(x.a[0], n)):
        return 'the failing step is not a step of the elimination'
    fail = replace(zeroes(inst(x, j)), m)
    row = fresh_iv('x')
    q = tuple(S.pre) + (le(ZERO, j), lt(j, n), le(j, row), lt(row, n))
    goal = replace(zeroes(pred(app('is_zero', raw('svsel', W.M, (row, j))))), {})
    ok = False
    for l in lits((fail,)):
        if l is goal or l.op == 'all' and entails(q, lt(sub(row, j), l.a[0])) and any(y is goal for y in lits((inst(l, sub(row, j)),))):
            ok = True
        if l.op == 'all' and entails(q, lt(row, l.a[0])) and any(y is goal for y in lits((simp(inst(l, row), q),))):
            ok = True
    if not ok:
        return 'a failing step does not mean that the rest of the column is zero'
    # every completed step is invertible: row j is a non-zero multiple of one row, every other row is a different
    # row minus a multiple of that one
    drop = [(tuple(y for y in q if cc not in y.fv), rows, den) for q, rows, den in op.cases]
    nrm = Norm(base)
    for q, rows, den in drop:
        if entails(q, eq(r, j)):
            if len(rows) != 1:
                return 'pivot row'
            p = list(rows.values())[0]
            if not Norm(q).nonzero(p):
                return 'the pivot row may be multiplied by zero'
        else:
            if not entails(q, ne(r, j)):
                return 'pivot row unclear'
    piv = [(q, list(rows)[0]) for q, rows, den in drop if entails(q, eq(r, j))]
    r2 = fresh_iv('r')
    maps = []
    for q, rows, den in drop:
        if entails(q, eq(r, j)):
            maps.append((q, list(rows)[0]))
            continue
        own = None
        for x, p in rows.items():
            ispiv = True
            for qp, xp in piv:
                qq = q + tuple(subst(y, {r: j}) for y in qp)
                if feasible(qq) and not entails(qq, eq(x, subst(xp, {r: j}))):
                    ispiv = False
            if ispiv:
                continue
            if own is not None or padd(p, den, -1):
                return 'row operation not recognised as invertible'
            own = x
        if own is None:
            return 'a row is lost'
        maps.append((q, own))
    for q1, x1 in maps:
        for q2, x2 in maps:
            m2 = {r: r2}
            if feasible(q1 + tuple(subst(y, m2) for y in q2) + (ne(r, r2), eq(x1, subst(x2, m2)))):
                return 'two rows may come from the same row'
    return None
