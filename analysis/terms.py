"""Hash-consed term language used as the value domain of the abstract interpreter.

Integers are polynomials over atoms, booleans are kept in negation normal form, arrays are
comprehensions, loops become closed forms or folds.  Everything is immutable."""
from math import gcd
import itertools, sys
sys.setrecursionlimit(20000)

EMPTY = frozenset()
_tab = {}
_ctr = itertools.count(1)
_fresh = itertools.count(1)

BINDERS = {'comp', 'all', 'any', 'fold', 'first', 'count', 'imax', 'seqloop', 'itseq'}


class Node:
    __slots__ = ('op', 'a', 'id', 'fv', 'h', 'top')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _children(a):
    for x in a:
        if isinstance(x, Node):
            yield x
        elif isinstance(x, tuple):
            yield from _children(x)


def raw(op, *a):
    k = (op, a)
    n = _tab.get(k)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.a = a
    n.id = next(_ctr)
    n.top = op == 'top'
    h = 0
    fv = set()
    if op in ('iv', 'sv'):
        fv.add(n)
    for c in _children(a):
        fv |= c.fv
        if c.h > h:
            h = c.h
        if c.top:
            n.top = True
    if op in BINDERS:
        h += 1
        for v in bvars(op, h):
            fv.discard(v)
    n.h = h
    n.fv = frozenset(fv) if fv else EMPTY
    _tab[k] = n
    return n


def bvars(op, h):
    if op == 'fold':
        return (iv('#%d' % h), raw('sv', '@%d' % h))
    return (iv('#%d' % h),)


def iv(name):
    return raw('iv', name)


def sv(name, *info):
    return raw('sv', name, *info)


def fresh_iv(p='k'):
    return iv('%s!%d' % (p, next(_fresh)))


def fresh_sv(p='s', *info):
    return raw('sv', '%s!%d' % (p, next(_fresh)), *info)


def fresh_name(p):
    return '%s!%d' % (p, next(_fresh))


TOP_CAUSES = []


def top(why='?'):
    return raw('top', why)


# ---------------------------------------------------------------- integers
def c(n):
    return raw('c', n)


ZERO = c(0)
ONE = c(1)


def pdict(n):
    """polynomial as dict monomial(tuple of atoms) -> coefficient"""
    if n.op == 'c':
        return {(): n.a[0]} if n.a[0] else {}
    if n.op == 'poly':
        return dict(n.a[0])
    return {(n,): 1}


def mkpoly(d):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, k), = d.items()
        if m == ():
            return c(k)
        if len(m) == 1 and k == 1:
            return m[0]
    return raw('poly', tuple(sorted(d.items(), key=lambda t: tuple(x.id for x in t[0]))))


def add(a, b):
    if a.top or b.top:
        return top('arith')
    if a.op == 'c' and b.op == 'c':
        return c(a.a[0] + b.a[0])
    d = pdict(a)
    for m, k in pdict(b).items():
        d[m] = d.get(m, 0) + k
    return mkpoly(d)


def scale(a, n):
    if a.top:
        return a
    return mkpoly({m: k * n for m, k in pdict(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.top or b.top:
        return top('arith')
    d = {}
    for m1, k1 in pdict(a).items():
        for m2, k2 in pdict(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + k1 * k2
    return mkpoly(d)


def cval(n):
    return n.a[0] if n.op == 'c' else None


def idiv(a, b):
    if a.top or b.top:
        return top('arith')
    if a.op == 'iapp' and a.a[0] == 'Shr' and b.op == 'c' and b.a[0] > 1 and b.a[0] & (b.a[0] - 1) == 0:
        return iapp('Shr', a.a[1][0], add(a.a[1][1], c(b.a[0].bit_length() - 1)))
    if b.op == 'c' and b.a[0] != 0:
        if a.op == 'c':
            return c(a.a[0] // b.a[0])
        d = pdict(a)
        if all(k % b.a[0] == 0 for k in d.values()):
            return mkpoly({m: k // b.a[0] for m, k in d.items()})
    d = pdict(a)
    if b.op not in ('c', 'poly') and d and all(b in m for m in d):
        # exact division by a symbolic (necessarily non-zero at run time) divisor
        r = {}
        for m, k in d.items():
            m = list(m)
            m.remove(b)
            r[tuple(m)] = k
        return mkpoly(r)
    if a.op == 'c' and a.a[0] == 0:
        return ZERO
    return raw('idiv', a, b)


def imod(a, b):
    if a.top or b.top:
        return top('arith')
    if a.op == 'c' and b.op == 'c' and b.a[0] != 0:
        return c(a.a[0] % b.a[0])
    if b.op == 'c' and b.a[0] != 0:
        # reduce coefficients
        d = {m: k % b.a[0] for m, k in pdict(a).items()}
        a = mkpoly(d)
        if a.op == 'c':
            return c(a.a[0] % b.a[0])
    else:
        q = idiv(a, b)
        if q.op != 'idiv':
            return sub(a, mul(q, b))
    return raw('imod', a, b)


# ---------------------------------------------------------------- booleans
TRUE = raw('true')
FALSE = raw('false')
BOOLOPS = {'true', 'false', 'le0', 'eq0', 'ne0', 'b', 'nb', 'and', 'or', 'all', 'any'}


def boolc(x):
    return TRUE if x else FALSE


def is_bool(n):
    return n.op in BOOLOPS


def _content(d):
    g = 0
    for m, k in d.items():
        if m != ():
            g = gcd(g, k)
    return g


def is_shift(d):
    """(sign, term) when the sum is one right shift and a constant"""
    if len(d) - (() in d) == 1:
        for m, k in d.items():
            if len(m) == 1 and m[0].op == 'iapp' and m[0].a[0] == 'Shr' and abs(k) == 1:
                return k, m[0]
    return None


def le0(p):
    if p.top:
        return raw('b', top('cmp'))
    if p.op == 'c':
        return boolc(p.a[0] <= 0)
    i = lift_ite(p)
    if i is not None:
        # keep comparisons on plain atoms: split the conditional
        return or_(and_(i[0], le0(i[1])), and_(not_(i[0]), le0(i[2])))
    d = pdict(p)
    g = _content(d)
    if g > 1:
        k0 = d.get((), 0)
        d = {m: k // g for m, k in d.items() if m != ()}
        # sum + k0/g <= 0  <=>  sum <= floor(-k0/g)
        fl = (-k0) // g
        if fl:
            d[()] = -fl
        p = mkpoly(d)
    sh = is_shift(d)
    if sh is not None:
        k, r = sh
        if k == -1 and d.get((), 0) == 1:
            return lt(r.a[1][1], iapp('bitlen', r.a[1][0]))
        if k == 1 and d.get((), 0) == 0:
            return le(iapp('bitlen', r.a[1][0]), r.a[1][1])
    for m, k in d.items():
        if len(m) == 1 and m[0].op == 'first' and abs(k) == 1:
            # whether the search succeeds
            f = m[0]
            if k == 1 and add(sub(p, f), f.a[0]) is ONE:
                return any_(f.a[0], *open1(f))
            if k == -1 and add(p, f) is f.a[0]:
                return not_(any_(f.a[0], *open1(f)))
    if all(k > 0 for m, k in d.items() if m != ()) and d.get((), 0) > 0 and all(nonneg_atom(x) for m in d for x in m):
        return FALSE
    if all(k < 0 for m, k in d.items() if m != ()) and d.get((), 0) <= 0 and all(nonneg_atom(x) for m in d for x in m):
        return TRUE
    return raw('le0', p)


def nonneg_atom(x):
    if x.op == 'iv':
        return not x.a[0].startswith('~')
    return x.op in ('iapp', 'idiv', 'imod', 'first', 'count', 'imax')


def lift_ite(p):
    """(condition, p when it holds, p otherwise) for a conditional inside a polynomial"""
    if p.op == 'ite':
        return p.a
    if p.op == 'poly':
        for m, k in p.a[0]:
            for x in m:
                if x.op == 'ite':
                    out = []
                    for v in x.a[1:]:
                        r = ZERO
                        for m2, k2 in p.a[0]:
                            t = c(k2)
                            for y in m2:
                                t = mul(t, v if y is x else y)
                            r = add(r, t)
                        out.append(r)
                    return x.a[0], out[0], out[1]
    return None


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def eq0(p):
    if p.top:
        return raw('b', top('cmp'))
    if p.op == 'c':
        return boolc(p.a[0] == 0)
    i = lift_ite(p)
    if i is not None:
        return or_(and_(i[0], eq0(i[1])), and_(not_(i[0]), eq0(i[2])))
    d = pdict(p)
    sh = is_shift(d)
    if sh is not None and d.get((), 0) == 0:
        return le(iapp('bitlen', sh[1].a[1][0]), sh[1].a[1][1])
    g = _content(d)
    k0 = d.get((), 0)
    if g > 1:
        if k0 % g:
            return FALSE
        d = {m: k // g for m, k in d.items()}
    lead = sorted(d.items(), key=lambda t: tuple(x.id for x in t[0]))
    first = [k for m, k in lead if m != ()][0]
    if first < 0:
        d = {m: -k for m, k in d.items()}
    return raw('eq0', mkpoly(d))


def eq(a, b):
    return eq0(sub(a, b))


def pred(n):
    """boolean from an uninterpreted term"""
    if is_bool(n):
        return n
    if n.op == 'ite':
        return or_(and_(n.a[0], pred(n.a[1])), and_(not_(n.a[0]), pred(n.a[2])))
    if n.op == 'c':
        return boolc(n.a[0] != 0)
    return raw('b', n)


_neg = {}


def not_(b):
    r = _neg.get(b)
    if r is None:
        r = _neg[b] = _not(b)
        if is_bool(b):
            _neg.setdefault(r, b)
    return r


def _not(b):
    o = b.op
    if o == 'true':
        return FALSE
    if o == 'false':
        return TRUE
    if o == 'le0':
        return le0(sub(ONE, b.a[0]))
    if o == 'eq0':
        return raw('ne0', b.a[0])
    if o == 'ne0':
        return raw('eq0', b.a[0])
    if o == 'b':
        return raw('nb', b.a[0])
    if o == 'nb':
        return raw('b', b.a[0])
    if o == 'and':
        return or_(*[not_(x) for x in b.a[0]])
    if o == 'or':
        return and_(*[not_(x) for x in b.a[0]])
    if o == 'all':
        return raw('any', b.a[0], not_(b.a[1]))
    if o == 'any':
        return raw('all', b.a[0], not_(b.a[1]))
    return not_(pred(b))


_lin = {}


def linkey(x):
    """(linear form without its constant, kind, bound) of an arithmetic literal: the form is at most /
    at least / equal to / different from the bound"""
    r = _lin.get(x)
    if r is None:
        d = dict(pdict(x.a[0]))
        k0 = d.pop((), 0)
        lead = min(d, key=lambda m: tuple(y.id for y in m))
        if d[lead] < 0:
            key = mkpoly({m: -k for m, k in d.items()})
            r = (key, 'ge' if x.op == 'le0' else x.op, k0)
        else:
            r = (mkpoly(d), 'le' if x.op == 'le0' else x.op, -k0)
        _lin[x] = r
    return r


def ranges(s):
    """merges the literals of a conjunction that bound the same linear form; None if they contradict"""
    groups = {}
    for x in s:
        if x.op in ('le0', 'eq0', 'ne0'):
            k = linkey(x)
            groups.setdefault(k[0], []).append((x, k[1], k[2]))
    for key, g in groups.items():
        if len(g) < 2:
            continue
        lo = hi = None
        if all(k > 0 for m, k in pdict(key).items()) and all(nonneg_atom(y) for m in pdict(key) for y in m):
            lo = 0
        base = lo
        holes = set()
        for x, kind, v in g:
            if kind in ('le', 'eq0'):
                hi = v if hi is None else min(hi, v)
            if kind in ('ge', 'eq0'):
                lo = v if lo is None else max(lo, v)
            if kind == 'ne0':
                holes.add(v)
        while lo is not None and lo in holes:
            lo += 1
        while hi is not None and hi in holes:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return None
        new = set()
        if lo is not None and lo == hi:
            new.add(eq0(sub(key, c(lo))))
        else:
            if lo is not None and lo != base:
                new.add(le0(sub(c(lo), key)))
            if hi is not None:
                new.add(le0(sub(key, c(hi))))
            for v in holes:
                if (lo is None or v > lo) and (hi is None or v < hi):
                    new.add(_not(eq0(sub(key, c(v)))))
        new.discard(TRUE)
        old = {x for x, _, _ in g}
        if new != old:
            s = (set(s) - old) | new
    return s


def and_(*xs):
    s = set()
    for x in xs:
        if not is_bool(x):
            x = pred(x)
        if x.op == 'false':
            return FALSE
        if x.op == 'true':
            continue
        if x.op == 'and':
            s.update(x.a[0])
        else:
            s.add(x)
    if not s:
        return TRUE
    for x in s:
        if not_(x) in s:
            return FALSE
    s = ranges(s)
    if s is None:
        return FALSE
    if not s:
        return TRUE
    # absorption with disjunctions
    out = set(s)
    for x in s:
        if x.op == 'or':
            if any(y in s for y in x.a[0]):
                out.discard(x)
            else:
                rest = [y for y in x.a[0] if not_(y) not in s]
                if len(rest) < len(x.a[0]):
                    out.discard(x)
                    return and_(*(out | {or_(*rest)}))
    if len(out) == 1:
        return next(iter(out))
    return raw('and', tuple(sorted(out)))


def or_(*xs):
    s = set()
    for x in xs:
        if not is_bool(x):
            x = pred(x)
        if x.op == 'true':
            return TRUE
        if x.op == 'false':
            continue
        if x.op == 'or':
            s.update(x.a[0])
        else:
            s.add(x)
    if not s:
        return FALSE
    for x in s:
        if not_(x) in s:
            return TRUE
    ar = {x for x in s if x.op in ('le0', 'eq0', 'ne0')}
    if len(ar) > 1:
        r = ranges({not_(x) for x in ar})
        if r is None:
            return TRUE
        r = {not_(x) for x in r}
        if r != ar:
            s = (s - ar) | r
            if not s:
                return FALSE
    out = set(s)
    for x in s:
        if x.op == 'and':
            if any(y in s for y in x.a[0]):
                out.discard(x)
            else:
                rest = [y for y in x.a[0] if not_(y) not in s]
                if len(rest) < len(x.a[0]):
                    out.discard(x)
                    return or_(*(out | {and_(*rest)}))
    if len(out) == 1:
        return next(iter(out))
    # two conjunctions that differ in one literal each, which together cover more
    lists = [set(x.a[0]) if x.op == 'and' else {x} for x in sorted(out)]
    if 2 <= len(lists) <= 8:
        for i in range(len(lists)):
            for j in range(i):
                cm = lists[i] & lists[j]
                if cm and len(lists[i]) == len(cm) + 1 == len(lists[j]):
                    (x,), (y,) = lists[i] - cm, lists[j] - cm
                    if x.op in ('le0', 'eq0', 'ne0') and y.op in ('le0', 'eq0', 'ne0') and \
                            linkey(x)[0] is linkey(y)[0]:
                        r = or_(x, y)
                        if r.op != 'or':
                            return or_(and_(r, *cm), *[and_(*l) for n, l in enumerate(lists) if n not in (i, j)])
    # factor common conjuncts
    common = set.intersection(*lists)
    if common:
        return and_(*common, or_(*[and_(*(l - common)) for l in lists]))
    return raw('or', tuple(sorted(out)))


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- structured values
def adt(name, variant, *fields):
    return raw('adt', name, variant, tuple(fields))


def tup(*fields):
    return raw('adt', '()', 0, tuple(fields))


UNIT = tup()
MOVED = raw('moved')
UNINIT = raw('uninit')


def vref(v, place=None):
    if v.op == 'deref' and place is None:
        return v.a[0]
    return raw('vref', v, place)


def mref(alloc, projs):
    return raw('mref', alloc, projs)


def ite(cnd, a, b):
    if not is_bool(cnd):
        cnd = pred(cnd)
    if cnd.op == 'true':
        return a
    if cnd.op == 'false':
        return b
    if a is b:
        return a
    if cnd.top:
        return top('ite on unknown')
    # no values, no maximum
    if b is ZERO and a.op == 'imax' and cnd is le(ONE, a.a[0]):
        return a
    if a is ZERO and b.op == 'imax' and cnd is le(b.a[0], ZERO):
        return b
    if cnd.op in ('eq0', 'ne0') or cnd.op == 'le0' and cnd.a[0].op == 'iv' and nonneg_atom(cnd.a[0]):
        # the equation makes one branch a case of the other
        for m, k in pdict(cnd.a[0]).items():
            if len(m) == 1 and m[0].op == 'iv' and abs(k) == 1:
                x, y = (a, b) if cnd.op != 'ne0' else (b, a)
                if m[0] in y.fv and not y.top:
                    l = lin_of(cnd.a[0], m[0])
                    if l is not None and subst(y, {m[0]: scale(l[1], -l[0])}) is x:
                        return y
    if is_bool(a) and is_bool(b):
        return or_(and_(cnd, a), and_(not_(cnd), b))
    if cnd.op in ('ne0', 'nb', 'any') or (cnd.op == 'or' and not any(x.op == 'b' for x in cnd.a[0])):
        return ite(not_(cnd), b, a)
    if a.op == 'adt' and b.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
        return raw('adt', a.a[0], a.a[1], tuple(ite(cnd, x, y) for x, y in zip(a.a[2], b.a[2])))
    if a.op == 'vref' and b.op == 'vref':
        return vref(ite(cnd, a.a[0], b.a[0]), a.a[1] if a.a[1] == b.a[1] else None)
    if a.op == 'mref' and b.op == 'mref' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and \
            all(x[0] == y[0] and (x[0] == 'i' or x == y) for x, y in zip(a.a[1], b.a[1])):
        return mref(a.a[0], tuple(('i', ite(cnd, x[1], y[1])) if x[0] == 'i' else x for x, y in zip(a.a[1], b.a[1])))
    # arrays are kept apart by element
    la, lb = alen(a), alen(b)
    if la is not None and lb is not None and la is lb:
        return comp_f(la, lambda k: ite(cnd, sel(a, k), sel(b, k)))
    # nested conditionals on the same condition
    if a.op == 'ite' and a.a[0] is cnd:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is cnd:
        b = b.a[2]
    if a is b:
        return a
    if b.op == 'ite' and b.a[1] is a:
        return ite(or_(cnd, b.a[0]), a, b.a[2])
    if b.op == 'ite' and b.a[2] is a:
        return ite(and_(not_(cnd), b.a[0]), b.a[1], a)
    if a.op == 'ite' and a.a[2] is b:
        return ite(and_(cnd, a.a[0]), a.a[1], b)
    if a.op == 'ite' and a.a[1] is b:
        return ite(and_(cnd, not_(a.a[0])), a.a[2], b)
    return raw('ite', cnd, a, b)


def alen(a):
    """length node when the term is an array value, else None"""
    if a.op == 'comp':
        return a.a[0]
    if a.op == 'list':
        return c(len(a.a[0]))
    if a.op == 'inarr':
        return a.a[1]
    if a.op == 'sv' and len(a.a) > 2 and a.a[1] == 'arr':
        return a.a[2]
    if a.op == 'rec':
        # an array rewritten step by step
        return RECS[a.a[0]].spec[1]
    return None


class Rec:
    """definition of an array rewritten step by step: acc_0 = init, acc_{k+1} = step(k, acc_k, params).
    The step lives here and not in the term, so that rewriting a term does not rewrite its steps"""
    __slots__ = ('j', 'acc', 'params', 'step', 'spec')


RECS = []
_recs = {}


def rec(k, j, acc, init, step, spec):
    """the array after k rewriting steps; spec: ('arr', length, element spec)"""
    if step.top or init.top:
        return step if step.top else init
    if step is acc:
        return init
    fixed = spec_fv(spec)
    ps = sorted((v for v in step.fv if v is not j and v is not acc and v not in fixed), key=lambda v: v.id)
    m = {j: iv('#rk'), acc: raw('sv', '@ra', *acc.a[1:])}
    for i, v in enumerate(ps):
        m[v] = iv('#rp%d' % i) if v.op == 'iv' else raw('sv', '@rp%d' % i, *v.a[1:])
    key = (subst(step, m), spec)
    if key not in _recs:
        d = Rec()
        d.j, d.acc, d.params, d.step, d.spec = m[j], m[acc], tuple(m[v] for v in ps), key[0], spec
        _recs[key] = len(RECS)
        RECS.append(d)
    return mkrec(_recs[key], k, init, tuple(ps))


def mkrec(d, k, init, args):
    if init.top:
        return init
    if k.op == 'c' and k.a[0] <= 4:
        v = init
        for i in range(k.a[0]):
            v = rec_step(d, c(i), v, args)
        return v
    return raw('rec', d, k, init, args)


def rec_step(d, k, acc, args):
    """one rewriting step of a definition"""
    r = RECS[d]
    m = dict(zip(r.params, args))
    m[r.j] = k
    m[r.acc] = acc
    return subst(r.step, m)


def spec_fv(x):
    if isinstance(x, Node):
        return set(x.fv)
    r = set()
    if isinstance(x, tuple):
        for y in x:
            r |= spec_fv(y)
    return r


def elem_spec(a, depth=0):
    """spec of an array's elements (see build_elem)"""
    e = sel(a, fresh_iv())
    return val_spec(e, depth)


def val_spec(e, depth=0):
    if depth > 4:
        return ('T',)
    n = alen(e)
    if n is None and e.op == 'svarr':
        return ('arr', e.a[2], e.a[3])
    if n is not None:
        return ('arr', n, elem_spec(e, depth + 1))
    if e.op == 'adt' and len(e.a[2]) >= 1 and e.a[1] == 0 and e.a[0] not in ('Option', 'Result', 'Ordering'):
        return ('adt', e.a[0], tuple(val_spec(x, depth + 1) for x in e.a[2]))
    if e.op == 'ite' and e.a[1].op not in ('moved', 'uninit'):
        return val_spec(e.a[1], depth + 1)
    if e.op == 'ite':
        return val_spec(e.a[2], depth + 1)
    return ('T',)


def arrlist(xs):
    return raw('list', tuple(xs))


def close1(op, n, var, body):
    h = max(n.h, body.h) + 1
    cv = iv('#%d' % h)
    return raw(op, n, subst(body, {var: cv}))


def open1(node):
    """returns (fresh var, body) of a one-variable binder"""
    v = fresh_iv()
    return v, subst(node.a[1], {iv('#%d' % node.h): v})


def inst(node, idx):
    return subst(node.a[1], {iv('#%d' % node.h): idx})


def comp(n, var, body):
    if body.op == 'sel' and body.a[1] is var and var not in body.a[0].fv and alen(body.a[0]) is n:
        return body.a[0]
    if body.op == 'in' and body.a[1] and body.a[1][-1] is var and not any(var in x.fv for x in body.a[1][:-1]):
        base = INARR.get((body.a[0], body.a[1][:-1]))
        if base is not None and base.a[1] is n:
            return base
    if body.op == 'adt' and len(body.a[2]) == 1 and body.a[2][0].op == 'inarr':
        ia = body.a[2][0]
        if ia.a[3] and ia.a[3][-1] is var:
            base = INARR.get((ia.a[0], ia.a[3][:-1]))
            if base is not None and base.a[1] is n and sel(base, var) is body:
                return base
    if body.op == 'top':
        return body
    if n.op == 'c' and 0 <= n.a[0] <= 4:
        return arrlist([subst(body, {var: c(i)}) for i in range(n.a[0])])
    return close1('comp', n, var, body)


def comp_f(n, f):
    v = fresh_iv()
    return comp(n, v, f(v))


INARR = {}


def inarr(name, n, elem, idxs=()):
    """symbolic input array: elem = None for opaque elements, or a function spec (tuple)"""
    r = raw('inarr', name, n, elem, idxs)
    INARR[(name, idxs)] = r
    return r


def build_elem(name, spec, idxs):
    # spec: ('T',) opaque | ('int',) | ('adt', adtname, (fieldspecs)) | ('arr', len, spec)
    k = spec[0]
    if k == 'T' or k == 'int':
        return raw('in', name, idxs)
    if k == 'arr':
        return inarr(name, spec[1], spec[2], idxs)
    if k == 'adt':
        return raw('adt', spec[1], 0, tuple(build_elem(name + ('' if len(spec[2]) == 1 else '.%d' % i), s, idxs) for i, s in enumerate(spec[2])))
    raise Exception(spec)


def sel(a, i):
    o = a.op
    if o == 'comp':
        return inst(a, i)
    if o == 'list':
        xs = a.a[0]
        if i.op == 'c':
            if 0 <= i.a[0] < len(xs):
                return xs[i.a[0]]
            return top('list index out of range')
        if not xs:
            return raw('oob')
        r = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            r = ite(eq(i, c(j)), xs[j], r)
        return r
    if o == 'inarr':
        return build_elem(a.a[0], a.a[2], a.a[3] + (i,))
    if o == 'ite':
        return ite(a.a[0], sel(a.a[1], i), sel(a.a[2], i))
    if o == 'top':
        return a
    if o == 'uninit' or o == 'moved':
        return a
    if o == 'sv' and len(a.a) > 3 and a.a[1] == 'arr' and a.a[3] is not None:
        # havocked array with structured elements
        return svelem(a.a[0], a.a[3], (i,), a)
    if o == 'svarr':
        return svelem(a.a[1], a.a[3], a.a[4] + (i,), a.a[0])
    if o == 'rec':
        return svelem('rec', RECS[a.a[0]].spec[2], (i,), a)
    return raw('sel', a, i)


def svelem(name, spec, idxs, root):
    if spec[0] == 'arr':
        return raw('svarr', root, name, spec[1], spec[2], idxs)
    if spec[0] == 'adt':
        return raw('adt', spec[1], 0, tuple(svelem(name, s, idxs, root) for s in spec[2]))
    return raw('svsel', root, idxs)


def store(a, i, v):
    if a.top:
        return a
    n = alen(a)
    if n is None and a.op == 'svarr':
        n = a.a[2]
    if a.op == 'list' and i.op == 'c' and 0 <= i.a[0] < len(a.a[0]):
        xs = list(a.a[0])
        xs[i.a[0]] = v
        return arrlist(xs)
    if a.op == 'list':
        return arrlist([ite(eq(i, c(j)), v, x) for j, x in enumerate(a.a[0])])
    if n is None:
        if a.op == 'ite':
            return ite(a.a[0], store(a.a[1], i, v), store(a.a[2], i, v))
        return top('store into non-array')
    k = fresh_iv()
    return comp(n, k, ite(eq(k, i), v, sel(a, k)))


def field(v, i, variant=None):
    o = v.op
    if o == 'adt':
        if variant is not None and variant != v.a[1]:
            return raw('wrongvariant')
        if i < len(v.a[2]):
            return v.a[2][i]
        return top('field')
    if o == 'ite':
        x = field(v.a[1], i, variant)
        y = field(v.a[2], i, variant)
        if x.op == 'wrongvariant':
            return y
        if y.op == 'wrongvariant':
            return x
        return ite(v.a[0], x, y)
    if o in ('top', 'uninit', 'moved', 'wrongvariant'):
        return v
    return raw('fld', v, i, variant)


def deref(v):
    if v.op == 'vref':
        return v.a[0]
    if v.op == 'ite':
        return ite(v.a[0], deref(v.a[1]), deref(v.a[2]))
    if v.op in ('top',):
        return v
    return raw('deref', v)


def discr(v):
    """discriminant value (index based, see interp for Ordering)"""
    if v.op == 'adt':
        return c(v.a[1])
    if v.op == 'ite':
        return ite(v.a[0], discr(v.a[1]), discr(v.a[2]))
    if v.op == 'top':
        return v
    if v.op == 'app' and v.a[0] == 'cmp' and v.a[1][0].id > v.a[1][1].id:
        # antisymmetry of the ordering
        return neg(raw('discr', app('cmp', v.a[1][1], v.a[1][0])))
    return raw('discr', v)


def app(f, *args):
    for x in args:
        if isinstance(x, Node) and x.top:
            return top('arg of ' + f)
    if f == 'cmp' and args[0] is args[1]:
        return adt('Ordering', 0)
    return raw('app', f, tuple(args))


def iapp(f, *args):
    for x in args:
        if isinstance(x, Node) and x.top:
            return top('arg of ' + f)
    if f == 'Shr':
        a, b = args
        if b.op == 'c':
            return idiv(a, c(2 ** b.a[0])) if b.a[0] < 64 else ZERO
        if a.op == 'c' and a.a[0] == 0:
            return ZERO
        if a.op == 'iapp' and a.a[0] == 'Shr':
            return iapp('Shr', a.a[1][0], add(a.a[1][1], b))
    if f in ('strlen', 'strwidth') and args[0].op == 'ite':
        return ite(args[0].a[0], iapp(f, args[0].a[1]), iapp(f, args[0].a[2]))
    if f == 'strlen' and args[0].op == 'str' and isinstance(args[0].a[0], str):
        return c(len(args[0].a[0].encode()))
    if f == 'strwidth' and args[0].op == 'str' and isinstance(args[0].a[0], str) and all(' ' <= ch <= '~' for ch in args[0].a[0]):
        return c(len(args[0].a[0]))
    if f == 'bitlen' and args[0].op == 'c':
        return c(args[0].a[0].bit_length())
    return raw('iapp', f, tuple(args))


# ---------------------------------------------------------------- quantifiers, folds
def all_(n, var, body):
    if body.op == 'true' or body.op == 'false':
        return or_(body, le(n, ZERO))
    if n.op == 'c':
        if n.a[0] <= 4:
            return and_(*[subst(body, {var: c(i)}) for i in range(n.a[0])])
    if var not in body.fv:
        return or_(le(n, ZERO), body)
    if body.op == 'and':
        return and_(*[all_(n, var, x) for x in body.a[0]])
    if body.op == 'or':
        inv = [x for x in body.a[0] if var not in x.fv]
        if inv:
            return or_(*inv, all_(n, var, or_(*[x for x in body.a[0] if var in x.fv])))
    for x in body.a[0] if body.op == 'or' else (body,):
        if x.op == 'ne0':
            # only one index is concerned
            l = lin_of(x.a[0], var)
            if l is not None and abs(l[0]) == 1:
                e = scale(l[1], -l[0])
                return or_(lt(e, ZERO), le(n, e), subst(body, {var: e}))
    if body.op == 'le0':
        l = lin_of(body.a[0], var)
        if l is not None:
            # the worst index is at one of the ends
            return or_(le(n, ZERO), subst(body, {var: sub(n, ONE) if l[0] > 0 else ZERO}))
    return close1('all', n, var, body)


def lin_of(p, k):
    """(a, r) with p = a*k + r, a a nonzero integer and r free of k"""
    a, r = 0, {}
    for m, x in pdict(p).items():
        if m == (k,):
            a = x
        elif any(k in y.fv for y in m):
            return None
        else:
            r[m] = x
    return (a, mkpoly(r)) if a else None


def any_(n, var, body):
    return not_(all_(n, var, not_(body)))


def all_f(n, f):
    v = fresh_iv()
    return all_(n, v, f(v))


def any_f(n, f):
    v = fresh_iv()
    return any_(n, v, f(v))


def fold(n, k, acc, init, body):
    """acc_0 = init, acc_{k+1} = body(k, acc_k); value acc_n"""
    if n.op == 'c' and n.a[0] <= 0:
        return init
    if body is acc:
        return init
    if body.top:
        return body
    if init.top:
        return init
    if acc not in body.fv:
        # last value wins
        return ite(le(n, ZERO), init, subst(body, {k: sub(n, ONE)}))
    if n.op == 'c' and n.a[0] <= 8:
        v = init
        for i in range(n.a[0]):
            v = subst(body, {k: c(i), acc: v})
        return v
    h = max(n.h, init.h, body.h) + 1
    kv, av = bvars('fold', h)
    b = subst(body, {k: kv, acc: av})
    return raw('fold', n, b, init)


def open_fold(f):
    kv, av = bvars('fold', f.h)
    k = fresh_iv()
    a = fresh_sv('acc')
    return k, a, subst(f.a[1], {kv: k, av: a})


def first(n, var, body):
    """least index < n with body (n when there is none)"""
    if body.op == 'true':
        return ZERO
    if body.op == 'false':
        return n
    return close1('first', n, var, body)


def nonneg(p):
    return all(k >= 0 and all(nonneg_atom(x) for x in m) for m, k in pdict(p).items())


def upto(n):
    return n if nonneg(n) else ite(le(n, ZERO), ZERO, n)


def count(n, var, body):
    """number of indices < n satisfying body"""
    if body.op == 'true':
        return upto(n)
    if body.op == 'false':
        return ZERO
    if var not in body.fv:
        return ite(body, upto(n), ZERO)
    if body.op == 'ne0':
        return sub(upto(n), count(n, var, not_(body)))
    if body.op in ('eq0', 'le0'):
        l = lin_of(body.a[0], var)
        if l is not None and abs(l[0]) == 1:
            e = scale(l[1], -l[0])
            if body.op == 'eq0':
                return ite(and_(le(ZERO, e), lt(e, n)), ONE, ZERO)
            m = upto(n)
            if l[0] == -1:
                return sub(m, count(n, var, not_(body)))
            return ite(lt(e, ZERO), ZERO, ite(lt(e, m), add(e, ONE), m))
    if body.op == 'and':
        e = pinned(body, var)
        if e is not None:
            return ite(and_(le(ZERO, e), lt(e, n), subst(body, {var: e})), ONE, ZERO)
        inv = [x for x in body.a[0] if var not in x.fv]
        if inv:
            return ite(and_(*inv), count(n, var, and_(*[x for x in body.a[0] if var in x.fv])), ZERO)
    if body.op == 'or':
        for x in body.a[0]:
            if pinned(x, var) is not None:
                rest = or_(*[y for y in body.a[0] if y is not x])
                return sub(add(count(n, var, x), count(n, var, rest)), count(n, var, and_(x, rest)))
    return close1('count', n, var, body)


def imax(n, var, body):
    """the largest of the (non-negative) values body(0) .. body(n-1), zero when there are none"""
    if body is ZERO or n is ZERO or n.op == 'c' and n.a[0] <= 0:
        return ZERO
    if body.top:
        return body
    if n is ONE:
        return subst(body, {var: ZERO})
    if var not in body.fv:
        return ite(le(ONE, n), body, ZERO)
    if body.op == 'ite' and var not in body.a[0].fv:
        return ite(body.a[0], imax(n, var, body.a[1]), imax(n, var, body.a[2]))
    return close1('imax', n, var, body)


def pinned(body, var):
    """the only value of var that can satisfy the condition, when an equation fixes it"""
    for x in body.a[0] if body.op == 'and' else (body,):
        if x.op == 'eq0':
            l = lin_of(x.a[0], var)
            if l is not None and abs(l[0]) == 1:
                return scale(l[1], -l[0])
    return None


# event sequences
NIL = raw('seq', ())


def seq(*xs):
    out = []
    for x in xs:
        if x.op == 'seq':
            out.extend(x.a[0])
        elif x.op == 'seqloop' and x.a[1] is NIL:
            continue
        else:
            out.append(x)
    return raw('seq', tuple(out))


def seqloop(n, var, body):
    if body is NIL:
        return NIL
    if n.op == 'c' and n.a[0] <= 4:
        return seq(*[subst(body, {var: c(i)}) for i in range(n.a[0])])
    return close1('seqloop', n, var, body)


# ---------------------------------------------------------------- substitution
def rebuild(op, a):
    if op == 'poly':
        r = ZERO
        for m, k in a[0]:
            t = c(k)
            for x in m:
                t = mul(t, x)
            r = add(r, t)
        return r
    f = _CTORS.get(op)
    if f:
        return f(*a)
    return raw(op, *a)


_CTORS = {
    'le0': le0, 'eq0': eq0, 'ne0': lambda p: not_(eq0(p)), 'b': pred, 'nb': lambda p: not_(pred(p)),
    'and': lambda xs: and_(*xs), 'or': lambda xs: or_(*xs), 'ite': ite, 'sel': sel, 'fld': field,
    'deref': deref, 'discr': discr, 'idiv': idiv, 'imod': imod, 'vref': vref,
    'app': lambda f, xs: app(f, *xs), 'iapp': lambda f, xs: iapp(f, *xs),
    'seq': lambda xs: seq(*xs),
    'inarr': inarr, 'list': arrlist, 'rec': mkrec,
}


def subst(n, m):
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return n
    return _subst(n, m, {})


def _subst(n, m, memo):
    if not n.fv or not any(k in n.fv for k in m):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    o = n.op
    if o in ('iv', 'sv'):
        r = m.get(n, n)
    elif o in BINDERS:
        if o == 'fold':
            k, a, b = open_fold(n)
            r = fold(_subst(n.a[0], m, memo), k, a, _subst(n.a[2], m, memo), _subst(b, m, {}))
        else:
            v, b = open1(n)
            b = _subst(b, m, {})
            nn = _subst(n.a[0], m, memo)
            r = {'comp': comp, 'all': all_, 'any': any_, 'first': first, 'count': count, 'imax': imax, 'seqloop': seqloop}[o](nn, v, b)
    elif o == 'svsel':
        root = _subst(n.a[0], m, memo)
        idx = tuple(_subst(x, m, memo) for x in n.a[1])
        if root is n.a[0] or root.op in ('sv', 'rec'):
            r = raw('svsel', root, idx)
        else:
            r = root
            for x in idx:
                while r.op == 'adt':
                    r = r.a[2][0]
                r = sel(r, x)
                while r.op == 'adt' and len(r.a[2]) == 1 and alen(r.a[2][0]) is not None:
                    r = r.a[2][0]
    elif o == 'svarr':
        root = _subst(n.a[0], m, memo)
        idx = tuple(_subst(x, m, memo) for x in n.a[4])
        if root.op in ('sv', 'rec'):
            r = raw('svarr', root, root.a[0] if root.op == 'sv' else 'rec', _subst(n.a[2], m, memo), _sub_any(n.a[3], m, memo), idx)
        else:
            r = root
            for x in idx:
                r = sel(r, x)
                while r.op == 'adt':
                    r = r.a[2][0]
    else:
        r = rebuild(o, _sub_any(n.a, m, memo))
    memo[n] = r
    return r


def _sub_any(x, m, memo):
    if isinstance(x, Node):
        return _subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_sub_any(y, m, memo) for y in x)
    return x


def contains(n, pred_, memo=None):
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    memo[n] = False
    r = pred_(n) or any(contains(x, pred_, memo) for x in _children(n.a))
    memo[n] = r
    return r


def subterms(n, seen=None):
    if seen is None:
        seen = set()
    if n in seen:
        return
    seen.add(n)
    yield n
    for x in _children(n.a):
        yield from subterms(x, seen)


def map_nodes(n, f, memo=None):
    """bottom-up rewriting (binders are opened)"""
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    o = n.op
    if o in BINDERS:
        if o == 'fold':
            k, a, b = open_fold(n)
            r = fold(map_nodes(n.a[0], f, memo), k, a, map_nodes(n.a[2], f, memo), map_nodes(b, f, memo))
        else:
            v, b = open1(n)
            r = {'comp': comp, 'all': all_, 'any': any_, 'first': first, 'count': count, 'imax': imax, 'seqloop': seqloop}[o](
                map_nodes(n.a[0], f, memo), v, map_nodes(b, f, memo))
    else:
        def g(x):
            if isinstance(x, Node):
                return map_nodes(x, f, memo)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return x
        na = g(n.a)
        r = n if na == n.a else rebuild(o, na)
    r = f(r)
    memo[n] = r
    return r


# ---------------------------------------------------------------- printing
def show(n, d=0):
    if d > 14:
        return '…'
    o = n.op
    s = lambda x: show(x, d + 1)
    if o == 'c':
        return str(n.a[0])
    if o in ('iv', 'sv'):
        return n.a[0]
    if o == 'poly':
        out = []
        for m, k in n.a[0]:
            t = '*'.join(s(x) for x in m)
            if not m:
                out.append('%+d' % k)
            elif k == 1:
                out.append('+' + t)
            elif k == -1:
                out.append('-' + t)
            else:
                out.append('%+d*%s' % (k, t))
        r = ''.join(out)
        return '(' + (r[1:] if r[0] == '+' else r) + ')'
    if o in ('le0', 'eq0', 'ne0'):
        return '%s%s0' % (s(n.a[0]), {'le0': '<=', 'eq0': '==', 'ne0': '!='}[o])
    if o == 'b':
        return s(n.a[0])
    if o == 'nb':
        return '!' + s(n.a[0])
    if o == 'and':
        return '(' + ' & '.join(s(x) for x in n.a[0]) + ')'
    if o == 'or':
        return '(' + ' | '.join(s(x) for x in n.a[0]) + ')'
    if o == 'ite':
        return 'if %s {%s} else {%s}' % (s(n.a[0]), s(n.a[1]), s(n.a[2]))
    if o == 'comp':
        return '[#%d<%s: %s]' % (n.h, s(n.a[0]), s(n.a[1]))
    if o in ('all', 'any', 'first', 'count', 'imax', 'seqloop'):
        return '%s(#%d<%s: %s)' % (o, n.h, s(n.a[0]), s(n.a[1]))
    if o == 'fold':
        return 'fold(#%d<%s, @%d from %s: %s)' % (n.h, s(n.a[0]), n.h, s(n.a[2]), s(n.a[1]))
    if o == 'inarr':
        return '%s%s' % (n.a[0], ''.join('[%s]' % s(x) for x in n.a[3]))
    if o == 'in':
        return '%s%s' % (n.a[0], ''.join('[%s]' % s(x) for x in n.a[1]))
    if o == 'sel':
        return '%s[%s]' % (s(n.a[0]), s(n.a[1]))
    if o == 'svsel':
        return '%s%s' % (s(n.a[0]), ''.join('[%s]' % s(x) for x in n.a[1]))
    if o == 'adt':
        return '%s#%s{%s}' % (n.a[0].split('::')[-1], n.a[1], ', '.join(s(x) for x in n.a[2]))
    if o in ('app', 'iapp'):
        return '%s(%s)' % (n.a[0], ', '.join(s(x) if isinstance(x, Node) else str(x) for x in n.a[1]))
    if o == 'vref':
        return '&' + s(n.a[0])
    if o == 'mref':
        return '&mut %s%s' % (n.a[0], ''.join('.%s' % (s(x[1]) if isinstance(x[1], Node) else x[1]) for x in n.a[1]))
    if o == 'list':
        return '[' + ', '.join(s(x) for x in n.a[0]) + ']'
    if o == 'seq':
        return '<' + '; '.join(s(x) for x in n.a[0]) + '>'
    def g(x):
        if isinstance(x, Node):
            return s(x)
        if isinstance(x, tuple):
            return '(' + ','.join(g(y) for y in x) + ')'
        return str(x)
    return '%s(%s)' % (o, ', '.join(g(x) for x in n.a))
