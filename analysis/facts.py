"""Decision procedure for conjunctions of linear integer constraints, uninterpreted
boolean literals and bounded case splits (the path-condition domain)."""
from terms import *
from math import gcd
import terms

_cache = {}
SPLITS = 400
STATS = {'queries': 0}


class Budget(Exception):
    pass


def feasible(lits, depth=0):
    """False only if the conjunction is unsatisfiable over the integers; True means 'maybe'."""
    key = frozenset(lits)
    r = _cache.get(key)
    if r is None:
        STATS['queries'] += 1
        try:
            r = _feas(list(lits), [SPLITS])
        except Budget:
            r = True
        _cache[key] = r
    return r


def entails(pc, cond):
    if cond.op == 'true':
        return True
    if cond.op == 'false':
        return not feasible(pc)
    if cond in pc:
        return True
    if cond.op == 'and':
        return all(entails(pc, x) for x in cond.a[0])
    return not feasible(list(pc) + [not_(cond)])


def _collect(lits):
    """flatten conjunctions; returns None when trivially false"""
    out = set()
    st = list(lits)
    while st:
        x = st.pop()
        o = x.op
        if o == 'true':
            continue
        if o == 'false':
            return None
        if o == 'and':
            st.extend(x.a[0])
            continue
        if x.op == 'b' and x.a[0].top:
            continue
        if x.op == 'nb' and x.a[0].top:
            continue
        if x in out:
            continue
        if not_(x) in out:
            return None
        out.add(x)
    return out


def _find_ite(lits):
    for x in lits:
        if x.op in ('le0', 'eq0', 'ne0'):
            for m, k in pdict(x.a[0]).items():
                for at in m:
                    i = _ite_in(at)
                    if i is not None:
                        return i
    return None


def _ite_in(at):
    if at.op == 'ite':
        return at
    if at.op in ('idiv', 'imod'):
        for y in at.a:
            for m, k in pdict(y).items():
                for z in m:
                    r = _ite_in(z)
                    if r is not None:
                        return r
    if at.op in ('in', 'svsel'):
        for y in at.a[1]:
            for m, k in pdict(y).items():
                for z in m:
                    r = _ite_in(z)
                    if r is not None:
                        return r
    if at.op == 'iapp':
        return None
    return None


def replace_node(n, old, new):
    """replace a sub-term by another one (not under binders)"""
    memo = {}

    def go(x):
        if x is old:
            return new
        if x in memo:
            return memo[x]
        if x.op in BINDERS or x.op in ('iv', 'sv', 'c'):
            r = x
        else:
            na = ga(x.a)
            r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r

    def ga(a):
        if isinstance(a, Node):
            return go(a)
        if isinstance(a, tuple):
            return tuple(ga(y) for y in a)
        return a
    return go(n)


def _feas(lits, budget):
    s = _collect(lits)
    if s is None:
        return False
    # quick linear check first
    if not _linear(s):
        return False
    # split on conditionals inside arithmetic
    i = _find_ite(s)
    if i is not None:
        budget[0] -= 1
        if budget[0] <= 0:
            raise Budget()
        for cnd, val in ((i.a[0], i.a[1]), (not_(i.a[0]), i.a[2])):
            l2 = [replace_node(x, i, val) if x.op in ('le0', 'eq0', 'ne0') else x for x in s]
            if _feas(l2 + [cnd], budget):
                return True
        return False
    # disjunctions
    ors = [x for x in s if x.op == 'or']
    if ors:
        budget[0] -= 1
        if budget[0] <= 0:
            raise Budget()
        o = min(ors, key=lambda x: len(x.a[0]))
        rest = [x for x in s if x is not o]
        done = []
        for y in o.a[0]:
            if _feas(rest + [y] + done, budget):
                return True
            ny = not_(y)
            if ny.op not in ('or',):
                done.append(ny)
        return False
    # disequalities
    nes = [x for x in s if x.op == 'ne0']
    lin = [x for x in s if x.op in ('le0', 'eq0')]
    for x in nes:
        p = x.a[0]
        lo = le0(add(p, ONE))   # p <= -1
        hi = le0(sub(ONE, p))   # p >= 1
        flo = _linear(set(lin) | {lo}) if lo.op != 'false' else False
        fhi = _linear(set(lin) | {hi}) if hi.op != 'false' else False
        if not flo and not fhi:
            return False
        if flo != fhi:
            budget[0] -= 1
            if budget[0] <= 0:
                raise Budget()
            return _feas([y for y in s if y is not x] + [lo if flo else hi], budget)
    # universally quantified facts: instantiate at atoms that occur
    alls = [x for x in s if x.op == 'all']
    if alls:
        cands = set()
        for x in s:
            if x.op in ('le0', 'eq0', 'ne0'):
                for m in pdict(x.a[0]):
                    for at in m:
                        if at.op == 'iv':
                            cands.add(at)
            if x.op in ('b', 'nb'):
                for t in subterms(x.a[0]):
                    if t.op == 'in':
                        cands.update(y for y in t.a[1])
        new = []
        opaque = [x for x in s if x.op in ('b', 'nb', 'any')]
        for x in alls:
            if not matters(x.a[1], opaque):
                continue
            for at in list(cands)[:6]:
                f = implies(and_(le(ZERO, at), lt(at, x.a[0])), inst(x, at))
                if f.op != 'true' and f not in s:
                    new.append(f)
        if new:
            budget[0] -= 1
            if budget[0] <= 0:
                raise Budget()
            return _feas([y for y in s if y.op != 'all'] + new, budget)
    return True


def matters(b, opaque):
    """can an instance of the quantified condition contradict something?  Not when it is, or may be met by, an opaque
    condition whose opposite does not occur"""
    o = b.op
    if o in ('b', 'nb'):
        return any(y.op != o and y.op != 'any' and _unify(b.a[0], y.a[0]) for y in opaque)
    if o == 'and':
        return any(matters(x, opaque) for x in b.a[0])
    if o == 'or':
        return all(matters(x, opaque) for x in b.a[0])
    if o == 'all':
        return any(y.op == 'any' for y in opaque) or matters(b.a[1], opaque)
    return True


_uni = {}


def _unify(b, x):
    """could they be the same for some values of the bound variables?  (a quick look at the outside)"""
    if not isinstance(b, Node) or not isinstance(x, Node):
        return type(b) is type(x) and (b == x if not isinstance(b, tuple) else len(b) == len(x) and all(map(_unify, b, x)))
    if b is x:
        return True
    k = (b, x)
    r = _uni.get(k)
    if r is None:
        r = any(y.op == 'iv' and y.a[0].startswith('#') for y in b.fv) if b.op in ('iv', 'poly', 'ite', 'c') or x.op in ('poly', 'ite', 'iv', 'c') else \
            b.op == x.op and _unify(b.a, x.a)
        _uni[k] = r
    return r


def _atoms(p):
    for m in p:
        for x in m:
            yield x


def _linear(s):
    """Fourier-Motzkin on the linear part (monomials are variables). False = infeasible."""
    eqs, les = [], []
    for x in s:
        if x.op == 'le0':
            if x.a[0].top:
                continue
            les.append(pdict(x.a[0]))
        elif x.op == 'eq0':
            if x.a[0].top:
                continue
            eqs.append(pdict(x.a[0]))
    # axioms for div/mod/known-non-negative atoms
    seen = set()
    work = [a for p in eqs + les for a in _atoms(p)]
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.op == 'idiv' and a.a[1].op == 'c' and a.a[1].a[0] > 0:
            b = a.a[1].a[0]
            les.append(pdict(sub(scale(a, b), a.a[0])))
            les.append(pdict(sub(a.a[0], add(scale(a, b), c(b - 1)))))
            work.extend(_atoms(pdict(a.a[0])))
        elif a.op == 'imod' and a.a[1].op == 'c' and a.a[1].a[0] > 0:
            b = a.a[1].a[0]
            q = raw('idiv', a.a[0], a.a[1])
            # a.a0 = b*q + a
            eqs.append(pdict(sub(a.a[0], add(scale(q, b), a))))
            les.append(pdict(sub(a, c(b - 1))))
            les.append(pdict(neg(a)))
            work.append(q)
            work.extend(_atoms(pdict(a.a[0])))
        elif a.op == 'discr' and a.a[0].op == 'app' and a.a[0].a[0] in ('cmp', 'partial_cmp') or \
                a.op == 'discr' and a.a[0].op == 'app' and a.a[0].a[0].startswith('call:'):
            les.append(pdict(sub(a, ONE)))
            les.append(pdict(sub(c(-1), a)))
        elif a.op in ('first', 'count'):
            les.append(pdict(neg(a)))
            les.append(pdict(sub(a, a.a[0]))) if True else None
            work.extend(_atoms(pdict(a.a[0])))
        if nonneg_atom(a):
            les.append(pdict(neg(a)))
        if a.op == 'iapp' and a.a[0] in LENGTHS or a.op == 'imax' and lengths(a.a[1]):
            les.append(pdict(sub(a, c(2 ** 63 - 1))))
    maxima(seen, eqs, les)
    # a common non-negative factor: x*r + k <= 0 with k > 0 gives r <= -1; with x >= 1, x*r <= 0 gives r <= 0
    more = []
    for p in les:
        if not any(len(m) > 1 for m in p):
            continue
        k = p.get((), 0)
        if k < 0:
            continue
        vs = [m for m in p if m != () and p[m]]
        if not vs:
            continue
        for x in set(vs[0]):
            if not nonneg_atom(x) or not all(x in m for m in vs):
                continue
            if k == 0 and not any(q.get((x,), 0) < 0 and q.get((), 0) > 0 and len(q) == 2 for q in les):
                continue
            r = {}
            for m in vs:
                mm = list(m)
                mm.remove(x)
                r[tuple(mm)] = r.get(tuple(mm), 0) + p[m]
            if k > 0:
                r[()] = r.get((), 0) + 1
            more.append(r)
    les.extend(more)
    # products: multiply linear facts by a non-negative factor when non-linear monomials occur
    nl = {m for p in eqs + les for m in p if len(m) == 2}
    if nl:
        base = list(les)
        bare = list(eqs)
        factors = {x for m in nl for x in m if nonneg_atom(x)}
        for x in factors:
            for p in base:
                if any(len(m) > 1 for m in p) or len(p) > 5:
                    continue
                q = {tuple(sorted(m + (x,), key=lambda z: z.id)): k for m, k in p.items()}
                if all(m in nl for m in q if len(m) == 2):
                    les.append(q)
            for p in bare:
                if any(len(m) > 1 for m in p) or len(p) > 5:
                    continue
                q = {tuple(sorted(m + (x,), key=lambda z: z.id)): k for m, k in p.items()}
                if all(m in nl for m in q if len(m) == 2):
                    eqs.append(q)
    return _fm(eqs, les)


LENGTHS = {'strlen', 'strwidth', 'line_count', 'len'}


def lengths(x):
    """is every value of the term the length of something in memory?"""
    if x.op == 'ite':
        return lengths(x.a[1]) and lengths(x.a[2])
    return x.op == 'c' and 0 <= x.a[0] < 2 ** 31 or x.op == 'iapp' and x.a[0] in LENGTHS or x.op == 'imax' and lengths(x.a[1])


def maxima(atoms, eqs, les):
    """a maximum is no less than the values it is taken over: for those that occur"""
    ms = [a for a in atoms if a.op == 'imax']
    if not ms:
        return
    more = []
    for m in sorted(ms, key=lambda a: a.h):
        op = m.a[1].op
        for x in atoms:
            if x is m or x.op != op and op not in ('ite', 'poly') or x.op in ('c', 'iv'):
                continue
            t = position(m, x)
            if t is None:
                continue
            inside = True
            for q in (lt(t, ZERO), le(m.a[0], t)):
                if q.op == 'true' or q.op == 'le0' and _fm(eqs, les + [pdict(q.a[0])]):
                    inside = False
            if inside:
                more.append(pdict(sub(x, m)))
    les.extend(more)


_pos = {}


def position(m, x):
    """the position at which the binder's body is the term x, if there is one"""
    k = (m, x)
    if k not in _pos:
        out = []
        v = iv('#%d' % m.h)
        _match(m.a[1], x, v, out)
        _pos[k] = next((t for t in out if not any(y.op == 'iv' and y.a[0].startswith('#') for y in t.fv) and inst(m, t) is x), None)
    return _pos[k]


def _match(b, x, v, out):
    """candidates for v that could make the term b the term x"""
    if len(out) > 3:
        return
    if isinstance(b, tuple):
        if isinstance(x, tuple):
            for p, q in zip(b, x):
                _match(p, q, v, out)
        return
    if not isinstance(b, Node) or not isinstance(x, Node) or v not in b.fv:
        return
    if b is v:
        if x not in out:
            out.append(x)
        return
    if b.op == 'poly':
        l = lin_of(b, v)
        if l is not None and abs(l[0]) == 1 and (x.op in ('poly', 'c') or is_atom(x)):
            t = scale(sub(x, l[1]), l[0])
            if t not in out:
                out.append(t)
        return
    if b.op == x.op:
        _match(b.a, x.a, v, out)


def is_atom(x):
    return x.op in ('iv', 'iapp', 'idiv', 'imod', 'first', 'count', 'imax', 'svsel')


def _norm(p):
    """normalise inequality p<=0 with integer tightening; returns (p, trivially_true, infeasible)"""
    p = {m: k for m, k in p.items() if k}
    vs = [m for m in p if m != ()]
    if not vs:
        return p, p.get((), 0) <= 0, p.get((), 0) > 0
    g = 0
    for m in vs:
        g = gcd(g, p[m])
    if g > 1:
        k0 = p.get((), 0)
        q = {m: p[m] // g for m in vs}
        fl = (-k0) // g
        if fl:
            q[()] = -fl
        p = q
    return p, False, False


def _fm(eqs, les):
    eqs = [dict(p) for p in eqs]
    les = [dict(p) for p in les]
    # eliminate equalities
    while eqs:
        p = eqs.pop()
        p = {m: k for m, k in p.items() if k}
        vs = [m for m in p if m != ()]
        if not vs:
            if p.get((), 0) != 0:
                return False
            continue
        g = 0
        for m in vs:
            g = gcd(g, p[m])
        if p.get((), 0) % g:
            return False
        v = min(vs, key=lambda m: (abs(p[m]), len(m)))
        cv = p[v]

        def elim(q, keep_sign=True):
            k = q.get(v, 0)
            if not k:
                return q
            # q*|cv| - sign * k * p
            r = {}
            a = abs(cv)
            b = k if cv > 0 else -k
            for m, x in q.items():
                r[m] = r.get(m, 0) + a * x
            for m, x in p.items():
                r[m] = r.get(m, 0) - b * x
            return {m: x for m, x in r.items() if x}
        eqs = [elim(q) for q in eqs]
        les = [elim(q) for q in les]
    cur = {}

    def addc(store, p):
        p, tt, bad = _norm(p)
        if bad:
            return False
        if tt:
            return True
        key = tuple(sorted(((m, k) for m, k in p.items() if m != ()), key=lambda t: tuple(x.id for x in t[0])))
        k0 = p.get((), 0)
        if key not in store or store[key] < k0:
            store[key] = k0
        return True
    for p in les:
        if not addc(cur, p):
            return False
    while cur:
        # pick variable with the fewest products
        occ = {}
        for key in cur:
            for m, k in key:
                o = occ.setdefault(m, [0, 0])
                o[0 if k > 0 else 1] += 1
        v = min(occ, key=lambda m: (occ[m][0] * occ[m][1] - occ[m][0] - occ[m][1], tuple(x.id for x in m)))
        ups, los, rest = [], [], {}
        for key, k0 in cur.items():
            d = dict(key)
            k = d.get(v, 0)
            d[()] = k0
            if k > 0:
                ups.append(d)
            elif k < 0:
                los.append(d)
            else:
                rest[key] = k0
        if len(ups) * len(los) > 2000:
            return True
        for u in ups:
            for l in los:
                a, b = u[v], -l[v]
                r = {}
                for m, x in u.items():
                    r[m] = r.get(m, 0) + b * x
                for m, x in l.items():
                    r[m] = r.get(m, 0) + a * x
                r.pop(v, None)
                if not addc(rest, r):
                    return False
        cur = rest
        if len(cur) > 3000:
            return True
    return True


def also(cnd):
    """consequences of a condition for the first index at which something holds"""
    if cnd.op == 'and':
        return tuple(y for x in cnd.a[0] for y in also(x))
    if cnd.op == 'any':
        v, b = open1(cnd)
        f = first(cnd.a[0], v, b)
        r = inst(cnd, f)
        return (lt(f, cnd.a[0]), r) + also(r)
    return ()


def below(nn, v):
    """facts about an index below a bound"""
    out = (le(ZERO, v), lt(v, nn))
    if nn.op == 'first':
        out += (not_(inst(nn, v)),)
    return out


def irredundant(r, pc):
    """drops the parts of a conjunction (disjunction) that the others imply (are implied by)"""
    conj = r.op == 'and'
    parts = list(r.a[0]) if conj else [not_(x) for x in r.a[0]]
    parts.sort(key=lambda x: (x.op == 'eq0', -x.id))
    i = 0
    while i < len(parts) and len(parts) > 1:
        rest = tuple(parts[:i] + parts[i + 1:])
        fv = set().union(*[x.fv for x in rest])
        if parts[i].fv & fv or any(parts[i].fv & y.fv and y.fv & fv for y in pc if y.op == 'or'):
            if entails(pc + rest, parts[i]):
                del parts[i]
                continue
        i += 1
    if len(parts) == len(r.a[0]):
        return r
    return and_(*parts) if conj else or_(*[not_(x) for x in parts])


def simp(n, pc, memo=None, depth=0):
    """simplify a term under path conditions (conditionals, booleans)"""
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    o = n.op
    r = n
    if o in ('c', 'iv', 'sv', 'true', 'false', 'moved', 'uninit', 'in', 'inarr') or depth > 60:
        if o in ('in', 'inarr'):
            na = tuple(simp(x, pc, memo, depth + 1) if isinstance(x, Node) else
                       tuple(simp(y, pc, memo, depth + 1) if isinstance(y, Node) else y for y in x) if isinstance(x, tuple) else x
                       for x in n.a)
            r = n if na == n.a else rebuild(o, na)
        memo[n] = r
        return r
    if o == 'ite':
        cnd = simp(n.a[0], pc, memo, depth + 1)
        if cnd.op == 'true' or entails(pc, cnd):
            r = simp(n.a[1], pc, memo, depth + 1)
        elif cnd.op == 'false' or entails(pc, not_(cnd)):
            r = simp(n.a[2], pc, memo, depth + 1)
        else:
            a = simp(n.a[1], pc + (cnd,) + also(cnd), None, depth + 1)
            b = simp(n.a[2], pc + (not_(cnd),) + also(not_(cnd)), None, depth + 1)
            r = ite(cnd, a, b)
    elif o in ('le0', 'eq0', 'ne0'):
        p = simp(n.a[0], pc, memo, depth + 1)
        r = rebuild(o, (p,))
        if r.op in ('le0', 'eq0', 'ne0'):
            if entails(pc, r):
                r = TRUE
            elif entails(pc, not_(r)):
                r = FALSE
    elif o in ('b', 'nb'):
        r = rebuild(o, (simp(n.a[0], pc, memo, depth + 1),))
        if r.op in ('b', 'nb') and r in pc:
            r = TRUE
        elif r.op in ('b', 'nb') and not_(r) in pc:
            r = FALSE
    elif o in ('and', 'or'):
        r = rebuild(o, (tuple(simp(x, pc, memo, depth + 1) for x in n.a[0]),))
        if r.op in ('and', 'or'):
            if entails(pc, r):
                r = TRUE
            elif entails(pc, not_(r)):
                r = FALSE
            elif len(r.a[0]) <= 4:
                r = irredundant(r, pc)
    elif o in BINDERS:
        if o == 'fold':
            nn = simp(n.a[0], pc, memo, depth + 1)
            k, a, b = open_fold(n)
            b = simp(b, pc + (le(ZERO, k), lt(k, nn)), None, depth + 1)
            r = fold(nn, k, a, simp(n.a[2], pc, memo, depth + 1), b)
        else:
            nn = simp(n.a[0], pc, memo, depth + 1)
            v, b = open1(n)
            b = simp(b, pc + below(nn, v), None, depth + 1)
            r = {'comp': comp, 'all': all_, 'any': any_, 'first': first, 'count': count, 'imax': imax, 'seqloop': seqloop}[o](nn, v, b)
    else:
        def g(x):
            if isinstance(x, Node):
                return simp(x, pc, memo, depth + 1)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return x
        na = g(n.a)
        r = n if na == n.a else rebuild(o, na)
    memo[n] = r
    return r
