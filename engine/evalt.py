"""Disequality test of derived terms: a closed-form summary and its specification are compared as
functions over a free (or ring, or ordered) structure at a grid of shapes and structure assignments.
Only the derived terms are looked at; nothing of the analysed crate is executed."""
from terms import *
import terms
import hashlib
from fractions import Fraction


class Undef(Exception):
    pass


def H(*xs):
    return int(hashlib.md5(repr(xs).encode()).hexdigest()[:12], 16)


BITS = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y,
        'Shr': lambda x, y: x >> min(y, 200), 'Shl': lambda x, y: (x << y) % 2**64 if y < 64 else _undef()}


def _undef():
    raise Undef('shift')


def positions(v, w):
    out = set()
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'in' and isinstance(v[2], tuple):
            if v[2]:
                out.add(v[2][w])
        else:
            for x in v:
                out |= positions(x, w)
    return out


class Free:
    """element operations are free constructors"""
    name = 'free'
    commcmp = True
    limit = 200

    def __init__(self, seed=0):
        self.seed = seed
        self.calls = []

    def atom(self, a):
        return a

    def app(self, f, xs):
        return ('app', f) + tuple(xs)

    def is_elem(self, v):
        return isinstance(v, tuple)

    def truth(self, v):
        """an arbitrary but fixed interpretation of element predicates"""
        if isinstance(v, bool):
            return v
        if isinstance(v, tuple) and len(v) > 2 and v[0] == 'app' and v[1] == 'eq':
            v = ('app', 'eq') + tuple(sorted(v[2:], key=repr))
        if self.seed >= 20:
            # true (false for odd decades) exactly where an element at a particular first / last position is involved
            hit = self.seed % 20 in positions(v, -1 if self.seed < 40 else 0)
            return hit
        b = self.seed % 7
        if b == 0:
            return True
        if b == 1:
            return False
        if b == 2:
            return H(v) % 8 != 0
        if b == 3:
            return H(v) % 8 == 0
        return H(self.seed, v) % 2 == 0

    def discr(self, v):
        if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'cmp':
            return self.cmp(v[2], v[3])
        if isinstance(v, tuple) and v[0] == 'app' and v[1].startswith('call:') and len(v) == 4:
            return self.cmp(v[2], v[3])
        if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'partial_cmp':
            return self.cmp(v[2], v[3])
        raise Undef('discr')

    def rank(self, v):
        return H(self.seed, 'rank', v) % (3 if self.seed % 2 else 50)

    def cmp(self, a, b):
        x, y = self.rank(a), self.rank(b)
        return (x > y) - (x < y)

    def iapp(self, f, xs):
        return H(self.seed, f, xs) % 5


def padd(a, b, s=1):
    r = dict(a)
    for m, k in b.items():
        r[m] = r.get(m, 0) + s * k
        if not r[m]:
            del r[m]
    return r


class Ring(Free):
    """elements are polynomials in non-commuting variables"""
    name = 'ring'
    comm = False

    def atom(self, a):
        """indeterminates; with a seed some of them are zero or one"""
        if self.seed:
            h = H(self.seed, a) % 6
            if h < 2:
                return ('poly', ())
            if h == 2:
                return ('poly', (((), 1),))
        return a

    def truth(self, v):
        if isinstance(v, bool):
            return v
        raise Undef('predicate in a ring')

    def discr(self, v):
        raise Undef('order in a ring')

    def lift(self, v):
        if isinstance(v, tuple) and v and v[0] == 'poly':
            return dict(v[1])
        if isinstance(v, int) and not isinstance(v, bool):
            return {(): v} if v else {}
        return {(v,): 1}

    def low(self, p):
        if len(p) == 1:
            (m, k), = p.items()
            if k == 1 and len(m) == 1:
                return m[0]
        return ('poly', tuple(sorted(p.items(), key=repr)))

    def pmul(self, a, b):
        r = {}
        for m1, k1 in a.items():
            for m2, k2 in b.items():
                m = m1 + m2
                if self.comm:
                    m = tuple(sorted(m, key=repr))
                r[m] = r.get(m, 0) + k1 * k2
        return {m: k for m, k in r.items() if k}

    def app(self, f, xs):
        L = self.lift
        if f == 'zero':
            return ('poly', ())
        if f == 'one':
            return ('poly', (((), 1),))
        if f == 'add':
            return self.low(padd(L(xs[0]), L(xs[1])))
        if f == 'sub':
            return self.low(padd(L(xs[0]), L(xs[1]), -1))
        if f == 'neg':
            return self.low({m: -k for m, k in L(xs[0]).items()})
        if f == 'mul':
            return self.low(self.pmul(L(xs[0]), L(xs[1])))
        if f == 'is_zero':
            return not L(xs[0])
        if f == 'is_one':
            return L(xs[0]) == {(): 1}
        if f in ('eq', 'ne') and len(xs) == 2:
            return (L(xs[0]) == L(xs[1])) == (f == 'eq')
        if f in ('powi', 'pow') and isinstance(xs[1], int) and 0 <= xs[1] < 6:
            r = {(): 1}
            for _ in range(xs[1]):
                r = self.pmul(r, L(xs[0]))
            return self.low(r)
        return Free.app(self, f, xs)


class CRing(Ring):
    name = 'commutative ring'
    comm = True


class Field(Free):
    """elements are rationals; every symbol gets a fixed value"""
    name = 'field'

    def atom(self, a):
        k = self.seed % 4
        h = H(self.seed, a)
        if k == 0:
            return Fraction(h % 7 - 3)
        if k == 1:
            return Fraction(h % 3 - 1)
        if k == 2:
            return Fraction(h % 2)
        return Fraction(h % 23 - 11, 1 + h // 100 % 5)

    def app(self, f, xs):
        if f == 'zero':
            return Fraction(0)
        if f == 'one':
            return Fraction(1)
        if all(isinstance(x, (Fraction, int)) for x in xs):
            if f == 'add':
                return xs[0] + xs[1]
            if f == 'sub':
                return xs[0] - xs[1]
            if f == 'mul':
                return xs[0] * xs[1]
            if f == 'neg':
                return -xs[0]
            if f == 'div':
                if xs[1] == 0:
                    raise Undef('division by zero')
                return xs[0] / xs[1]
            if f == 'is_zero':
                return xs[0] == 0
            if f == 'is_one':
                return xs[0] == 1
            if f == 'eq':
                return xs[0] == xs[1]
            if f in ('powi', 'pow') and isinstance(xs[1], int) and abs(xs[1]) < 9:
                return Fraction(xs[0]) ** xs[1]
        raise Undef('field ' + f)

    def cmp(self, a, b):
        if not all(isinstance(x, (Fraction, int)) for x in (a, b)):
            raise Undef('cmp')
        return (a > b) - (a < b)


class Ev:
    def __init__(self, model, env, depth=400000):
        self.m = model
        self.env = env
        self.memo = {}
        self.hist = {}
        self.steps = depth

    def run(self, n, loc=None):
        return self.ev(n, loc or {})

    def num(self, n, loc):
        v = self.ev(n, loc)
        if isinstance(v, bool) or not isinstance(v, int):
            raise Undef('not a number: %r' % (v,))
        return v

    def boo(self, n, loc):
        v = self.ev(n, loc)
        if isinstance(v, bool):
            return v
        raise Undef('not a boolean')

    def ev(self, n, loc):
        fv = n.fv
        key = (n, tuple((k, _key(loc[k])) for k in sorted(fv) if k in loc)) if fv else (n, ())
        r = self.memo.get(key, self)
        if r is not self:
            if isinstance(r, Undef):
                raise r
            return r
        self.steps -= 1
        if self.steps < 0:
            raise Undef('budget')
        try:
            r = self.ev1(n, loc)
        except Undef as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def ev1(self, n, loc):
        o = n.op
        a = n.a
        E = self.ev
        if o == 'c':
            return a[0]
        if o in ('iv', 'sv'):
            if n in loc:
                return loc[n]
            if n in self.env:
                return self.env[n]
            raise Undef('free ' + str(a[0]))
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'poly':
            r = 0
            for m, k in a[0]:
                t = k
                for x in m:
                    t *= self.num(x, loc)
                r += t
            return r
        if o == 'idiv':
            d = self.num(a[1], loc)
            if d == 0:
                raise Undef('div by zero')
            return self.num(a[0], loc) // d
        if o == 'imod':
            d = self.num(a[1], loc)
            if d == 0:
                raise Undef('div by zero')
            return self.num(a[0], loc) % d
        if o == 'le0':
            return self.num(a[0], loc) <= 0
        if o in ('eq0', 'ne0'):
            v = self.num(a[0], loc)
            return (v == 0) == (o == 'eq0')
        if o == 'b':
            return self.truth(E(a[0], loc))
        if o == 'nb':
            return not self.truth(E(a[0], loc))
        if o == 'and':
            und = None
            for x in a[0]:
                try:
                    if not self.boo(x, loc):
                        return False
                except Undef as e:
                    und = e
            if und:
                raise und
            return True
        if o == 'or':
            und = None
            for x in a[0]:
                try:
                    if self.boo(x, loc):
                        return True
                except Undef as e:
                    und = e
            if und:
                raise und
            return False
        if o in ('all', 'any', 'first', 'count', 'imax', 'comp', 'seqloop'):
            k = self.num(a[0], loc)
            if k > 200:
                raise Undef('large')
            v = iv('#%d' % n.h)
            if o == 'all':
                return all(self.boo(a[1], self.ext(loc, v, i)) for i in range(k))
            if o == 'any':
                return any(self.boo(a[1], self.ext(loc, v, i)) for i in range(k))
            if o == 'first':
                for i in range(k):
                    if self.boo(a[1], self.ext(loc, v, i)):
                        return i
                return max(k, 0)
            if o == 'count':
                return sum(1 for i in range(k) if self.boo(a[1], self.ext(loc, v, i)))
            if o == 'imax':
                return max([self.num(a[1], self.ext(loc, v, i)) for i in range(k)], default=0)
            if o == 'comp':
                return ('arr', tuple(E(a[1], self.ext(loc, v, i)) for i in range(k)))
            out = ()
            for i in range(k):
                r = E(a[1], self.ext(loc, v, i))
                out += self.seqof(r)
            return ('seq', out)
        if o == 'fold':
            k = self.num(a[0], loc)
            if k > self.m.limit:
                raise Undef('large')
            kv, av = bvars('fold', n.h)
            acc = E(a[2], loc)
            for i in range(k):
                l = dict(loc)
                l[kv] = i
                l[av] = acc
                acc = E(a[1], l)
            return acc
        if o == 'rec':
            k = self.num(a[1], loc)
            if k > self.m.limit:
                raise Undef('large')
            d = RECS[a[0]]
            args = tuple(E(x, loc) for x in a[3])
            key = (a[0], E(a[2], loc), args)
            h = self.hist.setdefault(key, [key[1]])
            l = dict(zip(d.params, args))
            while len(h) <= k:
                l[d.j], l[d.acc] = len(h) - 1, h[-1]
                h.append(E(d.step, l))
            return h[max(k, 0)]
        if o == 'ite':
            return E(a[1], loc) if self.boo(a[0], loc) else E(a[2], loc)
        if o == 'list':
            return ('arr', tuple(E(x, loc) for x in a[0]))
        if o == 'inarr':
            k = self.num(a[1], loc)
            if k > 200:
                raise Undef('large')
            return ('arr', tuple(E(build_elem(a[0], a[2], a[3] + (c(i),)), loc) for i in range(k)))
        if o == 'in':
            x = ('in', a[0], tuple(self.num(y, loc) for y in a[1]))
            if x in self.env:
                return self.env[x]
            return self.m.atom(x)
        if o == 'sel':
            arr = E(a[0], loc)
            i = self.num(a[1], loc)
            if isinstance(arr, tuple) and arr and arr[0] == 'arr':
                if 0 <= i < len(arr[1]):
                    return arr[1][i]
                raise Undef('index out of range')
            raise Undef('sel')
        if o == 'svsel' or o == 'svarr':
            arr = E(a[0], loc)
            for y in a[1] if o == 'svsel' else a[4]:
                i = self.num(y, loc)
                while isinstance(arr, tuple) and arr and arr[0] == 'adt' and len(arr[3]) == 1:
                    arr = arr[3][0]
                if not (isinstance(arr, tuple) and arr and arr[0] == 'arr' and 0 <= i < len(arr[1])):
                    raise Undef('svsel')
                arr = arr[1][i]
            return arr
        if o == 'adt':
            return ('adt', a[0], a[1], tuple(E(x, loc) for x in a[2]))
        if o == 'app':
            if a[0] == 'sinkok':
                return self.sinkok(E(a[1][0], loc), self.seqof(E(a[1][1], loc)))
            return self.m.app(a[0], tuple(E(x, loc) if isinstance(x, Node) else x for x in a[1]))
        if o == 'iapp':
            xs = tuple(E(x, loc) if isinstance(x, Node) else x for x in a[1])
            if a[0] in BITS and len(xs) == 2 and all(isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in xs):
                return BITS[a[0]](*xs)
            if a[0] == 'bitlen' and isinstance(xs[0], int) and not isinstance(xs[0], bool) and xs[0] >= 0:
                return xs[0].bit_length()
            return self.m.iapp(a[0], xs)
        if o == 'discr':
            v = E(a[0], loc)
            if isinstance(v, tuple) and v and v[0] == 'adt':
                return v[2]
            return self.m.discr(v)
        if o == 'fld':
            v = E(a[0], loc)
            if isinstance(v, tuple) and v and v[0] == 'adt' and a[1] < len(v[3]):
                return v[3][a[1]]
            return ('fld', v, a[1])
        if o == 'vref':
            return ('ref', E(a[0], loc))
        if o == 'deref':
            v = E(a[0], loc)
            if isinstance(v, tuple) and v and v[0] == 'ref':
                return v[1]
            return v
        if o == 'mref':
            return ('mref', a[0], tuple((x[0], self.num(x[1], loc) if isinstance(x[1], Node) else x[1]) for x in a[1]))
        if o == 'seq':
            out = ()
            for x in a[0]:
                v = E(x, loc)
                out += self.seqof(v)
            return ('seq', out)
        if o == 'ev':
            return ('ev', a[0], tuple(E(x, loc) if isinstance(x, Node) else x for x in a[1]))
        if o in ('moved', 'uninit'):
            return (o,)
        if o in ('str', 'chr', 'bytes'):
            return (o,) + a
        if o in ('fmtargs', 'fmtarg'):
            return (o, self.tupev(a, loc))
        raise Undef(o)

    def tupev(self, x, loc):
        if isinstance(x, Node):
            return self.ev(x, loc)
        if isinstance(x, tuple):
            return tuple(self.tupev(y, loc) for y in x)
        return x

    def ext(self, loc, v, i):
        l = dict(loc)
        l[v] = i
        return l

    def seqof(self, v):
        if isinstance(v, tuple) and v and v[0] == 'seq':
            return v[1]
        if isinstance(v, tuple) and v and v[0] == 'ev':
            return (v,)
        raise Undef('seq')

    def truth(self, v):
        return v if isinstance(v, bool) else self.m.truth(v)

    def sinkok(self, ev, hist):
        k = getattr(self.m, 'sinkfail', None)
        if k is None:
            return True
        return len(hist) < k


def _key(v):
    return v


def strip(v):
    """drop references and single-field wrappers for comparison"""
    while True:
        if isinstance(v, tuple) and v and v[0] == 'ref':
            v = v[1]
        else:
            break
    if isinstance(v, tuple) and v and v[0] == 'arr':
        return ('arr', tuple(strip(x) for x in v[1]))
    if isinstance(v, tuple) and v and v[0] == 'adt':
        return ('adt', v[1], v[2], tuple(strip(x) for x in v[3]))
    if isinstance(v, tuple) and v and v[0] in ('ev', 'app', 'seq'):
        return tuple(strip(x) if isinstance(x, tuple) else x for x in v)
    if isinstance(v, tuple) and v and all(isinstance(x, tuple) for x in v):
        return tuple(strip(x) for x in v)
    return v
