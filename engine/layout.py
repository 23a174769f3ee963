"""C25: the layout of textual display.

The output of `<Matrix as Display>::fmt` on a formatter whose writes succeed is derived as a closed form: a nest of
loops over rows, lines of the row and columns whose bounds are maxima of line counts and line widths of the elements'
texts.  It must be the term built below from the specification.  Otherwise it is compared with the specification as a
function of the elements' texts; a difference is reported with a shape and an assignment of texts."""
from sem import *
import sem, roots, build, inv
from sink import text, positions

PLAIN = (192, 0)                      # the format string "{}"
TEXTS = ['1', '22', '-3.5', '', 'a\nbbb', 'x\n\ny', 'p\nqq\nrrr\n', '777777', 'é', '日本', 'w\n日', '\n', 'zz ', '12345']


def width(s):
    return sum(2 if ord(ch) > 0x2e80 else 1 for ch in s)


def single(b):
    """what a format string of one placeholder adds to the element's own text: nothing, or the mark of an element
    whose rendering depends on the options it is given"""
    if b[:1] == ('bytes',) and len(b[1]) > 1 and b[1][0] & 0xc0 == 0xc0:
        k = b[1][0]
        n = 4 * (k & 1) + 2 * (k >> 1 & 1) + 2 * (k >> 2 & 1) + 2 * (k >> 3 & 1)
        if len(b[1]) == n + 2 and b[1][-1] == 0:
            return '!' if k & 0x37 else ''
    raise Undef('format')


def lines(s):
    x = s.split('\n')
    if x[-1] == '':
        x.pop()
    return x


class Texts(Free):
    """elements are displayed as texts of no, one or several lines"""
    name = 'texts'

    def of(self, v):
        p = positions(v)
        if len(p) != 1:
            raise Undef('text')
        k = self.seed
        if k < 4:                      # one line each
            return ['1', '22', '-3.5', '777777', '12345'][H(k, p) % 5]
        if k == 4:                     # a single multi-line element, in the last place and elsewhere
            return 'a\nbbb\nc' if sum(p[0]) % 2 else 'k'
        if k == 5:
            return ['', 'x\n\ny'][H(k, p) % 2]
        return TEXTS[H(k, p) % len(TEXTS)]

    def str_(self, v):
        v = strip(v)
        if isinstance(v, tuple) and v[:2] == ('app', 'format'):
            return v[2]
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ('str', 'chr'):
            return text(v)
        raise Undef('text')

    def app(self, f, xs):
        if f == 'format':
            a = strip(xs[0])
            if a[:1] == ('fmtargs',) and len(a[1]) == 1:
                k = single(strip(a[1][0][0]))
                g = strip(a[1][0][1])
                if g[:1] == ('arr',) and len(g[1]) == 1:
                    g = strip(g[1][0])
                    if g[:1] == ('fmtarg',) and g[1][0] == 'display':
                        return ('str', self.of(g[1][1]) + k)
                    if g[:1] == ('fmtarg',) and g[1][0] == 'debug':
                        return ('str', 'D(' + self.of(g[1][1]) + ')' + k)
            raise Undef('format')
        if f == 'line_at':
            x = lines(self.str_(xs[0]))
            if not 0 <= xs[1] < len(x):
                raise Undef('line')
            return ('str', x[xs[1]])
        return super().app(f, xs)

    def iapp(self, f, xs):
        if f == 'line_count':
            return len(lines(self.str_(xs[0])))
        if f == 'strlen':
            return len(self.str_(xs[0]).encode())
        if f == 'strwidth':
            return width(self.str_(xs[0]))
        raise Undef(f)


def layout(tx, rows, cols, measure):
    """the specified output for the given texts"""
    L = [[lines(tx[i][j]) for j in range(cols)] for i in range(rows)]
    w = [[max([measure(l) for l in L[i][j]], default=0) for j in range(cols)] for i in range(rows)]
    W = [max([w[i][j] for i in range(rows)], default=0) for j in range(cols)]
    out = []
    for i in range(rows):
        h = max([len(x) for x in L[i]], default=0)
        for n in range(h):
            first, last = i == 0 and n == 0, i == rows - 1 and n == h - 1
            out.append('⎡' if first else '⎣' if last else '⎢')
            for j in range(cols):
                left = (W[j] - w[i][j]) // 2
                l = L[i][j][n] if n < len(L[i][j]) else ''
                out.append(' ' * left + l + ' ' * (W[j] - left - measure(l) + (j != cols - 1)))
            out.append('⎤\n' if first else '⎦' if last else '⎥\n')
    return ''.join(out)


def written(m, v):
    if not (isinstance(v, tuple) and v and v[0] == 'seq'):
        v = ('seq', (v,))
    out = []
    for e in v[1]:
        if e[1] == 'write':
            out.append(m.str_(e[2][0]))
        elif e[1] == 'fmt':
            out.append(m.of(e[2][0]))
        else:
            raise Undef(e[1])
    return ''.join(out)


def spec(A, rows, cols, measure):
    """the specified output as a term"""
    def tx(i, j):
        return app('format', raw('fmtargs', (raw('bytes', PLAIN), raw('list', (raw('fmtarg', 'display', elem(A, i, j)),)))))

    def imax_(n, f):
        v = fresh_iv('m')
        return imax(n, v, f(v))

    def h(i):
        return imax_(cols, lambda j: iapp('line_count', tx(i, j)))

    def w(i, j):
        return imax_(iapp('line_count', tx(i, j)), lambda k: iapp(measure, app('line_at', tx(i, j), k)))

    def W(j):
        return imax_(rows, lambda i: w(i, j))

    def wr(t):
        return raw('ev', 'write', (t,))

    def loop(n, f):
        v = fresh_iv('s')
        return seqloop(n, v, seq(f(v)))
    sp = wr(raw('chr', 32))

    def cell(i, n, j):
        t = tx(i, j)
        there = lt(n, iapp('line_count', t))
        line = ite(there, app('line_at', t, n), raw('str', ''))
        left = idiv(sub(W(j), w(i, j)), c(2))
        right = add(sub(sub(W(j), left), iapp(measure, line)), ite(eq(j, sub(cols, ONE)), ZERO, ONE))
        return seq(loop(left, lambda _: sp), wr(line), loop(right, lambda _: sp))

    def pick(i, n, a, b, d):
        first = and_(eq(i, ZERO), eq(n, ZERO))
        last = and_(eq(i, sub(rows, ONE)), eq(n, sub(h(i), ONE)))
        return wr(ite(first, a, ite(last, b, d)))

    def line(i, n):
        return seq(pick(i, n, raw('chr', ord('⎡')), raw('chr', ord('⎣')), raw('chr', ord('⎢'))),
                   loop(cols, lambda j: cell(i, n, j)),
                   pick(i, n, raw('str', '⎤\n'), raw('str', '⎦'), raw('str', '⎥\n')))
    return seq(loop(rows, lambda i: seq(loop(h(i), lambda n: line(i, n)))))


def judge(S, log, shp, uni):
    def pred_(E, loc):
        rv = strip(E.ev(S.ret, loc))
        if isinstance(rv, tuple) and rv[:3] == ('adt', 'Result', 1):
            return 'an error is returned although no write failed'
        rows, cols = (E.num(x, loc) for x in shp)
        tx = [[E.m.of(E.ev(elem(S.args[0], c(i), c(j)), loc)) for j in range(cols)] for i in range(rows)]
        got = written(E.m, E.ev(log, loc))
        want = layout(tx, rows, cols, width if uni else lambda s: len(s.encode()))
        return {'elements': tx, 'output': got, 'specified': want} if got != want else None
    return pred_


def c25(rep):
    uni = 'unicode_width' in build.FEATURES
    found = False
    for imp in impls('Display', 'Matrix'):
        fn = method(imp, 'fmt')
        if fn is None or not fn.get('body'):
            continue
        found = True
        oid = 'layout: ' + label(fn)
        why = None
        # second try, for refutation only: assertions of the compiler are taken to hold (where one fails, nothing is displayed)
        for noassert in (False, True):
            R = roots.Root(db(), fn, invs=inv.infer())
            R.I.sink, R.I.recs, R.I.noassert = 'sound', True, noassert
            S = R.run(seconds=120 if sem.TIER[0] == 'quick' else 900)
            if S.err or S.state is None or S.ret is None:
                why = why or 'not analysed: %s' % S.err
                continue
            log = S.state.mem[roots.LOG]
            shp = shape(R, R.t(fn['inputs'][0]))
            if shp is None or len(shp) != 2 or log.top:
                why = why or 'output not derived: ' + show(log)[:300]
                continue
            post = tuple(x for x in S.state.pc if x not in S.pre)
            w = separate(R, S, [Item(oid, log, None, pred=judge(S, log, shp, uni))], (Texts,), range(10), False, tuple(S.pre), post)
            if w is not None:
                rep.violated(oid, function=label(fn), at=where(fn), **w)
                break
            if not noassert:
                why = unproved(S, log, shp, post, S.args[0], 'strwidth' if uni else 'strlen')
                if why is None:
                    rep.proved(oid)
                    break
        else:
            rep.undecided(oid, why)
    if not found:
        rep.undecided('layout', 'no Display impl for Matrix')


def unproved(S, log, shp, post, A, measure):
    pre = tuple(S.pre)
    for x in post:
        if not entails(pre, x):
            return 'return needs ' + show(x)[:200]
    if not (S.ret.op == 'adt' and S.ret.a[1] == 0):
        return 'result %s' % show(S.ret)[:200]
    a, b = simp(log, pre), simp(spec(A, shp[0], shp[1], measure), pre)
    if canon(a) is canon(b):
        return None
    try:
        d = equal(a, b, pre)
    except TooMany:
        d = 'too many cases'
    return d


class TooMany(Exception):
    pass


def choice(t):
    """the condition of a case distinction in a term that does not depend on a loop of the term"""
    if t.op == 'ite':
        return t.a[0]
    if t.op == 'ev':
        for x in t.a[1]:
            r = choice(x) if isinstance(x, Node) else None
            if r is not None:
                return r
    if t.op == 'seqloop':
        return choice(t.a[0])
    if t.op == 'poly':
        for m, k in t.a[0]:
            for x in m:
                r = choice(x)
                if r is not None:
                    return r
    if t.op == 'seq':
        for x in t.a[0]:
            r = choice(x)
            if r is not None:
                return r
    if t.op in ('idiv', 'vref'):
        return choice(t.a[0])
    return None


def constant(t):
    """the text of a history that is one constant write"""
    x = t.a[0][0] if t.op == 'seq' and len(t.a[0]) == 1 else t
    if x.op == 'ev' and x.a[0] == 'write':
        v = unref(x.a[1][0])
        if v.op in ('chr', 'str'):
            return chr(v.a[0]) if v.op == 'chr' else v.a[0]
    return None


def joined(t, pc):
    """the operations of a history: adjacent constant writes as one text, (character, number) for its repetitions"""
    out = []

    def rep_(ch, n):
        if out and isinstance(out[-1], tuple) and out[-1][0] == ch:
            out[-1] = (ch, add(out[-1][1], n))
        else:
            out.append((ch, n))
    for x in (t.a[0] if t.op == 'seq' else (t,)):
        s = constant(x)
        if s is not None:
            for ch in s:
                rep_(ch, ONE)
            continue
        if x.op == 'seqloop':
            k = fresh_iv('q')
            s = constant(inst(x, k))
            if s is not None and len(s) == 1 and entails(pc, le(ZERO, x.a[0])):
                rep_(s, x.a[0])
                continue
        out.append(x)
    return [x for x in out if not (isinstance(x, tuple) and entails(pc, le(x[1], ZERO)))]


def equal(a, b, pc, left=None):
    """None when two output histories are the same under path conditions, otherwise what was not shown"""
    left = left if left is not None else [400]
    left[0] -= 1
    if left[0] < 0:
        raise TooMany()
    a, b = simp(a, pc), simp(b, pc)
    if canon(a) is canon(b):
        return None
    for t in (a, b):
        x = choice(t)
        if x is not None:
            for y in (x, not_(x)):
                if not entails(pc, not_(y)):
                    r = equal(a, b, pc + (y,), left)
                    if r is not None:
                        return r
            return None
    A, B = joined(a, pc), joined(b, pc)
    bad = 'derived %s, specified %s' % (show(a)[:800], show(b)[:800])
    if len(A) != len(B):
        return bad
    for x, y in zip(A, B):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and
                    (canon(x[1]) is canon(y[1]) or entails(pc, eq(x[1], y[1])))):
                return bad
            continue
        if x is y or canon(x) is canon(y):
            continue
        if x.op != y.op:
            return bad
        if x.op == 'seqloop':
            if not (canon(x.a[0]) is canon(y.a[0]) or entails(pc, eq(x.a[0], y.a[0]))):
                return bad
            k = fresh_iv('q')
            r = equal(inst(x, k), inst(y, k), pc + (le(ZERO, k), lt(k, x.a[0])), left)
            if r is not None:
                return r
        else:
            return bad
    return None
