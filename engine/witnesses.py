"""Compile-time witnesses: small programs that the type checker must accept ('ok') or reject
('no').  A rejected program is decided for every input at once; 'no' witnesses come with a
twin that differs only in the shape and must be accepted, so a rejection has the intended cause."""

HEAD = '''#![allow(warnings)]
extern crate rowcol; extern crate typenum; extern crate num; extern crate approx;
use rowcol::prelude::*; use rowcol::vector::*; use rowcol::matrix::*;
use typenum::{Unsigned, UInt, UTerm, Bit, B0, B1, Cmp, Same, Less, Compare};
use std::ops::*;
'''
TYPE_ERR = {'E0277', 'E0271', 'E0308', 'E0599', 'E0369', 'E0368', 'E0282', 'E0283', 'E0284', 'E0608', 'E0061', 'E0107',
            'E0275', 'E0600', 'E0080'}


class W:
    def __init__(self, wid, kind, code, twin=None, head=True, edition='2015', codes=None):
        self.id, self.kind, self.twin, self.edition = wid, kind, twin, edition
        self.code = (HEAD + code) if head else code
        if twin is not None:
            self.twin = (HEAD + twin) if head else twin
        self.codes = codes or TYPE_ERR


def u(n):
    return 'U%d' % n


def V(t, n):
    return 'Vector<%s,%s>' % (t, u(n))


def M(t, r, c):
    return 'Matrix<%s,%s,%s>' % (t, u(r), u(c))


def fn(args, body, ret=None):
    return 'pub fn w(%s)%s { %s }\n' % (args, ' -> ' + ret if ret else '', body)


# ------------------------------------------------------------------ C04
def c04():
    out = []
    ok = ''
    k = 0
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32):
        for i in sorted({0, 1, 2, n // 2, n - 1}):
            if i < n:
                k += 1
                ok += 'pub fn r%d(v:&%s)->&u8{&v[%s::new()]} pub fn m%d(v:&mut %s)->&mut u8{&mut v[%s::new()]}\n' % (
                    k, V('u8', n), u(i), k, V('u8', n), u(i))
    out.append(W('vec-in-range', 'ok', ok))
    for n in (0, 1, 2, 3, 4, 7, 8, 16, 31, 32):
        bad = [n, n + 1, 2 * n] if n else [0, 1, 2]
        for i in sorted(set(x for x in bad if x <= 64)):
            for m in (0, 1):
                f = (lambda ix, nn: fn('v:&mut ' + V('u8', nn), 'let r:&mut u8 = &mut v[%s::new()];' % u(ix)) if m else
                     fn('v:&' + V('u8', nn), 'let r:&u8 = &v[%s::new()];' % u(ix)))
                out.append(W('vec-%d-at-%d-%s' % (n, i, 'mut' if m else 'ref'), 'no', f(i, n), f(n - 1, n) if n else f(0, 1)))
    ok = ''
    k = 0
    for r, c in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 5), (5, 4), (9, 2), (2, 9)):
        for i in sorted({0, 1, r - 1}):
            for j in sorted({0, 1, c - 1}):
                if i < r and j < c:
                    k += 1
                    ok += ('pub fn r%d(v:&%s)->&u8{&v[(%s::new(),%s::new())]} pub fn m%d(v:&mut %s)->&mut u8{&mut v[(%s::new(),%s::new())]}\n'
                           % (k, M('u8', r, c), u(i), u(j), k, M('u8', r, c), u(i), u(j)))
    out.append(W('mat-in-range', 'ok', ok))
    for r, c in ((0, 0), (0, 2), (2, 0), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4)):
        bad = {(r, 0), (0, c), (r, c), (r, c - 1), (r - 1, c), (c, 0), (0, r), (c - 1, r - 1), (r + 1, 0), (0, c + 1)}
        for i, j in sorted(bad):
            if i < 0 or j < 0 or (i < r and j < c):
                continue
            for m in (0, 1):
                f = (lambda a, b, rr, cc: fn('v:&mut ' + M('u8', rr, cc), 'let r:&mut u8 = &mut v[(%s::new(),%s::new())];' % (u(a), u(b))) if m else
                     fn('v:&' + M('u8', rr, cc), 'let r:&u8 = &v[(%s::new(),%s::new())];' % (u(a), u(b))))
                out.append(W('mat-%dx%d-at-%d-%d-%s' % (r, c, i, j, 'mut' if m else 'ref'), 'no', f(i, j, r, c),
                             f(r - 1, c - 1, r, c) if r and c else f(0, 0, 1, 1)))
    # for every length: nothing but "index < length" is needed, and it is needed
    out.append(W('vec-generic', 'ok', '''
pub fn a<T,N,U,B>(v:&Vector<T,N>)->&T where N:ArrayLen<T>, U:Unsigned, B:Bit, UInt<U,B>:Unsigned+Cmp<N>, Compare<UInt<U,B>,N>:Same<Less> {&v[UInt::<U,B>::new()]}
pub fn b<T,N,U,B>(v:&mut Vector<T,N>)->&mut T where N:ArrayLen<T>, U:Unsigned, B:Bit, UInt<U,B>:Unsigned+Cmp<N>, Compare<UInt<U,B>,N>:Same<Less> {&mut v[UInt::<U,B>::new()]}
'''))
    out.append(W('vec-generic-unbounded', 'no',
                 'pub fn a<T,N,U,B>(v:&Vector<T,N>)->&T where N:ArrayLen<T>, U:Unsigned, B:Bit, UInt<U,B>:Unsigned+Cmp<N> {&v[UInt::<U,B>::new()]}'))
    return out


# ------------------------------------------------------------------ C05
def forms(op, a, b, r):
    """the four value/reference forms"""
    s = ''
    for i, (x, y) in enumerate((('', ''), ('&', ''), ('', '&'), ('&', '&'))):
        s += "pub fn f%d%s(a:%s%s,b:%s%s)->%s { a %s b }\n" % (i, op_id(op), x, a, y, b, r, op)
    return s


def op_id(op):
    return {'+': 'p', '-': 'm', '*': 't', '/': 'd'}[op]


def c05():
    o = []

    def ok(i, code):
        o.append(W(i, 'ok', code))

    def no(i, bad, good):
        o.append(W(i, 'no', bad, good))
    for n in (0, 1, 2, 3, 5, 32):
        v = V('i32', n)
        ok('vec-add-sub-%d' % n, forms('+', v, v, v) + forms('-', v, v, v) +
           'pub fn aa(a:&mut %s,b:%s){*a+=b;} pub fn sa(a:&mut %s,b:%s){*a-=b;}\n' % (v, v, v, v) +
           'pub fn e(a:&%s,b:&%s)->bool{a==b} pub fn n(a:%s)->%s{-a}\n' % (v, v, v, v) +
           'pub fn s(a:%s)->%s{a*3} pub fn d(a:%s)->%s{a/3} pub fn ms(a:&mut %s){*a*=3; *a/=3;}\n' % (v, v, v, v, v))
    for r, c in ((0, 0), (0, 2), (2, 0), (1, 3), (2, 2), (3, 2), (4, 4)):
        m = M('i32', r, c)
        ok('mat-add-sub-%dx%d' % (r, c), forms('+', m, m, m) + forms('-', m, m, m) +
           'pub fn aa(a:&mut %s,b:%s){*a+=b;} pub fn sa(a:&mut %s,b:%s){*a-=b;}\n' % (m, m, m, m) +
           'pub fn e(a:&%s,b:&%s)->bool{a==b} pub fn n(a:%s)->%s{-a}\n' % (m, m, m, m) +
           'pub fn s(a:%s)->%s{a*3} pub fn d(a:%s)->%s{a/3} pub fn ms(a:&mut %s){*a*=3; *a/=3;}\n' % (m, m, m, m, m) +
           'pub fn s2(a:%s)->%s{a*&3} pub fn d2(a:%s)->%s{a/&3}\n' % (m, m, m, m) +
           'pub fn t(a:&%s)->%s{a.transposed()}\n' % (m, M('i32', c, r)))
    for n, m in ((2, 3), (3, 2), (0, 1), (1, 0), (4, 5), (32, 31)):
        a, b = V('i32', n), V('i32', m)
        for op in '+-':
            for x, y in (('', ''), ('&', ''), ('', '&'), ('&', '&')):
                f = lambda q: fn('a:%s%s,b:%s%s' % (x, a, y, q), 'let _ = a %s b;' % op)
                no('vec-%d%s%d-%s%s' % (n, op, m, 'r' if x else 'v', 'r' if y else 'v'), f(b), f(a))
            f = lambda q: fn('a:&mut %s,b:%s' % (a, q), '*a %s= b;' % op)
            no('vec-%d%s=%d' % (n, op, m), f(b), f(a))
        f = lambda q: fn('a:%s,b:%s' % (a, q), 'let _ = a == b;')
        no('vec-%d==%d' % (n, m), f(b), f(a))
        f = lambda q: fn('a:&mut %s,b:%s' % (a, q), '*a = b;')
        no('vec-%d:=%d' % (n, m), f(b), f(a))
        f = lambda q: fn('a:%s,b:%s' % (a, q), 'let _ = a.dot(&b);')
        no('vec-%d-dot-%d' % (n, m), f(b), f(a))
    for (r, c), (r2, c2) in (((2, 3), (3, 2)), ((2, 3), (2, 2)), ((2, 3), (3, 3)), ((1, 1), (1, 2)), ((0, 2), (2, 0)), ((4, 4), (4, 5))):
        a, b = M('i32', r, c), M('i32', r2, c2)
        nm = '%dx%d,%dx%d' % (r, c, r2, c2)
        for op in '+-':
            for x, y in (('', ''), ('&', ''), ('', '&'), ('&', '&')):
                f = lambda q: fn('a:%s%s,b:%s%s' % (x, a, y, q), 'let _ = a %s b;' % op)
                no('mat-%s-%s-%s%s' % (op_id(op), nm, 'r' if x else 'v', 'r' if y else 'v'), f(b), f(a))
            f = lambda q: fn('a:&mut %s,b:%s' % (a, q), '*a %s= b;' % op)
            no('mat-%sa-%s' % (op_id(op), nm), f(b), f(a))
        f = lambda q: fn('a:%s,b:%s' % (a, q), 'let _ = a == b;')
        no('mat-eq-' + nm, f(b), f(a))
        f = lambda q: fn('a:&mut %s,b:%s' % (a, q), '*a = b;')
        no('mat-assign-' + nm, f(b), f(a))
        ff = M('f64', r, c), M('f64', r2, c2)
        f = lambda q: 'use approx::ApproxEq;' + fn('a:%s,b:%s' % (ff[0], q), 'let _ = a.relative_eq(&b, 0.1, 0.1);')
        no('mat-approx-' + nm, f(ff[1]), f(ff[0]))
    # products
    for r, k, c in ((2, 3, 4), (1, 3, 1), (3, 1, 3), (2, 2, 2), (0, 2, 3), (2, 0, 3), (2, 3, 0), (4, 4, 4)):
        ok('mat-mul-%d-%d-%d' % (r, k, c), forms('*', M('i32', r, k), M('i32', k, c), M('i32', r, c)))
        ok('mat-vec-%d-%d-%d' % (r, k, c), 'pub fn a(m:%s,v:%s)->%s{m*v} pub fn b(m:%s,v:&%s)->%s{m*v}\n' % (
            M('i32', r, k), V('i32', k), V('i32', r), M('i32', r, k), V('i32', k), V('i32', r)))
    for (r, k), (k2, c) in (((2, 3), (2, 3)), ((2, 3), (4, 3)), ((3, 2), (3, 2)), ((1, 2), (1, 2)), ((2, 2), (3, 2))):
        for x, y in (('', ''), ('&', ''), ('', '&'), ('&', '&')):
            f = lambda q: fn('a:%s%s,b:%s%s' % (x, M('i32', r, k), y, q), 'let _ = a * b;')
            no('mat-mul-%dx%d,%dx%d-%s%s' % (r, k, k2, c, 'r' if x else 'v', 'r' if y else 'v'), f(M('i32', k2, c)), f(M('i32', k, c)))
    for (r, k), n in (((2, 3), 2), ((2, 3), 4), ((3, 2), 3), ((1, 2), 1)):
        for y in ('', '&'):
            f = lambda q: fn('a:%s,b:%s%s' % (M('i32', r, k), y, V('i32', q)), 'let _ = a * b;')
            no('mat-vec-%dx%d,%d-%s' % (r, k, n, 'r' if y else 'v'), f(n), f(k))
    f = lambda q: fn('a:&mut %s,b:%s' % (M('i32', *q), M('i32', *q)), '*a *= b;')
    for q in ((2, 3), (3, 2), (1, 2)):
        no('mat-mula-%dx%d' % q, f(q), f((3, 3)))
    # square only
    for q in ((2, 3), (3, 2), (1, 2), (4, 5), (5, 4), (3, 4), (2, 1)):
        s = (q[0], q[0]) if q[0] > 1 else (2, 2)
        for nm, body in (('det', 'let _ = a.determinant();'), ('inv', 'let _ = a.inverse();'), ('cof', 'let _ = a.cofactor((0,0));'),
                         ('pow', 'let _ = a.pow(2);'), ('transpose', 'let mut a = a; a.transpose();')):
            g = lambda q: fn('a:%s' % M('f64', *q), body)
            no('%s-%dx%d' % (nm, q[0], q[1]), g(q), g(s))
        g = lambda q: fn('', 'let _ : %s = Matrix::identity();' % M('f64', *q))
        no('identity-%dx%d' % q, g(q), g(s))
        g = lambda q: fn('', 'let _ : %s = num::One::one();' % M('f64', *q))
        no('one-%dx%d' % q, g(q), g(s))
    for n in (1, 2, 3, 4, 5, 7, 8, 9):
        m = M('f64', n, n)
        ok('square-%d' % n, ('pub fn d(a:&%s)->f64{a.determinant()} pub fn i(a:&%s)->Option<%s>{a.inverse()} '
                             'pub fn p(a:&%s)->%s{a.pow(3)} pub fn t(a:&mut %s){a.transpose()} pub fn e()->%s{Matrix::identity()} '
                             'pub fn o()->%s{num::One::one()} pub fn ma(a:&mut %s,b:%s){*a*=b;}\n' % ((m,) * 10)) +
           ('pub fn c(a:&%s)->f64{a.cofactor((0,0))}\n' % m if n > 1 else ''))
    for n in (0, 1, 2, 4, 5):
        g = lambda q: fn('a:%s,b:%s' % (V('f64', q), V('f64', q)), 'let _ = a.cross(&b);')
        no('cross-%d' % n, g(n), g(3))
    ok('cross', 'pub fn w(a:&%s,b:&%s)->%s{a.cross(b)}' % ((V('f64', 3),) * 3))
    # chunks and reshaping
    for n, i in ((6, 2), (6, 3), (6, 1), (6, 6), (0, 3), (32, 8), (12, 4)):
        ok('chunks-%d-%d' % (n, i), 'pub fn w(a:%s)->Chunks<u8,%s,%s>{a.into_chunks::<%s>()} pub fn x(a:%s)->Option<%s>{a.into_chunks::<%s>().next()}' % (
            V('u8', n), u(n), u(i), u(i), V('u8', n), V('u8', i), u(i)))
    for n, i, g in ((6, 4, 3), (6, 0, 2), (7, 2, 7), (5, 3, 5), (8, 6, 4), (2, 4, 2), (0, 0, 1)):
        f = lambda q: fn('a:' + V('u8', n), 'let _ = a.into_chunks::<%s>();' % u(q))
        no('chunks-%d-%d' % (n, i), f(i), f(g))
    for r, c in ((2, 3), (3, 2), (1, 4), (4, 1), (4, 8)):
        ok('reshape-%dx%d' % (r, c), fn('v:' + V('u8', r * c), 'Matrix::from(v)', M('u8', r, c)))
        for d in (-1, 1):
            f = lambda q: fn('v:' + V('u8', q), 'Matrix::from(v)', M('u8', r, c))
            if r * c + d <= 32:
                no('reshape-%dx%d-%+d' % (r, c, d), f(r * c + d), f(r * c))
    # extremes
    for b in ('a.max()', 'a.min()', 'a.max_by(|x,y| x.cmp(y))', 'a.min_by(|x,y| x.cmp(y))'):
        nm = b.split('(')[0][2:]
        f = lambda q: fn('a:' + V('i32', q), 'let _ : i32 = %s;' % b)
        no('vec-%s-0' % nm, f(0), f(1))
        f = lambda q: fn('a:' + M('i32', q, q), 'let _ : i32 = %s;' % b)
        no('mat-%s-0' % nm, f(0), f(1))
        ok('extremes-%s' % nm, ''.join('pub fn v%d(a:%s)->i32{%s}\n' % (n, V('i32', n), b) for n in (1, 2, 3, 32)) +
           ''.join('pub fn m%d(a:%s)->i32{%s}\n' % (n, M('i32', n, n), b) for n in (1, 2, 3)))
    # constructors
    for n, k in ((2, 3), (3, 2), (0, 1), (1, 0), (32, 31)):
        f = lambda q: fn('a:[u8;%d]' % q, 'Vector::new(a)', V('u8', n))
        no('vec-new-%d-%d' % (n, k), f(k), f(n))
    for (r, c), (r2, c2) in (((2, 3), (3, 2)), ((2, 3), (2, 2)), ((2, 3), (1, 3)), ((0, 2), (2, 0))):
        f = lambda q: fn('a:[[u8;%d];%d]' % (q[1], q[0]), 'Matrix::new(a)', M('u8', r, c))
        no('mat-new-%dx%d-%dx%d' % (r, c, r2, c2), f((r2, c2)), f((r, c)))
    for r, c in ((2, 3), (3, 2), (1, 4), (4, 4), (3, 1)):
        k = min(r, c)
        for d in (-1, 1):
            f = lambda q: fn('a:[u8;%d]' % q, 'Matrix::diag(a)', M('u8', r, c))
            no('diag-%dx%d-%+d' % (r, c, d), f(k + d), f(k))
    # any shape, any element type: the shape conditions are the only ones
    ok('generic', '''
pub fn ident<T,N>()->Matrix<T,N,N> where T:Clone+num::Zero+num::One, N:ArrayLen<Vector<T,N>>+ArrayLen<T> { Matrix::identity() }
pub fn transp<T,R,C>(m:&Matrix<T,R,C>)->Matrix<T,C,R> where T:Clone, R:ArrayLen<Vector<T,C>>+ArrayLen<T>, C:ArrayLen<Vector<T,R>>+ArrayLen<T> { m.transposed() }
pub fn eqv<T:PartialEq<U>,U,N:ArrayLen<T>+ArrayLen<U>>(a:&Vector<T,N>,b:&Vector<U,N>)->bool { a == b }
''')
    o.append(W('generic-shapes-differ', 'no', 'pub fn e<T:PartialEq,N:ArrayLen<T>,K:ArrayLen<T>>(a:&Vector<T,N>,b:&Vector<T,K>)->bool { a == b }'))
    return o


# ------------------------------------------------------------------ C18
def c18():
    o = []
    chk = 'fn eq<T:Eq>(){}\nstruct P; impl PartialEq for P { fn eq(&self,_:&P)->bool{false} }\n'
    for t in ('f32', 'f64', 'P'):
        o.append(W('vec-eq-' + t, 'no', chk + fn('', 'eq::<%s>();' % V(t, 3)), chk + fn('', 'eq::<%s>();' % V('i32', 3))))
        o.append(W('mat-eq-' + t, 'no', chk + fn('', 'eq::<%s>();' % M(t, 2, 3)), chk + fn('', 'eq::<%s>();' % M('i32', 2, 3))))
    o.append(W('eq-generic', 'ok', '''fn eq<T:Eq>(){}
pub fn a<T:Eq,N:ArrayLen<T>>(){eq::<Vector<T,N>>()}
pub fn b<T:Eq,R:ArrayLen<Vector<T,C>>,C:ArrayLen<T>>(){eq::<Matrix<T,R,C>>()}
'''))
    o.append(W('eq-generic-partial-vec', 'no', 'fn eq<T:Eq>(){}\npub fn a<T:PartialEq,N:ArrayLen<T>>(){eq::<Vector<T,N>>()}'))
    o.append(W('eq-generic-partial-mat', 'no', 'fn eq<T:Eq>(){}\npub fn b<T:PartialEq,R:ArrayLen<Vector<T,C>>,C:ArrayLen<T>>(){eq::<Matrix<T,R,C>>()}'))
    return o


# ------------------------------------------------------------------ C21
def c21():
    o = []
    for n in range(1, 11):
        for t in ('f32', 'f64'):
            o.append(W('alias-vector%d%s' % (n, t), 'ok', fn('a:rowcol::prelude::Vector%d%s' % (n, t), 'a', V(t, n))))
    for n in (2, 3, 4):
        for t in ('f32', 'f64'):
            o.append(W('alias-matrix%d%s' % (n, t), 'ok', fn('a:rowcol::prelude::Matrix%d%s' % (n, t), 'a', M(t, n, n))))
    for n in range(33):
        o.append(W('storage-%d' % n, 'ok', 'pub fn w<T>(a:<%s as ArrayLen<T>>::Array)->[T;%d]{a} pub fn x<T>(a:[T;%d])->%s{Vector::new(a)} '
                   'pub fn y<T>(a:%s)->[T;%d]{a.into_inner()}' % (u(n), n, n, V('T', n), V('T', n), n)))
    tr = 'fn copy<T:Copy>(){} fn send<T:Send>(){} fn sync<T:Sync>(){}\n'
    good = ''
    for n in range(33):
        good += 'pub fn c%d(){ copy::<%s>(); copy::<%s>(); send::<%s>(); sync::<%s>(); }\n' % (
            n, V('u8', n), M('u8', n, 2), V('u8', n), V('u8', n))
    o.append(W('auto-traits-lengths', 'ok', tr + good))
    o.append(W('auto-traits-generic', 'ok', tr + ''.join('''
pub fn a%d<T:Copy>(){copy::<Vector<T,%s>>(); copy::<Matrix<T,%s,U2>>(); copy::<Matrix<T,U3,%s>>();}
pub fn b%d<T:Send>(){send::<Vector<T,%s>>(); send::<Matrix<T,%s,U2>>();}
pub fn c%d<T:Sync>(){sync::<Vector<T,%s>>(); sync::<Matrix<T,%s,U2>>();}''' % (n, u(n), u(n), u(n), n, u(n), u(n), n, u(n), u(n))
        for n in (0, 1, 3, 32))))
    for tname, bad, good in (('copy', 'String', 'u8'), ('copy', "&'static mut u8", "&'static u8"), ('send', 'std::rc::Rc<u8>', 'u8'),
                             ('send', '*const u8', 'usize'), ('sync', 'std::cell::Cell<u8>', 'u8'), ('sync', '*mut u8', 'usize')):
        for kind, f in (('vec', lambda t: V(t, 3)), ('mat', lambda t: M(t, 2, 3))):
            g = lambda t: tr + fn('', '%s::<%s>();' % (tname, f(t)))
            o.append(W('%s-%s-%s' % (kind, tname, ''.join(ch for ch in bad if ch.isalnum())), 'no', g(bad), g(good)))
    for tname, bad, good in (('send', 'std::rc::Rc<u8>', 'u8'), ('send', "std::sync::MutexGuard<'static,u8>", 'u8')):
        g = lambda t: tr + fn('', '%s::<IntoIter<%s,U3>>();' % (tname, t))
        o.append(W('intoiter-%s-%s' % (tname, ''.join(ch for ch in bad if ch.isalnum())), 'no', g(bad), g(good)))
        g = lambda t: tr + fn('', '%s::<Chunks<%s,U4,U2>>();' % (tname, t))
        o.append(W('chunks-%s-%s' % (tname, ''.join(ch for ch in bad if ch.isalnum())), 'no', g(bad), g(good)))
    lie = 'struct L(u8);\n%simpl ArrayLen<L> for typenum::U40 { type Array = [L;%d]; }\n'
    lie2 = 'struct L(u8);\n#[derive(Clone,Copy)] struct Mine;\n%simpl ArrayLen<L> for Mine { type Array = [L;%d]; }\n'
    o.append(W('safe-length-impl', 'no', lie % ('', 3), codes={'E0200', 'E0277', 'E0117', 'E0119', 'E0603', 'E0405'}))
    o.append(W('safe-length-impl-right-size', 'no', lie % ('', 40), codes={'E0200', 'E0277', 'E0117', 'E0119', 'E0603', 'E0405'}))
    o.append(W('safe-length-impl-own-type', 'no', lie2 % ('', 3), codes={'E0200', 'E0277', 'E0117', 'E0119', 'E0603', 'E0405'}))
    o.append(W('private-storage-vector', 'no', fn('a:[u8;3]', 'let v : Vector<u8,U3> = Vector(a);'), fn('a:[u8;3]', 'let v : Vector<u8,U3> = Vector::new(a);'),
               codes=TYPE_ERR | {'E0423', 'E0425', 'E0603', 'E0616'}))
    for t in ('u8', 'String'):
        o.append(W('clone-' + t, 'ok', 'fn cl<T:Clone>(){}\npub fn w(){cl::<%s>();cl::<%s>();}' % (V(t, 3), M(t, 2, 3))))
    return o


# ------------------------------------------------------------------ C22
def elems(n):
    return ', '.join(str(i) for i in range(n))


def c22():
    o = []
    H = '#![allow(warnings)]\n#[macro_use] extern crate rowcol;\n'
    P = 'rowcol::prelude::'
    for n in range(33):
        o.append(W('vector-%d' % n, 'ok', H + 'pub fn w() -> %sVector<i32, %sU%d> { vector![%s] }' % (P, P, n, elems(n)), head=False))
    shapes = [(0, 0), (1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (3, 3), (5, 4), (1, 32), (32, 1), (8, 9), (17, 16), (32, 32)]
    shapes += [(r, 0) for r in (1, 2, 3)]
    for r, c in shapes:
        o.append(W('matrix-%dx%d' % (r, c), 'ok', H + 'pub fn w() -> %sMatrix<i32, %sU%d, %sU%d> { matrix![%s] }' % (
            P, P, r, P, c, ', '.join('[%s]' % elems(c) for _ in range(r))), head=False))
    for rows in ('[1, 2], [3]', '[1], [2, 3]', '[1, 2], [3, 4], [5]', '[1, 2, 3], [4, 5, 6], [7, 8]', '[], [1]', '[1], []',
                 '[1, 2], [3, 4, 5]', '[1, 2, 3], [4, 5], [6, 7, 8]'):
        regular = ', '.join('[1, 2]' for _ in rows.split('],'))
        o.append(W('ragged-' + rows.replace(' ', ''), 'no', H + 'pub fn w() { let m = matrix![%s]; }' % rows,
                   H + 'pub fn w() { let m = matrix![%s]; }' % regular, head=False))
    body = ('pub fn a() -> [i32; 3] { vector![1, 2, 3].into_inner() }\n'
            'pub fn b() -> usize { matrix![[1, 2], [3, 4]].rows() }\n'
            'pub fn c() -> usize { let x = 1; vector![x, x + 1, if x > 0 { 2 } else { 3 }, { let y = 2; y * x }].len() }\n'
            'pub fn d() -> (usize, usize) { matrix![[f(1), f(2), f(3)], [f(4), f(5), f(6)]].dim() }\nfn f(x: i32) -> i32 { x }\n'
            'pub fn e() -> usize { matrix![[vector![1, 2], vector![3, 4]]].cols() }\n')
    for ed in ('2015', '2018', '2021', '2024'):
        o.append(W('downstream-' + ed, 'ok', H + body, head=False, edition=ed))
        o.append(W('downstream-nostd-' + ed, 'ok', '#![no_std]\n' + H + body, head=False, edition=ed))
        o.append(W('downstream-nested-' + ed, 'ok', H + 'pub mod inner { pub mod deeper {\n' + body + '} }\n', head=False, edition=ed))
        o.append(W('downstream-shadowed-' + ed, 'ok', H + 'mod core {} mod typenum {} mod vector {} mod matrix {} struct Vector; struct Matrix; struct U1; struct Sum;\n'
                   + body, head=False, edition=ed))
        # a fully named use of the macros, nothing imported
        o.append(W('downstream-by-path-' + ed, 'ok',
                   '#![allow(warnings)]\nextern crate rowcol;\n' + body.replace('vector!', '::rowcol::vector!').replace('matrix!', '::rowcol::matrix!'),
                   head=False, edition=ed))
    U = H + 'use rowcol::prelude::*;\npub struct N(pub u8);\npub fn n(x: u8) -> N { N(x) }\n'
    ok = {
        # an element expression is evaluated once: it can move, borrow exclusively, leave the function
        'moves': 'pub fn w(a: N, b: N, d: N) -> Vector<N, U3> { vector![a, b, d] }',
        'moves-matrix': 'pub fn w(a: N, b: N, d: N, e: N) -> Matrix<N, U2, U2> { matrix![[a, b], [d, e]] }',
        'moves-column': 'pub fn w(a: N, b: N) -> Matrix<N, U2, U1> { matrix![[a], [b]] }',
        'exclusive': 'pub fn w(a: &mut N, b: &mut N) -> usize { let v = vector![a, b]; v.len() }',
        'exclusive-matrix': 'pub fn w(a: &mut N, b: &mut N) -> (usize, usize) { let v = matrix![[a, b]]; v.dim() }',
        'question': 'pub fn w(a: Result<N, ()>, b: Result<N, ()>) -> Result<Vector<N, U2>, ()> { Ok(vector![a?, b?]) }',
        'question-matrix': 'pub fn w(a: Result<N, ()>, b: Result<N, ()>) -> Result<Matrix<N, U1, U2>, ()> { Ok(matrix![[a?, b?]]) }',
        'leaves': 'pub fn w(s: bool) -> Vector<N, U2> { vector![n(1), if s { n(2) } else { return vector![n(3), n(4)] }] }',
        'breaks': 'pub fn w() -> usize { let mut k = 0; loop { k += vector![1, if k > 3 { break } else { 2 }].len(); } k }',
        # ... in the order written
        'order': 'pub fn w() -> Vector<i32, U3> { let x; let y; vector![{ x = 1; 0 }, { y = x; x }, y] }',
        'order-row': 'pub fn w() -> Matrix<i32, U1, U2> { let x; matrix![[{ x = 1; 0 }, x]] }',
        'order-rows': 'pub fn w() -> Matrix<i32, U2, U1> { let x; matrix![[{ x = 1; 0 }], [x]] }',
        # any expression form
        'forms': 'pub fn w(a: i32, b: i32) -> usize { vector![a < b, a << 1 > b, !(a == b), a as u32 as usize > 3, match a { 0 => true, _ => false },'
                 ' { let q = a; q == b }, (a, b) == (b, a), [a, b] == [b, a], (|x: i32| x > 0)(a), a != -b].len() }',
        'forms-matrix': 'pub fn w(a: i32, b: i32) -> (usize, usize) { matrix![[a < b, a << 1 > b, !(a == b)], [a as u32 as usize > 3, match a { 0 => true, _ => false },'
                        ' { let q = a; q == b }]].dim() }',
        'closures': 'pub fn w() -> Vector<fn(i32) -> i32, U2> { vector![|x| x + 1, |x| x] }',
        'arrays': 'pub fn w() -> Vector<[i32; 2], U3> { vector![[1, 2], [3, 4], [5; 2]] }',
        'nested': 'pub fn w() -> Vector<Vector<i32, U1>, U2> { vector![vector![1], vector![2]] }',
        'nested-matrix': 'pub fn w() -> Vector<Matrix<i32, U1, U2>, U2> { vector![matrix![[1, 2]], matrix![[2, 3]]] }',
        'temporary': 'pub fn w() -> usize { vector![&n(1), &n(2)].len() + matrix![[&n(1), &n(2)]].cols() }',
        'unsized-pointers': 'pub fn w<\'a>(a: &\'a str, b: &\'a [u8]) -> (usize, usize) { (vector![a, a].len(), vector![b].len()) }',
        'names': 'pub fn w() -> usize { let (a, v, m, elem, first, rest, arr, n) = (1, 2, 3, 4, 5, 6, 7, 8); vector![a, v, m, elem, first, rest, arr, n].len() }',
        'through-macro': 'macro_rules! wrap { ($($x:expr),*) => { vector![$($x),*] } }\nmacro_rules! wrapm { ($($x:expr),*) => { matrix![[$($x),*], [$($x),*]] } }\n'
                         'pub fn w() -> (usize, (usize, usize)) { (wrap!(1, 2, 3 + 4).len(), wrapm!(1, 2, 3 + 4).dim()) }',
        'pattern-position': 'pub fn w() -> i32 { let s: i32 = vector![1, 2].iter().sum(); match vector![s, s].len() { 2 => s, _ => 0 } }',
        'statement': 'pub fn w() { vector![1, 2]; matrix![[1, 2], [3, 4]]; }',
        'method': 'pub fn w() -> (usize, usize) { (matrix![[1, 2], [3, 4]] * matrix![[1], [2]]).dim() }',
    }
    for k in sorted(ok):
        o.append(W('expr-' + k, 'ok', U + ok[k], head=False))
    o.append(W('no-unsafe-code', 'ok', '#![forbid(unsafe_code)]\n' + U + 'pub fn w() -> (usize, usize) { vector![1, 2, 3]; matrix![[1, 2], [3, 4]].dim() }', head=False))
    o.append(W('unsafe-stays-unsafe', 'no', U + 'pub fn w(p: *const i32) -> usize { vector![*p, 1].len() }',
               U + 'pub fn w(p: *const i32) -> usize { unsafe { vector![*p, 1].len() } }', codes=('E0133',), head=False))
    o.append(W('unsafe-stays-unsafe-matrix', 'no', U + 'pub fn w(p: *const i32) -> usize { matrix![[*p, 1]].cols() }',
               U + 'pub fn w(p: *const i32) -> usize { unsafe { matrix![[*p, 1]].cols() } }', codes=('E0133',), head=False))
    o.append(W('moved-once', 'no', U + 'pub fn w(a: N) -> Vector<N, U2> { vector![a, a] }', U + 'pub fn w(a: N, b: N) -> Vector<N, U2> { vector![a, b] }',
               codes=('E0382',), head=False))
    o.append(W('moved-once-matrix', 'no', U + 'pub fn w(a: N) -> Matrix<N, U2, U1> { matrix![[a], [a]] }',
               U + 'pub fn w(a: N, b: N) -> Matrix<N, U2, U1> { matrix![[a], [b]] }', codes=('E0382',), head=False))
    o.append(W('order-not-reversed', 'no', U + 'pub fn w() -> Vector<i32, U2> { let x; vector![x, { x = 1; 0 }] }',
               U + 'pub fn w() -> Vector<i32, U2> { let x; vector![{ x = 1; 0 }, x] }', codes=('E0381',), head=False))
    o.append(W('order-not-reversed-matrix', 'no', U + 'pub fn w() -> Matrix<i32, U2, U1> { let x; matrix![[x], [{ x = 1; 0 }]] }',
               U + 'pub fn w() -> Matrix<i32, U2, U1> { let x; matrix![[{ x = 1; 0 }], [x]] }', codes=('E0381',), head=False))
    for r, c in ((2, 1), (1, 2), (2, 3), (3, 2), (4, 4), (0, 0)):
        rows = ', '.join('[%s]' % elems(c) for _ in range(r))
        o.append(W('not-other-shape-%dx%d' % (r, c), 'no', U + 'pub fn w() -> Matrix<i32, U%d, U%d> { matrix![%s] }' % (r, c + 1, rows),
                   U + 'pub fn w() -> Matrix<i32, U%d, U%d> { matrix![%s] }' % (r, c, rows), head=False))
    # for every length: without the standard library, without unsafe code, each element moved, each element able to leave the function
    S = '#![no_std]\n#![forbid(unsafe_code)]\n' + U
    for n in range(33):
        ps, xs = ', '.join('x%d: N' % i for i in range(n)), ', '.join('x%d' % i for i in range(n))
        o.append(W('plain-%d' % n, 'ok', S + 'pub fn w(%s) -> Vector<N, U%d> { vector![%s] }\n' % (ps, n, xs)
                   + 'pub fn q(%s) -> Option<Vector<N, U%d>> { Some(vector![%s]) }\n' % (ps.replace(': N', ': Option<N>'), n, xs.replace(',', '?,') + '?' * (n > 0)), head=False))
    for r, c in ((0, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (4, 4), (1, 17), (17, 1), (1, 32), (32, 1), (6, 9)):
        ps = ', '.join('x%d_%d: N' % (i, j) for i in range(r) for j in range(c))
        xs = ', '.join('[%s]' % ', '.join('x%d_%d' % (i, j) for j in range(c)) for i in range(r))
        o.append(W('plain-%dx%d' % (r, c), 'ok', S + 'pub fn w(%s) -> Matrix<N, U%d, U%d> { matrix![%s] }\n' % (ps, r, c, xs)
                   + 'pub fn q(%s) -> Option<Matrix<N, U%d, U%d>> { Some(matrix![%s]) }\n' % (
                       ps.replace(': N', ': Option<N>'), r, c, ', '.join('[%s]' % ', '.join('x%d_%d?' % (i, j) for j in range(c)) for i in range(r))), head=False))
    o.append(W('renamed', 'ok', '#![allow(warnings)]\n#[macro_use] extern crate rowcol as rc;\n' + body, head=False))
    return o


# ------------------------------------------------------------------ C26
BORROW = {'E0499', 'E0502', 'E0505', 'E0506', 'E0597', 'E0515', 'E0716', 'E0382', 'E0596', 'E0521', 'E0594', 'E0503', 'E0621', 'E0495', 'E0312', 'E0623', None}


def c26():
    """borrowed views: tied to the value they come from, not to the iterator; exclusive when mutable"""
    o = []
    v, m = V('String', 4), M('String', 2, 3)
    # items outlive the iterator they came from, and the place the view was taken through
    o.append(W('items-outlive-iterator', 'ok', """
pub fn a<'a>(v:&'a VV)->&'a String{ let r={let mut i=v.iter(); i.next(); i.next_back().unwrap()}; r }
pub fn b<'a>(v:&'a mut VV)->&'a mut String{ let r={let mut i=v.iter_mut(); i.next(); i.next_back().unwrap()}; r }
pub fn c<'a>(m:&'a MM)->&'a [String]{ let r={let mut i=m.rows_iter_ref(); i.next(); i.next_back().unwrap()}; r }
pub fn d<'a>(m:&'a MM)->&'a String{ let r={let mut i=m.cols_iter_ref(); let mut k=i.next().unwrap(); k.next(); k.next_back().unwrap()}; r }
pub fn e<'a>(m:&'a MM)->ColsIterRefInner<'a,String,U2,U3>{ let r={let mut i=m.cols_iter_ref(); i.next(); i.next_back().unwrap()}; r }
pub fn f<'a>(m:&'a MM)->Vec<&'a String>{ m.cols_iter_ref().flat_map(|c|c).collect() }
pub fn g<'a>(m:&'a MM)->Vec<&'a [String]>{ let mut i=m.rows_iter_ref(); let x=i.next().unwrap(); let y=i.next().unwrap(); vec![x,y] }
pub fn h(m:&MM)->Vec<Vector<String,U3>>{ let mut i=m.rows_iter(); let x=i.next().unwrap(); let y=i.next_back().unwrap(); vec![x,y] }
pub fn i(m:&MM)->Vec<Vector<String,U2>>{ let mut i=m.cols_iter(); let x=i.next().unwrap(); let y=i.next_back().unwrap(); vec![x,y] }
pub fn j<'a>(v:&'a VV)->&'a [String]{ v.as_slice() }
pub fn k<'a>(v:&'a mut VV)->&'a mut [String]{ v.as_slice_mut() }
pub fn l<'a>(v:&'a VV,i:usize)->&'a String{ &v[i] }
pub fn n<'a>(m:&'a MM,i:(usize,usize))->&'a String{ let j=i; &m[j] }
pub fn p<'a>(m:&'a mut MM,i:(usize,usize))->&'a mut String{ let j=i; &mut m[j] }
pub fn q<'a>(m:&'a MM)->&'a String{ &m[(U1::new(),U2::new())] }
pub fn r<'a>(v:&'a VV)->RVV<'a>{ let i=v.iter(); i }
pub fn s<'a>(m:&'a MM)->RowsIterRef<'a,String,U2,U3>{ m.rows_iter_ref() }
pub fn t<'a>(m:&'a MM)->ColsIterRef<'a,String,U2,U3>{ m.cols_iter_ref() }
pub fn u<'a>(m:&'a MM)->RowsIter<'a,String,U2,U3>{ m.rows_iter() }
pub fn w<'a>(m:&'a MM)->ColsIter<'a,String,U2,U3>{ m.cols_iter() }
pub fn x<'a>(m:&'a MM)->&'a [String]{ m.rows_iter_ref().nth(1).unwrap() }
pub fn y<'a>(m:&'a MM)->&'a String{ m.cols_iter_ref().nth(1).unwrap().nth(1).unwrap() }
pub fn z<'a>(v:&'a VV)->&'a [String]{ v.as_ref() }
use rowcol::matrix::iter::*;
type RVV<'a>=std::slice::Iter<'a,String>;
type VV=%s; type MM=%s;
""" % (v, m)))
    # elements are borrowed at their own lifetime
    o.append(W('elements-keep-lifetime', 'ok', """
pub fn a<'b>(v:Vector<&'b str,U3>)->Vec<&'b str>{ v.into_iter().collect() }
pub fn b<'b>(m:&Matrix<&'b str,U2,U2>)->&'b str{ m[(0,1)] }
pub fn c<'a,'b>(m:&'a Matrix<&'b str,U2,U2>)->Vec<&'b str>{ m.rows_iter().flat_map(|r|r).collect() }
pub fn d<'b>(v:Vector<&'b str,U4>)->Vec<Vector<&'b str,U2>>{ v.into_chunks::<U2>().collect() }
pub fn e<'b>(m:Matrix<&'b str,U2,U3>)->Matrix<&'b str,U3,U2>{ m.transposed() }
pub fn f<'b>(v:&Vector<&'b str,U3>)->&'b str{ v.max() }
pub fn g<'s>(v:&'s Vector<String,U3>, w:&'s Vector<String,U3>)->Vector<&'s String,U3>{ v.iter().collect() }
pub fn h<'long:'short,'short>(v:Vector<&'long str,U2>)->Vector<&'short str,U2>{ v.into_iter().map(|x|{let y:&'short str=x; y}).collect() }
"""))
    # several shared views at a time, views while reading
    o.append(W('shared-views-coexist', 'ok', """
pub fn a(v:&%s)->usize{ let a=v.iter(); let b=v.iter(); let c=&v[0]; let s=v.as_slice(); a.count()+b.count()+c.len()+s.len()+v.len() }
pub fn b(m:&%s)->usize{ let a=m.rows_iter_ref(); let b=m.cols_iter_ref(); let c=&m[(0,0)]; let d=m.rows_iter(); let e=m.cols_iter(); let f=m.rows_iter_ref();
  a.count()+b.count()+c.len()+d.count()+e.count()+f.count()+m.rows() }
pub fn c(v:&mut %s){ for x in v.iter_mut(){ x.push('a'); } v[0].push('b'); for x in v.as_slice_mut(){ x.push('c') } }
pub fn d(m:&mut %s){ let a=m.rows_iter_ref().count(); m[(0,1)].push('b'); let b=m.cols_iter_ref().count(); m.transpose_it(); }
trait TT{fn transpose_it(&mut self);} impl TT for %s{fn transpose_it(&mut self){}}
pub fn e(v:&mut %s){ let (a,b)=v.as_slice_mut().split_at_mut(2); std::mem::swap(&mut a[0],&mut b[1]); }
pub fn f(mut v:%s)->%s{ { let mut i=v.iter_mut(); let a=i.next().unwrap(); let b=i.next_back().unwrap(); std::mem::swap(a,b); } v }
""" % (v, m, v, m, m, v, v, v)))

    def no(wid, ty, body, fine, extra=''):
        f = lambda b: extra + 'pub fn w(mut x:%s){ %s }\n' % (ty, b)
        o.append(W(wid, 'no', f(body), f(fine), codes=BORROW))
    use = 'drop(r);'
    views = {'vec': [('iter', 'x.iter()'), ('slice', 'x.as_slice()'), ('index', '&x[0]'), ('static-index', '&x[U0::new()]'), ('as-ref', '{let s:&[String]=x.as_ref(); s}'),
                     ('item', 'x.iter().next()')],
             'mat': [('rows', 'x.rows_iter()'), ('cols', 'x.cols_iter()'), ('rows-ref', 'x.rows_iter_ref()'), ('cols-ref', 'x.cols_iter_ref()'),
                     ('index', '&x[(0,0)]'), ('static-index', '&x[(U0::new(),U1::new())]'), ('row', 'x.rows_iter_ref().next()'),
                     ('col', 'x.cols_iter_ref().next()'), ('entry', 'x.cols_iter_ref().next().unwrap().next()')]}
    muts = {'vec': [('iter', 'x.iter_mut()'), ('slice', 'x.as_slice_mut()'), ('index', '&mut x[0]'), ('static-index', '&mut x[U0::new()]'),
                    ('item', 'x.iter_mut().next()'), ('as-mut', '{let s:&mut [String]=x.as_mut(); s}')],
            'mat': [('index', '&mut x[(0,0)]'), ('static-index', '&mut x[(U1::new(),U0::new())]')]}
    for k, ty, wr, rd in (('vec', v, 'x[0].push(\'a\');', 'x[1].len();'), ('mat', m, 'x[(0,0)].push(\'a\');', 'x[(1,1)].len();')):
        for nm, e in views[k]:
            no('%s-%s-then-write' % (k, nm), ty, 'let r=%s; %s %s' % (e, wr, use), 'let r=%s; %s %s' % (e, use, wr))
            no('%s-%s-then-move' % (k, nm), ty, 'let r=%s; drop(x); %s' % (e, use), 'let r=%s; %s drop(x);' % (e, use))
            no('%s-%s-outlives' % (k, nm), ty, 'let r; { let x=x; r=%s; } %s' % (e, use), 'let r; { r=%s; } %s' % (e, use))
        for nm, e in muts[k]:
            no('%s-mut-%s-then-read' % (k, nm), ty, 'let r=%s; %s %s' % (e, rd, use), 'let r=%s; %s %s' % (e, use, rd))
            no('%s-mut-%s-twice' % (k, nm), ty, 'let r=%s; let q=%s; drop(q); %s' % (e, e, use), 'let r=%s; %s let q=%s; drop(q);' % (e, use, e))
            no('%s-mut-%s-then-move' % (k, nm), ty, 'let r=%s; drop(x); %s' % (e, use), 'let r=%s; %s drop(x);' % (e, use))
    # taking a value apart consumes it
    for nm, e in (('into-iter', 'x.into_iter()'), ('into-inner', 'x.into_inner()'), ('into-chunks', 'x.into_chunks::<U2>()'),
                  ('into-matrix', '{let y:Matrix<String,U2,U2>=x.into(); y}')):
        no('vec-%s-consumes' % nm, v, 'let r=%s; drop(x.len()); %s' % (e, use), 'drop(x.len()); let r=%s; %s' % (e, use))
    no('mat-map-consumes', m, 'let r=x.map(|_,e|e); drop(x.rows()); ' + use, 'drop(x.rows()); let r=x.map(|_,e|e); ' + use)
    # a shared reference gives no mutable access
    for nm, ty, e, f in (('vec-index', v, 'x[0].push(\'a\');', 'x[0].len();'), ('vec-iter', v, 'x.iter_mut();', 'x.iter();'), ('mat-index', m, 'x[(0,0)].push(\'a\');', 'x[(0,0)].len();'),
                         ('vec-slice', v, 'x.as_slice_mut();', 'x.as_slice();'), ('mat-static', m, 'x[(U0::new(),U0::new())].push(\'a\');', 'x[(U0::new(),U0::new())].len();'),
                         ('mat-row', m, 'x.rows_iter_ref().next().unwrap()[0].push(\'a\');', 'x.rows_iter_ref().next().unwrap()[0].len();'),
                         ('mat-col', m, 'x.cols_iter_ref().next().unwrap().next().unwrap().push(\'a\');', 'x.cols_iter_ref().next().unwrap().next().unwrap().len();')):
        o.append(W('shared-%s' % nm, 'no', 'pub fn w(x:&%s){ %s }\n' % (ty, e), 'pub fn w(x:&%s){ %s }\n' % (ty, f), codes=BORROW))
    # unchecked access needs unsafe
    for nm, e in (('get', 'x.get_unchecked(1)'), ('get-mut', 'x.get_unchecked_mut(1)')):
        f = lambda b: 'pub fn w(mut x:%s){ %s }\n' % (v, b)
        o.append(W('unchecked-%s-is-unsafe' % nm, 'no', f('Vector::' + e.replace('x.', '').replace('(1)', '(%sx,1);' % ('&mut ' if 'mut' in nm else '&'))),
                   f('unsafe{Vector::' + e.replace('x.', '').replace('(1)', '(%sx,1);' % ('&mut ' if 'mut' in nm else '&')) + '}'), codes={'E0133'}))
    return o


# ------------------------------------------------------------------ C27
def c27():
    """operations ask no more of elements than their definitions use"""
    o = []

    def ok(wid, code):
        o.append(W(wid, 'ok', code))
    G = 'N:ArrayLen<T>'
    MG = 'R:ArrayLen<Vector<T,C>>,C:ArrayLen<T>'
    ok('any-element-vector', """pub struct P;
pub fn a<T,%s>(x:N::Array)->Vector<T,N>{Vector::new(x)}
pub fn b<T,%s,F:FnMut(usize)->T>(f:F)->Vector<T,N>{Vector::generate(f)}
pub fn c<T,%s>(v:Vector<T,N>)->N::Array{v.into_inner()}
pub fn d<T,%s>(v:&Vector<T,N>)->&[T]{v.as_slice()}
pub fn e<T,%s>(v:&mut Vector<T,N>)->&mut [T]{v.as_slice_mut()}
pub fn f<T,%s>(v:&Vector<T,N>)->usize{v.iter().count()+v.len()+(v.is_empty() as usize)}
pub fn g<T,%s>(v:&mut Vector<T,N>)->usize{v.iter_mut().count()}
pub fn h<T,%s>(v:Vector<T,N>)->Vec<T>{v.into_iter().rev().collect()}
pub fn i<T,%s,I:Iterator<Item=T>>(it:I)->Vector<T,N>{it.collect()}
pub fn j<T,%s>(v:&Vector<T,N>)->&T{&v[0]}
pub fn k<T,%s>(v:&mut Vector<T,N>)->&mut T{&mut v[0]}
pub fn l<T>(v:&Vector<T,U3>)->(&T,&T){(&v[U0::new()],&v[U2::new()])}
pub fn m<T>(v:&mut Vector<T,U3>)->&mut T{&mut v[U1::new()]}
pub fn n<T>(v:Vector<T,U6>)->Vec<Vector<T,U2>>{v.into_chunks::<U2>().collect()}
pub fn p<T>(v:Vector<T,U6>)->Matrix<T,U2,U3>{v.into()}
pub fn q<T,%s>(v:Vector<T,N>)->usize{let i=v.into_iter(); let k=i.len(); k+i.size_hint().0+i.count()}
pub fn r<T,%s>(v:&Vector<T,N>)->&[T]{v.as_ref()}
pub fn s<T,%s>(v:&mut Vector<T,N>)->&mut [T]{v.as_mut()}
pub fn t(v:Vector<P,U4>)->Vector<P,U4>{v.into_iter().rev().collect()}
pub fn u()->Vector<P,U2>{vector_of()} fn vector_of()->Vector<P,U2>{Vector::new([P,P])}
""" % ((G,) * 14))
    ok('any-element-matrix', """pub struct P;
pub fn b<T,%s,F:FnMut((usize,usize))->T>(f:F)->Matrix<T,R,C>{Matrix::generate(f)}
pub fn d<T,%s>(m:&Matrix<T,R,C>)->usize{m.rows_iter_ref().count()+m.cols_iter_ref().count()+m.rows()+m.cols()+m.dim().0}
pub fn e<T,%s>(m:&Matrix<T,R,C>,k:usize)->usize{m.cols_iter_ref().nth(k).map_or(0,|c|c.rev().count())}
pub fn f<T,%s>(m:&Matrix<T,R,C>)->bool{m.all(|_,_|true)||m.any(|_,_|false)}
pub fn g<T,%s>(m:&Matrix<T,R,C>)->&T{&m[(0,0)]}
pub fn h<T,%s>(m:&mut Matrix<T,R,C>)->&mut T{&mut m[(0,0)]}
pub fn i<T>(m:&Matrix<T,U2,U3>)->&T{&m[(U1::new(),U2::new())]}
pub fn j<T>(m:&mut Matrix<T,U2,U3>)->&mut T{&mut m[(U0::new(),U2::new())]}
pub fn k<T,U>(m:Matrix<T,U2,U3>,f:&Fn(T)->U)->Matrix<U,U2,U3>{m.map(|_,x|f(x))}
pub fn l<T>(a:[[T;3];2])->Matrix<T,U2,U3>{Matrix::new(a)}
pub fn m<T,R,C,U>(m:Matrix<T,R,C>,f:&Fn(T)->U)->Matrix<U,R,C> where C:ArrayLen<T>+ArrayLen<U>, R:ArrayLen<Vector<T,C>>+ArrayLen<Vector<U,C>> {m.map(|_,x|f(x))}
pub fn n(m:Matrix<P,U2,U3>)->Matrix<P,U2,U3>{m.map(|_,x|x)}
""" % ((MG,) * 6))
    ok('clone-element', """pub fn a<T:Clone,%s>(v:&Vector<T,N>)->Vector<T,N>{v.clone()}
pub fn b<T:Clone,%s>(m:&Matrix<T,R,C>)->Matrix<T,R,C>{m.clone()}
pub fn c<T:Clone>(m:&Matrix<T,U2,U3>)->Matrix<T,U3,U2>{m.transposed()}
pub fn d<T:Clone,N:ArrayLen<T>+ArrayLen<Vector<T,N>>>(m:&mut Matrix<T,N,N>){m.transpose()}
pub fn e<T:Clone,R:ArrayLen<Vector<T,C>>+ArrayLen<T>,C:ArrayLen<T>>(m:&Matrix<T,R,C>)->usize{m.rows_iter().count()+m.cols_iter().count()}
pub fn f<T:Clone>(v:&Vector<T,U3>)->T{v.max_by(|_,_|std::cmp::Ordering::Equal)}
pub fn g<T:Clone>(v:&Vector<T,U3>)->T{v.min_by(|_,_|std::cmp::Ordering::Equal)}
pub fn h<T:Clone>(v:&Matrix<T,U3,U3>)->T{v.min_by(|_,_|std::cmp::Ordering::Equal)}
pub fn i<T:Clone>(v:&Matrix<T,U3,U3>)->T{v.max_by(|_,_|std::cmp::Ordering::Equal)}
pub fn j<T:Clone>(m:&Matrix<T,U1,U1>)->T{m.determinant()}
pub fn k<T:Clone,R,C>(m:&Matrix<T,R,C>)->Matrix<T,C,R> where C:ArrayLen<T>+ArrayLen<Vector<T,R>>, R:ArrayLen<Vector<T,C>>+ArrayLen<T>{m.transposed()}
""" % (G, MG))
    ok('comparing-elements', """pub struct A; pub struct B; impl PartialEq<B> for A{fn eq(&self,_:&B)->bool{true}} impl PartialEq for A{fn eq(&self,_:&A)->bool{true}}
pub fn a<T:PartialEq<U>,U,N:ArrayLen<T>+ArrayLen<U>>(v:&Vector<T,N>,w:&Vector<U,N>)->bool{v==w}
pub fn b<T:PartialEq,%s>(m:&Matrix<T,R,C>,w:&Matrix<T,R,C>)->bool{m==w}
pub fn c(v:&Vector<A,U3>,w:&Vector<B,U3>)->bool{v==w}
pub fn d(v:&Matrix<A,U3,U2>,w:&Matrix<A,U3,U2>)->bool{v==w}
pub fn e<T:Ord+Clone>(v:&Vector<T,U3>)->(T,T){(v.max(),v.min())}
pub fn f<T:Ord+Clone>(v:&Matrix<T,U3,U3>)->(T,T){(v.max(),v.min())}
pub fn g<T:Ord+Clone,%s>(mut v:Vector<T,N>,a:T,b:T)->Vector<T,N>{v.clamp(a.clone(),b.clone()); v.clamped(a,b)}
pub fn h<T:Ord+Clone,%s>(mut m:Matrix<T,R,C>,a:T,b:T)->Matrix<T,R,C>{m.clamp(a.clone(),b.clone()); m.clamped(a,b)}
""" % (MG, G, MG))
    ok('uniform-values', """use num::{Zero,One,Bounded};
pub fn a<T:Default,%s>()->Vector<T,N>{Default::default()}
pub fn b<T:Default,%s>()->Matrix<T,R,C>{Default::default()}
pub fn c<T:Bounded,%s>()->(Vector<T,N>,Vector<T,N>){(Bounded::min_value(),Bounded::max_value())}
pub fn d<T:Bounded,%s>()->(Matrix<T,R,C>,Matrix<T,R,C>){(Bounded::min_value(),Bounded::max_value())}
pub fn e<T:Zero+Clone,%s>(v:&Vector<T,N>)->Vector<T,N>{v.is_zero(); Zero::zero()}
pub fn f<T:Zero,%s>(m:&Matrix<T,R,C>)->Matrix<T,R,C>{m.is_zero(); Zero::zero()}
pub fn g<T:Zero+One+Clone>()->Matrix<T,U4,U4>{Matrix::identity()}
pub fn h<T:Zero+Clone>(a:[T;2])->Matrix<T,U2,U3>{Matrix::diag(a)}
pub fn i<T:Zero+One+Clone+Mul<T,Output=T>>()->Matrix<T,U4,U4>{One::one()}
""" % (G, MG, G, MG, G, MG))
    ops = (('Add', '+', 'AddAssign', '+='), ('Sub', '-', 'SubAssign', '-='))
    for tr, op, tra, opa in ops:
        ok('mixed-%s-vector' % tr.lower(), """pub struct X; pub struct Y; pub struct Z;
impl %(t)s<Y> for X{type Output=Z;fn %(f)s(self,_:Y)->Z{Z}} impl<'a> %(t)s<&'a Y> for X{type Output=Z;fn %(f)s(self,_:&'a Y)->Z{Z}}
impl<'b> %(t)s<Y> for &'b X{type Output=Z;fn %(f)s(self,_:Y)->Z{Z}} impl<'a,'b> %(t)s<&'a Y> for &'b X{type Output=Z;fn %(f)s(self,_:&'a Y)->Z{Z}}
impl %(ta)s<Y> for X{fn %(fa)s(&mut self,_:Y){}}
type A=Vector<X,U3>; type B=Vector<Y,U3>; type C=Vector<Z,U3>;
pub fn a(x:A,y:B)->C{x %(o)s y} pub fn b(x:&A,y:B)->C{x %(o)s y} pub fn c(x:A,y:&B)->C{x %(o)s y} pub fn d(x:&A,y:&B)->C{x %(o)s y}
pub fn e(x:&mut A,y:B){*x %(oa)s y;}
""" % {'t': tr, 'f': tr.lower(), 'o': op, 'ta': tra, 'fa': tr.lower() + '_assign', 'oa': opa})
        ok('one-form-%s-matrix' % tr.lower(), """pub struct X; pub struct Z;
impl %(t)s for X{type Output=Z;fn %(f)s(self,_:X)->Z{Z}} impl<'a> %(t)s<&'a X> for X{type Output=Z;fn %(f)s(self,_:&'a X)->Z{Z}}
impl<'b> %(t)s<X> for &'b X{type Output=Z;fn %(f)s(self,_:X)->Z{Z}} impl<'a,'b> %(t)s<&'a X> for &'b X{type Output=Z;fn %(f)s(self,_:&'a X)->Z{Z}}
pub struct Y; impl %(ta)s<Y> for X{fn %(fa)s(&mut self,_:Y){}}
type A=Matrix<X,U3,U2>; type C=Matrix<Z,U3,U2>;
pub fn a(x:A,y:A)->C{x %(o)s y} pub fn b(x:&A,y:A)->C{x %(o)s y} pub fn c(x:A,y:&A)->C{x %(o)s y} pub fn d(x:&A,y:&A)->C{x %(o)s y}
pub fn e(x:&mut A,y:Matrix<Y,U3,U2>){*x %(oa)s y;}
""" % {'t': tr, 'f': tr.lower(), 'o': op, 'ta': tra, 'fa': tr.lower() + '_assign', 'oa': opa})
    ok('negation', """pub struct X; pub struct Z; impl Neg for X{type Output=Z;fn neg(self)->Z{Z}}
pub fn a(x:Vector<X,U3>)->Vector<Z,U3>{-x} pub fn b(x:Matrix<X,U3,U2>)->Matrix<Z,U3,U2>{-x}
""")
    for tr, op in (('Mul', '*'), ('Div', '/')):
        ok('mixed-%s-scalar-vector' % tr.lower(), """pub struct X; #[derive(Clone)] pub struct Y; pub struct Z;
impl %(t)s<Y> for X{type Output=Z;fn %(f)s(self,_:Y)->Z{Z}} impl %(t)sAssign<Y> for X{fn %(f)s_assign(&mut self,_:Y){}}
pub fn a(x:Vector<X,U3>,y:Y)->Vector<Z,U3>{x %(o)s y} pub fn b(x:&mut Vector<X,U3>,y:Y){*x %(o)s= y;}
""" % {'t': tr, 'f': tr.lower(), 'o': op})
    ok('scalar-matrix', """
pub fn a<T:Mul<Output=T>+Clone>(m:Matrix<T,U2,U3>,k:T)->Matrix<T,U2,U3>{m*k}
pub fn b<T:Div<Output=T>+Clone>(m:Matrix<T,U2,U3>,k:T)->Matrix<T,U2,U3>{m/k}
""")
    ok('sums', """use num::{Zero,One,Float};
pub fn a<T:Zero+Clone,%s>(v:&Vector<T,N>)->T{v.sum()}
pub fn b<T:Zero+Clone,%s>(m:&Matrix<T,R,C>)->T{m.sum()}
pub fn c<T:Zero+Clone+Mul<T,Output=T>,%s>(v:&Vector<T,N>,w:&Vector<T,N>)->T{v.dot(w)}
pub fn d<T:Clone+Sub<T,Output=T>+Mul<T,Output=T>>(v:&Vector<T,U3>,w:&Vector<T,U3>)->Vector<T,U3>{v.cross(w)}
pub fn e<T:Float,%s>(v:&Vector<T,N>)->(T,Vector<T,N>){(v.norm(),v.normalized())}
pub fn f<T:Zero+One+Clone>(m:&Matrix<T,U3,U3>)->Matrix<T,U3,U3>{m.pow(3)}
pub fn g<T:Zero+Clone+Mul<T,Output=T>>(m:Matrix<T,U2,U3>,n:Matrix<T,U3,U4>)->Matrix<T,U2,U4>{m*n}
pub fn h<T:Clone+Sub<T,Output=T>+Mul<T,Output=T>>(m:&Matrix<T,U2,U2>)->T{m.determinant()}
pub fn i<T:Clone+Add<T,Output=T>+Sub<T,Output=T>+Mul<T,Output=T>>(m:&Matrix<T,U3,U3>)->T{m.determinant()}
pub fn j<T:num::Signed+Clone>(m:&Matrix<T,U4,U4>)->T{m.determinant()}
pub fn k<T:Clone+Zero+One+Div<T,Output=T>>(m:&Matrix<T,U1,U1>)->Option<Matrix<T,U1,U1>>{m.inverse()}
pub fn l<T:num::Signed+Clone>(m:&Matrix<T,U2,U2>,n:&Matrix<T,U3,U3>,p:&Matrix<T,U4,U4>)->(T,T,T){(m.cofactor((0,0)),n.cofactor((0,0)),p.cofactor((0,0)))}
pub fn n<T:num::Signed+Clone>(m:&Matrix<T,U2,U2>,n:&Matrix<T,U3,U3>,p:&Matrix<T,U5,U5>){m.inverse();n.inverse();p.inverse();}
""" % (G, MG, G, G))
    ok('formatting', """use std::fmt::{Debug,Display};
pub fn a<T:Debug,%s>(v:&Vector<T,N>)->String{format!("{:?}",v)}
pub fn b<T:Debug,%s>(m:&Matrix<T,R,C>)->String{format!("{:?}",m)}
pub fn c<T:Display>(m:&Matrix<T,U2,U3>)->String{format!("{}",m)}
""" % (G, MG))
    return o


TABLE = {'C26': c26, 'C27': c27, 'C04': c04, 'C05': c05, 'C18': c18, 'C21': c21, 'C22': c22}
