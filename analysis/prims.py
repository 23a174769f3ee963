"""Meaning of calls: resolution of trait methods and closures, reference models, and the
primitive operations that have no MIR of their own."""
from terms import *
from facts import feasible, entails
import terms
import mir
from mir import UNK, short, model_key

INTS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128'}
NODROP = {'NoDrop', 'ManuallyDrop', 'MaybeUninit', 'PhantomData'}
MAXU_ = c(2 ** 64 - 1)
TRANSPARENT = {'NoDrop', 'ManuallyDrop', 'MaybeUninit'}
ARITH = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}
NONE = adt('Option', 0)
UNITT = ('tuple', ())


def some(v):
    return adt('Option', 1, v)


def unvref(v):
    while v.op == 'vref':
        v = v.a[0]
    return v


def strip(t):
    while t[0] == 'ref':
        t = t[2]
    return t


def is_int(t):
    return t[0] == 'prim' and t[1] in INTS


ORDT = ('adt', 'core::cmp::Ordering', ())


class Prims:
    def __init__(self, I):
        self.I = I
        self.db = I.db
        self.ntmp = 0
        self.table = {}
        for n in dir(self):
            if n.startswith('p_'):
                self.table[n[2:]] = getattr(self, n)
        self.override = {}          # fn id -> handler(st, ft, args, dt) (modular treatment)

    # ------------------------------------------------------------ values
    def val(self, st, v):
        """strip references: the value an operand designates"""
        n = 0
        while n < 8:
            if v.op == 'vref':
                v = v.a[0]
            elif v.op == 'mref':
                v = self.I.read(st, ('mem', v.a[0], v.a[1]))
            elif v.op == 'eptr':
                v = sel(v.a[0], v.a[1])
            elif v.op == 'ite' and (v.a[1].op in ('vref', 'mref', 'deref') or v.a[2].op in ('vref', 'mref', 'deref')):
                return ite(v.a[0], self.val(st, v.a[1]), self.val(st, v.a[2]))
            else:
                return v
            n += 1
        return v

    def symval(self, name, ty, idxs=()):
        """opaque value of a type; idxs are index/argument terms"""
        db = self.db
        k = ty[0]
        if k == 'prim':
            if ty[1] == 'bool':
                return pred(app(name, *idxs))
            if ty[1] in INTS:
                return iapp(name, *idxs)
            return app(name, *idxs)
        if k == 'tuple':
            return tup(*[self.symval('%s.%d' % (name, i), t, idxs) for i, t in enumerate(ty[1])])
        if k == 'ref':
            return vref(self.symval(name, ty[2], idxs))
        if k == 'array':
            n = self.len_node(ty[2])
            return comp_f(n, lambda i: self.symval(name, ty[1], idxs + (i,)))
        if k == 'adt':
            a = db.adts.get(ty[1])
            if a is not None and len(a['variants']) == 1:
                fs = self.field_types(ty, 0)
                return adt(short(ty[1]), 0, *[self.symval(name if len(fs) == 1 else '%s.%d' % (name, i), t, idxs) for i, t in enumerate(fs)])
            if short(ty[1]) in TRANSPARENT:
                return adt(short(ty[1]), 0, self.symval(name, ty[2][0], idxs))
        return app(name, *idxs)

    def len_node(self, n):
        if n[0] == 'c':
            return c(n[1])
        if n[0] == 'num':
            return self.I.num_of(n[1])
        return top('array length')

    def field_types(self, ty, variant):
        a = self.db.adts.get(ty[1])
        if a is None or variant >= len(a['variants']):
            return None
        env = {g[1]: t for g, t in zip(a['generics'], ty[2])}
        return [self.db.norm(self.db.subst(self.db.ty(f['ty']), env)) for f in a['variants'][variant]['fields']]

    def temp(self, st, v):
        self.ntmp += 1
        key = (len(self.I.stack) + 1, 'tmp%d' % self.ntmp)
        st.mem[key] = v
        return mref(key, ())

    def ret(self, st, v):
        return (st, v), None

    def maybe_unwind(self, st):
        return st.copy() if self.I.own else None

    # ------------------------------------------------------------ dispatch
    def dispatch(self, st, ft, args, dt):
        I, db = self.I, self.db
        d, targs = ft[1], ft[2]
        h = self.override.get(d)
        if h is not None:
            return h(st, ft, args, dt)
        info = db.fninfo[d]
        name = info.get('n') or short(d)
        if info.get('ctor') is not None:
            return self.ret(st, self.ctor(info, dt, args))
        tr = info.get('trait')
        if tr:
            return self.trait_call(st, ft, short(tr), name, targs, args, dt)
        fn = db.fns.get(d)
        if fn is not None and fn['_crate'] != 'models':
            return I.run_fn(fn, db.env_of(fn, targs), args, st)
        if fn is not None:
            p = fn['id'].split('::')
            if len(p) >= 2 and p[-2] == 'prim':
                return self.model_prim(st, p[-1], targs, args, dt)
            k = 'models::' + p[-1]
            return I.run_fn(fn, db.env_of(fn, targs), args, st)
        key = model_key(info.get('p') or d)
        return self.named(st, key, targs, args, dt, d)

    def ctor(self, info, dt, args):
        cd = info['ctor']
        if dt is not None and dt[0] == 'adt':
            nm = short(dt[1])
            vi = cd if isinstance(cd, int) and not isinstance(cd, bool) else None
            if vi is None:
                a = self.db.adts.get(dt[1])
                vi = 0
                if a:
                    for i, v in enumerate(a['variants']):
                        if v['n'] == info['n']:
                            vi = i
                elif nm == 'Option':
                    vi = 1
                elif nm == 'Result':
                    vi = 0 if info['n'] == 'Ok' else 1
            return raw('adt', nm, vi, tuple(args))
        return top('ctor')

    def named(self, st, key, targs, args, dt, d):
        I, db = self.I, self.db
        h = self.table.get(key)
        if h is not None:
            return h(st, targs, args, dt)
        m = db.models.get(key)
        if m is not None:
            return I.run_fn(m, db.env_of(m, targs), args, st)
        return self.unknown(st, key, args, dt)

    def unknown(self, st, key, args, dt):
        self.I.unknown.add(key)
        for a in args:
            self.havoc(st, a, key)
        return self.ret(st, top('call ' + key))

    def havoc(self, st, a, key, depth=0):
        if depth > 4:
            self.I.lost('the effects of ' + key)
            return
        if a.op == 'mref':
            pl = ('mem', a.a[0], a.a[1])
            old = self.I.read(st, pl)
            if old.op in ('adt', 'closure', 'mref', 'vref', 'ite', 'ptr'):
                self.havoc(st, old, key, depth + 1)
            self.I.write(st, pl, top('modified by ' + key))
        elif a.op == 'ptr':
            self.I.lost('the effects of %s on raw memory' % key)
        elif a.op == 'closure':
            for x in a.a[1:]:
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, Node):
                        self.havoc(st, y, key, depth + 1)
        elif a.op == 'adt':
            for x in a.a[2]:
                self.havoc(st, x, key, depth)
        elif a.op == 'ite':
            self.havoc(st, a.a[1], key, depth)
            self.havoc(st, a.a[2], key, depth)

    def opaque_call(self, st, name, args, dt, event=False):
        xs = [self.val(st, a) for a in args]
        if event:
            self.I.event(st, raw('ev', name, tuple(xs)))
        unw = self.maybe_unwind(st)
        if dt is None:
            v = app(name, *xs)
        elif dt == UNITT:
            v = UNIT
        elif dt[0] == 'adt' and short(dt[1]) in ('Option', 'Result'):
            v = app(name, *xs)
        elif dt[0] == 'adt' and short(dt[1]) == 'Ordering':
            v = app(name, *xs)
        else:
            v = self.symval(name, dt, tuple(xs))
        return (st, v), unw

    # ------------------------------------------------------------ traits
    def trait_call(self, st, ft, tr, name, targs, args, dt):
        I, db = self.I, self.db
        S = targs[0]
        if tr in ('FnOnce', 'FnMut', 'Fn'):
            return self.fn_call(st, S, args, dt)
        if tr == 'Unsigned':
            return self.ret(st, I.num_of(S))
        b = strip(S)
        if tr == 'IntoIterator' and name == 'into_iter':
            return self.into_iter(st, S, targs, args, dt)
        if tr in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
            if S[0] == 'ref' and S[1]:
                if name in ('next', 'next_back', 'size_hint', 'nth', 'len'):
                    a0 = I.read(st, I.follow(args[0]))
                    return self.trait_call(st, ft, tr, name, (S[2],) + targs[1:], [a0] + args[1:], dt)
            elif S[0] in ('tp', 'proj', 'ref'):
                return self.unknown(st, tr + '::' + name, args, dt)
        if tr == 'Debug' and name == 'fmt':
            # what an element or slice prints is that value's own business
            return self.fmt_event(st, raw('ev', 'fmt', (self.val(st, args[0]),)))
        if tr == 'Display' and name == 'fmt':
            return self.fmt_event(st, raw('ev', 'display', (self.val(st, args[0]),)))
        # the impl for the actual types
        imp = db.find_impl(tr, targs[:self.trait_arity(tr, targs)])
        if imp is not None:
            fn = db.impl_method(imp[0], name)
            if fn is not None:
                env = dict(imp[1])
                own = [g for g in fn['generics'] if g[1] not in env]
                rest = targs[len(imp[0]['_targs']):]
                for g, t in zip(own, rest):
                    env[g[1]] = t
                if fn['id'] in self.override:
                    return self.override[fn['id']](st, ('fndef', fn['id'], targs), args, dt)
                return I.run_fn(fn, env, args, st)
            # provided method
            fn = self.provided(tr, name)
            if fn is not None:
                return I.run_fn(fn, {g[1]: t for g, t in zip(fn['generics'], targs)}, args, st)
        m = self.provided(tr, name)
        h = getattr(self, 't_' + tr, None)
        if h is not None:
            r = h(st, name, targs, args, dt, b)
            if r is not None:
                return r
        if m is not None and (imp is not None or S[0] == 'adt' or tr in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator')):
            return I.run_fn(m, {g[1]: t for g, t in zip(m['generics'], targs)}, args, st)
        if self.is_opaque(b):
            return self.opaque_method(st, tr, name, args, dt)
        k = self.named_or_none(st, tr + '__' + name, targs, args, dt)
        if k is not None:
            return k
        if imp is None and any(short(t['id']) == tr for t in db.traits.values()) and not any(a.op == 'mref' for a in args):
            # a bound of this crate's own trait on a type that is not known here
            return self.opaque_call(st, name, args, dt)
        return self.unknown(st, tr + '::' + name, args, dt)

    def named_or_none(self, st, key, targs, args, dt):
        h = self.table.get(key)
        if h is not None:
            return h(st, targs, args, dt)
        return None

    def provided(self, tr, name):
        m = self.db.models.get(tr + '__' + name)
        if m is not None:
            return m
        # provided method of a local trait
        for t in self.db.traits.values():
            if short(t['id']) == tr:
                for it in t['items']:
                    if it['n'] == name and it.get('default'):
                        return self.db.fns.get(it['d'])
        return None

    def trait_arity(self, tr, targs):
        for imp in self.db.impls.get(tr, []):
            return len(imp['_targs'])
        return len(targs)

    def is_opaque(self, t):
        k = t[0]
        if k in ('tp', 'proj'):
            return True
        if k == 'prim':
            return t[1] not in INTS and t[1] not in ('bool', 'str', 'char')
        if k == 'adt':
            return t[1] not in self.db.adts and short(t[1]) not in ('Option', 'Result', 'Ordering', 'String') and short(t[1]) not in TRANSPARENT
        return False

    def opaque_method(self, st, tr, name, args, dt):
        """operation of the element type: an uninterpreted function of the values"""
        I = self.I
        if name.endswith('_assign') and args[0].op in ('mref', 'ite'):
            pl = I.follow(args[0])
            v = app(name[:-7], self.val(st, args[0]), self.val(st, args[1]))
            unw = self.maybe_unwind(st)
            I.write(st, pl, v)
            return (st, UNIT), unw
        if name == 'clone':
            unw = self.maybe_unwind(st)
            return (st, self.val(st, args[0])), unw
        return self.opaque_call(st, name, args, dt)

    # Clone and friends ------------------------------------------------
    def t_Clone(self, st, name, targs, args, dt, b):
        S = targs[0]
        if name == 'clone':
            if S[0] == 'adt' and S[1] in self.db.adts and S[1].startswith('models::'):
                return self.ret(st, self.val(st, args[0]))
            unw = self.maybe_unwind(st) if self.is_opaque(b) and S[0] != 'ref' else None
            # clone of a reference is the reference
            a = args[0]
            if S[0] == 'ref':
                return (st, I_read(self.I, st, a)), None
            return (st, self.val(st, a)), unw
        if name == 'clone_from':
            self.I.write(st, self.I.follow(args[0]), self.val(st, args[1]))
            return self.ret(st, UNIT)
        return None

    def t_Default(self, st, name, targs, args, dt, b):
        S = targs[0]
        v = self.default_val(S)
        if v is None:
            return None
        return self.ret(st, v)

    def default_val(self, S):
        if is_int(S):
            return ZERO
        if S == ('prim', 'bool'):
            return FALSE
        if S[0] == 'adt' and short(S[1]) == 'Option':
            return NONE
        if S[0] == 'tuple':
            vs = [self.default_val(t) for t in S[1]]
            return None if None in vs else tup(*vs)
        if self.is_opaque(S):
            return app('default')
        return None

    def t_Zero(self, st, name, targs, args, dt, b):
        if is_int(b):
            if name == 'zero':
                return self.ret(st, ZERO)
            return self.ret(st, eq(self.val(st, args[0]), ZERO))
        return None

    def t_One(self, st, name, targs, args, dt, b):
        if is_int(b) and name == 'one':
            return self.ret(st, ONE)
        if name == 'is_one' and self.is_opaque(b):
            return self.ret(st, pred(app('eq', self.val(st, args[0]), app('one'))))
        return None

    # comparison ---------------------------------------------------------
    def eq_val(self, st, t, u, a, b):
        """equality of two values of types t, u (references stripped); None if not expressible"""
        t, u = strip(t), strip(u)
        if is_int(t):
            return eq(a, b)
        if t == ('prim', 'bool'):
            a, b = pred(a), pred(b)
            return or_(and_(a, b), and_(not_(a), not_(b)))
        if t == ('prim', 'char'):
            return boolc(a is b)
        if t[0] == 'tuple':
            out = []
            for i, (x, y) in enumerate(zip(t[1], u[1])):
                r = self.eq_val(st, x, y, field(a, i), field(b, i))
                if r is None:
                    return None
                out.append(r)
            return and_(*out)
        if t[0] in ('slice', 'array') and u[0] in ('slice', 'array'):
            la, lb = self.I.length(a), self.I.length(b)
            if la.top or lb.top:
                return None
            k = fresh_iv()
            s2 = st.copy()
            s2.assume(le(ZERO, k))
            s2.assume(lt(k, la))
            r = self.eq_val(s2, t[1], u[1], sel(a, k), sel(b, k))
            if r is None:
                return None
            return and_(eq(la, lb), all_(la, k, r))
        if t[0] == 'adt':
            nm = short(t[1])
            if nm == 'Ordering':
                return eq(discr(a), discr(b))
            if nm == 'PhantomData':
                return TRUE
            imp = self.db.find_impl('PartialEq', (t, u))
            if imp is not None:
                fn = self.db.impl_method(imp[0], 'eq')
                if fn is None:
                    return None
                r, _ = self.I.run_fn(fn, imp[1], [vref(a), vref(b)], st)
                if r is None:
                    return None
                return pred(r[1])
            if nm == 'Option':
                da, db_ = discr(a), discr(b)
                x = self.eq_val(st, t[2][0], u[2][0], field(a, 0, 1), field(b, 0, 1))
                if x is None:
                    return None
                return or_(and_(eq(da, ZERO), eq(db_, ZERO)), and_(eq(da, ONE), eq(db_, ONE), x))
            if nm in TRANSPARENT:
                return None
        if self.is_opaque(t):
            return pred(app('eq', a, b))
        return None

    def t_PartialEq(self, st, name, targs, args, dt, b):
        if name not in ('eq', 'ne'):
            return None
        x, y = self.val(st, args[0]), self.val(st, args[1])
        r = self.eq_val(st, targs[0], targs[1] if len(targs) > 1 else targs[0], x, y)
        if r is None:
            return None
        unw = self.maybe_unwind(st)
        return (st, r if name == 'eq' else not_(r)), unw

    def t_ApproxEq(self, st, name, targs, args, dt, b):
        if name not in ('relative_ne', 'ulps_ne') or not self.is_opaque(b):
            return None
        # by the trait's own account the opposite of the equality
        r = self.opaque_method(st, 'ApproxEq', name[:-2] + 'eq', args, dt)
        (s2, v), unw = r
        return (s2, not_(pred(v))), unw

    def cmp_val(self, t, a, b):
        t = strip(t)
        if is_int(t):
            return ite(lt(a, b), adt('Ordering', -1), ite(eq(a, b), adt('Ordering', 0), adt('Ordering', 1)))
        if self.is_opaque(t):
            return app('cmp', a, b)
        return None

    def t_Ord(self, st, name, targs, args, dt, b):
        if name == 'cmp':
            v = self.cmp_val(targs[0], self.val(st, args[0]), self.val(st, args[1]))
            if v is None:
                return None
            unw = self.maybe_unwind(st) if not is_int(b) else None
            return (st, v), unw
        return None

    def t_PartialOrd(self, st, name, targs, args, dt, b):
        v = self.cmp_val(targs[0], self.val(st, args[0]), self.val(st, args[1]))
        if v is None:
            return None
        unw = self.maybe_unwind(st) if not is_int(b) else None
        if name == 'partial_cmp':
            return (st, some(v)), unw
        dv = discr(v)
        r = {'lt': eq(dv, c(-1)), 'gt': eq(dv, ONE), 'le': not_(eq(dv, ONE)), 'ge': not_(eq(dv, c(-1)))}.get(name)
        if r is None:
            return None
        return (st, r), unw

    # arithmetic on machine integers --------------------------------------
    def int_arith(self, st, name, targs, args, dt, b):
        if not is_int(b):
            return None
        asg = name.endswith('_assign')
        op = name[:-7] if asg else name
        x, y = self.val(st, args[0]), self.val(st, args[1]) if len(args) > 1 else None
        I = self.I
        if op == 'neg':
            return self.ret(st, neg(x))
        f = {'add': add, 'sub': sub, 'mul': mul, 'div': idiv, 'rem': imod}.get(op)
        if f is None:
            return None
        if op in ('add', 'mul'):
            bad = lt(c(2 ** 64 - 1), f(x, y))
        elif op == 'sub':
            bad = lt(x, y)
        else:
            bad = eq(y, ZERO)
        s2 = st.copy()
        s2.assume(bad)
        if bad.op != 'false' and feasible(s2.pc):
            I.panic(s2, 'overflow', op)
        st.assume(not_(bad))
        v = f(x, y)
        if asg:
            I.write(st, I.follow(args[0]), v)
            v = UNIT
        return self.ret(st, v)

    t_Add = t_Sub = t_Mul = t_Div = t_Rem = t_Neg = int_arith
    t_AddAssign = t_SubAssign = t_MulAssign = t_DivAssign = t_RemAssign = int_arith

    def t_Not(self, st, name, targs, args, dt, b):
        if b == ('prim', 'bool'):
            return self.ret(st, not_(pred(self.val(st, args[0]))))

    def t_Sum(self, st, name, targs, args, dt, b):
        m = self.db.models.get('Sum__sum')
        return None

    # conversions -----------------------------------------------------------
    def reborrow(self, st, a, p=None):
        """reference to the place behind a (optionally extended), same mutability"""
        I = self.I
        if a.op == 'ite':
            return ite(a.a[0], self.reborrow(st, a.a[1], p), self.reborrow(st, a.a[2], p))
        pl = I.follow(a)
        if p is not None:
            pl = I.ext(st, pl, p)
        return I.mkref(st, pl, a.op == 'mref')

    def asref(self, st, name, targs, args, dt, b):
        S = targs[0]
        a = args[0]
        while S[0] == 'ref':
            a = self.I.read(st, self.I.follow(a))
            S = S[2]
        if S[0] in ('array', 'slice', 'tp') or (S[0] == 'proj' and S[2] == 'Array'):
            return self.ret(st, a)
        if S[0] == 'adt' and short(S[1]) in TRANSPARENT:
            return self.asref(st, name, (S[2][0],), [self.reborrow(st, a, ('f', 0, None))], dt, b)
        return None

    t_AsRef = t_AsMut = t_Borrow = t_BorrowMut = asref

    def t_Deref(self, st, name, targs, args, dt, b):
        S = targs[0]
        if S[0] == 'adt' and short(S[1]) in TRANSPARENT:
            return self.ret(st, self.reborrow(st, args[0], ('f', 0, None)))
        if S[0] == 'ref':
            return self.ret(st, self.I.read(st, self.I.follow(args[0])))
        if S[0] == 'adt' and short(S[1]) == 'String':
            return self.ret(st, args[0])
        return None

    t_DerefMut = t_Deref

    def t_From(self, st, name, targs, args, dt, b):
        if name == 'from' and len(targs) > 1 and targs[0] == targs[1]:
            return self.ret(st, args[0])
        return None

    def t_Into(self, st, name, targs, args, dt, b):
        if name == 'into' and len(targs) > 1:
            if targs[0] == targs[1]:
                return self.ret(st, args[0])
            d = None
            for k, v in self.db.fninfo.items():
                if k.endswith('convert::From::from'):
                    d = k
            imp = self.db.find_impl('From', (targs[1], targs[0]))
            if imp is not None:
                fn = self.db.impl_method(imp[0], 'from')
                return self.I.run_fn(fn, imp[1], args, st)
        return None

    def t_ToString(self, st, name, targs, args, dt, b):
        if name == 'to_string' and self.is_opaque(targs[0]):
            v = raw('fmtarg', 'display', self.val(st, args[0]))
            return self.ret(st, app('format', raw('fmtargs', (raw('bytes', (192, 0)), raw('list', (v,))))))
        return None

    def t_ToOwned(self, st, name, targs, args, dt, b):
        return self.ret(st, self.val(st, args[0]))

    def t_Try(self, st, name, targs, args, dt, b):
        S = targs[0]
        if S[0] == 'adt' and name in ('branch', 'from_output'):
            m = self.db.models.get('Try%s__%s' % (short(S[1]), name))
            if m is not None:
                return self.I.run_fn(m, self.db.env_of(m, S[2]), args, st)
        return None

    def t_FromResidual(self, st, name, targs, args, dt, b):
        S = targs[0]
        if S[0] == 'adt':
            m = self.db.models.get('Try%s__from_residual' % short(S[1]))
            if m is not None:
                return self.I.run_fn(m, self.db.env_of(m, S[2]), args, st)
        return None

    # indexing ---------------------------------------------------------------
    def t_Index(self, st, name, targs, args, dt, b):
        S = targs[0]
        if S[0] not in ('slice', 'array') and not (S[0] == 'proj' and S[2] == 'Array'):
            return None
        I = self.I
        J = targs[1]
        n = I.ref_len(st, args[0])
        i = args[1]
        if is_int(J):
            self.guard(st, lt(i, n), 'bounds')
            return self.ret(st, self.reborrow(st, args[0], ('i', i)))
        if J[0] == 'adt' and short(J[1]).startswith('Range'):
            nm = short(J[1])
            lo, hi = ZERO, n
            if nm == 'Range':
                lo, hi = field(i, 0), field(i, 1)
            elif nm == 'RangeFrom':
                lo = field(i, 0)
            elif nm == 'RangeTo':
                hi = field(i, 0)
            elif nm == 'RangeToInclusive':
                hi = add(field(i, 0), ONE)
            elif nm == 'RangeInclusive':
                lo, hi = field(i, 0), field(i, 1)
            self.guard(st, and_(le(lo, hi), le(hi, n)), 'bounds')
            return self.ret(st, self.reborrow(st, args[0], ('sub', lo, sub(hi, lo))))
        return None

    t_IndexMut = t_Index

    def guard(self, st, good, kind):
        """run-time checked condition"""
        s2 = st.copy()
        bad = not_(good)
        s2.assume(bad)
        if bad.op != 'false' and feasible(s2.pc):
            self.I.panic(s2, kind)
        st.assume(good)

    # closures -----------------------------------------------------------------
    def fn_call(self, st, S, args, dt):
        I, db = self.I, self.db
        f = args[0]
        tupv = args[1]
        if S[0] == 'ref':
            while S[0] == 'ref':
                f2 = I.read(st, I.follow(f)) if S[2][0] != 'x' else f
                # self is `&mut F` (or `&&mut F`): strip one level per reference type
                if f.op in ('mref', 'vref', 'ite') and (f2.op in ('mref', 'vref', 'deref') or (f2.op == 'ite' and f2.a[1].op in ('mref', 'vref'))):
                    f = f2
                S = S[2]
            return self.fn_call(st, S, [f, tupv], dt)
        n = len(tupv.a[2]) if tupv.op == 'adt' else 0
        xs = list(tupv.a[2]) if tupv.op == 'adt' else [tupv]
        if S[0] == 'closure':
            fn = db.fns.get(S[1])
            if fn is None:
                return self.unknown(st, 'closure ' + S[1], [f] + xs, dt)
            body_env = fn['body']['locals'][1]['ty']
            byref = body_env['k'] == 'ref'
            isref = f.op in ('mref', 'vref') or (f.op == 'ite' and f.a[1].op in ('mref', 'vref'))
            tmp = None
            if byref and not isref:
                f = self.temp(st, f)
            if not byref and isref:
                f = I.read(st, I.follow(f))
            return I.run_fn(fn, db.env_of(fn, S[2]), [f] + xs, st)
        if S[0] == 'fndef':
            return self.dispatch(st, S, xs, dt)
        if S[0] == 'tp' or S[0] == 'proj':
            return self.callback(st, S, xs, dt)
        return self.unknown(st, 'call of ' + db.show(S), [f] + xs, dt)

    def callback(self, st, S, xs, dt):
        I = self.I
        nm = 'call:' + (S[1] if S[0] == 'tp' else 'f')
        # arguments handed over mutably come back changed by the callback
        muts = [a for a in xs if a.op == 'mref']
        r, unw = self.opaque_call(st, nm, xs, dt, event=True)
        st = r[0]
        for a in muts:
            old = self.val(st, a)
            I.write(st, I.follow(a), app(nm + ':mut', old))
        return (st, r[1]), unw

    def call_value(self, st, f, args, dt):
        f2 = self.val(st, f)
        if f2.op == 'fnv':
            return self.dispatch(st, f2.a[0], args, dt)
        return self.unknown(st, 'indirect call', [f] + args, dt)

    # iteration ---------------------------------------------------------------
    def into_iter(self, st, S, targs, args, dt):
        I, db = self.I, self.db
        if S[0] == 'ref':
            e = S[2]
            while e[0] == 'ref':
                e = e[2]
            if e[0] in ('array', 'slice') or (e[0] == 'proj' and e[2] == 'Array'):
                m = db.models['slice__iter_mut' if S[1] else 'slice__iter']
                et = e[1] if e[0] != 'proj' else UNK
                return I.run_fn(m, db.env_of(m, (et,)), args, st)
        if S[0] == 'array':
            m = db.models['array__into_iter']
            return I.run_fn(m, db.env_of(m, (S, S[1])), args, st)
        imp = db.find_impl('IntoIterator', (S,))
        if imp is not None:
            fn = db.impl_method(imp[0], 'into_iter')
            return I.run_fn(fn, imp[1], args, st)
        if S[0] == 'adt' and short(S[1]) == 'Option':
            return self.unknown(st, 'Option::into_iter', args, dt)
        return self.ret(st, args[0])

    def model_prim(self, st, name, targs, args, dt):
        I = self.I
        if name == 'opiter_item':
            r = self.symval('item', targs[0], (args[0],))
            unw = self.maybe_unwind(st)
            I.event(st, raw('ev', 'next', (args[0],)))
            return (st, r), unw
        if name == 'opiter_hint':
            lo, hi = iapp('hint', args[0], ZERO), iapp('hint', args[0], ONE)
            st.assume(le(lo, MAXU_))
            st.assume(le(hi, MAXU_))
            return self.ret(st, tup(lo, ite(eq(iapp('hint', args[0], c(2)), ZERO), NONE, some(hi))))
        if name in ('slice_get', 'slice_get_mut'):
            a = args[0]
            if name == 'slice_get_mut':
                a = I.read(st, I.follow(a))
            return self.ret(st, self.reborrow(st, a, ('i', args[1])))
        if name in ('subslice', 'subslice_mut'):
            a = args[0]
            if name == 'subslice_mut':
                a = I.read(st, I.follow(a))
            return self.ret(st, self.reborrow(st, a, ('sub', args[1], sub(args[2], args[1]))))
        if name == 'panic':
            I.panic(st, 'panic')
            return None, self.maybe_unwind(st)
        if name == 'line_count':
            return self.ret(st, iapp('line_count', self.val(st, args[0])))
        if name == 'line_at':
            return self.ret(st, vref(app('line_at', self.val(st, args[0]), args[1])))
        if name == 'any':
            return self.ret(st, UNINIT)
        if name == 'array_into':
            return self.ret(st, sel(args[0], args[1]))
        if name == 'array_len':
            return self.ret(st, I.ref_len(st, args[0]))
        if name == 'fmt_elem':
            return self.fmt_event(st, raw('ev', 'fmt', (self.val(st, args[1]),)))
        if name == 'fmt_char':
            return self.fmt_event(st, raw('ev', 'write', (self.val(st, args[1]),)))
        return self.unknown(st, 'prim::' + name, args, dt)

    # formatting ---------------------------------------------------------------
    def fmt_event(self, st, ev):
        I = self.I
        if I.sink == 'sound':
            I.event(st, ev)
            return self.ret(st, adt('Result', 0, UNIT))
        if I.sink == 'any':
            # whatever was written, whether a write succeeds is not known
            return self.ret(st, top('outcome of a write'))
        ok = pred(app('sinkok', ev, st.mem[('LOG',)]))
        I.event(st, ev)
        return self.ret(st, ite(ok, adt('Result', 0, UNIT), adt('Result', 1, adt('Error', 0))))

    def p_Formatter__write_str(self, st, targs, args, dt):
        return self.fmt_event(st, raw('ev', 'write', (self.val(st, args[1]),)))

    def pieces(self, tpl, xs):
        """output events of a format string (encoding of core::fmt::Arguments); None when something is not modelled"""
        if tpl.op != 'bytes' or alen(xs) is None or alen(xs).op != 'c':
            return None
        b = bytes(tpl.a[0])
        n = alen(xs).a[0]
        i = nx = 0
        out = []
        while i < len(b) and b[i]:
            k = b[i]
            i += 1
            if k < 0x80 or k == 0x80:
                if k == 0x80:
                    k = b[i] + 256 * b[i + 1]
                    i += 2
                out.append(raw('ev', 'write', (raw('str', b[i:i + k].decode('utf-8', 'replace')),)))
                i += k
                continue
            if k & 0x30:
                return None
            i += 4 * (k & 1) + 2 * (k >> 1 & 1) + 2 * (k >> 2 & 1)
            if k & 8:
                nx = b[i] + 256 * b[i + 1]
                i += 2
            if nx >= n:
                return None
            a = sel(xs, c(nx))
            nx += 1
            if a.op != 'fmtarg':
                return None
            v = a.a[1]
            if a.a[0] == 'debug':
                out.append(raw('ev', 'fmt', (v,)))
            elif v.op in ('str', 'chr') or v.op == 'ite' and all(x.op in ('str', 'chr') for x in (unvref(v.a[1]), unvref(v.a[2]))):
                out.append(raw('ev', 'write', (v,)))
            else:
                out.append(raw('ev', 'display', (v,)))
        return out

    def p_Formatter__write_fmt(self, st, targs, args, dt):
        I = self.I
        a = self.val(st, args[1])
        if a.op == 'fmtargs' and len(a.a[0]) == 1 and a.a[0][0].op == 'str':
            return self.fmt_event(st, raw('ev', 'write', (a.a[0][0],)))
        if I.sink == 'sound' and a.op == 'fmtargs' and len(a.a[0]) == 2:
            ps = self.pieces(self.val(st, a.a[0][0]), self.val(st, a.a[0][1]))
            if ps is not None:
                for p in ps:
                    I.event(st, p)
                return self.ret(st, adt('Result', 0, UNIT))
        return self.fmt_event(st, raw('ev', 'writef', (a,)))

    p_Write__write_fmt = p_Formatter__write_fmt
    p_Write__write_str = p_Formatter__write_str

    def p_Write__write_char(self, st, targs, args, dt):
        return self.fmt_event(st, raw('ev', 'write', (self.val(st, args[1]),)))

    p_Formatter__write_char = p_Write__write_char

    def t_Write(self, st, name, targs, args, dt, b):
        if name in ('write_str', 'write_char', 'write_fmt'):
            return getattr(self, 'p_Write__' + name)(st, targs, args, dt)

    def p_Arguments__from_str(self, st, targs, args, dt):
        return self.ret(st, raw('fmtargs', (self.val(st, args[0]),)))

    def p_Arguments__new_const(self, st, targs, args, dt):
        return self.ret(st, raw('fmtargs', (self.val(st, args[0]),)))

    def p_Arguments__new(self, st, targs, args, dt):
        return self.ret(st, raw('fmtargs', tuple(self.val(st, a) for a in args)))

    p_Arguments__new_v1 = p_Arguments__new

    def p_Argument__new_display(self, st, targs, args, dt):
        return self.ret(st, raw('fmtarg', 'display', self.val(st, args[0])))

    def p_Argument__new_debug(self, st, targs, args, dt):
        return self.ret(st, raw('fmtarg', 'debug', self.val(st, args[0])))

    def p_fmt__format(self, st, targs, args, dt):
        return self.ret(st, app('format', args[0]))

    def p_Formatter__debug_struct_field4_finish(self, st, targs, args, dt):
        return self.fmt_event(st, raw('ev', 'struct', tuple(self.val(st, a) for a in args[1:])))

    p_Formatter__debug_struct_field1_finish = p_Formatter__debug_struct_field2_finish = \
        p_Formatter__debug_struct_field3_finish = p_Formatter__debug_struct_field5_finish = \
        p_Formatter__debug_tuple_field1_finish = p_Formatter__debug_tuple_field2_finish = \
        p_Formatter__debug_tuple_field3_finish = p_Formatter__debug_struct_field4_finish

    def p_hint__must_use(self, st, targs, args, dt):
        return self.ret(st, args[0])

    p_hint__black_box = p_convert__identity = p_hint__must_use

    def p_UnicodeWidthStr__width(self, st, targs, args, dt):
        return self.ret(st, iapp('strwidth', self.val(st, args[0])))

    def p_str__len(self, st, targs, args, dt):
        return self.ret(st, iapp('strlen', self.val(st, args[0])))

    p_String__len = p_str__len

    def t_UnicodeWidthStr(self, st, name, targs, args, dt, b):
        if name == 'width':
            return self.p_UnicodeWidthStr__width(st, targs, args, dt)

    def p_String__as_str(self, st, targs, args, dt):
        return self.ret(st, args[0])

    # panics ---------------------------------------------------------------------
    def diverge(self, st, targs, args, dt):
        m = self.val(st, args[0]) if args else UNIT
        self.I.panic(st, 'panic', m.a[0] if m.op == 'str' else '')
        return None, self.maybe_unwind(st)

    p_panicking__panic = p_rt__panic_fmt = p_panicking__panic_fmt = p_panicking__assert_failed = diverge
    p_panicking__panic_explicit = p_panicking__unreachable_display = p_panicking__panic_display = diverge
    p_panicking__panic_bounds_check = p_rt__begin_panic = p_std__begin_panic = diverge
    p_panicking__panic_nounwind = p_process__abort = p_intrinsics__abort = diverge
    p_option__unwrap_failed = p_option__expect_failed = p_result__unwrap_failed = diverge

    # memory ------------------------------------------------------------------------
    def elem_place(self, st, a, i):
        I = self.I
        return I.ext(st, I.follow(a), ('i', i))

    def get_unchecked(self, st, targs, args, dt):
        I = self.I
        a, i = args
        n = I.ref_len(st, a)
        if i.op == 'adt':
            lo, hi = field(i, 0), field(i, 1)
            I.obligation(st, 'bounds', and_(le(lo, hi), le(hi, n)), 'get_unchecked range')
            return self.ret(st, self.reborrow(st, a, ('sub', lo, sub(hi, lo))))
        I.obligation(st, 'bounds', and_(le(ZERO, i), lt(i, n)), 'get_unchecked')
        return self.ret(st, self.reborrow(st, a, ('i', i)))

    p_slice__get_unchecked = p_slice__get_unchecked_mut = get_unchecked

    def p_slice__get(self, st, targs, args, dt):
        I = self.I
        a, i = args
        n = I.ref_len(st, a)
        if i.op == 'adt':
            return self.unknown(st, 'slice::get range', args, dt)
        return self.ret(st, ite(lt(i, n), some(self.reborrow(st, a, ('i', i))), NONE))

    p_slice__get_mut = p_slice__get

    def p_slice__len(self, st, targs, args, dt):
        return self.ret(st, self.I.ref_len(st, args[0]))

    def p_array__as_slice(self, st, targs, args, dt):
        return self.ret(st, args[0])

    p_array__as_mut_slice = p_array__as_slice

    def as_ptr(self, st, targs, args, dt):
        # a pointer to the first element
        I = self.I
        n = I.ref_len(st, args[0])
        return self.ret(st, raw('ptr', args[0], ZERO, n))

    p_slice__as_ptr = p_slice__as_mut_ptr = as_ptr

    def ptr_cast(self, fr, st, v, ty):
        # reference to an array cast to a pointer to its element type
        if v.op in ('mref', 'vref') and ty[0] == 'ptr':
            cur = self.I.read(st, self.I.follow(v))
            n = alen(cur)
            if n is not None and ty[2][0] not in ('array', 'slice') and not (ty[2][0] == 'proj' and ty[2][2] == 'Array') \
                    and not (ty[2][0] == 'adt' and short(ty[2][1]) in TRANSPARENT):
                return raw('ptr', v, ZERO, n)
            if cur.op == 'adt' and cur.a[0] in TRANSPARENT and ty[2][0] in ('array',):
                return self.reborrow(st, v, ('f', 0, None))
            if cur.op == 'adt' and cur.a[0] in TRANSPARENT and not (ty[2][0] == 'adt' and short(ty[2][1]) in TRANSPARENT):
                return self.ptr_cast(fr, st, self.reborrow(st, v, ('f', 0, None)), ty)
        return v

    def ptr_offset(self, a, b):
        if a.op == 'ptr':
            return raw('ptr', a.a[0], add(a.a[1], b), a.a[2])
        return top('pointer arithmetic')

    def ptr_add(self, st, targs, args, dt):
        a, b = args
        if a.op == 'ptr':
            return self.ret(st, raw('ptr', a.a[0], add(a.a[1], b), a.a[2]))
        return self.unknown(st, 'pointer arithmetic', [], dt)

    p_mut_ptr__add = p_const_ptr__add = p_mut_ptr__offset = p_const_ptr__offset = ptr_add
    p_mut_ptr__wrapping_add = p_const_ptr__wrapping_add = p_mut_ptr__wrapping_offset = p_const_ptr__wrapping_offset = ptr_add

    def ptr_sub(self, st, targs, args, dt):
        a, b = args
        if a.op == 'ptr':
            return self.ret(st, raw('ptr', a.a[0], sub(a.a[1], b), a.a[2]))
        return self.unknown(st, 'pointer arithmetic', [], dt)

    p_mut_ptr__sub = p_const_ptr__sub = p_mut_ptr__wrapping_sub = p_const_ptr__wrapping_sub = ptr_sub

    def ptr_same(self, st, targs, args, dt):
        return self.ret(st, args[0])

    p_mut_ptr__cast_const = p_const_ptr__cast_mut = ptr_same

    def ptr_null(self, st, targs, args, dt):
        if args[0].op in ('ptr', 'mref', 'vref'):
            return self.ret(st, FALSE)
        return self.unknown(st, 'is_null', [], dt)

    p_mut_ptr__is_null = p_const_ptr__is_null = ptr_null

    def deptr(self, st, p):
        """element reference for a raw element pointer (with its bounds obligation)"""
        if p.op == 'ite':
            return ite(p.a[0], self.deptr(st, p.a[1]), self.deptr(st, p.a[2]))
        if p.op == 'ptr':
            self.I.obligation(st, 'bounds', and_(le(ZERO, p.a[1]), lt(p.a[1], p.a[2])), 'raw pointer access')
            return self.reborrow(st, p.a[0], ('i', p.a[1]))
        return p

    def place_src(self, st, p):
        """tracked place behind a reference, also through shared references (ownership mode)"""
        pl = self.I.follow(p)
        if pl[0] == 'val' and len(pl) > 2 and pl[2] is not None:
            return ('mem',) + pl[2]
        return pl

    def live(self, st, v, what):
        """element must be initialised and not moved out"""
        I = self.I
        if not I.own:
            return
        I.obligation(st, 'live', live_cond(v), what)

    def p_ptr__read(self, st, targs, args, dt):
        I = self.I
        p = self.deptr(st, args[0])
        pl = self.place_src(st, p)
        v = I.read(st, pl)
        if I.own and self.needs_drop(targs[0] if targs else UNK):
            self.live(st, v, 'read')
            if pl[0] == 'mem':
                I.write(st, pl, MOVED)
        return self.ret(st, v)

    def p_ptr__write(self, st, targs, args, dt):
        I = self.I
        p = self.deptr(st, args[0])
        if I.own and self.needs_drop(targs[0] if targs else UNK):
            I.obligation(st, 'overwrite', dead_cond(I.read(st, self.place_src(st, p))), 'write over a live value')
        I.write(st, I.follow(p), args[1])
        return self.ret(st, UNIT)

    p_mut_ptr__write = p_ptr__write
    p_mut_ptr__read = p_const_ptr__read = p_ptr__read

    def p_ptr__drop_in_place(self, st, targs, args, dt):
        I = self.I
        p = self.deptr(st, args[0])
        if not I.own:
            return self.ret(st, UNIT)
        s, u = self.drop_place(st, self.place_src(st, p), targs[0] if targs else UNK)
        return (s, UNIT), u

    p_mut_ptr__drop_in_place = p_ptr__drop_in_place

    def p_mem__replace(self, st, targs, args, dt):
        I = self.I
        pl = I.follow(args[0])
        old = I.read(st, pl)
        I.write(st, pl, args[1])
        return self.ret(st, old)

    def p_mem__swap(self, st, targs, args, dt):
        I = self.I
        p, q = I.follow(self.deptr(st, args[0])), I.follow(self.deptr(st, args[1]))
        a, b = I.read(st, p), I.read(st, q)
        I.write(st, p, b)
        I.write(st, q, a)
        return self.ret(st, UNIT)

    p_ptr__swap = p_mem__swap

    def p_mem__take(self, st, targs, args, dt):
        I = self.I
        pl = I.follow(args[0])
        old = I.read(st, pl)
        v = self.default_val(targs[0])
        if v is None:
            return self.unknown(st, 'mem::take', args, dt)
        I.write(st, pl, v)
        return self.ret(st, old)

    def p_mem__forget(self, st, targs, args, dt):
        return self.ret(st, UNIT)

    def p_mem__drop(self, st, targs, args, dt):
        if not self.I.own:
            return self.ret(st, UNIT)
        t = self.temp(st, args[0])
        s, u = self.drop_place(st, ('mem', t.a[0], ()), targs[0])
        return (s, UNIT), u

    def p_mem__uninitialized(self, st, targs, args, dt):
        return self.ret(st, self.uninit(targs[0]))

    p_mem__zeroed = p_mem__uninitialized

    def uninit(self, t):
        if t[0] == 'array':
            n = self.len_node(t[2])
            k = fresh_iv()
            if n.top:
                return top('array length')
            return raw('comp', n, UNINIT)
        if t[0] == 'adt' and short(t[1]) in TRANSPARENT:
            return adt(short(t[1]), 0, self.uninit(t[2][0]))
        return UNINIT

    def p_MaybeUninit__uninit(self, st, targs, args, dt):
        return self.ret(st, adt('MaybeUninit', 0, self.uninit(targs[0])))

    def wrap(self, st, targs, args, dt):
        nm = short(dt[1]) if dt and dt[0] == 'adt' else 'NoDrop'
        return self.ret(st, adt(nm, 0, args[0]))

    p_NoDrop__new = p_ManuallyDrop__new = p_MaybeUninit__new = wrap

    def unwrap(self, st, targs, args, dt):
        v = args[0]
        r = field(v, 0)
        if self.I.own:
            self.live_all(st, r, targs[0] if targs else UNK, 'taken out as initialised')
        return self.ret(st, r)

    p_NoDrop__into_inner = p_ManuallyDrop__into_inner = p_MaybeUninit__assume_init = unwrap

    def live_all(self, st, v, ty, what):
        n = alen(v)
        if n is not None:
            self.I.obligation(st, 'live', all_f(n, lambda k: live_cond(sel(v, k))), what)
        elif v.op in ('ite', 'uninit', 'moved'):
            self.live(st, v, what)

    def p_ManuallyDrop__take(self, st, targs, args, dt):
        pl = self.I.ext(st, self.I.follow(args[0]), ('f', 0, None))
        return self.ret(st, self.I.read(st, pl))

    def inner_ref(self, st, targs, args, dt):
        a = self.reborrow(st, args[0], ('f', 0, None))
        return self.ret(st, a)

    p_MaybeUninit__as_mut_ptr = p_MaybeUninit__as_ptr = p_MaybeUninit__assume_init_ref = p_MaybeUninit__assume_init_mut = inner_ref

    def p_MaybeUninit__write(self, st, targs, args, dt):
        I = self.I
        pl = I.ext(st, I.follow(args[0]), ('f', 0, None))
        I.write(st, pl, args[1])
        return self.ret(st, self.reborrow(st, args[0], ('f', 0, None)))

    def p_mem__size_of(self, st, targs, args, dt):
        return self.ret(st, iapp('sizeof:' + self.db.show(targs[0])))

    def p_mem__needs_drop(self, st, targs, args, dt):
        return self.ret(st, pred(app('needs_drop')))

    def p_UTerm__new(self, st, targs, args, dt):
        return self.ret(st, adt('UTerm', 0))

    def p_UInt__new(self, st, targs, args, dt):
        return self.ret(st, adt('UInt', 0))

    def p_Complex__conj(self, st, targs, args, dt):
        return self.ret(st, app('conj', self.val(st, args[0])))

    def p_num__pow(self, st, targs, args, dt):
        return self.ret(st, app('pow', self.val(st, args[0]), args[1]))

    p_pow__pow = p_num__pow

    def p_RangeInclusive__new(self, st, targs, args, dt):
        return self.ret(st, adt('RangeInclusive', 0, args[0], add(args[1], ONE)))

    def p_usize__wrapping_add(self, st, targs, args, dt):
        a, b = args
        r = add(a, b)
        return self.ret(st, ite(le(r, c(2 ** 64 - 1)), r, sub(r, c(2 ** 64))))

    def p_usize__wrapping_sub(self, st, targs, args, dt):
        a, b = args
        return self.ret(st, ite(le(b, a), sub(a, b), add(sub(a, b), c(2 ** 64))))

    def p_bool__then(self, st, targs, args, dt):
        return self.unknown(st, 'bool::then', args, dt)

    # drop glue --------------------------------------------------------------------
    def needs_drop(self, t):
        k = t[0]
        if k in ('prim', 'ref', 'ptr', 'fndef'):
            return False
        if k == 'tuple':
            return any(self.needs_drop(x) for x in t[1])
        if k == 'array':
            return self.needs_drop(t[1])
        if k == 'adt':
            if short(t[1]) in NODROP or short(t[1]) == 'Ordering':
                return False
            if t[1] in self.db.adts:
                if self.db.find_impl('Drop', (t,)):
                    return True
                for vi in range(len(self.db.adts[t[1]]['variants'])):
                    if any(self.needs_drop(x) for x in self.field_types(t, vi)):
                        return True
                return False
            if short(t[1]) in ('Option', 'Result'):
                return any(self.needs_drop(x) for x in t[2])
            return True
        if k == 'closure':
            return False
        return True

    def drop_term(self, fr, st, t):
        I = self.I
        pl = I.place(fr, st, t['pl'])
        ty = I.place_ty(fr, t['pl'])
        s, u = self.drop_place(st, pl, ty)
        out = []
        if s is not None:
            out.append((t['to'], s))
        return out + I.unwind_edge(t, u)

    def drop_place(self, st, pl, ty):
        """returns (state after, state when a destructor unwound)"""
        I = self.I
        if ty is None or not self.needs_drop(ty):
            return st, None
        v = I.read(st, pl)
        k = ty[0]
        if k == 'array' or (k == 'slice'):
            n = I.length(v)
            self.live_all(st, v, ty, 'dropped')
            I.event(st, raw('ev', 'dropall', (v,)))
            if not n.top:
                I.write(st, pl, raw('comp', n, MOVED))
            return st, st.copy()
        if k == 'adt' and ty[1] in self.db.adts:
            unw = None
            imp = self.db.find_impl('Drop', (ty,))
            if imp is not None:
                fn = self.db.impl_method(imp[0], 'drop')
                ref = mref(pl[1], pl[2]) if pl[0] == 'mem' else vref(pl[1])
                r, unw = I.run_fn(fn, imp[1], [ref], st)
                if r is None:
                    return None, unw
                st = r[0]
            a = self.db.adts[ty[1]]
            if len(a['variants']) == 1:
                for i, ft in enumerate(self.field_types(ty, 0)):
                    if unw is not None:
                        unw, _ = self.drop_place(unw, I.ext(unw, pl, ('f', i, None)), ft)
                    st, u2 = self.drop_place(st, I.ext(st, pl, ('f', i, None)), ft)
                    if u2 is not None:
                        from interp import merge
                        unw = merge(unw, u2)
            return st, unw
        if k == 'adt' and short(ty[1]) in ('Option', 'Result'):
            if v.op == 'adt':
                fts = {('Option', 1): ty[2][:1], ('Option', 0): (), ('Result', 0): ty[2][:1], ('Result', 1): ty[2][1:2]}[(short(ty[1]), v.a[1])]
                unw = None
                for i, ft in enumerate(fts):
                    st, unw = self.drop_place(st, I.ext(st, pl, ('f', i, v.a[1])), ft)
                return st, unw
            if v.op in ('moved', 'uninit'):
                return st, None
            I.event(st, raw('ev', 'drop', (v,)))
            return st, st.copy()
        if k == 'tuple':
            unw = None
            for i, ft in enumerate(ty[1]):
                st, u2 = self.drop_place(st, I.ext(st, pl, ('f', i, None)), ft)
                unw = u2 if unw is None else unw
            return st, unw
        # opaque element
        self.live(st, v, 'dropped')
        I.event(st, raw('ev', 'drop', (v,)))
        I.write(st, pl, MOVED)
        return st, st.copy()


def I_read(I, st, a):
    return I.read(st, I.follow(a))


def live_cond(v):
    if v.op in ('moved', 'uninit'):
        return FALSE
    if v.op == 'ite':
        return or_(and_(v.a[0], live_cond(v.a[1])), and_(not_(v.a[0]), live_cond(v.a[2])))
    if v.op == 'adt' and v.a[2]:
        return and_(*[live_cond(x) for x in v.a[2]])
    n = alen(v)
    if n is not None and v.op == 'comp':
        return all_f(n, lambda k: live_cond(sel(v, k)))
    if v.op == 'top':
        return raw('b', v)
    return TRUE


def dead_cond(v):
    return not_(live_cond(v))
