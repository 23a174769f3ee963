"""Analysis roots: symbolic inputs for a public function and its summary."""
from terms import *
from facts import feasible, entails, simp
import terms, facts
import mir
import time
from mir import short
from interp import Interp, State, LOG, Unsupported

DIM = c(2 ** 32)
MAXU = c(2 ** 64 - 1)
ARRAYLEN = 'ArrayLen'


class Summary:
    pass


class Root:
    def __init__(self, db, fn, own=False, bind=None, invs=None):
        self.db, self.fn = db, fn
        self.I = Interp(db, own)
        self.facts = []
        self.invs = invs
        db.rootproj = {}
        db._norm = {}
        self.env = {}
        gens = {}
        for p in fn['preds']:
            if p['c'] == 'trait':
                for x in p['a'][:1]:
                    if x.get('k') == 'param':
                        gens.setdefault(x['i'], set()).add(short(p['tr']))
        for n, i in fn['generics']:
            self.env[i] = ('tp', n)
        if bind:
            self.env.update(bind)
        for p in fn['preds']:
            if p['c'] == 'trait' and short(p['tr']) in ('IntoIterator', 'Iterator') and p['a'][0].get('k') == 'param':
                i = p['a'][0]['i']
                item = None
                for q in fn['preds']:
                    if q['c'] == 'proj' and q['n'] == 'Item' and q['a'][0].get('i') == i:
                        item = self.t(q['ty'])
                self.env[i] = ('adt', 'models::OpIter', (item or ('tp', 'Item'),))
        for p in fn['preds']:
            if p['c'] == 'proj':
                l = db.subst(('proj', p['tr'], p['n'], tuple(db.ty(x) for x in p['a'])), self.env)
                r = self.t(p['ty'])
                if r != l:
                    db.rootproj[(short(p['tr']), p['n'], l[3])] = r
        db._norm = {}
        self.numbers()

    def t(self, j):
        return self.db.norm(self.db.subst(self.db.ty(j), self.env))

    # type-level numbers ---------------------------------------------------
    def numbers(self):
        db, I = self.db, self.I
        seen = []

        def scan(t):
            if not isinstance(t, tuple):
                return
            if t and t[0] == 'adt' and short(t[1]) == 'UInt' and self.open_num(t):
                if t not in seen:
                    seen.append(t)
                return
            for x in t:
                if isinstance(x, tuple):
                    scan(x)
        tys = [self.t(x) for x in (self.fn['inputs'] or [])]
        if self.fn.get('output'):
            tys.append(self.t(self.fn['output']))
        dims = []
        for p in self.fn['preds']:
            ts = [db.subst(db.ty(x), self.env) for x in p['a']]
            tys += ts
            if p['c'] == 'trait' and short(p['tr']) == ARRAYLEN:
                dims.append(ts[0])
            if p['c'] == 'trait' and short(p['tr']) == 'Unsigned':
                dims.append(ts[0])
        for t in tys:
            scan(t)
        for t in seen:
            nm = self.uname(t)
            I.num[t] = iv(nm)
            d = 0
            u = t
            while u[0] == 'adt' and short(u[1]) == 'UInt':
                d += 1
                u = u[2][0]
            # every level of a type-level number is itself non-zero except the innermost
            lo = 2 ** (d - 1)
            self.facts.append(le(c(lo), I.num[t]))
            dims.append(t)
        self.dims = []
        for t in dims:
            n = I.num_of(t)
            if n not in self.dims and not n.top and n.op == 'iv':
                self.dims.append(n)
                self.facts.append(le(n, DIM))
            elif n.op == 'poly':
                self.facts.append(le(n, DIM))
        for p in self.fn['preds']:
            if p['c'] != 'trait':
                continue
            ts = [db.subst(db.ty(x), self.env) for x in p['a']]
            if short(p['tr']) == 'Rem':
                self.facts.append(le(ONE, I.num_of(ts[1])))
        for p in self.fn['preds']:
            if p['c'] != 'trait' or short(p['tr']) != 'Same':
                continue
            a, b = [db.subst(db.ty(x), self.env) for x in p['a']]
            if a[0] == 'proj' and short(a[1]) == 'Cmp' and b[0] == 'adt' and short(b[1]) == 'Less':
                self.facts.append(lt(I.num_of(a[3][0]), I.num_of(a[3][1])))
            elif a[0] == 'proj' and short(a[1]) == 'Rem' and b[0] == 'adt' and short(b[1]) == 'UTerm':
                x, y = a[3]
                nx, ny = I.num_of(x), I.num_of(y)
                if nx.op == 'iv' and ny.op == 'iv' and nx is not ny:
                    q = iv(nx.a[0] + '/' + ny.a[0])
                    I.num[x] = mul(ny, q)
                    self.facts.append(le(mul(ny, q), DIM))
                    self.facts.append(le(q, DIM))
                    self.quot = (nx, ny, q)
        # products stay below the machine limit only for supported sizes (the crate provides 0..=32)

    def open_num(self, t):
        if t[0] in ('tp', 'proj'):
            return True
        return t[0] == 'adt' and any(self.open_num(x) for x in t[2])

    def uname(self, t):
        u = t
        names = []
        while u[0] == 'adt' and short(u[1]) == 'UInt':
            names.append(u[2][1][1] if u[2][1][0] == 'tp' else '?')
            u = u[2][0]
        return 'n' + (u[1] if u[0] == 'tp' else '') + ''.join(names)

    # inputs -------------------------------------------------------------------
    def spec(self, ty):
        P = self.I.prims
        k = ty[0]
        if k == 'array':
            return ('arr', P.len_node(ty[2]), self.spec(ty[1]))
        if k == 'adt' and ty[1] in self.db.adts and len(self.db.adts[ty[1]]['variants']) == 1:
            return ('adt', short(ty[1]), tuple(self.spec(t) for t in P.field_types(ty, 0)))
        if k == 'adt' and short(ty[1]) in ('NoDrop', 'ManuallyDrop', 'MaybeUninit'):
            return ('adt', short(ty[1]), (self.spec(ty[2][0]),))
        if k == 'prim' and ty[1] in ('usize', 'u32', 'i32', 'isize'):
            return ('int',)
        return ('T',)

    def value(self, st, name, ty):
        P = self.I.prims
        db = self.db
        k = ty[0]
        if k == 'prim':
            if ty[1] == 'bool':
                return pred(sv(name))
            if ty[1] in ('usize', 'u32', 'u64', 'u8'):
                v = iv(name)
                st.assume(le(v, MAXU))
                return v
            return raw('in', name, ())
        if k == 'tuple':
            return tup(*[self.value(st, '%s.%d' % (name, i), t) for i, t in enumerate(ty[1])])
        if k == 'ref':
            if ty[1]:
                key = ('root', name)
                st.mem[key] = self.value(st, name, ty[2])
                self.allocs[name] = (key, ty[2])
                return mref(key, ())
            return vref(self.value(st, name, ty[2]))
        if k == 'array':
            return inarr(name, P.len_node(ty[2]), self.spec(ty[1]))
        if k == 'slice':
            return inarr(name, iv('len(%s)' % name), self.spec(ty[1]))
        if k == 'adt':
            nm = short(ty[1])
            if nm == 'OpIter':
                m = iv('M')
                st.assume(le(m, MAXU))
                v = [ZERO, m]
                ft = P.field_types(ty, 0)
                ints = iter([ZERO, m])
                return adt(nm, 0, *[next(ints) if t == ('prim', 'usize') else UNIT for t in ft])
            if nm in ('NoDrop', 'ManuallyDrop', 'MaybeUninit'):
                return adt(nm, 0, self.value(st, name, ty[2][0]))
            if nm == 'Formatter':
                return raw('in', name, ())
            if nm == 'UInt' or nm == 'UTerm':
                return adt(nm, 0)
            a = db.adts.get(ty[1])
            if a is not None and len(a['variants']) == 1 and a['variants'][0]['fields']:
                fs = a['variants'][0]['fields']
                fts = P.field_types(ty, 0)
                v = adt(nm, 0, *[self.value(st, name if len(fs) == 1 else '%s.%s' % (name, f['n']), t) for f, t in zip(fs, fts)])
                if self.invs is not None:
                    v, fs_ = self.invs(self, ty, v)
                    for f in fs_:
                        st.assume(f)
                return v
            if a is not None:
                return adt(nm, 0)
        return raw('in', name, ())

    def run(self, args=None, pre=(), seconds=None):
        fn, I, db = self.fn, self.I, self.db
        if seconds:
            I.deadline = time.time() + seconds
        st = State((), {LOG: NIL})
        self.allocs = {}
        names = [l.get('n') or l.get('name') for l in fn['body']['locals']] if False else None
        vals = []
        tys = [self.t(x) for x in fn['inputs']]
        for i, t in enumerate(tys):
            nm = 'ABCDEFG'[i]
            vals.append(self.value(st, nm, t) if args is None or args[i] is None else args[i])
        for f in self.facts:
            st.assume(f)
        for f in pre:
            st.assume(f)
        S = Summary()
        S.args, S.tys = vals, tys
        S.init = dict(st.mem)
        S.pre = st.pc
        S.err = None
        S.ret = S.state = S.unw = None
        try:
            r, u = I.run_fn(fn, self.env, vals, st)
            if r is not None:
                S.state, S.ret = r
                S.ret = simp(S.ret, S.state.pc)
            S.unw = u
        except Unsupported as e:
            S.err = str(e)
        except RecursionError:
            S.err = 'recursion'
        if I.blind and not S.err:
            S.err = I.blind + ' may be missed'
        S.panics = I.panics
        S.obl = I.obl
        S.unknown = set(I.unknown)
        S.stats = I.stats
        S.root = self
        return S

    def final(self, S, name):
        key, ty = self.allocs[name]
        return simp(S.state.mem[key], S.state.pc)
