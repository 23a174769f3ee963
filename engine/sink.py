"""C20: formatting.

Order: with a formatter whose writes succeed the derived log of output operations is a closed form over the shape; it
must list every element once in row-major order, rows separated, nothing before the first or after the last.

Failures: a path-sensitive typestate dataflow over MIR (finite value domain: enum variants, small constants, references
into tracked locals, value-numbered unknowns).  Every operation that writes to the formatter may fail; from each failure
on no path may write again, return Ok or unwrap the error: the failure must be what the function returns."""
from sem import *
import sem, roots, mir, time
from mir import short, model_key, UNK

FMT = 'Formatter'
OKV = ('adt', 'Result', 0, (('adt', 'tuple', 0, ()),))
ERRV = ('adt', 'Result', 1, (('adt', 'Error', 0, ()),))
UNITV = ('adt', 'tuple', 0, ())
ANON = ('t', None)
LIMIT = {'quick': 60000, 'thorough': 400000}
FMTTRAITS = ('Debug', 'Display', 'LowerExp', 'UpperExp', 'LowerHex', 'UpperHex', 'Octal', 'Binary', 'Pointer')


class Abort(Exception):
    """the analysis has no answer for this function"""


class Fr:
    """a frame: function, substitution, body"""

    def __init__(self, db, fn, env, body, key):
        self.db, self.fn, self.env, self.body, self.key = db, fn, env, body, key
        self.tc = {}
        self.live = liveness(body)

    def ty(self, j):
        k = id(j)
        r = self.tc.get(k)
        if r is None:
            r = self.tc[k] = self.db.norm(self.db.subst(self.db.ty(j), self.env))
        return r

    def tyloc(self, l):
        return self.ty(self.body['locals'][l]['ty'])


def uses(j, out, skip=None):
    """locals mentioned in a piece of MIR"""
    if isinstance(j, dict):
        if 'l' in j and 'p' in j:
            if j is not skip:
                out.add(j['l'])
            for e in j['p']:
                if e[0] == 'i':
                    out.add(e[1])
            return
        for v in j.values():
            uses(v, out, skip)
    elif isinstance(j, list):
        for v in j:
            uses(v, out, skip)


def succ(t):
    out = []
    for k in ('to', 'else'):
        if isinstance(t.get(k), int) and t[k] >= 0:
            out.append(t[k])
    for v, b in t.get('cases', []):
        out.append(b)
    return out


def liveness(body):
    """locals whose value may still be read at the entry of each block; borrowed locals always count"""
    bl = body['blocks']
    held = set()
    gen, kill = [], []
    for b in bl:
        g, k = set(), set()
        for s in b['st']:
            if s['s'] == 'assign':
                u = set()
                uses(s['rv'], u)
                if s['rv']['r'] in ('ref', 'rawptr') and not any(e[0] == 'd' for e in s['rv']['pl']['p']):
                    held.add(s['rv']['pl']['l'])
                uses(s['pl'] if s['pl']['p'] else {}, u)
                g |= u - k
                if not s['pl']['p']:
                    k.add(s['pl']['l'])
        t = b['term']
        u = set()
        d = t.get('dest')
        uses({x: y for x, y in t.items() if x not in ('dest', 'pl') or x == 'dest' and d['p']}, u)
        if t['t'] == 'return':
            u.add(0)
        g |= u - k
        if d and not d['p']:
            k.add(d['l'])
        gen.append(g)
        kill.append(k)
    live = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for i in reversed(range(len(bl))):
            n = set(gen[i])
            for w in succ(bl[i]['term']):
                n |= live[w] - kill[i]
            if n != live[i]:
                live[i] = n
                ch = True
    return [x | held for x in live]


class St:
    __slots__ = ('stack', 'mem', 'facts', 'failed', 'taint')

    def __init__(self, stack, mem, facts, failed, taint):
        self.stack, self.mem, self.facts, self.failed, self.taint = stack, mem, facts, failed, taint

    def copy(self):
        return St(self.stack, dict(self.mem), dict(self.facts), self.failed, self.taint)

    def key(self):
        return (tuple((f.key, b) for f, b in self.stack), frozenset(self.mem.items()), frozenset(self.facts.items()), self.failed, self.taint)


def depthof(k):
    if not isinstance(k, tuple) or not k or k[0] not in ('op', 'fld', 'drf', 'discr', 'idx', 't'):
        return 0
    if k[0] == 't':
        return depthof(k[1])
    return 1 + max([depthof(x) for x in k[1:]] or [0])


def sites(k, out):
    if isinstance(k, tuple):
        if k and k[0] == 'site':
            out.add(k)
        else:
            for x in k:
                sites(x, out)


def mentions(k, site):
    if k == site:
        return True
    return isinstance(k, tuple) and any(mentions(x, site) for x in k)


class Explore:
    def __init__(self, fn, tier='quick'):
        self.db = db()
        self.fn = fn
        self.R = roots.Root(self.db, fn)
        self.frames = {}
        self.bad = []               # (failing site, offending site, what)
        self.unsure = []
        self.sites = set()
        self.returns = set()
        self.limit = LIMIT[tier]
        self.states = 0
        self.fns = set()

    # ------------------------------------------------------------ frames
    def frame(self, fn, env, body=None, tag=''):
        k = (fn['id'], tag, tuple(sorted(env.items(), key=lambda x: x[0])))
        f = self.frames.get(k)
        if f is None:
            f = self.frames[k] = Fr(self.db, fn, env, body or fn['body'], k)
            if fn['_crate'] != 'models':
                self.fns.add(fn['id'])
        return f

    def enter(self, st, fn, env, args):
        if len(st.stack) > 40 or sum(1 for f, b in st.stack if f.fn is fn) > 2:
            raise Abort('recursion in ' + fn['id'])
        d = len(st.stack) + 1
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a
        st.stack = st.stack + ((self.frame(fn, env), 0),)

    # ------------------------------------------------------------ memory
    def proj(self, v, e):
        if e[0] == 'f':
            if v[0] == 'adt':
                if e[2] is not None and v[2] != e[2] and v[1] != 'tuple':
                    return ANON
                return v[3][e[1]] if e[1] < len(v[3]) else ANON
            if v[0] == 't' and v[1] is not None and depthof(v[1]) < 6:
                return ('t', ('fld', v[1], e[1], e[2]))
            return ANON
        if e[0] == 'i':
            if v[0] == 'adt' and e[1] is not None and e[1][0] == 'c' and 0 <= e[1][1] < len(v[3]):
                return v[3][e[1][1]]
            if v[0] == 't' and v[1] is not None and e[1] is not None and e[1][0] in ('c', 't') and depthof(v[1]) < 6:
                return ('t', ('idx', v[1], e[1]))
            return ANON
        return ANON

    def read(self, st, pl):
        if pl[0] == 'val':
            return pl[1]
        v = st.mem.get(pl[1], ANON)
        for e in pl[2]:
            v = self.proj(v, e)
        return v

    def upd(self, v, ps, x):
        if not ps:
            return x
        e = ps[0]
        if e[0] == 'f' and v[0] == 'adt' and (e[2] is None or v[2] == e[2]) and e[1] < len(v[3]):
            fs = list(v[3])
            fs[e[1]] = self.upd(fs[e[1]], ps[1:], x)
            return ('adt', v[1], v[2], tuple(fs))
        if self.keeps(v) or self.keeps(x):
            raise Abort('store into an untracked place')
        return ANON

    def keeps(self, v):
        """does a value carry the formatter or an error"""
        if v[0] == 'fmt':
            return True
        if v[0] == 'ref':
            return v[1] == ('F',)
        if v[0] == 'adt':
            return v[1] in ('Error',) or any(self.keeps(x) for x in v[3])
        return False

    def write(self, st, pl, v):
        if pl[0] == 'val':
            if self.keeps(v):
                raise Abort('store through an untracked reference')
            for k in [k for k in st.facts if mentions(k, 'drf')]:
                del st.facts[k]
            return
        if pl[2]:
            v = self.upd(st.mem.get(pl[1], ANON), pl[2], v)
        st.mem[pl[1]] = v

    def deref(self, v):
        if v[0] == 'ref':
            return ('mem', v[1], v[2])
        if v[0] == 't' and v[1] is not None and depthof(v[1]) < 6:
            return ('val', ('t', ('drf', v[1])))
        return ('val', ANON)

    def place(self, st, fr, d, p):
        pl = ('mem', (d, p['l']), ())
        var = None
        for e in p['p']:
            k = e[0]
            if k == 'd':
                pl = self.deref(self.read(st, pl))
                continue
            if k == 'dc':
                var = e[1]
                continue
            if k == 'f':
                x = ('f', e[1], var)
                var = None
            elif k == 'i':
                x = ('i', st.mem.get((d, e[1]), ANON))
            elif k == 'ci' and not e[3]:
                x = ('i', ('c', e[1]))
            else:
                x = ('i', None)
            if pl[0] == 'val':
                pl = ('val', self.proj(pl[1], x))
            else:
                pl = ('mem', pl[1], pl[2] + (x,))
        return pl

    # ------------------------------------------------------------ values
    def site(self, st, fr, d, b, i):
        k = ('site', d, fr.key[0], b, i)
        # the name is taken again: older holders lose it
        for a in [a for a in st.facts if mentions(a, k)]:
            del st.facts[a]
        for a, v in list(st.mem.items()):
            if v[0] != 'ref' and mentions(v, k):
                st.mem[a] = self.forget(v, k)
        return ('t', k)

    def forget(self, v, k):
        if v[0] == 't':
            return ANON if mentions(v[1], k) else v
        if v[0] == 'adt':
            return ('adt', v[1], v[2], tuple(self.forget(x, k) for x in v[3]))
        return v

    def operand(self, st, fr, d, o):
        if o['o'] in ('copy', 'move'):
            return self.read(st, self.place(st, fr, d, o['pl']))
        if o['o'] == 'const':
            t = fr.ty(o['ty'])
            if 'v' in o:
                v = int(o['v'])
                return ('c', v) if abs(v) < 256 else ('t', ('k', v))
            if 'str' in o:
                return ('t', ('k', o['str']))
            if t[0] == 'closure':
                return ('adt', 'closure', 0, ())
            if t[0] == 'fndef':
                return ('fn', t)
            if 'uneval' in o:
                if o['promoted'] >= 0:
                    return self.promoted(st, fr, o)
                return ('t', ('k', o['uneval'], str(o.get('uargs'))))
            if t == ('tuple', ()):
                return UNITV
            if t[0] == 'adt':
                return ('adt', short(t[1]), 0, ())
        if o['o'] == 'rtcheck':
            return ('c', 0)
        return ANON

    def promoted(self, st, fr, o):
        """a promoted constant: only plain aggregates of constants matter here"""
        fn = self.db.fns.get(o['uneval'])
        if fn is None:
            return ANON
        body = fn['promoted'][o['promoted']]
        if len(body['blocks']) != 1:
            return ANON
        key = ('P', fn['id'], o['promoted'])
        f = self.frame(fn, fr.env, body, 'P%d' % o['promoted'])
        s2 = St((), {}, {}, None, False)
        try:
            for i, s in enumerate(body['blocks'][0]['st']):
                if s['s'] == 'assign':
                    v = self.rvalue(s2, f, 0, s['rv'], 0, i)
                    self.write(s2, self.place(s2, f, 0, s['pl']), v)
        except Abort:
            return ANON
        v = s2.mem.get((0, 0), ANON)
        if v[0] == 'ref':
            v = self.read(s2, self.deref(v))
            if 'ref' in str(v) and v[0] == 'adt':
                return ANON
            st.mem[key] = v
            return ('ref', key, (), False)
        return v

    def rvalue(self, st, fr, d, r, b, i):
        k = r['r']
        if k == 'use':
            return self.operand(st, fr, d, r['x'])
        if k in ('ref', 'reborrow', 'rawptr'):
            pl = self.place(st, fr, d, r['pl'])
            m = r.get('m')
            if k == 'rawptr':
                m = 'Mut' in r['s']
            if pl[0] == 'mem':
                return ('ref', pl[1], pl[2], bool(m))
            v = pl[1]
            if v[0] == 't' and v[1] is not None:
                return ('t', v[1][1]) if v[1][0] == 'drf' else ('t', ('op', '&', v[1])) if depthof(v[1]) < 6 else ANON
            return ANON
        if k == 'bin':
            return self.binop(st, fr, d, r['op'], self.operand(st, fr, d, r['x']), self.operand(st, fr, d, r['y']), b, i)
        if k == 'un':
            v = self.operand(st, fr, d, r['x'])
            if r['op'] == 'Not' and v[0] == 'c' and v[1] in (0, 1):
                return ('c', 1 - v[1])
            if r['op'] == 'Not' and v[0] == 't' and v[1] is not None:
                if v[1][:2] == ('op', 'not'):
                    return ('t', v[1][2])
                return ('t', ('op', 'not', v[1]))
            if r['op'] == 'PtrMetadata' and v[0] == 't' and v[1] is not None:
                return ('t', ('op', 'len', v[1]))
            return self.site(st, fr, d, b, i)
        if k == 'discr':
            v = self.read(st, self.place(st, fr, d, r['pl']))
            if v[0] == 'adt':
                return ('c', v[2])
            if v[0] == 't' and v[1] is not None:
                return ('t', ('discr', v[1]))
            return self.site(st, fr, d, b, i)
        if k == 'cast':
            v = self.operand(st, fr, d, r['x'])
            return v if v[0] in ('c', 'ref', 'fn', 'adt') or r['c'].startswith('PointerCoercion') else self.site(st, fr, d, b, i)
        if k == 'agg':
            xs = tuple(self.operand(st, fr, d, x) for x in r['xs'])
            kk = r['k']
            if kk == 'adt':
                return ('adt', short(r['d']), r['v'], xs)
            if kk in ('tuple', 'closure', 'array'):
                return ('adt', kk, 0, xs)
            if any(self.keeps(x) for x in xs):
                raise Abort('aggregate ' + kk)
        return self.site(st, fr, d, b, i)

    def binop(self, st, fr, d, op, x, y, b, i):
        ov = op.endswith('WithOverflow')
        o = op.replace('WithOverflow', '').replace('Unchecked', '')

        def wrap(v):
            return ('adt', 'tuple', 0, (v, ('c', 0))) if ov else v
        if x[0] == 'c' and y[0] == 'c':
            p, q = x[1], y[1]
            f = {'Eq': lambda: int(p == q), 'Ne': lambda: int(p != q), 'Lt': lambda: int(p < q), 'Le': lambda: int(p <= q),
                 'Gt': lambda: int(p > q), 'Ge': lambda: int(p >= q), 'BitAnd': lambda: p & q, 'BitOr': lambda: p | q,
                 'BitXor': lambda: p ^ q}.get(o)
            if f is not None:
                return wrap(('c', f()))
            if o in ('Add', 'Sub', 'Mul'):
                v = p + q if o == 'Add' else p - q if o == 'Sub' else p * q
                if 0 <= v <= 4:
                    return wrap(('c', v))
            return wrap(self.site(st, fr, d, b, i))
        if o in ('BitAnd', 'BitOr'):
            for u, w in ((x, y), (y, x)):
                if u[0] == 'c' and u[1] in (0, 1) and fr is not None:
                    if u[1] == (1 if o == 'BitAnd' else 0):
                        return w
                    return u
        if x[0] in ('c', 't') and y[0] in ('c', 't') and x != ANON and y != ANON:
            if x == y and o in ('Eq', 'Ne', 'Le', 'Ge', 'Lt', 'Gt'):
                return ('c', int(o in ('Eq', 'Le', 'Ge')))
            neg = o in ('Ne', 'Ge', 'Gt')
            if neg:
                o, x, y = {'Ne': ('Eq', x, y), 'Ge': ('Lt', x, y), 'Gt': ('Le', x, y)}[o]
            if o == 'Le':                   # x <= y  is  !(y < x)
                o, x, y, neg = 'Lt', y, x, not neg
            if o == 'Eq' and repr(x) > repr(y):
                x, y = y, x
            # natural numbers: 0 < y is y != 0
            if o == 'Lt' and x == ('c', 0):
                o, x, neg = 'Eq', ('c', 0), not neg
            k = ('op', o, x, y)
            if max(depthof(x[1]) if x[0] == 't' else 0, depthof(y[1]) if y[0] == 't' else 0) < (4 if o in ('Eq', 'Lt') else 2):
                return wrap(('t', ('op', 'not', k) if neg else k))
        return wrap(self.site(st, fr, d, b, i))

    # ------------------------------------------------------------ calls
    def reaches(self, st, v, seen=None):
        """formatter or error reachable from an argument"""
        seen = seen if seen is not None else set()
        if v[0] == 'fmt':
            return True
        if v[0] == 'ref':
            if v[1] in seen:
                return False
            seen.add(v[1])
            return self.reaches(st, self.read(st, ('mem', v[1], v[2])), seen)
        if v[0] == 'adt':
            return any(self.reaches(st, x, seen) for x in v[3])
        return False

    def known(self, st, v, seen=None):
        """a result whose variant is tracked reachable from an argument"""
        seen = seen if seen is not None else set()
        if v[0] == 'ref':
            if v[1] in seen:
                return False
            seen.add(v[1])
            return self.known(st, self.read(st, ('mem', v[1], v[2])), seen)
        if v[0] == 'adt':
            return v[1] in ('Result', 'ControlFlow', 'Error') or any(self.known(st, x, seen) for x in v[3])
        return False

    def carries(self, st, v, seen=None):
        seen = seen if seen is not None else set()
        if v[0] == 'ref':
            if v[1] in seen:
                return False
            seen.add(v[1])
            return self.carries(st, self.read(st, ('mem', v[1], v[2])), seen)
        if v[0] == 'adt':
            return v[1] == 'Error' or any(self.carries(st, x, seen) for x in v[3])
        return False

    def havoc(self, st, fr, d, b, v, n, seen):
        if v[0] == 'ref':
            if v[1] in seen:
                return
            seen.add(v[1])
            if v[3] and v[1] != ('F',):
                if self.keeps(self.read(st, ('mem', v[1], v[2]))):
                    raise Abort('unknown call may change a tracked value')
                self.write(st, ('mem', v[1], v[2]), self.site(st, fr, d, b, 'h%d' % len(seen)))
            else:
                self.havoc(st, fr, d, b, st.mem.get(v[1], ANON), n, seen)
        elif v[0] == 'adt':
            for x in v[3]:
                self.havoc(st, fr, d, b, x, n, seen)

    def resolve(self, ft, args):
        """(fn, env) of a call with a body, or the kind of primitive"""
        db = self.db
        d, targs = ft[1], ft[2]
        info = db.fninfo[d]
        name = info.get('n') or short(d)
        tr = info.get('trait')
        if not tr:
            fn = db.fns.get(d)
            if fn is not None:
                p = fn['id'].split('::')
                if fn['_crate'] == 'models' and len(p) >= 2 and p[-2] == 'prim':
                    return None, 'prim::' + p[-1], None
                if fn.get('body'):
                    return fn, None, db.env_of(fn, targs)
            key = model_key(info.get('p') or d)
            if key in self.R.I.prims.table:
                return None, key, None
            m = db.models.get(key)
            if m is not None:
                return m, None, db.env_of(m, targs)
            return None, key, None
        tr = short(tr)
        S = targs[0]
        P = self.R.I.prims
        if tr in ('Try', 'FromResidual') and S[0] == 'adt':
            m = db.models.get('Try%s__%s' % (short(S[1]), name))
            if m is not None:
                return m, None, db.env_of(m, S[2])
        if tr in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator') and S[0] == 'ref' and name in ('next', 'next_back'):
            return self.resolve_ref(ft, name, tr, S, targs)
        imp = db.find_impl(tr, targs[:P.trait_arity(tr, targs)])
        if imp is not None:
            fn = db.impl_method(imp[0], name)
            if fn is not None and fn.get('body'):
                env = dict(imp[1])
                own = [g for g in fn['generics'] if g[1] not in env]
                for g, t in zip(own, targs[len(imp[0]['_targs']):]):
                    env[g[1]] = t
                return fn, None, env
        m = P.provided(tr, name)
        if m is not None and m.get('body') and (imp is not None or S[0] == 'adt'):
            return m, None, {g[1]: t for g, t in zip(m['generics'], targs)}
        return None, tr + '::' + name, None

    def resolve_ref(self, ft, name, tr, S, targs):
        return None, tr + '::&' + name, None

    def call(self, st, fr, d, b, t):
        """successor states of a call terminator"""
        fo = t['f']
        args = [self.operand(st, fr, d, a) for a in t['args']]
        dt = fr.tyloc(t['dest']['l']) if not t['dest']['p'] else None
        if fo['o'] == 'const' and fo['ty']['k'] == 'fndef':
            ft = fr.ty(fo['ty'])
        else:
            f = self.operand(st, fr, d, fo)
            if f[0] != 'fn':
                return self.opaque(st, fr, d, b, t, args, dt, 'indirect call')
            ft = f[1]
        return self.dispatch(st, fr, d, b, t, ft, args, dt)

    def finish(self, st, fr, d, t, v):
        if t['to'] < 0:
            return []
        self.write(st, self.place(st, fr, d, t['dest']), v)
        st.stack = st.stack[:-1] + ((fr, t['to']),)
        return [st]

    def dispatch(self, st, fr, d, b, t, ft, args, dt):
        db = self.db
        info = db.fninfo[ft[1]]
        name = info.get('n') or short(ft[1])
        if info.get('ctor') is not None:
            v = self.R.I.prims.ctor(info, dt, [])
            if v.op == 'adt':
                return self.finish(st, fr, d, t, ('adt', v.a[0], v.a[1], tuple(args)))
            if any(self.reaches(st, x) or self.carries(st, x) for x in args):
                raise Abort('constructor ' + name)
            return self.finish(st, fr, d, t, ANON)
        tr = short(info['trait']) if info.get('trait') else None
        S = ft[2][0] if ft[2] else None
        if tr in ('FnOnce', 'FnMut', 'Fn'):
            return self.fncall(st, fr, d, b, t, S, args, dt)
        fmt = any(self.reaches(st, a) for a in args)
        if tr in FMTTRAITS and name == 'fmt' and fmt:
            return self.writes(st, fr, d, b, t, dt)
        if tr == 'Unsigned':
            return self.finish(st, fr, d, t, ('t', ('num', S, name)))
        if tr in ('From', 'Into') and len(ft[2]) > 1 and ft[2][0] == ft[2][1] or tr == 'IntoIterator' and fmt and S[0] == 'adt' and \
                (S[1].startswith('models::')):
            return self.finish(st, fr, d, t, args[0])
        if tr == 'Clone' and name == 'clone' and args[0][0] == 'ref' and self.carries(st, args[0]):
            return self.finish(st, fr, d, t, self.read(st, self.deref(args[0])))
        if tr == 'PartialEq' and name in ('eq', 'ne') and any(self.known(st, a) for a in args):
            v = []
            for a in args:
                while a[0] == 'ref':
                    a = self.read(st, self.deref(a))
                v.append(a)
            if v[0][0] == 'adt' and v[1][0] == 'adt' and (v[0][2] != v[1][2] or v[0] == v[1]):
                return self.finish(st, fr, d, t, ('c', int((v[0] == v[1]) == (name == 'eq'))))
        fn, key, env = self.resolve(ft, args)
        if tr == 'Iterator' and key and '::&' in key and fmt and S[1]:
            # an iterator behind a reference
            a0 = self.read(st, self.deref(args[0]))
            f2 = ('fndef', ft[1], (S[2],) + ft[2][1:])
            return self.dispatch(st, fr, d, b, t, f2, [a0] + args[1:], dt)
        if key in ('prim::fmt_char', 'prim::fmt_elem'):
            return self.writes(st, fr, d, b, t, dt)
        if key in ('mem__drop', 'mem__forget'):
            return self.finish(st, fr, d, t, UNITV)
        if key == 'prim::panic' or t['to'] < 0 and fn is None:
            if st.failed:
                self.offend(st, t, 'panics')
            return []
        if fn is not None and (fmt or any(self.known(st, a) for a in args)):
            self.enter(st, fn, env, args)
            return [st]
        return self.opaque(st, fr, d, b, t, args, dt, key or name)

    def fncall(self, st, fr, d, b, t, S, args, dt):
        db = self.db
        f, tupv = args[0], args[1]
        while S[0] == 'ref':
            if f[0] == 'ref':
                g = self.read(st, self.deref(f))
                if g[0] == 'ref':
                    f = g
            S = S[2]
        xs = list(tupv[3]) if tupv[0] == 'adt' else [ANON]
        if S[0] == 'closure':
            fn = db.fns.get(S[1])
            if fn is None or not fn.get('body'):
                return self.opaque(st, fr, d, b, t, args, dt, 'closure')
            if not any(self.reaches(st, a) or self.known(st, a) for a in [f] + xs):
                return self.opaque(st, fr, d, b, t, [f] + xs, dt, 'closure')
            byref = fn['body']['locals'][1]['ty']['k'] == 'ref'
            if byref and f[0] != 'ref':
                k = (len(st.stack) + 1, 'self')
                st.mem[k] = f
                f = ('ref', k, (), True)
            if not byref and f[0] == 'ref':
                f = self.read(st, self.deref(f))
            self.enter(st, fn, db.env_of(fn, S[2]), [f] + xs)
            return [st]
        if S[0] == 'fndef':
            return self.dispatch(st, fr, d, b, t, S, xs, dt)
        return self.opaque(st, fr, d, b, t, [f] + xs, dt, 'callback')

    def isresult(self, dt):
        return dt is not None and dt[0] == 'adt' and short(dt[1]) == 'Result' and dt[2] and dt[2][0] in (('tuple', ()), UNK)

    def opaque(self, st, fr, d, b, t, args, dt, key):
        fmt = any(self.reaches(st, a) for a in args)
        if fmt:
            if self.isresult(dt):
                return self.writes(st, fr, d, b, t, dt)
            if dt is None or self.holds_fmt(dt):
                raise Abort('call %s' % key)
            # queries on the formatter (flags, width)
        elif any(self.carries(st, a) for a in args):
            if dt is None or not (dt[0] == 'prim' and dt[1] == '!' or dt == ('tuple', ())):
                st.taint = True
        self_seen = set()
        for a in args:
            self.havoc(st, fr, d, b, a, 0, self_seen)
        if t['to'] < 0:
            return []
        return self.finish(st, fr, d, t, self.site(st, fr, d, b, 'call'))

    def holds_fmt(self, t):
        if not isinstance(t, tuple):
            return False
        if t and t[0] == 'adt' and short(t[1]) in (FMT, 'DebugList', 'DebugStruct', 'DebugTuple', 'DebugMap', 'DebugSet', 'DebugInner', 'PadAdapter'):
            return True
        if t and t[0] in ('tp', 'proj', 'unk', 'other', 'closure'):
            return True
        return any(self.holds_fmt(x) for x in t if isinstance(x, tuple))

    def at(self, st, t):
        """innermost place in the crate's own code"""
        for f, bb in reversed(st.stack):
            if f.fn['_crate'] != 'models':
                return f.body['blocks'][bb]['term'].get('sp', ''), f.fn['id']
        return t.get('sp', ''), '?'

    def writes(self, st, fr, d, b, t, dt):
        sp, fid = self.at(st, t)
        self.sites.add((fid, sp))
        if st.failed:
            self.offend(st, t, 'writes again')
            return []
        if not self.isresult(dt):
            raise Abort('output operation without a result')
        s2 = st.copy()
        s2.failed = (fid, sp)
        return self.finish(st, fr, d, t, OKV) + self.finish(s2, fr, d, t, ERRV)

    def offend(self, st, t, what):
        sp, fid = self.at(st, t)
        (self.unsure if st.taint else self.bad).append((st.failed, (fid, sp), what))

    # ------------------------------------------------------------ driver
    def step(self, st):
        fr, b = st.stack[-1]
        d = len(st.stack)
        bl = fr.body['blocks'][b]
        lv = fr.live[b]
        for k in [k for k in st.mem if k[0] == d and isinstance(k[1], int) and k[1] not in lv]:
            del st.mem[k]
        for i, s in enumerate(bl['st']):
            k = s['s']
            if k == 'assign':
                v = self.rvalue(st, fr, d, s['rv'], b, i)
                self.write(st, self.place(st, fr, d, s['pl']), v)
            elif k in ('dead', 'live'):
                st.mem.pop((d, s['l']), None)
            elif k == 'setdiscr':
                raise Abort('setdiscr')
        t = bl['term']
        k = t['t']
        self.prune(st)
        if k == 'goto' or k == 'drop' or k == 'assert':
            if k == 'assert':
                x = self.operand(st, fr, d, t['x'])
                if x[0] == 'c' and bool(x[1]) != bool(t['exp']):
                    return []
            st.stack = st.stack[:-1] + ((fr, t['to']),)
            return [st]
        if k == 'return':
            v = st.mem.get((d, 0), UNITV)
            for key in [key for key in st.mem if isinstance(key[0], int) and key[0] >= d]:
                del st.mem[key]
            st.stack = st.stack[:-1]
            if not st.stack:
                self.result(st, v)
                return []
            fr2, b2 = st.stack[-1]
            return self.finish(st, fr2, d - 1, fr2.body['blocks'][b2]['term'], v)
        if k == 'switch':
            return self.switch(st, fr, d, t)
        if k == 'call':
            return self.call(st, fr, d, b, t)
        return []

    def prune(self, st):
        """what is known of values nothing holds any more is forgotten"""
        if not st.facts:
            return
        live = set()
        for v in st.mem.values():
            sites(v, live)
        for k in list(st.facts):
            ks = set()
            sites(k, ks)
            if not ks <= live:
                del st.facts[k]

    def switch(self, st, fr, d, t):
        x = self.operand(st, fr, d, t['x'])
        if x[0] == 'c':
            to = t['else']
            for v, bb in t['cases']:
                if v == x[1]:
                    to = bb
                    break
            st.stack = st.stack[:-1] + ((fr, to),)
            return [st]
        k = x[1] if x[0] == 't' else None
        flip = False
        while k is not None and k[:2] == ('op', 'not'):
            k, flip = k[2], not flip
        out = []
        f = st.facts.get(k) if k is not None else None
        vals = [v for v, bb in t['cases']]

        def go(bb, fact):
            if fr.body['blocks'][bb]['term']['t'] == 'unreachable':
                return
            s2 = st.copy()
            if k is not None and fact is not None:
                s2.facts[k] = fact
            s2.stack = st.stack[:-1] + ((fr, bb),)
            out.append(s2)
        for v, bb in t['cases']:
            w = (1 - v) if flip and v in (0, 1) else v
            if f is not None:
                if f[0] == 'is' and f[1] != w or f[0] == 'not' and w in f[1]:
                    continue
            go(bb, ('is', w))
        ws = frozenset((1 - v) if flip and v in (0, 1) else v for v in vals)
        if f is not None and f[0] == 'is':
            if f[1] not in ws:
                go(t['else'], f)
        else:
            go(t['else'], ('not', ws | (f[1] if f else frozenset())) if not (flip or (k and k[0] == 'op' and k[1] in ('Eq', 'Lt') and len(ws) == 1))
               else ('is', 1 - next(iter(ws))))
        return out

    def result(self, st, v):
        if not st.failed:
            return
        t = {'sp': self.fn['sp']}
        if v[0] == 'adt' and v[1] == 'Result':
            if v[2] == 1:
                self.returns.add(st.failed)
                return
            st.stack = ()
            (self.unsure if st.taint else self.bad).append((st.failed, (self.fn['id'], self.fn['sp']), 'returns Ok'))
            return
        self.unsure.append((st.failed, (self.fn['id'], self.fn['sp']), 'returns a value not tracked'))

    def run(self):
        fn = self.fn
        st = St((), {('F',): ('fmt',)}, {}, None, False)
        args = []
        for i, j in enumerate(fn['inputs']):
            t = self.R.t(j)
            if t[0] == 'ref' and t[1] and t[2][0] == 'adt' and short(t[2][1]) == FMT:
                args.append(('ref', ('F',), (), True))
            else:
                args.append(('t', ('par', i)))
        self.enter(st, fn, self.R.env, args)
        todo = [st]
        seen = set()
        while todo:
            s = todo.pop()
            k = s.key()
            if k in seen:
                continue
            seen.add(k)
            self.states += 1
            if self.states > self.limit:
                raise Abort('state limit')
            todo += self.step(s)
        return self


def fmtroots():
    out = []
    for tr in FMTTRAITS:
        for imp in impls(tr):
            f = method(imp, 'fmt')
            if f is not None and f.get('body'):
                out.append(f)
    return sorted(out, key=label)


def propagation(rep):
    for fn in fmtroots():
        oid = 'sink failure is returned: ' + label(fn)
        try:
            E = Explore(fn, sem.TIER[0]).run()
        except Abort as e:
            rep.undecided(oid, str(e))
            continue
        if E.bad:
            f, o, what = sorted(set(E.bad))[0]
            rep.violated(oid, function=label(fn), at=where(fn), failing_write=f[1], then=what + ' at ' + o[1])
        elif E.unsure:
            rep.undecided(oid, str(E.unsure[0]))
        else:
            rep.proved(oid)
        rep.notes.setdefault('write sites', {})[label(fn)] = [s for f, s in sorted(E.sites)]


# ------------------------------------------------------------------ order of the output
BRACKETS = '[]{}()<>'


def bare(s):
    return ''.join(ch for ch in s if ch not in BRACKETS)


def text(v):
    """constant text of an evaluated operand"""
    while isinstance(v, tuple) and len(v) == 2 and v[0] == 'ref':
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == 'str':
        return v[1]
    if isinstance(v, tuple) and v and v[0] == 'chr':
        return chr(v[1])
    raise Undef('text')


def positions(v):
    v = strip(v)
    if isinstance(v, tuple) and v and v[0] == 'in':
        if v[1] != 'A':
            raise Undef('not an element')
        return [v[2]]
    if isinstance(v, tuple) and v and v[0] == 'arr':
        return [p for x in v[1] for p in positions(x)]
    if isinstance(v, tuple) and v and v[0] == 'adt' and len(v[3]) == 1:
        return positions(v[3][0])
    raise Undef('not an element')


def tokens(v):
    """('T', text) and ('E', positions) in order of output"""
    out = []
    if not (isinstance(v, tuple) and v and v[0] == 'seq'):
        v = ('seq', (v,))
    for e in v[1]:
        if e[1] == 'write':
            s = text(e[2][0])
            if out and out[-1][0] == 'T':
                out[-1] = ('T', out[-1][1] + s)
            elif s:
                out.append(('T', s))
        elif e[1] == 'fmt':
            w = strip(e[2][0])
            while isinstance(w, tuple) and w and w[0] == 'adt' and len(w[3]) == 1:
                w = w[3][0]
            if isinstance(w, tuple) and w and w[0] in ('arr', 'in'):
                out.append(('E', positions(w)))
            else:
                raise Undef('value')
        else:
            raise Undef(e[1])
    return out


def between(ts, rows, cols):
    """text before the first row, between consecutive rows, after the last; None when rows are not told apart"""
    es = [i for i, t in enumerate(ts) if t[0] == 'E']
    first, last = {}, {}
    if cols:
        for i in es:
            rs = {p[0] for p in ts[i][1]}
            if len(rs) > 1:
                return None
            for r in rs:
                first.setdefault(r, i)
                last[r] = i
    elif len(es) == rows:
        for r, i in enumerate(es):
            first[r] = last[r] = i
    if len(first) != rows or not rows:
        return None

    def txt(a, b):
        return ''.join(t[1] for t in ts[a:b] if t[0] == 'T')
    return txt(0, first[0]), [txt(last[r] + 1, first[r + 1]) for r in range(rows - 1)], txt(last[rows - 1] + 1, len(ts))


def order(rep):
    for a in ('Vector', 'Matrix'):
        for imp in impls('Debug', a):
            fn = method(imp, 'fmt')
            oid = 'every element once, in order: ' + label(fn)
            R = roots.Root(db(), fn)
            R.I.sink = 'sound'
            S = R.run()
            if S.err or S.state is None or S.ret is None:
                rep.undecided(oid, 'not analysed: %s' % S.err)
                continue
            log = S.state.mem[roots.LOG]
            shp = shape(R, R.t(fn['inputs'][0]))
            if shp is None:
                rep.undecided(oid, 'unknown shape')
                continue
            if log.top:
                rep.undecided(oid, 'output not derived: ' + show(log)[:300])
                continue
            sepc = separator(R, S, log, shp) if len(shp) == 2 else None

            def pred_(E, loc):
                return judge(E, loc, S, log, shp, sepc)
            post = tuple(x for x in S.state.pc if x not in S.pre)
            w = separate(R, S, [Item(oid, log, None, pred=pred_)], (Free,), range(1), False, tuple(S.pre), post)
            if w is not None:
                rep.violated(oid, function=label(fn), at=where(fn), **w)
                continue
            why = unproved(S, log, shp, post)
            if why is None:
                rep.proved(oid)
            else:
                rep.undecided(oid, why)


def separator(R, S, log, shp):
    """the text the derived output puts between two rows, brackets aside"""
    for rows, cols in ((2, 1), (2, 2), (3, 1), (3, 2)):
        try:
            E = Ev(Free(), {shp[0]: rows, shp[1]: cols})
            t = between(tokens(E.ev(log, {})), rows, cols)
        except Undef:
            continue
        if t is not None and t[1]:
            s = bare(t[1][0])
            return s.strip() or s or None
    return None


def judge(E, loc, S, log, shp, sepc):
    rv = strip(E.ev(S.ret, loc))
    if isinstance(rv, tuple) and rv[:3] == ('adt', 'Result', 1):
        return 'an error is returned although no write failed'
    n = [E.num(x, loc) for x in shp]
    v = E.ev(log, loc)
    try:
        ts = tokens(v)
    except Undef:
        return None
    got = [p for t in ts if t[0] == 'E' for p in t[1]]
    want = [(i,) for i in range(n[0])] if len(n) == 1 else [(i, j) for i in range(n[0]) for j in range(n[1])]
    if got != want:
        return 'elements shown: %s' % (got,)
    if len(n) == 1:
        return None
    t = between(ts, *n)
    whole = ''.join(x[1] for x in ts if x[0] == 'T')
    if t is None:
        if sepc and not n[1] and not any(x[0] == 'E' for x in ts):
            # rows without elements: as many separators as with one element each
            E1 = Ev(E.m, dict(E.env))
            E1.env[shp[1]] = 1
            try:
                w1 = ''.join(x[1] for x in tokens(E1.ev(log, {})) if x[0] == 'T')
            except Undef:
                return None
            if w1.count(sepc) == max(n[0] - 1, 0) != whole.count(sepc):
                return 'text %r has %d separators for %d rows' % (whole, whole.count(sepc), n[0])
        return None
    p, mid, s = t
    for r, x in enumerate(mid):
        if not bare(x):
            return 'no separator after row %d' % r
    if sepc and sepc.strip():
        if bare(p).strip().endswith(sepc):
            return 'a separator before the first row: %r' % p
        if bare(s).strip().startswith(sepc):
            return 'a separator after the last row: %r' % s
    return None


def erase(t, keep):
    """the part of an output history made of one kind of operation"""
    if t.op == 'seq':
        return seq(*[erase(x, keep) for x in t.a[0]])
    if t.op == 'ev':
        if t.a[0] not in ('write', 'fmt'):
            raise Undef(t.a[0])
        return t if t.a[0] == keep else NIL
    if t.op == 'ite':
        return ite(t.a[0], erase(t.a[1], keep), erase(t.a[2], keep))
    if t.op == 'seqloop':
        k = fresh_iv('e')
        return seqloop(t.a[0], k, seq(erase(inst(t, k), keep)))
    raise Undef(t.op)


def consttext(t, pc):
    """constant text of a history of writes under path conditions"""
    t = simp(t, pc)
    if t.op == 'seq':
        return ''.join(consttext(x, pc) for x in t.a[0])
    if t.op == 'ev':
        v = simp(unref(t.a[1][0]), pc)
        if v.op == 'str':
            return v.a[0]
        if v.op == 'chr':
            return chr(v.a[0])
    if t.op == 'ite':
        if entails(pc, t.a[0]):
            return consttext(t.a[1], pc)
        if entails(pc, not_(t.a[0])):
            return consttext(t.a[2], pc)
        a, b = consttext(t.a[1], pc), consttext(t.a[2], pc)
        if a == b:
            return a
    raise Undef('text ' + t.op)


def hasfmt(t):
    return contains(t, lambda x: x.op == 'ev' and x.a[0] != 'write')


def split(items):
    ix = [i for i, x in enumerate(items) if hasfmt(x)]
    if not ix:
        raise Undef('no elements')
    return items[:ix[0]], items[ix[0]:ix[-1] + 1], items[ix[-1] + 1:]


def items_of(t):
    return list(t.a[0]) if t.op == 'seq' else [t]


def unproved(S, log, shp, post):
    pre = tuple(S.pre)
    for x in post:
        if not entails(pre, x):
            return 'return needs ' + show(x)[:200]
    if not (S.ret.op == 'adt' and S.ret.a[1] == 0):
        return 'result %s' % show(S.ret)[:200]
    A = S.args[0]
    try:
        el = simp(erase(log, 'fmt'), pre)
        i, j = fresh_iv('i'), fresh_iv('j')
        if len(shp) == 1:
            want = [seqloop(shp[0], i, seq(raw('ev', 'fmt', (elem(A, i),))))]
        else:
            want = [seqloop(shp[0], i, seq(seqloop(shp[1], j, seq(raw('ev', 'fmt', (elem(A, i, j),)))))) ]
        el = unwrap(el)
        if len(shp) == 1:
            ok = same(el, want[0]) or wholearray(el, A, ())
        else:
            ok = same(el, want[0]) or rowloop(el, A, shp) or wholearray(el, A, ())
        if not ok:
            return 'elements: %s' % show(el)[:400]
        if len(shp) == 1:
            return None
        return separators(log, shp, pre)
    except Undef as e:
        return 'not decided: %s' % e


def unwrap(t):
    if t.op == 'seq' and len(t.a[0]) == 1:
        return t.a[0][0]
    return t


def same(a, b):
    return canon(unwrap(a)) is canon(unwrap(b))


def wholearray(t, A, ix):
    """one event that prints the whole array (or this row) of elements"""
    t = unwrap(t)
    if t.op != 'ev':
        return False
    v = arr(unref(t.a[1][0])) 
    w = arr(elem(A, *ix) if ix else unref(A))
    return v is not None and v is w


def rowloop(t, A, shp):
    if t.op != 'seqloop' or not (t.a[0] is shp[0]):
        return False
    k = fresh_iv('r')
    b = unwrap(inst(t, k))
    return wholearray(b, A, (k,))


def separators(log, shp, pre):
    items = items_of(log)
    p, body, s = split(items)
    if len(body) != 1:
        return 'rows are not one loop'
    b = body[0]
    if b.op == 'ev':
        return None                 # the whole array is printed by the standard library
    if b.op != 'seqloop' or b.a[0] is not shp[0]:
        return 'rows are not one loop over the rows'
    i = fresh_iv('r')

    def at(x):
        return items_of(inst(b, x))
    j = add(i, ONE)
    pc = pre + (le(ZERO, i), lt(j, shp[0]))
    x0, _, x2 = split(at(i))
    y0, _, _ = split(at(j))
    mid = ''.join(consttext(x, pc) for x in x2 + y0)
    if not bare(mid):
        return 'no separator'
    sepc = bare(mid).strip() or bare(mid)
    pc1 = pre + (lt(ZERO, shp[0]),)
    l = sub(shp[0], ONE)
    z0, _, _ = split(at(ZERO))
    _, _, w2 = split(at(l))
    first = ''.join(consttext(x, pc1) for x in p + z0)
    lastt = ''.join(consttext(x, pc1) for x in w2 + s)
    if bare(first).strip().endswith(sepc.strip() or sepc) or bare(lastt).strip().startswith(sepc.strip() or sepc):
        return 'separator at an end: %r %r' % (first, lastt)
    return None


def c20(rep):
    order(rep)
    propagation(rep)
