"""Abstract interpreter over generic MIR.

One pass per function: blocks are visited in topological order of the loop forest, states are
merged at joins (gated values), loops are summarised by solving the recurrences of the cells
they modify.  The value domain is terms.py, the path-condition domain is facts.py."""
from terms import *
from facts import feasible, entails, simp
import mir
import time
from mir import UNK, short
import loops

MAXU = c(2 ** 64 - 1)
USZ = ('prim', 'usize')


WIDTH = {'usize': 64, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8, 'u128': 128, 'isize': 64, 'i64': 64, 'i32': 32, 'i16': 16, 'i8': 8, 'i128': 128}


def int_range(t):
    """(least, greatest) value of an integer type"""
    if t is None or t[0] != 'prim' or t[1] not in WIDTH:
        return None
    b = WIDTH[t[1]]
    return (-2 ** (b - 1), 2 ** (b - 1) - 1) if t[1][0] == 'i' else (0, 2 ** b - 1)


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc, mem):
        self.pc = pc
        self.mem = mem

    def copy(self):
        return State(self.pc, dict(self.mem))

    def assume(self, lit):
        if lit.op == 'true':
            return self
        if lit.op == 'and':
            for x in lit.a[0]:
                self.assume(x)
        elif lit not in self.pc:
            self.pc = self.pc + (lit,)
        return self


LOG = ('LOG',)


def merge_vals(cond, a, b):
    if a is b:
        return a
    if a.op == 'seq' and b.op == 'seq':
        xa, xb = a.a[0], b.a[0]
        i = 0
        while i < len(xa) and i < len(xb) and xa[i] is xb[i]:
            i += 1
        ra, rb = raw('seq', xa[i:]), raw('seq', xb[i:])
        return seq(*xa[:i], raw('ite', cond, ra, rb) if ra is not rb else ra)
    return ite(cond, a, b)


def merge(a, b):
    """join of two states"""
    if a is None:
        return b
    if b is None:
        return a
    if a.pc is b.pc or a.pc == b.pc:
        # can only happen for nondeterministic branches
        cond = raw('b', raw('sv', fresh_name('nd')))
        pc = a.pc
    else:
        sa, sb = set(a.pc), set(b.pc)
        common = tuple(x for x in a.pc if x in sb)
        da = [x for x in a.pc if x not in sb]
        db_ = [x for x in b.pc if x not in sa]
        cond = None
        nb = set(db_)
        for x in da:
            if not_(x) in nb:
                cond = x
                break
        ca, cb = and_(*da), and_(*db_)
        if cond is None:
            cond = ca
            if ca.op == 'true':
                cond = not_(cb)
        o = or_(ca, cb)
        st = State(common, None)
        st.assume(o)
        pc = st.pc
    mem = {}
    for k, v in a.mem.items():
        w = b.mem.get(k)
        if w is None:
            if k[0] != 'LOG':
                mem[k] = v
        else:
            mem[k] = merge_vals(cond, v, w)
    for k, w in b.mem.items():
        if k not in a.mem:
            mem[k] = w
    return State(pc, mem)


def merge_all(sts):
    r = None
    for s in sts:
        r = merge(r, s)
    return r


# ------------------------------------------------------------------ control flow structure
def json_key(t):
    return (t['f']['ty']['d'], t.get('sp') or '', repr(t['dest'])[:60], t.get('to'))


def succs(term, unwind):
    t = term['t']
    out = []
    if t == 'goto':
        out = [term['to']]
    elif t == 'switch':
        out = [b for _, b in term['cases']] + [term['else']]
    elif t in ('call', 'drop', 'assert'):
        if term['to'] >= 0:
            out = [term['to']]
        if unwind and isinstance(term['unwind'], int):
            out.append(term['unwind'])
    return out


def scc(nodes, succ):
    """Tarjan; returns SCCs in reverse topological order"""
    idx, low, onst, st, out = {}, {}, set(), [], []
    n = [0]

    def visit(v):
        work = [(v, iter(succ[v]))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        onst.add(v)
        while work:
            u, it = work[-1]
            adv = False
            for w in it:
                if w not in nodes:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succ[w])))
                    adv = True
                    break
                elif w in onst:
                    low[u] = min(low[u], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                p = work[-1][0]
                low[p] = min(low[p], low[u])
            if low[u] == idx[u]:
                comp_ = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp_.append(w)
                    if w == u:
                        break
                out.append(comp_)
    for v in sorted(nodes):
        if v not in idx:
            visit(v)
    return out


class Loop:
    def __init__(self, head, nodes, items):
        self.head, self.nodes, self.items = head, nodes, items


def structure(nodes, succ, entry):
    """topologically ordered list of blocks and Loops"""
    comps = scc(nodes, succ)
    comps.reverse()
    items = []
    for cmp_ in comps:
        if len(cmp_) == 1 and cmp_[0] not in succ[cmp_[0]]:
            items.append(cmp_[0])
            continue
        ns = set(cmp_)
        heads = {w for v in nodes if v not in ns for w in succ[v] if w in ns}
        if entry in ns:
            heads.add(entry)
        if len(heads) != 1:
            raise Unsupported('irreducible loop')
        h = heads.pop()
        s2 = {v: [w for w in succ[v] if w != h] for v in ns}
        items.append(Loop(h, ns, structure(ns, s2, h)))
    return items


class FnInfo:
    def __init__(self, body, unwind):
        self.body = body
        self.blocks = body['blocks']
        succ = {i: succs(b['term'], unwind) for i, b in enumerate(self.blocks)}
        seen = {0}
        st = [0]
        while st:
            v = st.pop()
            for w in succ[v]:
                if w not in seen:
                    seen.add(w)
                    st.append(w)
        self.items = structure(seen, {v: succ[v] for v in seen}, 0)


class Frame:
    __slots__ = ('fn', 'env', 'depth', 'info', 'body', 'tc')

    def __init__(self, fn, env, depth, info, body):
        self.fn, self.env, self.depth, self.info, self.body = fn, env, depth, info, body
        self.tc = {}


def has_ptr(v):
    return v.op == 'ptr' or v.op == 'ite' and (has_ptr(v.a[1]) or has_ptr(v.a[2]))


class Interp:
    def __init__(self, db, own=False):
        self.ctx = None
        self.db = db
        self.own = own                  # ownership mode: moved/uninit marks, unwinding
        self.quiet = 0
        self.sink = None       # 'sound': a formatter that never fails
        self.stack = []
        self.panics = []
        self.obl = []
        self.unknown = set()
        self.blind = None               # why effects of the code may have been missed
        self.infos = {}
        self.num = {}                   # root type -> node
        self.facts = []
        self.hints = {}
        self.modular = {}
        self.stats = {'calls': 0, 'loops': 0, 'blocks': 0, 'fns': set(), 'sites': set(), 'unsolved': 0}
        self.viol = []
        self.budget = 200000
        self.deadline = None
        self.noassert = False          # follow only the passing side of assertions, without recording it
        self.recs = True               # keep array recurrences without closed form (else: unknown array)
        import prims
        self.prims = prims.Prims(self)

    # -------------------------------------------------------------- helpers
    def ty(self, fr, j):
        k = id(j)
        r = fr.tc.get(k)
        if r is None:
            r = self.db.norm(self.db.subst(self.db.ty(j), fr.env))
            fr.tc[k] = r
        return r

    def where(self):
        for f in reversed(self.stack):
            if f[0].fn['_crate'] != 'models':
                return f[0].fn['id'], f[1]
        return '?', '?'

    def chain(self):
        return [f[0].fn['id'] for f in self.stack if f[0].fn['_crate'] != 'models']

    def panic(self, st, kind, detail=''):
        if self.quiet:
            return
        if not feasible(st.pc):
            return
        fid, sp = self.where()
        self.panics.append({'kind': kind, 'pc': st.pc, 'fn': fid, 'sp': sp, 'detail': detail, 'chain': self.chain(),
                            'log': st.mem.get(LOG)})

    def obligation(self, st, kind, cond, detail=''):
        if self.quiet:
            return
        ok = entails(st.pc, cond)
        fid, sp = self.where()
        self.obl.append({'kind': kind, 'cond': cond, 'pc': st.pc, 'ok': ok, 'fn': fid, 'sp': sp, 'detail': detail, 'chain': self.chain()})

    def lost(self, why):
        if not self.quiet:
            self.blind = why

    def event(self, st, ev):
        st.mem[LOG] = seq(st.mem[LOG], ev)

    # -------------------------------------------------------------- places
    def read(self, st, pl):
        k = pl[0]
        if k == 'val':
            return pl[1]
        if k == 'ite':
            return ite(pl[1], self.read(st, pl[2]), self.read(st, pl[3]))
        v = st.mem.get(pl[1])
        if v is None:
            return UNINIT
        for p in pl[2]:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        if p[0] == 'f':
            return field(v, p[1], p[2])
        if p[0] == 'i':
            return sel(v, p[1])
        if p[0] == 'sub':
            s, n = p[1], p[2]
            l = self.length(v)
            if s is ZERO and l is n:
                return v
            if v.top:
                return v
            k = fresh_iv()
            return comp(n, k, sel(v, add(s, k)))
        raise Unsupported('proj %r' % (p,))

    def ext(self, st, pl, p):
        k = pl[0]
        if k == 'val':
            src = pl[2] if len(pl) > 2 else None
            if src is not None:
                src = self.ext(st, ('mem',) + src, p)[1:]
            return ('val', self.proj(pl[1], p), src)
        if k == 'ite':
            return ('ite', pl[1], self.ext(st, pl[2], p), self.ext(st, pl[3], p))
        ps = pl[2]
        if ps and ps[-1][0] == 'sub':
            s = ps[-1]
            if p[0] == 'i':
                return ('mem', pl[1], ps[:-1] + (('i', add(s[1], p[1])),))
            if p[0] == 'sub':
                return ('mem', pl[1], ps[:-1] + (('sub', add(s[1], p[1]), p[2]),))
        return ('mem', pl[1], ps + (p,))

    def follow(self, v):
        """place designated by a reference value"""
        if v.op == 'mref':
            return ('mem', v.a[0], v.a[1])
        if v.op == 'vref':
            return ('val', v.a[0], v.a[1])
        if v.op == 'eptr':
            return ('val', sel(v.a[0], v.a[1]), None)
        if v.op == 'ite':
            return ('ite', v.a[0], self.follow(v.a[1]), self.follow(v.a[2]))
        return ('val', deref(v), None)

    def place(self, fr, st, p):
        pl = ('mem', (fr.depth, p['l']), ())
        variant = None
        for e in p['p']:
            k = e[0]
            if k == 'd':
                v = self.read(st, pl)
                if has_ptr(v):
                    v = self.prims.deptr(st, v)
                pl = self.follow(v)
            elif k == 'f':
                pl = self.ext(st, pl, ('f', e[1], variant))
                variant = None
            elif k == 'dc':
                variant = e[1]
            elif k == 'i':
                pl = self.ext(st, pl, ('i', st.mem.get((fr.depth, e[1]), UNINIT)))
            elif k == 'ci':
                if e[3]:
                    pl = self.ext(st, pl, ('i', sub(self.length(self.read(st, pl)), c(e[1]))))
                else:
                    pl = self.ext(st, pl, ('i', c(e[1])))
            elif k == 'sub':
                n = self.length(self.read(st, pl))
                to = sub(n, c(e[2])) if e[3] else c(e[2])
                pl = self.ext(st, pl, ('sub', c(e[1]), sub(to, c(e[1]))))
            else:
                raise Unsupported('projection ' + str(e))
        return pl

    def write(self, st, pl, v):
        k = pl[0]
        if k == 'val':
            # store through something that is not a tracked location
            self.unknown.add('write through untracked reference')
            self.lost('a store through a reference that is not tracked')
            return
        if k == 'ite':
            a = self.read(st, pl[2])
            b = self.read(st, pl[3])
            self.write(st, pl[2], ite(pl[1], v, a))
            b2 = self.read(st, pl[3])
            self.write(st, pl[3], ite(pl[1], b2, v))
            return
        if not pl[2]:
            st.mem[pl[1]] = v
            return
        st.mem[pl[1]] = self.upd(st.mem.get(pl[1], UNINIT), pl[2], v)

    def upd(self, v, ps, x):
        if not ps:
            return x
        p = ps[0]
        if v.op == 'ite' and alen(v) is None:
            return ite(v.a[0], self.upd(v.a[1], ps, x), self.upd(v.a[2], ps, x))
        if p[0] == 'f':
            if v.op == 'adt':
                if p[2] is not None and p[2] != v.a[1]:
                    return v
                fs = list(v.a[2])
                if p[1] >= len(fs):
                    return top('field write')
                fs[p[1]] = self.upd(fs[p[1]], ps[1:], x)
                return raw('adt', v.a[0], v.a[1], tuple(fs))
            if v.op == 'wrongvariant':
                return v
            return top('field write into ' + v.op)
        if p[0] == 'i':
            return store(v, p[1], self.upd(sel(v, p[1]), ps[1:], x))
        if p[0] == 'sub':
            s, n = p[1], p[2]
            old = self.proj(v, p)
            new = self.upd(old, ps[1:], x)
            l = self.length(v)
            k = fresh_iv()
            if l is None:
                return top('subslice write')
            return comp(l, k, ite(and_(le(s, k), lt(k, add(s, n))), sel(new, sub(k, s)), sel(v, k)))
        raise Unsupported('upd')

    def length(self, v):
        n = alen(v)
        if n is not None:
            return n
        if v.op == 'svarr':
            return v.a[2]
        if v.op == 'ite':
            return ite(v.a[0], self.length(v.a[1]), self.length(v.a[2]))
        if v.op == 'uarr':
            return v.a[0]
        if v.op == 'in' or v.op == 'app':
            return iapp('len', v)
        return top('length of ' + v.op)

    # -------------------------------------------------------------- operands
    def operand(self, fr, st, o):
        k = o['o']
        if k == 'copy' or k == 'move':
            return self.read(st, self.place(fr, st, o['pl']))
        if k == 'const':
            return self.const(fr, st, o)
        if k == 'rtcheck':
            return FALSE
        raise Unsupported('operand ' + k)

    def const(self, fr, st, o):
        t = self.ty(fr, o['ty'])
        if 'v' in o:
            return self.const_val(t, int(o['v']))
        if 'str' in o:
            return vref(raw('str', o['str']), None)
        if 'bytes' in o:
            return vref(raw('bytes', tuple(o['bytes'])), None)
        if 'uneval' in o:
            if o['promoted'] >= 0:
                return self.promoted(fr, st, o)
            nm = o['uneval'].split('::')[-1]
            if nm in ('USIZE', 'U64', 'U32', 'U16', 'U8', 'I32', 'I64', 'ISIZE'):
                return self.num_of(self.ty2(fr, o['uargs'][0]))
            if nm == 'MAX' and t == USZ:
                return MAXU
            if nm == 'MIN' and t == USZ:
                return ZERO
            return app('const:' + nm)
        if t[0] in ('fndef', 'closure'):
            if t[0] == 'closure':
                return adt('closure:' + t[1], 0)
            return raw('fnv', t)
        if o.get('zst') or True:
            if t[0] == 'tuple' and not t[1]:
                return UNIT
            if t[0] == 'adt':
                return adt(short(t[1]), 0)
        return top('const')

    def ty2(self, fr, j):
        return self.db.norm(self.db.subst(self.db.ty(j), fr.env))

    def const_val(self, t, v):
        if t == ('prim', 'bool'):
            return TRUE if v else FALSE
        if t[0] == 'prim' and t[1] == 'char':
            return raw('chr', v)
        rg = int_range(t)
        if rg is not None and v > rg[1]:
            v -= 2 ** WIDTH[t[1]]
        return c(v)

    def promoted(self, fr, st, o):
        fn = self.db.fns.get(o['uneval'])
        if fn is None:
            return top('promoted')
        body = fn['promoted'][o['promoted']]
        env = self.db.env_of(fn, [self.ty2(fr, a) for a in o['uargs']])
        key = (fn['id'], 'P', o['promoted'])
        r = self.run_body(fn, body, env, [], st, key)
        return r[0][1] if r[0] else top('promoted')

    # -------------------------------------------------------------- type level numbers
    def num_of(self, t):
        if t in self.num:
            return self.num[t]
        k = t[0]
        if k == 'adt':
            n = short(t[1])
            if n in ('UTerm', 'B0'):
                return ZERO
            if n == 'B1':
                return ONE
            if n == 'UInt':
                return add(scale(self.num_of(t[2][0]), 2), self.num_of(t[2][1]))
        if k == 'proj':
            a = [x for x in t[3]]
            tr = short(t[1])
            if tr in ('Sub', 'Add', 'Mul', 'Rem', 'Div') and t[2] == 'Output':
                x, y = self.num_of(a[0]), self.num_of(a[1])
                return {'Sub': sub, 'Add': add, 'Mul': mul, 'Rem': imod, 'Div': idiv}[tr](x, y)
            if tr == 'MinImpl':
                tt = a[0]
                if tt[0] == 'tuple' and len(tt[1]) == 3:
                    return self.min_impl(tt[1])
            if tr in ('Min', 'Max'):
                x, y = self.num_of(a[0]), self.num_of(a[1])
                return ite(le(x, y), x, y) if tr == 'Min' else ite(le(x, y), y, x)
        if t[0] == 'tp':
            return iv(t[1])
        return top('num_of ' + self.db.show(t))

    def min_impl(self, ts):
        """value of <(A, B, Compare<A,B>) as MinImpl>::Output read off the impl table"""
        x, y = self.num_of(ts[0]), self.num_of(ts[1])
        vals = {}
        for imp in self.db.impls.get('MinImpl', []):
            s = imp['_self']
            if s[0] != 'tuple' or len(s[1]) != 3:
                return top('min')
            o = short(s[1][2][1]) if s[1][2][0] == 'adt' else '?'
            out = None
            for it in imp['items']:
                if it['n'] == 'Output':
                    out = self.db.ty(it['ty'])
            if out == s[1][0]:
                vals[o] = x
            elif out == s[1][1]:
                vals[o] = y
        if set(vals) != {'Less', 'Equal', 'Greater'}:
            return top('min')
        return ite(lt(x, y), vals['Less'], ite(eq(x, y), vals['Equal'], vals['Greater']))

    # -------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dest_t=None):
        k = r['r']
        if k == 'use':
            return self.operand(fr, st, r['x'])
        if k in ('ref', 'reborrow', 'rawptr'):
            m = r.get('m')
            if k == 'rawptr':
                m = 'Mut' in r['s']
            pl = self.place(fr, st, r['pl'])
            return self.mkref(st, pl, m)
        if k == 'bin':
            return self.binop(r['op'], self.operand(fr, st, r['x']), self.operand(fr, st, r['y']), self.ty(fr, r['xt']), st)
        if k == 'un':
            v = self.operand(fr, st, r['x'])
            if r['op'] == 'Not':
                if is_bool(v) or dest_t == ('prim', 'bool'):
                    return not_(pred(v))
                return top('not')
            if r['op'] == 'Neg':
                return neg(v)
            if r['op'] == 'PtrMetadata':
                return self.ref_len(st, v)
            return top('un')
        if k == 'discr':
            return discr(self.read(st, self.place(fr, st, r['pl'])))
        if k == 'len':
            return self.length(self.read(st, self.place(fr, st, r['pl'])))
        if k == 'cast':
            v = self.operand(fr, st, r['x'])
            cc = r['c']
            if cc.startswith('IntToInt') or cc.startswith('PointerCoercion') or cc.startswith('Transmute') and False:
                if is_bool(v):
                    return ite(v, ONE, ZERO)
                if cc.startswith('IntToInt'):
                    return self.int_cast(st, v, self.ty(fr, r['xt']), self.ty(fr, r['ty']))
                return v
            if cc.startswith('PtrToPtr'):
                return self.prims.ptr_cast(fr, st, v, self.ty(fr, r['ty']))
            if cc.startswith('PointerExpose') and not self.own:
                # the address as a number: that of the first element is that of the array
                if v.op == 'ptr' and v.a[1] is ZERO:
                    v = v.a[0]
                if v.op == 'vref':
                    return v
            return top('cast ' + cc)
        if k == 'agg':
            xs = [self.operand(fr, st, x) for x in r['xs']]
            kk = r['k']
            if kk == 'array':
                return arrlist(xs)
            if kk == 'tuple':
                return tup(*xs)
            if kk == 'adt':
                nm = short(r['d'])
                v = r['v']
                if nm == 'Ordering':
                    v = v - 1
                return raw('adt', nm, v, tuple(xs))
            if kk == 'closure':
                return raw('adt', 'closure:' + r['d'], 0, tuple(xs))
            if kk == 'rawptr':
                return xs[0]
            return top('agg')
        if k == 'repeat':
            v = self.operand(fr, st, r['x'])
            n = r['n']
            if 'v' in n:
                return arrlist([v] * n['v']) if n['v'] <= 64 else top('repeat')
            return top('repeat')
        return top('rvalue ' + k)

    def mkref(self, st, pl, m):
        if m:
            if pl[0] == 'mem':
                return mref(pl[1], pl[2])
            if pl[0] == 'ite':
                return ite(pl[1], self.mkref(st, pl[2], m), self.mkref(st, pl[3], m))
            return vref(pl[1], pl[2] if len(pl) > 2 else None) if self.own else vref(pl[1])
        v = self.read(st, pl)
        src = None
        if self.own:
            if pl[0] == 'mem':
                src = (pl[1], pl[2])
            elif pl[0] == 'val' and len(pl) > 2:
                src = pl[2]
        return vref(v, src)

    def ref_len(self, st, v):
        if v.op == 'ite':
            return ite(v.a[0], self.ref_len(st, v.a[1]), self.ref_len(st, v.a[2]))
        pl = self.follow(v)
        if pl[0] == 'mem' and pl[2] and pl[2][-1][0] == 'sub':
            return pl[2][-1][2]
        return self.length(self.read(st, pl))

    def int_cast(self, st, v, src, dst):
        f, t = int_range(src), int_range(dst)
        if v.top or f is None or t is None or v.op == 'chr' or t[0] <= f[0] and f[1] <= t[1]:
            return v
        pc = tuple(st.pc)
        below = t[0] > f[0] and not entails(pc, le(c(t[0]), v))
        above = t[1] < f[1] and not entails(pc, le(v, c(t[1])))
        if not below and not above:
            return v
        if t[0] == 0 and not below:
            return imod(v, c(t[1] + 1))
        if t[0] == 0 and not above and -f[0] <= t[1]:
            return ite(le(ZERO, v), v, add(v, c(t[1] + 1)))
        if t[0] < 0 and not below:
            w = 2 * (t[1] + 1)
            m = v if f[0] == 0 and f[1] < w else imod(v, c(w))
            return ite(le(m, c(t[1])), m, sub(m, c(w)))
        return top('cast')

    def binop(self, op, a, b, t=None, st=None):
        rg = int_range(t)
        if rg is not None and not a.top and not b.top and (rg[0] < 0 or rg[1] != 2 ** 64 - 1):
            r = None
            if op == 'AddWithOverflow':
                r = add(a, b)
            elif op == 'SubWithOverflow':
                r = sub(a, b)
            elif op == 'MulWithOverflow':
                r = mul(a, b)
            if r is not None:
                return tup(r, or_(lt(r, c(rg[0])), lt(c(rg[1]), r)))
            if op in ('Div', 'Rem') and rg[0] < 0 and not (entails(tuple(st.pc), le(ZERO, a)) and entails(tuple(st.pc), le(ONE, b))):
                return top('signed division')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if is_bool(a) or is_bool(b):
                a, b = pred(a), pred(b)
                same = or_(and_(a, b), and_(not_(a), not_(b)))
                return {'Eq': same, 'Ne': not_(same)}.get(op, top('boolcmp'))
            if a.op == 'chr' and b.op == 'chr':
                return boolc((a is b) == (op == 'Eq'))
            return {'Eq': lambda: eq(a, b), 'Ne': lambda: not_(eq(a, b)), 'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b),
                    'Gt': lambda: lt(b, a), 'Ge': lambda: le(b, a)}[op]()
        if op == 'AddWithOverflow':
            r = add(a, b)
            return tup(r, lt(MAXU, r))
        if op == 'SubWithOverflow':
            return tup(sub(a, b), lt(a, b))
        if op == 'MulWithOverflow':
            r = mul(a, b)
            return tup(r, lt(MAXU, r))
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op == 'Div':
            return idiv(a, b)
        if op == 'Rem':
            return imod(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if is_bool(a) or is_bool(b):
                a, b = pred(a), pred(b)
                if op == 'BitAnd':
                    return and_(a, b)
                if op == 'BitOr':
                    return or_(a, b)
                return or_(and_(a, not_(b)), and_(not_(a), b))
            if a.op == 'c' and op == 'BitAnd':
                a, b = b, a
            if op == 'BitAnd' and b.op == 'c' and b.a[0] > 0 and b.a[0] & (b.a[0] + 1) == 0:
                return imod(a, c(b.a[0] + 1))
            return iapp(op, a, b)
        if op == 'Shl' and b.op == 'c':
            return scale(a, 2 ** b.a[0])
        if op == 'Shr' and b.op == 'c':
            return idiv(a, c(2 ** b.a[0]))
        if op in ('Shl', 'Shr') and not is_bool(a) and not is_bool(b):
            return iapp(op, a, b)
        if op == 'Offset':
            return self.prims.ptr_offset(a, b)
        return top('binop ' + op)

    # -------------------------------------------------------------- execution
    def run_fn(self, fn, env, args, st):
        """returns ((state, value) or None, unwinding state or None)"""
        self.stats['fns'].add(fn['id'])
        if self.ctx is not None and fn.get('_crate') == 'models' and not self.own:
            r = self.filter_step(fn, env, args, st)
            if r is not None:
                return r
        return self.run_body(fn, fn['body'], env, args, st, (fn['id'],))

    def filter_step(self, fn, env, args, st):
        """`next` of a filter, called first thing in the head of a loop: an item left out goes straight to the next
        iteration of that loop (the inner search and the outer loop are one loop)"""
        if fn['path'].endswith('Iterator>::next') and fn['path'].startswith(('<Filter<', '<FilterMap<')):
            depth, snap, skips = self.ctx
            if any(st.mem.get(k) is not v for k, v in snap.items()):
                return None
            step = self.db.models.get(fn['path'][1:].split('<')[0] + '__step')
            if step is None:
                return None
            save, self.ctx = self.ctx, None
            try:
                ret, unw = self.run_fn(step, env, args, st)
            finally:
                self.ctx = save
            if ret is None:
                return ret, unw
            s, v = ret
            if v.top:
                return None
            more = eq(discr(v), ONE)
            inner = field(v, 0, 1)
            left = and_(more, eq(discr(inner), ZERO))
            s2 = s.copy()
            s2.assume(left)
            if left.op != 'false' and feasible(s2.pc):
                self.cleanup(s2, depth + 1)
                skips.append(s2)
                s.assume(not_(left))
                if not feasible(s.pc):
                    return None, unw
            none = raw('adt', 'Option', 0, ())
            return (s, ite(more, inner, none)), unw
        return None

    def run_body(self, fn, body, env, args, st, key):
        info = self.infos.get((key, self.own))
        if info is None:
            info = self.infos[(key, self.own)] = FnInfo(body, self.own)
        d = len(self.stack) + 1
        if d == 1:
            self.ctx = None
        if d > 60:
            raise Unsupported('call depth')
        fr = Frame(fn, env, d, info, body)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a
        self.stack.append([fr, fn.get('sp', '')])
        try:
            out = {}
            self.run_items(fr, info.items, {0: [st]}, out)
        finally:
            self.stack.pop()
        rs = out.get('RET')
        us = out.get('UNW')
        ret = unw = None
        if rs:
            s = merge_all(rs)
            v = s.mem.get((d, 0), UNIT)
            self.cleanup(s, d)
            ret = (s, v)
        if us:
            unw = merge_all(us)
            self.cleanup(unw, d)
        return ret, unw

    def cleanup(self, s, d):
        for k in [k for k in s.mem if isinstance(k[0], int) and k[0] >= d]:
            del s.mem[k]

    def run_items(self, fr, items, incoming, out, head=None, back=None):
        """runs a loop-free (condensed) region; edges to `head` go to `back`"""
        local = set()
        for it in items:
            local.add(it.head if isinstance(it, Loop) else it)
        inner = {}
        for it in items:
            if isinstance(it, Loop):
                for n in it.nodes:
                    inner[n] = it.head
        for it in items:
            b = it.head if isinstance(it, Loop) else it
            sts = incoming.pop(b, None)
            if not sts:
                continue
            st = merge_all(sts)
            save = self.ctx
            if isinstance(it, Loop):
                self.ctx = None
                res = loops.run_loop(self, fr, it, st)
            elif head is not None:
                skips = []
                self.ctx = (fr.depth, dict(st.mem), skips) if it == head else None
                res = self.run_block(fr, it, st)
                res = list(res) + [(head, x) for x in skips]
            else:
                res = self.run_block(fr, it, st)
            self.ctx = save
            for t, s in res:
                if t == head and back is not None:
                    back.append(s)
                elif t in local:
                    incoming.setdefault(t, []).append(s)
                else:
                    out.setdefault(t, []).append(s)

    def run_block(self, fr, bi, st):
        self.stats['blocks'] += 1
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('budget')
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time')
        st = st.copy()
        b = fr.info.blocks[bi]
        for s in b['st']:
            k = s['s']
            if k == 'assign':
                self.stack[-1][1] = s.get('sp', '')
                dt = None
                if s['rv']['r'] == 'un':
                    dt = self.ty(fr, fr.body['locals'][s['pl']['l']]['ty']) if not s['pl']['p'] else None
                v = self.rvalue(fr, st, s['rv'], dt)
                self.write(st, self.place(fr, st, s['pl']), v)
            elif k == 'dead':
                st.mem.pop((fr.depth, s['l']), None)
            elif k == 'live':
                st.mem.pop((fr.depth, s['l']), None)
            elif k == 'setdiscr':
                pl = self.place(fr, st, s['pl'])
                v = self.read(st, pl)
                self.write(st, pl, raw('adt', v.a[0], s['v'], v.a[2]) if v.op == 'adt' else top('setdiscr'))
        t = b['term']
        self.stack[-1][1] = t.get('sp', '')
        return self.terminator(fr, st, t)

    def unwind_edge(self, t, st):
        u = t['unwind']
        if not self.own or st is None:
            return []
        if isinstance(u, int):
            return [(u, st)]
        if u == 'continue':
            return [('UNW', st)]
        return []

    def terminator(self, fr, st, t):
        k = t['t']
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'return':
            return [('RET', st)]
        if k == 'resume':
            return [('UNW', st)]
        if k in ('unreachable', 'abort'):
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            x = pred(self.operand(fr, st, t['x']))
            good = x if t['exp'] else not_(x)
            bad = not_(good)
            out = []
            kind = t['kind'][0]
            if kind == 'bounds':
                self.site(st, 'bounds')
            if self.noassert and good.op != 'false':
                return [(t['to'], st)]
            s2 = st.copy()
            s2.assume(bad)
            if bad.op != 'false' and feasible(s2.pc):
                self.panic(s2, 'overflow' if kind.startswith('overflow') else kind,
                           t['kind'][1] if kind == 'overflow' else '')
                out += self.unwind_edge(t, s2)
                st.assume(good)
                if not feasible(st.pc):
                    return out
            out.append((t['to'], st))
            return out
        if k == 'drop':
            if not self.own:
                return [(t['to'], st)]
            return self.prims.drop_term(fr, st, t)
        if k == 'call':
            return self.call_term(fr, st, t)
        raise Unsupported('terminator ' + k)

    def site(self, st, kind):
        if not self.quiet:
            self.stats['sites'].add((kind,) + self.where())

    def switch(self, fr, st, t):
        x = self.operand(fr, st, t['x'])
        out = []
        xt = None
        o = t['x']
        if o['o'] in ('copy', 'move') and not o['pl']['p']:
            xt = self.ty(fr, fr.body['locals'][o['pl']['l']]['ty'])
        cases = []
        if is_bool(x) or xt == ('prim', 'bool'):
            x = pred(x)
            rest = TRUE
            for v, b in t['cases']:
                cnd = x if v else not_(x)
                cases.append((cnd, b))
                rest = and_(rest, not_(cnd))
            cases.append((rest, t['else']))
        else:
            bits = {'i8': 8, 'isize': 64, 'i32': 32, 'i64': 64, 'i16': 16}.get(xt[1]) if xt and xt[0] == 'prim' else None
            rest = TRUE
            for v, b in t['cases']:
                if bits and v >= 2 ** (bits - 1):
                    v -= 2 ** bits
                if x.op == 'chr':
                    cnd = boolc(x.a[0] == v)
                else:
                    cnd = eq(x, c(v))
                cases.append((cnd, b))
                rest = and_(rest, not_(cnd))
            cases.append((rest, t['else']))
        for cnd, b in cases:
            if cnd.op == 'false':
                continue
            if fr.info.blocks[b]['term']['t'] == 'unreachable' and not fr.info.blocks[b]['st']:
                continue
            s2 = st.copy()
            s2.assume(cnd)
            if cnd.op != 'true' and not feasible(s2.pc):
                continue
            out.append((b, s2))
        return out

    # -------------------------------------------------------------- calls
    def call_term(self, fr, st, t):
        self.stats['calls'] += 1
        fo = t['f']
        args = [self.operand(fr, st, a) for a in t['args']]
        dt = self.place_type(fr, t['dest'])
        if fo['o'] == 'const' and fo['ty']['k'] == 'fndef':
            ft = self.ty(fr, fo['ty'])
            n0 = len(self.unknown)
            if fo['ty'].get('unsafe') and not self.quiet:
                self.stats.setdefault('unsafe', set()).add((fr.fn['id'], json_key(t)))
            ret, unw = self.call(fr, st, ft, args, dt)
            if fo['ty'].get('unsafe') and len(self.unknown) > n0:
                self.stats['unsafe_unknown'] = self.stats.get('unsafe_unknown', 0) + 1
        else:
            f = self.operand(fr, st, fo)
            ret, unw = self.prims.call_value(st, f, args, dt)
        out = []
        if ret is not None:
            s, v = ret
            if t['to'] >= 0:
                self.write(s, self.place(fr, s, t['dest']), v)
                out.append((t['to'], s))
        if unw is not None:
            out += self.unwind_edge(t, unw)
        return out

    def place_type(self, fr, p):
        if not p['p']:
            return self.ty(fr, fr.body['locals'][p['l']]['ty'])
        last = p['p'][-1]
        if last[0] == 'f':
            return self.ty(fr, last[2])
        return None

    def place_ty(self, fr, p):
        t = self.ty(fr, fr.body['locals'][p['l']]['ty'])
        for e in p['p']:
            if t is None:
                return None
            k = e[0]
            if k == 'd':
                t = t[2] if t[0] in ('ref', 'ptr') else (t[2][0] if t[0] == 'adt' and t[2] else None)
            elif k == 'f':
                t = self.ty(fr, e[2])
            elif k in ('i', 'ci'):
                t = t[1] if t[0] in ('array', 'slice') else None
            elif k == 'sub':
                t = ('slice', t[1]) if t[0] in ('array', 'slice') else None
        return t

    def call(self, fr, st, ft, args, dt):
        """ft: ('fndef', d, targs) with normalised targs"""
        return self.prims.dispatch(st, ft, args, dt)
