"""Invariants of the crate's own cursor-like structures (private usize fields), inferred from the source:
a candidate that some constructor does not establish or some method does not preserve is dropped, until
the rest is inductive (greatest fixpoint over a finite template set)."""
from sem import *
import sem
from mir import short

USZ = ('prim', 'usize')
MAXU = c(2 ** 64 - 1)


def tracked():
    """structures of the crate whose fields (all private) include machine integers, innermost first"""
    if 'tracked' in sem._ctx:
        return sem._ctx['tracked']
    d = db()
    out = []

    def leafy(a, seen=()):
        if a is None or len(a['variants']) != 1 or a['id'] in seen:
            return False
        fs = a['variants'][0]['fields']
        for f in fs:
            t = d.ty(f['ty'])
            if t == USZ:
                return True
            if t[0] == 'adt' and leafy(d.adts.get(t[1]), seen + (a['id'],)):
                return True
        return False
    for a in d.adts.values():
        if a['id'].startswith(d.crate + '::') and leafy(a) and a['reach']:
            if all(f['vis'] != 'pub' for f in a['variants'][0]['fields']):
                out.append(a['id'])

    def depth(i):
        return sum(1 for f in d.adts[i]['variants'][0]['fields'] for t in [d.ty(f['ty'])] if t[0] == 'adt' and t[1] in out)
    out.sort(key=lambda i: (depth(i), i))
    sem._ctx['tracked'] = out
    return out


def leaves(I, ty, v, path=()):
    """(path, value) of the machine integers inside a value of a structure"""
    out = []
    for i, t in enumerate(I.prims.field_types(ty, 0)):
        if t == USZ:
            out.append((path + (i,), field(v, i)))
        elif t[0] == 'adt' and t[1] in tracked():
            out += leaves(I, t, field(v, i), path + (i,))
    return out


def setleaf(v, path, new):
    if v.op != 'adt':
        return v
    fs = list(v.a[2])
    fs[path[0]] = new if len(path) == 1 else setleaf(fs[path[0]], path[1:], new)
    return adt(v.a[0], v.a[1], *fs)


def dims_of(I, ty):
    out = []
    for t in ty[2]:
        if t[0] in ('ref', 'prim', 'life') or t == ('tp', 'T'):
            continue
        try:
            n = I.num_of(t)
        except Exception:
            continue
        if n.top:
            continue
        out.append(n)
    return out


def templates(I, ty, v, nested):
    ls = [p for p, _ in leaves(I, ty, v)]
    nd = len(dims_of(I, ty))
    out = []
    for p in ls:
        for q in ls:
            if p != q:
                out.append(('le', p, q))
        for k in range(nd):
            out.append(('lt', p, k))
            out.append(('led', p, k))
            if nested:
                out.append(('div', p, k))
    return out


class Invs:
    """current candidate set; used as the `invs` hook of a Root"""

    def __init__(self):
        self.c = {}

    def __call__(self, R, ty, v):
        cs = self.c.get(ty[1])
        if not cs:
            return v, []
        I = R.I
        ds = dims_of(I, ty)
        facts_ = []
        for k in cs:
            if k[0] == 'div':
                lv = dict(leaves(I, ty, v))[k[1]]
                if ds[k[2]].op == 'iv' and lv.op == 'iv':
                    p = iv(lv.a[0] + '/' + ds[k[2]].a[0])
                    v = setleaf(v, k[1], mul(ds[k[2]], p))
                    facts_ += [le(ZERO, p)]
        lv = dict(leaves(I, ty, v))
        for k in cs:
            f = fact(k, lv, ds)
            if f is not None:
                facts_.append(f)
                if k[0] == 'led' and lv[k[1]].op == 'poly' and ds[k[2]].op == 'poly':
                    g = ratio(lv[k[1]], ds[k[2]])
                    if g:
                        facts_.append(le(*g))
                elif k[0] == 'le':
                    g = ratio(lv[k[1]], lv[k[2]])
                    if g:
                        facts_.append(le(*g))
        return v, facts_


def ratio(a, b):
    """d*p <= d*q gives p <= q for d >= 1"""
    pa, pb = pdict(a), pdict(b)
    if len(pa) == 1 and len(pb) == 1:
        (ma, ka), = pa.items()
        (mb, kb), = pb.items()
        if len(ma) == 2 and len(mb) == 2 and ka == kb == 1:
            for x in ma:
                if x in mb:
                    ra, rb = list(ma), list(mb)
                    ra.remove(x)
                    rb.remove(x)
                    return ra[0], rb[0]
    return None


def fact(k, lv, ds):
    if k[0] == 'le':
        return le(lv[k[1]], lv[k[2]])
    if k[0] == 'led':
        return le(lv[k[1]], ds[k[2]])
    if k[0] == 'lt':
        return lt(lv[k[1]], ds[k[2]])
    return None


def split(v, pc, n=24):
    """cases of a value under its conditionals"""
    i = find_ite(v)
    if i is None or n <= 1:
        return [(pc, v)]
    out = []
    for cnd, keep in ((i.a[0], 1), (not_(i.a[0]), 2)):
        q = pc + (cnd,)
        if feasible(q):
            out += split(simp(facts.replace_node(v, i, i.a[keep]), q), q, n // 2)
    return out


def find_ite(v):
    for x in subterms(v):
        if x.op == 'ite' and not any(y.op in BINDERS for y in ()):
            return x
    return None


def divisible(p, d):
    if d.op != 'iv':
        return False
    return all(d in m for m in pdict(p))


def check(R, k, lv, ds, pc):
    v = lv[k[1]]
    if v.top:
        return False
    if k[0] == 'div':
        for q, x in split(v, pc):
            if not divisible(x, ds[k[2]]) and not (x.op == 'c' and x.a[0] == 0):
                return False
        return True
    f = fact(k, lv, ds)
    if entails(pc, f):
        return True
    a, b = (lv[k[1]], lv[k[2]]) if k[0] == 'le' else (lv[k[1]], ds[k[2]])
    for q, x in split(sub(a, b), pc):
        if k[0] == 'lt':
            x = add(x, ONE)
        if entails(q, le0(x)):
            continue
        # d*p + d <= d*q
        if not scaled(x, q):
            return False
    return True


def scaled(x, pc):
    d = pdict(x)
    if not d:
        return True
    common = None
    for m in d:
        common = set(m) if common is None else common & set(m)
    for v in common or ():
        r = {}
        for m, k in d.items():
            mm = list(m)
            mm.remove(v)
            r[tuple(mm)] = r.get(tuple(mm), 0) + k
        y = mkpoly(r)
        if entails(pc, le(ZERO, v)) and entails(pc, le0(y)):
            return True
    return False


def occurrences(R, ty, v, pc, depth=0):
    """(path condition, type, value) of each tracked structure inside a value"""
    t = R.I.db.norm(ty) if ty[0] == 'proj' else ty
    if v is None or v.top or depth > 6:
        return [(pc, t, v)] if t[0] == 'adt' and t[1] in tracked() else []
    if t[0] == 'tuple':
        out = []
        for i, x in enumerate(t[1]):
            out += occurrences(R, x, field(v, i), pc, depth + 1)
        return out
    if t[0] != 'adt':
        return []
    if not mentions(t):
        return []
    if v.op == 'ite':
        out = []
        for cnd, x in ((v.a[0], v.a[1]), (not_(v.a[0]), v.a[2])):
            q = pc + (cnd,)
            if feasible(q):
                out += occurrences(R, t, simp(x, q), q, depth + 1)
        return out
    if t[1] in tracked():
        out = [(pc, t, v)]
        if v.op == 'adt':
            for i, x in enumerate(R.I.prims.field_types(t, 0)):
                out += occurrences(R, x, field(v, i), pc, depth + 1)
        return out
    if short(t[1]) == 'Option':
        if v.op == 'adt':
            return occurrences(R, t[2][0], v.a[2][0], pc, depth + 1) if v.a[1] == 1 else []
    return []


def mentions(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'adt' and t[1] in tracked():
        return True
    return any(mentions(x) for x in t if isinstance(x, tuple))


def owners():
    """functions that make or change a tracked structure"""
    d = db()
    out = []
    for f in d.fns.values():
        if not f['id'].startswith(d.crate + '::') or not f.get('body') or not f.get('reach') or f.get('inputs') is None:
            continue
        ins = [d.ty(x) for x in f['inputs']]
        mut = any(t[0] == 'ref' and t[1] and mentions(t[2]) for t in ins)
        ret = bool(f.get('output')) and mentions(resolve(f))
        if mut or ret:
            out.append((f, mut, ret))
    return out


def resolve(f):
    d = db()
    t = d.ty(f['output'])
    try:
        r = roots.Root(d, f)
        return r.t(f['output'])
    except Exception:
        return t


def infer():
    """the inductive set, and for every dropped candidate the function that breaks it"""
    if 'invs' in sem._ctx:
        return sem._ctx['invs']
    inv = Invs()
    fns = owners()
    dropped = {}
    runs = {}
    d = db()
    names = {t: d.adts[t] for t in tracked()}
    # initial candidates
    for f, mut, ret in fns:
        R = roots.Root(d, f)
        for x in f['inputs']:
            t = R.t(x)
            t = t[2] if t[0] == 'ref' else t
            if t[0] == 'adt' and t[1] in names and t[1] not in inv.c:
                from interp import State
                st = State((), {})
                R.allocs = {}
                v = R.value(st, 'X', t)
                nested = any(len(p) > 1 for p, _ in leaves(R.I, t, v))
                inv.c[t[1]] = templates(R.I, t, v, nested)
    dirty = {f['id'] for f, _, _ in fns}
    rounds = 0
    while dirty and rounds < 12:
        rounds += 1
        lost = set()
        for f, mut, ret in fns:
            if f['id'] not in dirty:
                continue
            R = roots.Root(d, f, invs=inv)
            try:
                S = R.run()
            except Exception as e:
                S = None
            if S is None or S.err:
                occ = None
            else:
                occ = []
                if S.ret is not None:
                    pc = S.state.pc
                    if ret:
                        occ += occurrences(R, R.t(f['output']), S.ret, pc)
                    for nm, (key, ty) in R.allocs.items():
                        occ += occurrences(R, ty, R.final(S, nm), pc)
            if occ is None:
                # nothing known about what this function leaves behind
                for t in inv.c:
                    if any(mentions_one(R.t(x), t) for x in f['inputs'] + ([f['output']] if f.get('output') else [])):
                        for k in inv.c[t]:
                            dropped[(t, k)] = f
                        if inv.c[t]:
                            lost.add(t)
                        inv.c[t] = []
                continue
            for pc, t, v in occ:
                if v is None or v.top:
                    bad = list(inv.c.get(t[1], []))
                else:
                    lv = dict(leaves(R.I, t, v))
                    ds = dims_of(R.I, t)
                    bad = [k for k in inv.c.get(t[1], []) if not check(R, k, lv, ds, pc)]
                if bad:
                    for k in bad:
                        dropped[(t[1], k)] = f
                    inv.c[t[1]] = [k for k in inv.c[t[1]] if k not in bad]
                    lost.add(t[1])
        dirty = {f['id'] for f, mut, ret in fns
                 if any(mentions_one(d.ty(x), t) for x in f['inputs'] for t in closure(lost))} if lost else set()
    if dirty:
        inv.c = {}
    sem._ctx['invs'] = inv
    sem._ctx['dropped'] = dropped
    return inv


def closure(ts):
    """structures that contain one of the given ones"""
    d = db()
    out = set(ts)
    for a in tracked():
        if any(mentions_one(d.ty(f['ty']), t) for f in d.adts[a]['variants'][0]['fields'] for t in ts):
            out.add(a)
    return out


def mentions_one(t, a):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'adt' and t[1] == a:
        return True
    return any(mentions_one(x, a) for x in t if isinstance(x, tuple))


def showk(k):
    def p(x):
        return '.'.join(map(str, x))
    return {'le': lambda: '%s <= %s' % (p(k[1]), p(k[2])), 'led': lambda: '%s <= dim%d' % (p(k[1]), k[2]),
            'lt': lambda: '%s < dim%d' % (p(k[1]), k[2]), 'div': lambda: 'dim%d | %s' % (k[2], p(k[1]))}[k[0]]()


if __name__ == '__main__':
    t = time.time()
    i = infer()
    for a in i.c:
        print(a, [showk(k) for k in i.c[a]])
    print('%.1fs' % (time.time() - t))
