"""Loop summaries: the cells a loop modifies are havocked, one abstract iteration gives their
recurrences, and the recurrences are solved in closed form (scalar evolution, point-wise array
updates, folds).  No loop is unrolled."""
from terms import *
from terms import _children
from facts import feasible, entails, simp
import facts

LOG = ('LOG',)
BIG = 12


# ------------------------------------------------------------------ leaves of a value
def diff(a, b, path, out):
    if a is b:
        return
    if a.op == 'adt' and b.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
        for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
            diff(x, y, path + (('f', i),), out)
        return
    if a.op == 'mref' and b.op == 'mref' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and \
            all(x[0] == y[0] and (x[0] != 'f' or x == y) for x, y in zip(a.a[1], b.a[1])):
        for j, (x, y) in enumerate(zip(a.a[1], b.a[1])):
            if x[0] in ('i', 'sub'):
                for q in range(1, len(x)):
                    if x[q] is not y[q]:
                        out.add(path + (('m', j, q),))
        return
    if a.op == 'vref' and b.op == 'vref' and a.a[1] == b.a[1]:
        diff(a.a[0], b.a[0], path + (('v',),), out)
        return
    if a.op == 'eptr' and b.op == 'eptr' and a.a[0] is b.a[0]:
        out.add(path + (('e',),))
        return
    if a.op == 'ptr' and b.op == 'ptr':
        for i in range(3):
            diff(a.a[i], b.a[i], path + (('p', i),), out)
        return
    out.add(path)


def get(v, path):
    for p in path:
        if p[0] == 'f':
            if v.op != 'adt' or p[1] >= len(v.a[2]):
                return None
            v = v.a[2][p[1]]
        elif p[0] == 'm':
            if v.op != 'mref':
                return None
            v = v.a[1][p[1]][p[2]]
        elif p[0] == 'v':
            if v.op != 'vref':
                return None
            v = v.a[0]
        elif p[0] == 'e':
            if v.op != 'eptr':
                return None
            v = v.a[1]
        elif p[0] == 'p':
            if v.op != 'ptr':
                return None
            v = v.a[p[1]]
    return v


def put(v, path, x):
    if not path:
        return x
    p = path[0]
    if p[0] == 'f':
        fs = list(v.a[2])
        fs[p[1]] = put(fs[p[1]], path[1:], x)
        return raw('adt', v.a[0], v.a[1], tuple(fs))
    if p[0] == 'm':
        ps = list(v.a[1])
        q = list(ps[p[1]])
        q[p[2]] = x
        ps[p[1]] = tuple(q)
        return mref(v.a[0], tuple(ps))
    if p[0] == 'v':
        return raw('vref', put(v.a[0], path[1:], x), v.a[1])
    if p[0] == 'e':
        return raw('eptr', v.a[0], x)
    if p[0] == 'p':
        xs = list(v.a)
        xs[p[1]] = put(xs[p[1]], path[1:], x)
        return raw('ptr', *xs)
    raise Exception(p)


def is_int(v):
    o = v.op
    if o in ('c', 'poly', 'iv', 'iapp', 'idiv', 'imod', 'first', 'count', 'imax', 'discr'):
        return True
    if o == 'ite':
        return is_int(v.a[1]) and is_int(v.a[2])
    if o == 'fold':
        return is_int(v.a[2])
    return False


class Leaf:
    __slots__ = ('key', 'path', 'kind', 'init', 'sym', 'next', 'closed', 'name')


def normalise(mods):
    out = set()
    for k, p in sorted(mods, key=lambda t: len(t[1])):
        if not any((k, p[:i]) in out for i in range(len(p))):
            out.add((k, p))
    return out


# ------------------------------------------------------------------ liveness
def local_uses(body):
    """per block (use, def) sets of locals and the set of borrowed locals"""
    borrowed = set()
    info = []

    def op_uses(o, u):
        if o.get('pl'):
            pl_uses(o['pl'], u)

    def pl_uses(p, u, whole_def=False):
        if not whole_def:
            u.add(p['l'])
        for e in p['p']:
            if e[0] == 'i':
                u.add(e[1])

    for b in body['blocks']:
        use, de = set(), set()

        def use_(s):
            use.update(x for x in s if x not in de)
        for s in b['st']:
            if s['s'] == 'assign':
                u = set()
                rv_uses(s['rv'], u, borrowed, op_uses, pl_uses)
                if s['pl']['p']:
                    pl_uses(s['pl'], u)
                use_(u)
                if not s['pl']['p']:
                    de.add(s['pl']['l'])
            elif s['s'] in ('dead', 'live'):
                de.add(s['l'])
            elif s['s'] == 'setdiscr':
                use_({s['pl']['l']})
        t = b['term']
        u = set()
        k = t['t']
        if k in ('switch', 'assert'):
            op_uses(t['x'], u)
        elif k == 'call':
            op_uses(t['f'], u)
            for a in t['args']:
                op_uses(a, u)
            if t['dest']['p']:
                pl_uses(t['dest'], u)
        elif k == 'drop':
            pl_uses(t['pl'], u)
        elif k == 'return':
            u.add(0)
        use_(u)
        if k == 'call' and not t['dest']['p']:
            de.add(t['dest']['l'])
        info.append((use, de))
    return info, borrowed


def rv_uses(r, u, borrowed, op_uses, pl_uses):
    for k in ('x', 'y'):
        if isinstance(r.get(k), dict) and 'o' in r[k]:
            op_uses(r[k], u)
    for x in r.get('xs', []):
        op_uses(x, u)
    if 'pl' in r:
        pl_uses(r['pl'], u)
        if r['r'] in ('ref', 'reborrow', 'rawptr') and not any(e[0] == 'd' for e in r['pl']['p']):
            borrowed.add(r['pl']['l'])


def liveness(info):
    lv = getattr(info, 'live', None)
    if lv is not None:
        return lv
    from interp import succs
    ud, borrowed = local_uses(info.body)
    n = len(info.blocks)
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in succs(info.blocks[i]['term'], True):
                o |= live[s]
            use, de = ud[i]
            x = use | (o - de)
            if x != live[i]:
                live[i] = x
                changed = True
    info.live = (live, borrowed)
    return info.live


# ------------------------------------------------------------------ the driver
def run_loop(I, fr, lp, st):
    I.stats['loops'] += 1
    st = st.copy()
    live, borrowed = liveness(fr.info)
    keep = live[lp.head] | borrowed
    d = fr.depth
    for k in [k for k in st.mem if k[0] == d and isinstance(k[1], int) and k[1] not in keep]:
        del st.mem[k]
    exits = []
    for peel in range(3):
        r = attempt(I, fr, lp, st, exits, peel)
        if r is not None:
            st = r
            continue
        break
    return exits


def iterate(I, fr, lp, st):
    out, back = {}, []
    I.run_items(fr, lp.items, {lp.head: [st]}, out, head=lp.head, back=back)
    return out, back


def havoc(I, st, mods, ties=None):
    hs = st.copy()
    leaves = []
    known = {}
    for key, path in sorted(mods, key=repr):
        v0 = st.mem.get(key)
        if v0 is None:
            continue
        init = get(v0, path)
        if init is None:
            continue
        lf = Leaf()
        lf.key, lf.path, lf.init = key, path, init
        nm = fresh_name('h')
        if key == LOG:
            lf.kind = 'seq'
            lf.sym = raw('sv', nm)
            new = seq(lf.sym)
        elif is_bool(init):
            lf.kind = 'bool'
            lf.sym = raw('sv', nm)
            new = pred(lf.sym)
        elif is_int(init):
            lf.kind = 'int'
            if ties and (key, path) in ties:
                # an integer that keeps a fixed distance from another one
                other, delta = ties[key, path]
                hs.mem[key] = put(hs.mem[key], path, add(known[other], delta))
                continue
            lf.sym = iv(nm)
            known[key, path] = lf.sym
            new = lf.sym
        elif alen(init) is not None or init.op == 'svarr':
            lf.kind = 'arr'
            lf.sym = raw('sv', nm, 'arr', I.length(init), elem_spec(init))
            new = lf.sym
        else:
            lf.kind = 'val'
            lf.sym = raw('sv', nm)
            new = lf.sym
        hs.mem[key] = put(hs.mem[key], path, new)
        leaves.append(lf)
    return hs, leaves


def attempt(I, fr, lp, st, exits, peel):
    """summarises the loop from state st; exits are appended.  Returns a new entry state when
    one iteration has to be taken apart first."""
    from interp import merge_all
    hk = (fr.fn['id'], lp.head, tuple(sorted(fr.env.items())))
    mods = set()
    for k, p in I.hints.get(hk, ()):
        w = get(st.mem[k], p) if k in st.mem else None
        if w is not None and not (w.op == 'adt' and w.a[1]):     # (a variant found on another entry may stay on this one)
            mods.add((k, p))
    n0 = len(mods)
    rounds = 0
    while True:
        rounds += 1
        hs, leaves = havoc(I, st, mods)
        I.quiet += 1
        try:
            out, back = iterate(I, fr, lp, hs)
        finally:
            I.quiet -= 1
        if not back:
            break
        b = merge_all(back)
        new = set()
        for k, v in hs.mem.items():
            w = b.mem.get(k)
            if w is None or w is v:
                continue
            s = set()
            diff(v, w, (), s)
            new |= {(k, p) for p in s}
        # symbols that were havocked whole stay
        allm = normalise(mods | new)
        if allm == mods:
            break
        mods = allm
        if rounds > BIG:
            I.stats['unsolved'] += 1
            break
    I.hints[hk] = mods
    if not back:
        out, _ = iterate(I, fr, lp, st)
        for t, ss in out.items():
            exits += [(t, s) for s in ss]
        return None
    # a value that changes its shape in the first iteration: take that iteration apart
    if peel < 2:
        for lf in leaves:
            if lf.kind == 'val':
                w = get(b.mem[lf.key], lf.path)
                if lf.init.op == 'adt' and w is not None and w.op == 'adt' and w.a[1] != lf.init.a[1] or \
                        lf.init.op in ('uninit',) and w is not None and w.op not in ('uninit', 'ite') or \
                        lf.init.op == 'adt' and w is not None and w.op != 'adt' and reshaped(I, fr, lp, st, lf):
                    out, bk = iterate(I, fr, lp, st)
                    for t, ss in out.items():
                        exits += [(t, s) for s in ss]
                    if not bk:
                        return None
                    r = merge_all(bk)
                    live, borrowed = liveness(fr.info)
                    return r
    ties, bounds = relations(st, b, leaves)
    if ties or bounds:
        hs, leaves = havoc(I, st, mods, ties)
        m = {}
        for x in bounds:
            hs.assume(subst(x, {o: lf.sym for o, kp in bounds.syms.items() for lf in leaves if (lf.key, lf.path) == kp}))
        I.quiet += 1
        try:
            out, back = iterate(I, fr, lp, hs)
        finally:
            I.quiet -= 1
        if not back:
            out, _ = iterate(I, fr, lp, st)
            for t, ss in out.items():
                exits += [(t, s) for s in ss]
            return None
        b = merge_all(back)
    base = set(st.pc)
    cont = [x for x in b.pc if x not in base]
    for lf in leaves:
        w = b.mem.get(lf.key)
        lf.next = get(w, lf.path) if w is not None else None
        if lf.next is None:
            lf.next = top('loop cell')
        lf.closed = None
    k = fresh_iv('k')
    U, nonlin, facts_k = solve(I, st, b, leaves, cont, k)
    # the summary state at the loop head after k iterations
    fs = st.copy()
    for lf in leaves:
        cl = lf.closed
        if lf.kind == 'seq':
            cl = seq(cl)
        fs.mem[lf.key] = put(fs.mem[lf.key], lf.path, cl)
    fs.pc = st.pc
    for (key, path), (other, delta) in ties.items():
        v = next(lf.closed for lf in leaves if (lf.key, lf.path) == other)
        fs.mem[key] = put(fs.mem[key], path, add(v, delta))
    for f in facts_k:
        fs.assume(f)
    out, _ = iterate(I, fr, lp, fs)
    for t, ss in out.items():
        for s in ss:
            finish(I, fr, st, s, t, k, U, nonlin, exits)
    return None


def reshaped(I, fr, lp, st, lf):
    """does the cell hold another variant after one iteration from here?"""
    from interp import merge_all
    I.quiet += 1
    try:
        _, bk = iterate(I, fr, lp, st)
    finally:
        I.quiet -= 1
    if not bk:
        return False
    w = merge_all(bk).mem.get(lf.key)
    w = get(w, lf.path) if w is not None else None
    return w is not None and w.op == 'adt' and w.a[1] != lf.init.a[1]


class Bounds(list):
    syms = {}


def relations(st, b, leaves):
    """fixed differences between the integers of a loop, and bounds on them, that the body keeps up
    (each checked to be inductive); looked for only when an integer moves in an irregular way"""
    ints = [lf for lf in leaves if lf.kind == 'int']
    syms = [lf.sym for lf in ints]
    ties, bounds = {}, Bounds()
    bounds.syms = {lf.sym: (lf.key, lf.path) for lf in ints}
    nexts = {}
    for lf in ints:
        w = b.mem.get(lf.key)
        w = get(w, lf.path) if w is not None else None
        if w is None or w.top or not is_int(w):
            return {}, Bounds()
        nexts[lf.sym] = w
    if not any(s in sub(nexts[s0], s0).fv for s0 in syms for s in syms):
        return {}, Bounds()
    pc = tuple(b.pc)
    ints.sort(key=lambda lf: repr((lf.key, lf.path)))
    lead = []
    for lf in ints:
        for ld in lead:
            delta = sub(lf.init, ld.init)
            if delta.top:
                continue
            m = {lf.sym: add(ld.sym, delta)}
            x, y = subst(nexts[lf.sym], m), add(subst(nexts[ld.sym], m), delta)
            if x is y or simp(sub(x, y), tuple(subst(q, m) for q in pc)) is ZERO:
                ties[lf.key, lf.path] = ((ld.key, ld.path), delta)
                break
        else:
            lead.append(lf)
    return ties, bounds


def finish(I, fr, st, s, target, k, U, nonlin, exits):
    """eliminates the iteration counter from an exit state"""
    m = None
    if U is not None and entails(s.pc, eq(k, U)):
        m = {k: U}
    elif nonlin and U is not None:
        j = fresh_iv('j')
        P = and_(*[subst(p, {k: j}) for p in nonlin])
        np_ = not_(and_(*nonlin))
        early = entails(s.pc, lt(k, U))         # otherwise the exit is shared with the one after the last iteration
        if (early or not any(p.top for p in nonlin)) and entails(s.pc, np_ if early else or_(eq(k, U), np_)):
            base_ = tuple(x for x in s.pc if k not in x.fv)
            F = threshold(not_(P), j, U, base_) if early else None
            if F is None:
                F = first(U, j, not_(P))
            pc = []
            for x in s.pc:
                if k not in x.fv:
                    pc.append(x)
            s2 = s.copy()
            s2.pc = tuple(pc)
            if early:
                s2.assume(lt(F, U) if F.op != 'first' else any_(U, j, not_(P)))
            # which of several exits was taken is decided at the stopping index
            rest = []
            for x in s.pc:
                if k in x.fv and x.op in ('b', 'nb', 'or', 'eq0', 'ne0', 'le0') and not entails(
                        tuple(pc) + ((le(ZERO, k), lt(k, U), np_) if early else (le(ZERO, k), le(k, U))) + tuple(y for y in s.pc if k in y.fv and y.op == 'all'), x):
                    rest.append(x)
            for x in rest:
                s2.assume(subst(x, {k: F}))
            s2.mem = {kk: subst(v, {k: F}) for kk, v in s.mem.items()}
            exits.append((target, s2))
            return
    if m is not None:
        s2 = s.copy()
        s2.pc = ()
        for x in s.pc:
            y = subst(x, m)
            s2.assume(y)
        s2.mem = {kk: subst(v, m) for kk, v in s.mem.items()}
        pc = s2.pc
        for kk, v in s.mem.items():
            w = s2.mem[kk]
            if w is not v:
                s2.mem[kk] = simp(w, pc)
        # facts that hold anyway
        s2.pc = drop_trivial(s2.pc, st.pc)
        exits.append((target, s2))
        return
    if not (isinstance(target, int) and fr.info.blocks[target]['cleanup'] or target == 'UNW'):
        I.stats['loose'] = I.stats.get('loose', 0) + 1       # (a panic may leave in any iteration)
    exits.append((target, s))


def threshold(stop, j, U, pc, budget=None):
    """least index below U at which a condition holds that stays true once true (None: not of that form)"""
    if budget is None:
        budget = [24]
    budget[0] -= 1
    if budget[0] < 0:
        return None
    L = indep(stop, j)
    if L is not None:
        if entails(pc, L):
            return threshold(put_lit(stop, L, TRUE), j, U, pc, budget)
        if entails(pc, not_(L)):
            return threshold(put_lit(stop, L, FALSE), j, U, pc, budget)
        a = threshold(put_lit(stop, L, TRUE), j, U, pc + (L,), budget)
        b = threshold(put_lit(stop, L, FALSE), j, U, pc + (not_(L),), budget)
        return None if a is None or b is None else ite(L, a, b)

    def pick(x, y, big):
        if entails(pc, le(x, y)):
            return y if big else x
        if entails(pc, le(y, x)):
            return x if big else y
        return ite(le(x, y), y, x) if big else ite(le(x, y), x, y)

    def go(t):
        if t.op == 'true':
            return ZERO
        if t.op == 'false':
            return U
        if t.op == 'le0':
            d = pdict(t.a[0])
            cf = d.get((j,))
            if cf != -1 or sum(1 for m in d if j in m) != 1 or any(j in x.fv for m in d for x in m if x is not j):
                return None
            return add(t.a[0], j)
        if t.op in ('and', 'or'):
            xs = [go(x) for x in t.a[0]]
            if None in xs:
                return None
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x, t.op == 'and')
            return r
        return None
    r = go(stop)
    if r is None:
        return None
    return pick(pick(r, ZERO, True), U, False)


def indep(t, j):
    if t.op in ('and', 'or'):
        for x in t.a[0]:
            r = indep(x, j)
            if r is not None:
                return r
        return None
    return t if j not in t.fv and t.op not in ('true', 'false') else None


def put_lit(t, L, v):
    if t is L:
        return v
    if t is not_(L):
        return not_(v)
    if t.op == 'and':
        return and_(*[put_lit(x, L, v) for x in t.a[0]])
    if t.op == 'or':
        return or_(*[put_lit(x, L, v) for x in t.a[0]])
    return t


def drop_trivial(pc, base):
    out = []
    b = set(base)
    for x in pc:
        if x in b:
            out.append(x)
        elif not entails(tuple(out), x):
            out.append(x)
    return tuple(out)


# ------------------------------------------------------------------ recurrences
def solve(I, st, b, leaves, cont, k):
    syms = {lf.sym: lf for lf in leaves}
    sub_ = {}
    bpc = tuple(b.pc)
    todo = list(leaves)
    fk = [le(ZERO, k)]
    for lf in leaves:
        if lf.kind != 'arr' and lf.kind != 'seq':
            lf.next = simp(lf.next, bpc)
    bound = [None]
    state = {'U': None, 'nonlin': [], 'done': False}

    def deps(lf):
        return {s for s in syms if s in lf.next.fv and s is not lf.sym and s not in sub_}

    def trip():
        if state['done']:
            return
        state['done'] = True
        U, nonlin, inv = trip_count(I, st, cont, k, sub_, syms)
        state['U'], state['nonlin'], state['inv'] = U, nonlin, inv

    # integers first: they decide the trip count
    progress = True
    while todo and progress:
        progress = False
        for lf in list(todo):
            if lf.kind in ('int', 'bool', 'val') and not deps(lf):
                if lf.kind != 'int' and any(x.kind == 'int' and not (deps(x) - {lf.sym}) for x in todo):
                    continue
                if lf.kind != 'int':
                    trip()
                solve_leaf(I, st, lf, k, sub_, state, bpc)
                todo.remove(lf)
                progress = True
                break
    trip()
    progress = True
    while todo and progress:
        progress = False
        for lf in list(todo):
            if not deps(lf):
                solve_leaf(I, st, lf, k, sub_, state, bpc)
                todo.remove(lf)
                progress = True
    for lf in todo:
        # mutually dependent cells
        I.stats['unsolved'] += 1
        lf.closed = top('coupled recurrence') if lf.kind != 'seq' else raw('sv', fresh_name('log'))
        sub_[lf.sym] = lf.closed
    U = state['U']
    fs = [le(ZERO, k)]
    if U is not None:
        fs.append(le(k, U))
    j = fresh_iv('j')
    for p in state['nonlin']:
        p = subst(p, sub_)
        if not p.top:
            fs.append(all_(k, j, subst(p, {k: j})))
        else:
            I.stats['loose'] = I.stats.get('loose', 0) + 1
    for p in state.get('inv', []):
        fs.append(or_(eq(k, ZERO), p))
    state['nonlin'] = [subst(p, sub_) for p in state['nonlin']]
    return U, state['nonlin'], fs


def trip_count(I, st, cont, k, sub_, syms):
    """upper bound on the number of iterations from the literals of the continue condition"""
    cont = [widest(tuple(st.pc), subst(lit, sub_)) for lit in cont]
    later = [x for x in cont if any(s in x.fv for s in syms)]
    free = [x for x in cont if x not in later]
    if free:
        r = trip_cases(tuple(st.pc), free, k, [12])
        if r is not None:
            return r, later, []
    return trip_lits(tuple(st.pc), cont, k, syms)


def widest(base, x):
    """a disjunction of which one part follows from every other one is that part"""
    if x.op == 'or' and len(x.a[0]) < 5:
        for d in x.a[0]:
            if d.op in ('le0', 'ne0') and all(y is d or entails(base + tuple(y.a[0] if y.op == 'and' else (y,)), d) for y in x.a[0]):
                return d
    return x


def trip_cases(base, cont, k, budget):
    """exact trip count when conditions that do not change in the loop decide which bound applies"""
    budget[0] -= 1
    if budget[0] < 0:
        return None
    for x in cont:
        L = indep(x, k) if x.op in ('and', 'or') and k in x.fv else None
        if L is not None:
            break
    else:
        flat = []
        for x in cont:
            flat += x.a[0] if x.op == 'and' else [x]
        U, nonlin, inv = trip_lits(base, flat, k, ())
        return U if not nonlin else None
    r = []
    for l2, v in ((L, TRUE), (not_(L), FALSE)):
        if not feasible(base + (l2,)):
            r.append(None)
            continue
        cs = [put_lit(x, L, v) for x in cont]
        u = ZERO if FALSE in cs else trip_cases(base + (l2,), cs, k, budget)
        if u is None:
            return None
        r.append(u)
    if r[0] is None or r[1] is None:
        return r[0] if r[1] is None else r[1]
    return ite(L, r[0], r[1])


def trip_lits(base, cont, k, syms):
    Us, nonlin, inv = [], [], []
    for x in cont:
        if x.op == 'true':
            continue
        if any(s in x.fv for s in syms):
            # depends on a cell solved later (or never)
            nonlin.append(x)
            continue
        if k not in x.fv:
            if not entails(base, x):
                inv.append(x)
            continue
        if x.op in ('le0', 'ne0', 'eq0'):
            lin = linear_in(x.a[0], k)
            if lin is not None:
                a, r = lin
                if x.op == 'le0' and a > 0:
                    u = sub(ONE, r) if a == 1 else idiv(sub(c(a), r), c(a))
                    Us.append(u)
                    continue
                if x.op == 'le0' and a < 0:
                    if entails(base + (le(ZERO, k),), x):
                        continue
                if x.op == 'ne0' and abs(a) == 1:
                    root = scale(r, -a)
                    if entails(base, le(ZERO, root)):
                        Us.append(root)
                        continue
                    if entails(base, lt(root, ZERO)):
                        continue
                if x.op == 'eq0' and abs(a) >= 1:
                    inv.append(subst(x, {k: ZERO}))
                    Us.append(ONE)
                    continue
        nonlin.append(x)
    U = None
    for u in Us:
        if not entails(base, le(ZERO, u)):
            u = ite(le(ZERO, u), u, ZERO)
        if U is None:
            U = u
        elif entails(base, le(U, u)):
            pass
        elif entails(base, le(u, U)):
            U = u
        else:
            U = ite(le(U, u), U, u)
    if U is not None:
        kf = base + (le(ZERO, k), lt(k, U))
        nonlin = [x for x in nonlin if not entails(kf, x)]
    for x in inv:
        if U is not None:
            U = ite(x, U, ZERO)
    return U, nonlin, (inv if U is None else [])


def linear_in(p, k):
    """p = a*k + r with integer a and k not in r"""
    a = 0
    r = {}
    for m, x in pdict(p).items():
        if k in m:
            if len(m) != 1:
                return None
            a = x
        else:
            if any(k in y.fv for y in m):
                return None
            r[m] = x
    return a, mkpoly(r)


def kfacts(st, k, state):
    f = tuple(st.pc) + (le(ZERO, k),)
    if state.get('U') is not None:
        f += (lt(k, state['U']),)
    return f


def shift_init(I, st, init, nx, k):
    """closed form of a cell whose next value does not depend on itself"""
    prev = subst(nx, {k: sub(k, ONE)})
    if prev is init:
        return prev
    z = simp(subst(prev, {k: ZERO}), tuple(st.pc))
    if z is init:
        return prev
    return ite(le(k, ZERO), init, prev)


def solve_leaf(I, st, lf, k, sub_, state, bpc):
    nx = subst(lf.next, sub_)
    s = lf.sym
    fk = kfacts(st, k, state)
    if lf.kind != 'seq' and lf.kind != 'arr':
        nx = simp(nx, fk)
    if lf.kind == 'bool':
        nx = pred(nx)
    if nx is s or (lf.kind == 'bool' and nx is pred(s)):
        r = lf.init
    elif nx.top and lf.kind != 'arr':
        r = top('loop') if lf.kind != 'bool' else raw('b', top('loop'))
    elif s not in nx.fv and lf.kind != 'seq':
        r = shift_init(I, st, lf.init, nx, k)
    elif lf.kind == 'int':
        r = solve_cases(I, st, lf, nx, k, fk, 3)
    elif lf.kind == 'bool':
        t, f = subst(nx, {s: TRUE}), subst(nx, {s: FALSE})
        j = fresh_iv('j')
        if t.op == 'true':
            r = or_(lf.init, any_(k, j, subst(f, {k: j})))
        elif f.op == 'false':
            r = and_(lf.init, all_(k, j, subst(t, {k: j})))
        else:
            j2, a = fresh_iv('j'), fresh_sv('acc')
            r = pred(fold(k, j2, a, lf.init, subst(nx, {s: a, k: j2})))
    elif lf.kind == 'arr':
        r = solve_arr(I, st, lf, nx, k, fk, state)
    elif lf.kind == 'seq':
        if nx.op == 'seq' and nx.a[0] and nx.a[0][0] is s and not any(s in x.fv for x in nx.a[0][1:]):
            j = fresh_iv('j')
            body = subst(simp(seq(*nx.a[0][1:]), fk), {k: j})
            r = seq(lf.init, seqloop(k, j, body))
        elif nx.op == 'seq' and len(nx.a[0]) == 0:
            r = lf.init
        else:
            I.stats['unsolved'] += 1
            r = seq(raw('sv', fresh_name('log')))
    else:
        j, a = fresh_iv('j'), fresh_sv('acc')
        r = fold(k, j, a, lf.init, subst(nx, {s: a, k: j}))
    lf.closed = r
    if lf.kind == 'seq':
        sub_[s] = r
    elif lf.kind == 'bool':
        sub_[s] = r
    else:
        sub_[s] = r


def solve_cases(I, st, lf, nx, k, fk, budget):
    """integer recurrence; conditions that do not change in the loop may decide which recurrence it is"""
    u0, unk, bl = I.stats['unsolved'], set(I.unknown), I.blind
    r = solve_int(I, st, lf, nx, k, fk)
    if not r.top or budget == 0:
        return r
    L = None
    for x in subterms(nx):
        if x.op == 'ite':
            for y in ([x.a[0]] if x.a[0].op not in ('and', 'or') else subterms(x.a[0])):
                if y.op in ('le0', 'eq0', 'ne0', 'b', 'nb') and not y.top and k not in y.fv and lf.sym not in y.fv and \
                        not any(v.a[0].startswith(('h!', '#')) for v in y.fv):
                    if L is None or y.id < L.id:
                        L = y
    if L is None:
        return r
    out = []
    for l2 in (L, not_(L)):
        f2 = fk + (l2,)
        if not feasible(f2):
            out.append(None)
            continue
        v = simp(nx, f2)
        if v is nx:
            return r
        if v is lf.sym:
            w = lf.init
        elif lf.sym not in v.fv:
            w = shift_init(I, st, lf.init, v, k)
        else:
            w = solve_cases(I, st, lf, v, k, f2, budget - 1)
        if w.top:
            return r
        out.append(w)
    I.stats['unsolved'] = u0
    I.unknown.clear()
    I.unknown.update(unk)
    I.blind = bl
    if out[0] is None or out[1] is None:
        return out[0] if out[1] is None else out[1]
    return ite(L, out[0], out[1])


def ite_leaves(v, cond=TRUE):
    if v.op == 'ite':
        yield from ite_leaves(v.a[1], and_(cond, v.a[0]))
        yield from ite_leaves(v.a[2], and_(cond, not_(v.a[0])))
    else:
        yield cond, v


def index_lit(x, vs):
    """arithmetic literal over positions only"""
    if x.op not in ('le0', 'eq0', 'ne0') or not any(v in x.fv for v in vs):
        return False
    for m in pdict(x.a[0]):
        for y in m:
            if y.op not in ('iv', 'idiv', 'imod'):
                return False
    return True


def find_index_lit(v, vs):
    """an index literal in the conditions of a conditional value (equations first)"""
    best = None
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st += [x.a[0], x.a[1], x.a[2]]
        elif x.op in ('and', 'or'):
            st += list(x.a[0])
        elif index_lit(x, vs):
            y = x if x.op != 'ne0' else not_(x)
            if y.op == 'eq0':
                return y
            if best is None or y.id < best.id:
                best = y
    return best


def assume_lit(v, lit, val, memo=None):
    """v with every occurrence of the literal (and its negation) in conditions replaced"""
    if v is lit:
        return boolc(val)
    if v is not_(lit):
        return boolc(not val)
    if v.op == 'ite':
        return ite(assume_lit(v.a[0], lit, val), assume_lit(v.a[1], lit, val), assume_lit(v.a[2], lit, val))
    if v.op == 'and':
        return and_(*[assume_lit(x, lit, val) for x in v.a[0]])
    if v.op == 'or':
        return or_(*[assume_lit(x, lit, val) for x in v.a[0]])
    return v


def index_split(v, vs, pc, cond=TRUE):
    """(condition on positions, value) pairs; the values have no conditions on positions left.
    A position fixed by an equation is substituted in the value."""
    lit = find_index_lit(v, vs)
    if lit is None:
        yield cond, v
        return
    for val in (True, False):
        l2 = lit if val else not_(lit)
        if not feasible(tuple(pc) + (l2,)):
            continue
        w = assume_lit(v, lit, val)
        if val and lit.op == 'eq0':
            w = substitute_eq(w, lit, vs)
        yield from index_split(w, vs, tuple(pc) + (l2,), and_(cond, l2))


def substitute_eq(w, lit, vs):
    """uses the equation to express the loop counter by the positions"""
    ks = sorted((v for v in vs if v in lit.fv), key=lambda v: (not v.a[0].startswith('k!'), v.id))
    for v in ks[:1]:
        lin = linear_in(lit.a[0], v)
        if lin is not None and abs(lin[0]) == 1:
            return subst(w, {v: scale(lin[1], -lin[0])})
    return w


def map_leaves(v, f):
    if v.op == 'ite':
        return ite(v.a[0], map_leaves(v.a[1], f), map_leaves(v.a[2], f))
    return f(v)


def lifted(v, s):
    """conditionals on s inside sums moved to the outside"""
    if v.op == 'ite':
        return ite(v.a[0], lifted(v.a[1], s), lifted(v.a[2], s))
    if v.op == 'poly':
        i = lift_ite(v)
        if i is not None and s in i[0].fv:
            return ite(i[0], lifted(i[1], s), lifted(i[2], s))
    return v


def solve_int(I, st, lf, nx, k, fk):
    s = lf.sym
    d = lifted(map_leaves(nx, lambda x: sub(x, s)), s)
    # skipping counters: one step at a time, but a longer one when the counter stands on a given value
    if d.op == 'ite' and d.a[1].op == 'c' and d.a[2].op == 'c':
        cnd, on, off = d.a
        if cnd.op == 'ne0':
            cnd, on, off = not_(cnd), off, on
        if cnd.op == 'eq0' and off is ONE and on.a[0] >= 1:
            lin = linear_in(cnd.a[0], s)
            if lin is not None and abs(lin[0]) == 1 and k not in lin[1].fv:
                i = scale(lin[1], -lin[0])
                # positions visited: s0, s0+1, .. ; after having stood on i it is ahead
                base = add(lf.init, k)
                return ite(and_(le(lf.init, i), lt(i, base)), add(base, sub(on, ONE)), base)
    # halving
    if nx.op == 'idiv' and nx.a[0] is s and nx.a[1].op == 'c' and nx.a[1].a[0] > 1 and nx.a[1].a[0] & (nx.a[1].a[0] - 1) == 0 and \
            entails(tuple(st.pc), le(ZERO, lf.init)):
        return iapp('Shr', lf.init, scale(k, nx.a[1].a[0].bit_length() - 1))
    # wrapping counters
    if nx.op == 'imod' and k not in nx.a[1].fv and s not in nx.a[1].fv:
        t = sub(nx.a[0], s)
        if s not in t.fv and k not in t.fv and entails(tuple(st.pc), le(ZERO, t)) and entails(tuple(st.pc), le(ZERO, lf.init)):
            r = imod(add(lf.init, mul(t, k)), nx.a[1])
            if entails(tuple(st.pc), lt(lf.init, nx.a[1])):
                return r
            return ite(le(k, ZERO), lf.init, r)
    if s not in d.fv:
        j = fresh_iv('j')
        if k not in d.fv:
            return map_leaves(d, lambda x: add(lf.init, mul(x, k)))
        if d.op == 'ite' and all(x.op == 'c' for _, x in ite_leaves(d)):
            r = lf.init
            for cnd, x in ite_leaves(d):
                if x is not ZERO:
                    r = add(r, mul(x, count(k, j, subst(cnd, {k: j}))))
            return r
        t = series(d, k)
        if t is not None:
            return add(lf.init, t)
    j, a = fresh_iv('j'), iv(fresh_name('acc'))
    return intfold(lf.init, nx, s, k, fk)


def series(d, k):
    """the sum of d(0) .. d(k-1)"""
    if k not in d.fv:
        return mul(d, k)
    lin = linear_in(d, k)
    if lin is not None and lin[0] != 0:
        return add(mul(lin[1], k), idiv(scale(mul(k, sub(k, ONE)), lin[0]), c(2)))
    if d.op == 'ite' and all(x.op == 'c' for _, x in ite_leaves(d)):
        j = fresh_iv('j')
        r = ZERO
        for cnd, x in ite_leaves(d):
            if x is not ZERO:
                r = add(r, mul(x, count(k, j, subst(cnd, {k: j}))))
        return r
    if d.op == 'poly':
        r = ZERO
        for m, x in d.a[0]:
            y = mkpoly({m: 1})
            if y is d:
                return None
            y = series(y, k)
            if y is None:
                return None
            r = add(r, scale(y, x))
        return r
    return None


def intfold(init, nx, s, k, fk):
    """running maxima; other recurrences are not solved"""
    xs = {x for _, x in ite_leaves(nx)} - {s}
    x = xs.pop() if len(xs) == 1 else None
    if x is None and nx.op == 'ite':
        x = nx.a[1] if nx.a[2] is s else nx.a[2] if nx.a[1] is s else None
    if x is not None and s not in x.fv and not x.top:
        fk = tuple(fk) + (le(ZERO, s),)

        def is_max(cnd, v):
            if v is s:
                return all(entails(fk + (cnd, cx), le(vx, s)) for cx, vx in ite_leaves(x))
            return entails(fk + (cnd,), le(s, v))
        if all(entails(fk + (cx,), le(ZERO, vx)) for cx, vx in ite_leaves(x)) and all(is_max(cnd, v) for cnd, v in ite_leaves(nx)):
            j = fresh_iv('j')
            if init is not ZERO and subst(x, {k: c(-1)}) is init:
                return imax(add(k, ONE), j, subst(x, {k: sub(j, ONE)}))
            m = imax(k, j, subst(x, {k: j}))
            return m if init is ZERO else ite(le(init, m), m, init)
    return top('integer recurrence')


# ------------------------------------------------------------------ arrays
def dive(a, idxs):
    """element of a (nested) array at the index tuple; fields of one-field records are entered"""
    v = a
    for i in idxs:
        v = map_leaves(v, lambda x: sel(peel(x), i))
    return v


def peel(v):
    while v.op == 'adt' and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v if v.op != 'ite' else map_leaves(v, peel)


def spec_depth(n, spec):
    """list of (index count, path) leaves of an array spec; only one-field records are supported"""
    d = 1
    while True:
        if spec[0] == 'T' or spec[0] == 'int':
            return d, True
        if spec[0] == 'adt':
            if len(spec[2]) != 1:
                return d, False
            spec = spec[2][0]
            continue
        if spec[0] == 'arr':
            d += 1
            spec = spec[2]


def rebuild_arr(n, spec, f, idxs=()):
    j = fresh_iv('J')
    return comp(n, j, rebuild_val(spec, f, idxs + (j,)))


def rebuild_val(spec, f, idxs):
    if spec[0] in ('T', 'int'):
        return f(idxs)
    if spec[0] == 'adt':
        return raw('adt', spec[1], 0, tuple(rebuild_val(s, f, idxs) for s in spec[2]))
    return rebuild_arr(spec[1], spec[2], f, idxs)


def arr_dims(n, spec, idxs):
    """bounds of the index tuple (for facts)"""
    out = [(idxs[0], n)]
    i = 1
    while spec[0] in ('adt', 'arr'):
        if spec[0] == 'adt':
            spec = spec[2][0]
        else:
            out.append((idxs[i], spec[1]))
            i += 1
            spec = spec[2]
    return out


def solve_arr(I, st, lf, nx, k, fk, state):
    s = lf.sym
    n, spec = s.a[2], s.a[3]
    if nx.top:
        return nx
    d, ok = spec_depth(n, spec)
    if not ok:
        I.stats['unsolved'] += 1
        return top('array of records')
    Js = tuple(fresh_iv('J') for _ in range(d))
    bnd = []
    for j, m in arr_dims(n, spec, Js):
        bnd += [le(ZERO, j), lt(j, m)]
    E = dive(nx, Js)
    fj = fk + tuple(bnd)
    E = simp(E, fj)
    old = raw('svsel', s, Js)
    init = lambda idx: dive(lf.init, idx)
    f = None
    if not used_whole(E, s):
        f = point_solution(I, st, E, old, s, Js, k, fj, init, bnd)
    if f is None and any(x.op == 'sv' and x is not s and x.a[0].startswith('h!') for x in nx.fv):
        I.stats['unsolved'] += 1
        I.unknown.add('array recurrence')
        return top('array recurrence')
    if f is None:
        # no closed form by element: the array after k rewriting steps
        if not I.recs:
            I.stats['unsolved'] += 1
            I.unknown.add('array recurrence')
            return top('array recurrence')
        j, a = fresh_iv('j'), fresh_sv('acc', *s.a[1:])
        return rec(k, j, a, lf.init, subst(rebuild_arr(n, spec, lambda idx: simp(dive(nx, idx), fk)), {s: a, k: j}), ('arr', n, spec))
    return rebuild_arr(n, spec, f)


def canon_reads(v, s, Js, pc):
    """names the positions of reads by the position variables where they are known to agree"""
    m = {}
    st = State_(pc)
    for x in reads_of(v, s):
        if any(is_bound(y) for i in x.a[1] for y in i.fv):
            continue
        idx = tuple(J if i is not J and entails(st, eq(i, J)) else i for i, J in zip(x.a[1], Js))
        if idx != x.a[1]:
            m[x] = raw('svsel', s, idx)
    return replace_many(v, m) if m else v


def canon_cond(cnd, s, Js, pc):
    cs = cnd.a[0] if cnd.op == 'and' else (cnd,)
    eqs = tuple(x for x in cs if x.op == 'eq0')
    return and_(*[x if x.op == 'eq0' else canon_reads(x, s, Js, pc + eqs) for x in cs])


def State_(pc):
    out = []
    for x in pc:
        if x.op == 'and':
            out += list(x.a[0])
        else:
            out.append(x)
    return tuple(out)


def used_whole(t, s, memo=None):
    """is the array used other than by reading single elements of it?"""
    if memo is None:
        memo = {}
    if s not in t.fv:
        return False
    if t in memo:
        return memo[t]
    if t is s:
        return True
    if t.op == 'svsel' and t.a[0] is s:
        r = any(used_whole(x, s, memo) for x in t.a[1])
    else:
        r = any(used_whole(x, s, memo) for x in _children(t.a))
    memo[t] = r
    return r


def reads_of(t, s):
    out = []
    for x in subterms(t):
        if x.op == 'svsel' and x.a[0] is s:
            out.append(x)
    return out


def other_reads(t, s, old):
    """reads of other elements than `old`; None when under a binder in a way we cannot handle"""
    return [x for x in reads_of(t, s) if x is not old]


def point_solution(I, st, E, old, s, Js, k, fj, init, bnd):
    """function index tuple -> element after k iterations"""
    writers = []                     # (condition on the indices, value)
    for cnd, v in index_split(E, set(Js) | {k}, fj):
        if v is not old:
            v = canon_reads(v, s, Js, tuple(fj) + (cnd,))
        if v is not old:
            if v.top:
                return None
            writers.append((cnd, v))
    if not writers:
        return init
    if other_reads(E, s, old):
        E = old
        for cnd, v in writers:
            E = ite(or_(*[canon_cond(dj, s, Js, tuple(fj)) for dj in disjuncts(cnd)]), v, E)
    sol = []
    for cnd, v in writers:
        for dj in disjuncts(cnd):
            w = solve_for(dj, k)
            if w is None:
                if other_reads(E, s, old) or any_bound_reads(E, s, old):
                    return None
                return fold_point(E, old, Js, k, init, all(is_int(x) for _, x in ite_leaves(E) if x is not old), fj)
            rest = subst(dj, {k: w})
            sol.append((w, rest, v))
    # which writes have happened before iteration kk
    def done(i, kk):
        w, rest, v = sol[i]
        return and_(le(ZERO, w), lt(w, kk), rest)
    # a position is written at most once, or the order of the writes is known
    order = list(range(len(sol)))
    for i in range(len(sol)):
        for j in range(i + 1, len(sol)):
            if not feasible(tuple(fj) + (done(i, add(k, ONE)), done(j, add(k, ONE)))):
                continue
            wi, wj = sol[i][0], sol[j][0]
            pcx = tuple(fj) + (done(i, add(k, ONE)), done(j, add(k, ONE)))
            if wi is wj or entails(pcx, eq(wi, wj)):
                # same iteration: conditions are exclusive
                continue
            return None
    base_facts = tuple(x for x in fj if k not in x.fv)
    vals = []
    for i, (w, rest, v) in enumerate(sol):
        here = base_facts + (le(ZERO, w), rest)
        vk = subst(v, {k: w})
        pend = [x for x in reads_of(vk, s)]
        m = {}
        for x in pend:
            if any(is_bound(y) for idx in x.a[1] for y in idx.fv):
                # read under a binder
                pass
            ok = True
            for j2 in range(len(sol)):
                dn = subst(done(j2, w), dict(zip(Js, x.a[1])))
                if feasible(here + (dn,)):
                    ok = False
                    break
            if not ok:
                return None
            m[x] = init(x.a[1])
        if m:
            vk = replace_many(vk, m)
            if reads_of(vk, s):
                return None
        vals.append(vk)

    def f(idx):
        r = init(idx)
        mm = dict(zip(Js, idx))
        for i in range(len(sol)):
            r = ite(subst(done(i, k), mm), subst(vals[i], mm), r)
        return r
    # other cells refer to elements of this array at iteration k through svsel: handled by subst
    return f


def is_bound(v):
    return v.op == 'iv' and v.a[0].startswith('#') or v.op == 'sv' and v.a[0].startswith('@')


def replace_many(t, m):
    def f(x):
        return m.get(x, x)
    return map_nodes(t, f)


def any_bound_reads(E, s, old):
    return any(any(is_bound(y) for idx in x.a[1] for y in idx.fv) for x in reads_of(E, s))


def fold_point(E, old, Js, k, init, num=False, facts_=()):
    j, a = fresh_iv('j'), iv(fresh_name('acc')) if num else fresh_sv('acc')
    body = subst(replace_many(E, {old: a}), {k: j})

    def go(b, mm, i0):
        # conditions that do not change from iteration to iteration come first
        if b.op == 'ite' and j not in b.a[0].fv and a not in b.a[0].fv:
            q = subst(b.a[0], mm)
            return ite(q, go(b.a[1], mm, simp(i0, (q,))), go(b.a[2], mm, simp(i0, (not_(q),))))
        if b is a:
            return i0
        if b.op == 'ite' and b.a[0].op == 'and':
            out = [x for x in b.a[0].a[0] if j not in x.fv and a not in x.fv]
            if out:
                rest = [x for x in b.a[0].a[0] if x not in out]
                q = subst(and_(*out), mm)
                return ite(q, go(ite(and_(*rest), b.a[1], b.a[2]), mm, simp(i0, (q,))), go(b.a[2], mm, simp(i0, (not_(q),))))
        if num:
            b = subst(subst(b, {j: k}), mm)
            if a not in b.fv and k not in b.fv:
                return ite(le(k, ZERO), i0, b)
            return intfold(i0, b, a, k, tuple(subst(x, mm) for x in facts_))
        return fold(k, j, a, i0, subst(b, mm))

    def f(idx):
        return go(body, dict(zip(Js, idx)), init(idx))
    return f


def disjuncts(cnd):
    if cnd.op == 'or':
        # make the alternatives exclusive where it matters: they are kept as they are
        for x in cnd.a[0]:
            yield from disjuncts(x)
    else:
        yield cnd


def solve_for(cnd, k):
    """value of k forced by an equation of a conjunction"""
    lits = cnd.a[0] if cnd.op == 'and' else (cnd,)
    best = None
    for x in lits:
        if x.op == 'eq0':
            lin = linear_in(x.a[0], k)
            if lin is not None and abs(lin[0]) == 1:
                w = scale(lin[1], -lin[0])
                if best is None or len(w.fv) < len(best.fv):
                    best = w
    return best
