"""Feature combinations: what the library is in each of them (canonical form of the exported program),
whether each builds, stays inside core, keeps off the heap, and offers the same interface."""
import hashlib, json, os, re
import build

DEFAULT = ('std', 'unicode_width')
IMPL = re.compile(r'[\w:<>]*?\{impl#\d+\}')


def name(c):
    return '+'.join(c) if c else 'no features'


def drop_spans(o):
    if isinstance(o, dict):
        return {k: drop_spans(v) for k, v in o.items() if k not in ('sp', 'heap', 'derived')}
    if isinstance(o, list):
        return [drop_spans(x) for x in o]
    return o


def plain(o):
    """without display paths (they differ between core and std) and without the panic function called"""
    if isinstance(o, dict):
        if o.get('t') == 'call' and o.get('to') == -1 and 'panic' in json.dumps(o.get('f')):
            return {'t': 'panic', 'unwind': o.get('unwind')}
        return {k: plain(v) for k, v in o.items() if not (k in ('p', 'path', 'implself') and isinstance(v, str))}
    if isinstance(o, list):
        return [plain(x) for x in o]
    return o


def text(o):
    """canonical text: no positions, core and std spelled alike"""
    return re.sub(r'(?<![\w:])std::', 'core::', json.dumps(drop_spans(o), sort_keys=True))


class Program:
    """one exported program in a form independent of impl numbering"""

    def __init__(self, path):
        self.d = d = json.load(open(path))
        self.names = {}
        count = {}
        for i in d['impls']:
            t = text([i.get('trait'), i['self'], i.get('targs'), i['preds'], i.get('neg')])
            n = count[t] = count.get(t, 0) + 1
            self.names[i['id']] = 'impl-%s-%d' % (hashlib.sha256(t.encode()).hexdigest()[:16], n)
        self.impls = {i['id']: i for i in d['impls']}

    def canon(self, o):
        return IMPL.sub(lambda m: self.names.get(m.group(0), m.group(0)), text(o))

    def trait(self, f):
        i = self.impls.get(f.get('impl'))
        return (i.get('trait') or '').split('::')[-1] if i else None

    def display(self, f):
        """belongs to the textual display implementation"""
        i = f.get('impl') or next((k for k in self.impls if f['id'].startswith(k + '::')), None)
        i = self.impls.get(i)
        return bool(i) and (i.get('trait') or '').split('::')[-1] == 'Display'

    def bodies(self):
        """canonical name -> canonical body, textual display left out"""
        out = {}
        for f in self.d['fns']:
            if not self.display(f):
                out[self.canon(f['id'])] = self.canon(plain({k: f[k] for k in f if k not in ('heap', 'path')}))
        return out

    def rest(self):
        return sorted(self.canon(plain({k: v for k, v in x.items() if k != 'path'})) for k in ('adts', 'traits', 'aliases') for x in self.d[k])

    def interface(self):
        """public items -> canonical description (textual display left out)"""
        out = {}

        def put(k, v, show):
            n = 1
            kk = k
            while kk in out:
                n += 1
                kk = '%s #%d' % (k, n)
            out[kk] = (v, show)
        d = self.d
        hidden = {a['path'] for a in d['adts'] if not a['reach']} | {t['path'] for t in d['traits'] if not t['reach']}
        for i in d['impls']:
            if (i.get('trait') or '').split('::')[-1] == 'Display':
                continue
            if i.get('trait') in hidden or i['self'].get('p') in hidden:
                continue                # no program outside the crate can name the type or the trait
            if i.get('trait'):
                if (i['trait'].split('::')[-1]) == 'Drop':
                    continue
                items = [(x['n'], x['kind'], x.get('ty')) for x in i['items']]
                put('impl ' + self.names[i['id']], self.canon([i['generics'], i['preds'], i['unsafe'], i['neg'], sorted(text(x) for x in items)]),
                    'impl of %s at %s' % (i['trait'], i['sp']))
        for f in d['fns']:
            if not f.get('reach') or f.get('vis') != 'pub' or self.trait(f):
                continue
            k = self.canon(f['id'])
            put('fn ' + k, self.canon([f['generics'], f['preds'], f['inputs'], f['output'], f['unsafe']]), 'function %s at %s' % (f['path'], f['sp']))
        for a in d['adts']:
            if a['reach']:
                vs = [[v['n'], [x for x in v['fields'] if x['vis'] == 'pub'], any(x['vis'] != 'pub' for x in v['fields'])] for v in a['variants']]
                put('type ' + a['path'], self.canon([a['generics'], vs]), 'type %s at %s' % (a['path'], a['sp']))
        for t in d['traits']:
            if t['reach']:
                put('trait ' + t['path'], self.canon([t['unsafe'], t['items'], t['preds']]), 'trait ' + t['path'])
        for a in d['aliases']:
            if a['vis'] == 'pub':
                put('alias ' + a['path'], self.canon(a['ty']), 'alias ' + a['path'])
        for e in d['exports']:
            if e['pub'] and e['reach']:
                put('export %s::%s (%s)' % (e['mod'], e['n'], e['kind']), text(e['to']), 'export %s of module %s' % (e['n'], e['mod'] or 'crate'))
        for m in d['macros']:
            if m['pub']:
                put('macro ' + m['n'], m['body'], 'macro ' + m['n'])
        return out

    def crates_named(self):
        """crates whose items the library's own code refers to -> an example"""
        out = {}

        def go(o, at):
            if isinstance(o, dict):
                for k, v in o.items():
                    if k in ('d', 'id') and isinstance(v, str) and '::' in v:
                        out.setdefault(v.split('::')[0], (v, at))
                    elif k != 'heap':
                        go(v, at)
            elif isinstance(o, list):
                for x in o:
                    go(x, at)
        for f in self.d['fns']:
            go({k: f[k] for k in f if k != 'heap'}, f['path'])
        for k in ('impls', 'adts', 'traits', 'aliases'):
            for x in self.d[k]:
                go(x, x.get('path') or x['sp'])
        return out


def classes():
    """feature combinations whose program differs from the default build outside textual display: one per class"""
    combos = build.combinations()
    r = build.all_dumps([(c, False) for c in combos])
    if not isinstance(r[(DEFAULT, False)], str):
        return [], []
    b = Program(r[(DEFAULT, False)])
    B, R = b.bodies(), b.rest()
    seen, out, failed = {}, [], []
    for c in combos:
        x = r[(c, False)]
        if not isinstance(x, str):
            failed.append(c)
            continue
        p = Program(x)
        X = p.bodies()
        if X == B and p.rest() == R:
            continue
        k = hashlib.sha256(json.dumps([sorted(X.items()), p.rest()]).encode()).hexdigest()
        if k not in seen:
            seen[k] = c
            out.append((c, len([f for f in set(X) | set(B) if X.get(f) != B.get(f)])))
    return out, failed


def where(sp):
    return sp[len('/repo/'):] if sp.startswith('/repo/') else sp


def c23(rep):
    combos = build.combinations()
    md = {}
    import concurrent.futures as cf

    def check(c):
        try:
            m = build.Metadata(c)
        except build.BuildError as e:
            return str(e)
        m.close()
        return None
    with cf.ThreadPoolExecutor(8) as ex:
        res = dict(zip(combos, ex.map(check, combos)))
    if res[DEFAULT] is not None:
        raise build.BuildError(res[DEFAULT])
    for c in combos:
        oid = 'builds with: ' + name(c)
        if res[c] is None:
            rep.proved(oid)
        else:
            rep.violated(oid, combination=name(c), errors=res[c][:1500])
    dumps = build.all_dumps([(c, False) for c in combos], calls=True)
    P = {}
    for c in combos:
        x = dumps[(c, False)]
        if isinstance(x, str):
            P[c] = Program(x)
        elif res[c] is None:
            rep.undecided('analysed with: ' + name(c), 'the analysis build failed: ' + str(x)[:300])
    if DEFAULT not in P:
        raise build.BuildError(str(dumps[(DEFAULT, False)]))
    # without std: nothing outside core
    ours = {'rowcol', 'core', 'typenum', 'num', 'nodrop', 'approx', 'unicode_width'}
    ncalls = 0
    deps = {}
    for c in P:
        if 'std' in c:
            continue
        p = P[c]
        cr = p.crates_named()
        oid = 'own code stays inside core: ' + name(c)
        bad = {k: v for k, v in cr.items() if k in ('std', 'alloc')}
        via = [x[1] for x in p.d['via'] if x[0] in ('std', 'alloc')]
        if bad:
            k, (item, at) = sorted(bad.items())[0]
            rep.violated(oid, combination=name(c), what='the library refers to an item of crate %s without its std feature' % k, item=item, function=at)
        elif 'rowcol' in via:
            rep.violated(oid, combination=name(c), what='the library itself links std or alloc without its std feature')
        else:
            other = sorted(set(cr) - ours - {x for x in cr if x.startswith('num_')})
            if other:
                rep.undecided(oid, 'items of further crates: %s' % other)
            else:
                rep.proved(oid)
        for dep in sorted({x[1] for x in p.d['via'] if x[0] == 'std'} - {'rowcol'}):
            deps.setdefault(dep, []).append(name(c))
    for dep, cs in sorted(deps.items()):
        rep.violated('no-std:dependency:' + dep, combinations=cs,
                     what='without the std feature the dependency %s still links the standard library' % dep)
    # no heap
    for c in P:
        p = P[c]
        for f in p.d['fns']:
            h = f.get('heap')
            if h is None or p.display(f):
                continue
            if not (f.get('reach') or p.trait(f)):
                continue
            ncalls += h['n']
            oid = 'no heap: %s: %s' % (name(c), f['path'])
            if h['path']:
                rep.violated(oid, combination=name(c), function=f['path'], at=where(f['sp']), call_path=h['path'])
            elif h['cut'] or h['nobody']:
                rep.undecided(oid, 'functions without a body: %s' % h['nobody'][:4] if h['nobody'] else 'call graph cut off')
            else:
                rep.proved(oid)
    rep.notes['call_graph_nodes'] = ncalls
    # same interface
    base = P[DEFAULT].interface()
    for c in P:
        if c == DEFAULT:
            continue
        it = P[c].interface()
        oid = 'same interface as the default build: ' + name(c)
        diff = []
        for k in sorted(set(base) | set(it)):
            a, b = base.get(k), it.get(k)
            if a is None or b is None:
                diff.append(('only in the default build: ' if b is None else 'missing from the default build: ') + (a or b)[1])
            elif a[0] != b[0]:
                diff.append('declared differently: ' + a[1])
        if diff:
            rep.violated(oid, combination=name(c), differences=diff[:8], number=len(diff))
        else:
            rep.proved(oid)
    rep.notes['public_items'] = len(base)
    rep.notes['combinations'] = [name(c) for c in P]
    witnesses(rep, base)
    rep.trust('mirdump (rustc MIR as built from the current tree)', 'cargo feature resolution', 'rustc (stable) type checker')


def witnesses(rep, base):
    """programs judged alike in every combination (what the item list does not show: auto traits, coherence, macro hygiene)"""
    import wit
    ref = None
    for c in [DEFAULT, (), ('use_needs_drop',), ('std', 'use_needs_drop')]:
        for prop in ('C21', 'C22'):
            try:
                res, bad = wit.run(prop, c)
            except build.BuildError:
                return
            got = {r[0]: r[2] for r in res}
            oid = '%s programs judged alike: %s' % (prop, name(c))
            if c == DEFAULT:
                ref = ref or {}
                ref.update(got)
                continue
            diff = [k for k in got if got[k] != ref[k]]
            if diff:
                rep.violated(oid, combination=name(c), programs=diff[:8])
            else:
                rep.proved(oid)
            rep.notes['programs'] = rep.notes.get('programs', 0) + len(got)
