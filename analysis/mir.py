"""Program database: MIR dumps, types, substitution, impl lookup, projection normalisation."""
import json, re
from terms import *

STDMAP = {
    'core::iter::adapters::map::Map': 'Map', 'core::iter::adapters::zip::Zip': 'Zip',
    'core::iter::adapters::enumerate::Enumerate': 'Enumerate', 'core::iter::adapters::rev::Rev': 'Rev',
    'core::iter::adapters::take::Take': 'Take', 'core::iter::adapters::skip::Skip': 'Skip',
    'core::iter::adapters::step_by::StepBy': 'StepBy', 'core::iter::adapters::filter::Filter': 'Filter',
    'core::iter::adapters::filter_map::FilterMap': 'FilterMap', 'core::iter::adapters::take_while::TakeWhile': 'TakeWhile',
    'core::iter::adapters::chain::Chain': 'Chain', 'core::iter::adapters::cloned::Cloned': 'Cloned',
    'core::iter::adapters::copied::Copied': 'Copied', 'core::iter::adapters::inspect::Inspect': 'Inspect',
    'core::iter::adapters::fuse::Fuse': 'Fuse', 'core::iter::adapters::peekable::Peekable': 'Peekable',
    'core::iter::sources::once::Once': 'Once', 'core::iter::sources::empty::Empty': 'Empty',
    'core::iter::sources::repeat::Repeat': 'Repeat',
    'core::ops::range::Range': 'Range', 'core::ops::range::RangeInclusive': 'RangeInclusive',
    'core::slice::iter::Iter': 'SliceIter', 'core::slice::iter::IterMut': 'SliceIterMut',
    'core::slice::iter::Chunks': 'SliceChunks', 'core::slice::iter::ChunksExact': 'SliceChunks',
    'core::array::iter::IntoIter': 'ArrayIter', 'core::str::iter::Lines': 'Lines',
    'core::fmt::builders::DebugList': 'DebugList',
}
STDMAP = {k: 'models::' + v for k, v in STDMAP.items()}

PRENAME = {'Iter': 'SliceIter', 'IterMut': 'SliceIterMut'}
UNK = ('unk',)


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == '<':
            d += 1
        elif ch == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


def model_key(path):
    """'std::option::Option::<T>::unwrap' -> 'Option__unwrap'"""
    m = re.search(r'<impl ([^>]*(?:<[^>]*>)?[^>]*)>::(\w+)$', path)
    if m and ' for ' not in m.group(1):
        t = m.group(1)
        t = 'slice' if t.startswith('[') else 'mut_ptr' if t.startswith('*mut ') else 'const_ptr' if t.startswith('*const ') else t
        return t + '__' + m.group(2)
    p = re.sub(r'::+', '::', strip_generics(path)).split('::')
    p = [x for x in p if x]
    if len(p) < 2:
        return p[-1]
    return PRENAME.get(p[-2], p[-2]) + '__' + p[-1]


def short(path):
    return path.split('::')[-1]


class DB:
    def __init__(self, dumps):
        self.fns = {}
        self.impls = {}
        self.adts = {}
        self.traits = {}
        self.aliases = []
        self.fninfo = {}
        self._tc = {}
        self.crate = None
        for d in dumps:
            if d['crate'] != 'models':
                self.crate = d['crate']
                self.main = d
            for f in d['fns']:
                self.fns[f['id']] = f
                f['_crate'] = d['crate']
            for i in d['impls']:
                i['_self'] = self.ty(i['self'])
                i['_targs'] = tuple(self.ty(t) for t in i.get('targs', [])) if i.get('trait') else ()
                i['_crate'] = d['crate']
                if i.get('trait'):
                    self.impls.setdefault(short(i['trait']), []).append(i)
                else:
                    self.impls.setdefault(None, []).append(i)
            for a in d['adts']:
                self.adts[a.get('d', a.get('id'))] = a
            for t in d['traits']:
                self.traits[t.get('d', t.get('id'))] = t
            self.aliases += d['aliases']
        self.models = {}
        for f in self.fns.values():
            if f['_crate'] == 'models' and f['kind'] == 'Fn' and '__' in f['id']:
                self.models[f['id'].split('::')[-1]] = f
        self._norm = {}
        self.rootinfo = None

    # ------------------------------------------------------------ types
    def ty(self, j):
        k = j['k']
        if k == 'prim':
            return ('prim', j['n'])
        if k == 'adt':
            return ('adt', STDMAP.get(j['d'], j['d']), tuple(self.ty(x) for x in j['a']))
        if k == 'param':
            return ('param', j['n'], j['i'])
        if k == 'ref':
            return ('ref', bool(j['m']), self.ty(j['t']))
        if k == 'ptr':
            return ('ptr', bool(j['m']), self.ty(j['t']))
        if k == 'tuple':
            return ('tuple', tuple(self.ty(x) for x in j['a']))
        if k == 'array':
            l = j['len']
            if 'v' in l:
                n = ('c', int(l['v']))
            elif l.get('k') == 'param':
                n = ('param', l['n'], l['i'])
            else:
                n = ('unk',)
            return ('array', self.ty(j['t']), n)
        if k == 'slice':
            return ('slice', self.ty(j['t']))
        if k == 'proj':
            return ('proj', j['tr'], j['n'], tuple(self.ty(x) for x in j['a']))
        if k == 'fndef':
            a = tuple(self.ty(x) for x in j['a'])
            if j['d'] not in self.fninfo:
                self.fninfo[j['d']] = {x: j.get(x) for x in ('p', 'n', 'trait', 'impl', 'ctor', 'unsafe', 'implself')}
            return ('fndef', j['d'], a)
        if k == 'closure':
            key = ('closure', j['d'], tuple(self.ty(x) for x in j['a']))
            self.fninfo.setdefault(j['d'], {'ckind': j.get('kind')})
            return key
        return ('other', j.get('s', k))

    def subst(self, t, env):
        """env: dict param index -> type"""
        if not env:
            return t
        k = t[0]
        if k == 'param':
            return env.get(t[2], t)
        if k in ('prim', 'other', 'unk', 'tp'):
            return t
        if k == 'adt':
            return ('adt', t[1], tuple(self.subst(x, env) for x in t[2]))
        if k in ('ref', 'ptr'):
            return (k, t[1], self.subst(t[2], env))
        if k == 'tuple':
            return ('tuple', tuple(self.subst(x, env) for x in t[1]))
        if k == 'array':
            n = t[2]
            if n[0] == 'param':
                n = env.get(n[2], n)
            return ('array', self.subst(t[1], env), n)
        if k == 'slice':
            return ('slice', self.subst(t[1], env))
        if k == 'proj':
            return ('proj', t[1], t[2], tuple(self.subst(x, env) for x in t[3]))
        if k in ('fndef', 'closure'):
            return (k, t[1], tuple(self.subst(x, env) for x in t[2]))
        raise Exception(t)

    def norm(self, t):
        r = self._norm.get(t)
        if r is None:
            r = self._norm1(t)
            self._norm[t] = r
        return r

    def _norm1(self, t):
        k = t[0]
        if k in ('prim', 'other', 'unk', 'tp', 'param'):
            return t
        if k == 'adt':
            return ('adt', t[1], tuple(self.norm(x) for x in t[2]))
        if k in ('ref', 'ptr'):
            return (k, t[1], self.norm(t[2]))
        if k == 'tuple':
            return ('tuple', tuple(self.norm(x) for x in t[1]))
        if k == 'array':
            return ('array', self.norm(t[1]), t[2])
        if k == 'slice':
            return ('slice', self.norm(t[1]))
        if k in ('fndef', 'closure'):
            return (k, t[1], tuple(self.norm(x) for x in t[2]))
        if k == 'proj':
            tr, n, a = t[1], t[2], tuple(self.norm(x) for x in t[3])
            s = short(tr)
            if s in ('FnOnce', 'FnMut', 'Fn') and n == 'Output':
                return self.fn_output(a[0])
            if s == 'Iterator' and a[0][0] == 'ref' and a[0][1]:
                return self.norm(('proj', tr, n, (a[0][2],)))
            if s == 'IntoIterator':
                r = self.into_iter_type(a[0])
                if r is not None:
                    if n == 'IntoIter':
                        return r
                    return self.norm(('proj', 'std::iter::Iterator', 'Item', (r,)))
            rp = getattr(self, 'rootproj', None)
            if rp:
                r = rp.get((s, n, a))
                if r is not None:
                    return r
            m = self.find_impl(s, a)
            if m is not None:
                imp, env = m
                for it in imp['items']:
                    if it['n'] == n and it.get('ty') is not None:
                        return self.norm(self.subst(self.ty(it['ty']), env))
            if s == 'ArrayLen' and n == 'Array' and a[0][0] in ('tp', 'proj', 'adt'):
                return ('array', a[1], ('num', a[0]))
            return ('proj', tr, n, a)
        raise Exception(t)

    def fn_output(self, f):
        if f[0] == 'ref':
            return self.fn_output(f[2])
        if f[0] == 'closure':
            fn = self.fns.get(f[1])
            if fn is None:
                return UNK
            o = fn.get('output')
            if o is None:
                o = fn['body']['locals'][0]['ty']
            return self.norm(self.subst(self.ty(o), self.env_of(fn, f[2])))
        if f[0] == 'fndef':
            fn = self.fns.get(f[1])
            if fn is not None:
                return self.norm(self.subst(self.ty(fn['output']), self.env_of(fn, f[2])))
        if f[0] in ('tp',):
            for (s, n, a), r in getattr(self, 'rootproj', {}).items():
                if s == 'FnOnce' and n == 'Output' and a[0] == f:
                    return r
            return ('proj', 'std::ops::FnOnce', 'Output', (f,))
        return UNK

    def into_iter_type(self, t):
        if t[0] == 'ref':
            e = t[2]
            if e[0] == 'array' or e[0] == 'slice':
                return ('adt', 'models::SliceIterMut' if t[1] else 'models::SliceIter', (e[1],))
        if t[0] == 'array':
            return ('adt', 'models::ArrayIter', (t, t[1]))
        m = self.find_impl('IntoIterator', (t,))
        if m is not None:
            imp, env = m
            for it in imp['items']:
                if it['n'] == 'IntoIter' and it.get('ty') is not None:
                    return self.norm(self.subst(self.ty(it['ty']), env))
        if t[0] == 'ref' and t[1] and self.find_impl('Iterator', (t[2],)):
            return t
        if self.find_impl('Iterator', (t,)):
            return t
        return None

    def env_of(self, fn, args):
        return {g[1]: a for g, a in zip(fn['generics'], args)}

    # ------------------------------------------------------------ impls
    def unify(self, p, t, env):
        k = p[0]
        if k == 'param':
            if p[2] in env:
                return env[p[2]] == t or env[p[2]] == UNK or t == UNK
            env[p[2]] = t
            return True
        if t == UNK:
            return True
        if k == 'proj':
            return True          # checked by the compiler already
        if k != t[0]:
            return False
        if k in ('prim', 'other', 'tp'):
            return p == t
        if k == 'adt':
            return p[1] == t[1] and len(p[2]) == len(t[2]) and all(self.unify(x, y, env) for x, y in zip(p[2], t[2]))
        if k in ('ref', 'ptr'):
            return p[1] == t[1] and self.unify(p[2], t[2], env)
        if k == 'tuple':
            return len(p[1]) == len(t[1]) and all(self.unify(x, y, env) for x, y in zip(p[1], t[1]))
        if k == 'array':
            if not self.unify(p[1], t[1], env):
                return False
            if p[2][0] == 'param':
                return self.unify(p[2], t[2], env)
            return p[2] == t[2]
        if k == 'slice':
            return self.unify(p[1], t[1], env)
        if k in ('fndef', 'closure'):
            return p[1] == t[1] and all(self.unify(x, y, env) for x, y in zip(p[2], t[2]))
        return False

    def find_impl(self, trait, targs):
        best = None
        for imp in self.impls.get(trait, []):
            if imp.get('neg'):
                continue
            env = {}
            if len(imp['_targs']) != len(targs):
                continue
            if imp['_targs'][0][0] == 'param' and trait not in ('MinImpl',):
                # blanket impls are not used in the analysed code
                continue
            if all(self.unify(p, t, env) for p, t in zip(imp['_targs'], targs)):
                # generics only bound through where-clauses
                for g in imp['generics']:
                    if g[1] not in env:
                        env[g[1]] = self.bind_by_preds(imp, g[1], env)
                best = (imp, env)
                break
        return best

    def bind_by_preds(self, imp, idx, env):
        for p in imp['preds']:
            if p['c'] != 'proj':
                continue
            ty = self.ty(p['ty'])
            e2 = dict(env)
            if idx in e2:
                continue
            v = self.subst(('proj', p['tr'], p['n'], tuple(self.ty(x) for x in p['a'])), e2)
            if self.mentions_param(v):
                continue
            v = self.norm(v)
            e3 = {}
            if self.unify(ty, v, e3) and idx in e3:
                return e3[idx]
        return UNK

    def mentions_param(self, t):
        if not isinstance(t, tuple):
            return False
        if t and t[0] == 'param':
            return True
        return any(self.mentions_param(x) for x in t if isinstance(x, tuple))

    def impl_method(self, imp, name):
        for it in imp['items']:
            if it['n'] == name and it['kind'] == 'Fn':
                return self.fns.get(it['d'])
        return None

    def show(self, t):
        k = t[0]
        if k in ('prim', 'other'):
            return t[1]
        if k in ('param', 'tp'):
            return t[1]
        if k == 'adt':
            return short(t[1]) + ('<%s>' % ','.join(map(self.show, t[2])) if t[2] else '')
        if k in ('ref', 'ptr'):
            return ('&' if k == 'ref' else '*') + ('mut ' if t[1] else '') + self.show(t[2])
        if k == 'tuple':
            return '(%s)' % ','.join(map(self.show, t[1]))
        if k == 'array':
            return '[%s;%s]' % (self.show(t[1]), t[2][1] if len(t[2]) > 1 else '?')
        if k == 'slice':
            return '[%s]' % self.show(t[1])
        if k == 'proj':
            return '<%s as %s>::%s' % (self.show(t[3][0]), short(t[1]), t[2])
        if k in ('fndef', 'closure'):
            return k + ':' + t[1]
        return str(t)


def load(paths):
    ds = []
    for p in paths:
        with open(p) as f:
            ds.append(json.load(f))
    return DB(ds)
