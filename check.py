#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current source (static analysis only)."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'analysis')]
sys.dont_write_bytecode = True
import build


class Report:
    """what one run decided"""

    def __init__(self, prop):
        self.prop = prop
        self.ob = []            # (id, status, detail); status: proved | violated | undecided
        self.trusted = []
        self.assumptions = []
        self.notes = {}

    def add(self, oid, status, detail=None):
        self.ob.append((oid, status, detail))

    def proved(self, oid):
        self.add(oid, 'proved')

    def violated(self, oid, **detail):
        self.add(oid, 'violated', detail)

    def undecided(self, oid, why=''):
        self.add(oid, 'undecided', why)

    def trust(self, *xs):
        for x in xs:
            if x not in self.trusted:
                self.trusted.append(x)


def known(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                f = dict(x.split('=', 1) for x in l[6:].split(' ', 2)[:2] if '=' in x)
                rest = l[6:].strip().split(' ', 2)
                if rest[0] == 'property=' + prop:
                    out[rest[1][len('at='):]] = rest[2] if len(rest) > 2 else ''
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    import props
    rep = Report(prop)
    out = None
    for a in sys.argv[2:]:
        if a.startswith('--features='):
            build.FEATURES = tuple(x for x in a[len('--features='):].split(',') if x)
            props.ONE[0] = True
        elif a.startswith('--json='):
            out = a[len('--json='):]
    try:
        props.CHECKS[prop](rep, tier)
    except build.BuildError as e:
        print('no answer: /repo does not build for the analysis:\n' + str(e)[-1500:])
        return 2
    if out:
        with open(out, 'w') as f:
            json.dump([(o[0], o[1], json.loads(json.dumps(o[2], default=str))) for o in rep.ob], f)
        return 0
    kn = known(prop)
    viol, kf = [], []
    for oid, st, d in rep.ob:
        if st == 'violated':
            (kf if oid in kn else viol).append((oid, d))
    ed = os.path.join(HERE, 'evidence')
    os.makedirs(ed, exist_ok=True)
    rpath = os.path.join(ed, 'replay-%s.json' % prop)
    if os.path.exists(rpath):
        os.unlink(rpath)
    n = len(rep.ob)
    pr = sum(1 for o in rep.ob if o[1] == 'proved')
    und = [(o[0], o[2]) for o in rep.ob if o[1] == 'undecided']
    level = props.LEVEL[prop]
    cov = {
        'obligations': n, 'discharged': pr, 'undecided': len(und), 'checker_cmd': 'python3 check.py ' + prop,
        'trusted_base': rep.trusted or ['rustc type checker'],
        'explanation': props.RULE[prop],
        'obligation_ids': [o[0] for o in rep.ob][:400],
        'undecided_ids': [list(map(str, x)) for x in und][:60],
    }
    cov.update(rep.notes)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(ed, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %.1fs' % (prop, n, pr, len(und), time.time() - t0))
    if '-v' in sys.argv:
        for o in rep.ob:
            if o[1] != 'proved':
                print('   ', o[1], o[0], str(o[2])[:1500])
    for oid, d in kf:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, oid, kn[oid]))
    if viol:
        with open(rpath, 'w') as f:
            json.dump([{'obligation': o, 'detail': d} for o, d in viol], f, indent=1, default=str)
        for oid, d in viol[:8]:
            print('  violated: %s' % oid)
            for k, v in (d or {}).items():
                print('      %s: %s' % (k, str(v)[:700].replace('\n', '\n        ')))
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
