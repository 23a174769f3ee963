import sys, time
sys.path.insert(0, '/verif/analysis')
import mir, roots, traceback
sys.path.insert(0, '/verif/engine')
import build
db = mir.load([build.repo_dump(), build.models_dump()])
own = 'own' in sys.argv
pat = [a for a in sys.argv[1:] if a != 'own']
for f in sorted(db.fns.values(), key=lambda f: f['sp']):
    if f['_crate'] == 'models' or f['kind'] == 'Closure' or f['unsafe']:
        continue
    if pat and not any(p in f['id'] for p in pat):
        continue
    t = time.time()
    try:
        R = roots.Root(db, f, own)
        S = R.run()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        print('EXC', f['id'], f['sp'].split('/')[-1], repr(e)[:100], tb.filename.split('/')[-1], tb.lineno)
        continue
    q = []
    if S.err: q.append('err=' + S.err)
    if S.ret is None: q.append('noret')
    elif S.ret.top: q.append('TOPRET')
    if S.state is not None:
        for n in R.allocs:
            if R.final(S, n).top: q.append('TOPFINAL')
    if S.unknown: q.append('unk=%s' % sorted(S.unknown))
    if S.stats['unsolved']: q.append('unsolved=%d' % S.stats['unsolved'])
    pn = {(p['kind'], p['detail']) for p in S.panics}
    ob = [o for o in S.obl if not o['ok']]
    print('%-55s %-14s %.1fs %s pan=%s obl=%d/%d' % (f['id'].replace('rowcol::', ''), f['sp'].split('/')[-1], time.time() - t, q, sorted(pn), len(ob), len(S.obl)))
    sys.stdout.flush()
