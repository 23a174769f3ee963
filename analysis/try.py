import sys, time
sys.path.insert(0, '/verif/analysis')
import mir, roots
sys.path.insert(0, '/verif/engine')
import build
db = mir.load([build.repo_dump(), build.models_dump()])
import traceback
for pat in sys.argv[1:]:
    own = False
    if pat.startswith('own:'):
        own = True
        pat = pat[4:]
    fs = [f for f in db.fns.values() if f['_crate'] != 'models' and f['kind'] != 'Closure' and pat in f['id']]
    for f in fs:
        t = time.time()
        print('=====', f['id'], f['sp'])
        try:
            R = roots.Root(db, f, own)
            S = R.run()
        except Exception:
            traceback.print_exc()
            continue
        print('ERR', S.err) if S.err else None
        print('RET', S.ret)
        if S.state is not None:
            print('PC', [x for x in S.state.pc if x not in S.pre])
            for n in R.allocs:
                print('FINAL', n, R.final(S, n))
            if S.state.mem[roots.LOG] is not roots.NIL:
                print('LOG', S.state.mem[roots.LOG])
        for p in S.panics:
            print('PANIC', p['kind'], p['detail'], p['fn'], p['sp'], [x for x in p['pc'] if x not in S.pre])
        for o in S.obl:
            print('OBL', 'ok' if o['ok'] else 'FAIL', o['kind'], o['cond'], o['sp'], '' if o['ok'] else [x for x in o['pc'] if x not in S.pre])
        print('UNK', S.unknown, 'unsolved', S.stats['unsolved'], '%.2fs' % (time.time() - t), S.stats['blocks'])
