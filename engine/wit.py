"""Runs the compile-time witnesses of one property."""
import concurrent.futures as cf
import build, witnesses


def run(prop, features=('std', 'unicode_width'), only=None):
    """(results, failures); a result is (id, kind, verdict, detail)"""
    ws = witnesses.TABLE[prop]()
    if only:
        ws = [w for w in ws if only in w.id]
    res, bad = [], []
    ids = set()
    for w in ws:
        assert w.id not in ids, w.id
        ids.add(w.id)
    with build.Metadata(features) as md:
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            twins = {}
            for i, w in enumerate(ws):
                a = ex.submit(md.compile, w.code, 'a%d' % i, w.edition)
                b = None
                if w.twin is not None:
                    b = twins.get((w.twin, w.edition))
                    if b is None:
                        b = twins[(w.twin, w.edition)] = ex.submit(md.compile, w.twin, 'b%d' % i, w.edition)
                jobs.append((w, a, b))
            for w, a, b in jobs:
                ok, codes, txt = a.result()
                if w.kind == 'ok':
                    res.append((w.id, 'accept', ok, codes))
                    if not ok:
                        bad.append({'witness': w.id, 'expected': 'accepted', 'got': 'rejected', 'program': w.code, 'errors': txt})
                else:
                    tw = None
                    if b is not None:
                        tok, tcodes, ttxt = b.result()
                        tw = tok
                        if not tok:
                            bad.append({'witness': w.id + '/twin', 'expected': 'accepted', 'got': 'rejected', 'program': w.twin, 'errors': ttxt})
                    cause = (not ok) and any(c in w.codes for c in codes)
                    res.append((w.id, 'reject', not ok, codes, cause, tw))
                    if ok:
                        bad.append({'witness': w.id, 'expected': 'rejected', 'got': 'accepted', 'program': w.code, 'errors': ''})
    return res, bad


if __name__ == '__main__':
    import sys, time
    for p in sys.argv[1:]:
        t = time.time()
        res, bad = run(p)
        print(p, len(res), 'witnesses', len(bad), 'bad', '%.1fs' % (time.time() - t), 'odd cause:', [r for r in res if r[1] == 'reject' and not r[4]][:5])
        for b in bad:
            print(b['witness'], b['expected'], b['got'], b['errors'][:700])
