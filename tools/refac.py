#!/usr/bin/env python3
"""Development tool: applies behaviour-preserving edits to a scratch copy and reports checks that do not stay quiet.

A definition file calls ref(id, checks, edits) with edits a list of (file, old, new)."""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFS = []


def ref(id, checks, edits):
    REFS.append((id, checks.split(), edits))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(r):
    id, checks, edits = r
    scratch = tempfile.mkdtemp(prefix='refac') + '/repo'
    out = ['== ' + id]
    try:
        sh('cp -a /repo %s' % scratch, '/')
        for f, old, new in edits:
            p = os.path.join(scratch, f.lstrip('*'))
            s = open(p).read()
            n = s.count(old)
            if n == 0 or n != 1 and not f.startswith('*'):
                return '\n'.join(out + ['   edit matches %d times: %r' % (n, old)])
            open(p, 'w').write(s.replace(old, new))
        env = dict(os.environ, CARGO_TARGET_DIR=scratch + '/target', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
        if '-notest' not in sys.argv:
            t = sh('cargo test --offline --lib', scratch, env=env)
            if t.returncode:
                return '\n'.join(out + ['   does not build or pass:', t.stdout[-3000:]])
        for c in checks:
            x = sh('timeout 900 python3 check.py %s -v' % c, V, env=dict(os.environ, ROWCOL_REPO=scratch))
            out.append('   %s rc=%d %s' % (c, x.returncode, [l for l in x.stdout.splitlines() if 'obligations' in l][-1:]))
            if '-v' in sys.argv or x.returncode:
                out += ['      ' + l[:400] for l in x.stdout.splitlines()
                        if 'undecided ' in l and 'Display>::fmt' not in l and ': time' not in l or 'VIOL' in l or 'violat' in l][:6]
    finally:
        shutil.rmtree(os.path.dirname(scratch))
    return '\n'.join(out)


if __name__ == '__main__':
    files = [a for a in sys.argv[1:] if a.endswith('.py')]
    only = [a for a in sys.argv[1:] if not a.endswith('.py') and not a.startswith('-')]
    for f in files:
        exec(open(f).read(), {'ref': ref})
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(one, [r for r in REFS if not only or r[0] in only]):
            print(o, flush=True)
