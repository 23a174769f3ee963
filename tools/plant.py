#!/usr/bin/env python3
"""Development tool: plants the bugs defined in the given python file(s) and confirms each.

A definition file calls bug(id, prop, needs, breaks, edits, demo[, release]) where edits is a list of
(file, old, new) and demo a Rust main.rs source.  For each bug: the patch is made and applied to a scratch copy of
/repo, which must build and pass the stable tests; the demonstration must exit 0 without and nonzero with it; then
the checks named (default: the bug's property) are run against the scratch copy."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '144e02a'
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds for this program
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rowcol = { path = "$repo"@FEAT@ }
num = "0.1.36"
approx = "0.1.1"
T
cp "$repo/Cargo.lock" "$tmp/" 2>/dev/null
cd "$tmp" || exit 99
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" CARGO_TERM_COLOR=never
cargo build --offline @REL@ >build.log 2>&1 || { tail -20 build.log; exit @BUILDFAIL@; }
timeout 60 "$tmp/target/@DIR@/demo"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


BUGS = []


def bug(id, prop, needs, breaks, edits, demo, release=False, feat='', buildfail=98, twin=None):
    BUGS.append(dict(twin=twin, id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, release=release, feat=feat, buildfail=buildfail))


def tests(repo):
    env = dict(os.environ, CARGO_TARGET_DIR=repo + '/target', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    r = subprocess.run('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', shell=True, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log, out = repo + '/target/t.log', repo + '/target/t.json'
    open(log, 'w').write(r.stdout)
    subprocess.run(['python3', '/opt/vp/results.py', out, 'cargo:' + log])
    res = json.load(open(out))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(stable - set(res['passed'])), r.stdout


def plant(b, scratch, checks):
    print('==', b['id'], b['prop'], flush=True)
    sh('git checkout -q -- . && git clean -fdq', scratch)
    for f, old, new in b['edits']:
        n = 1
        if f.startswith('*'):
            n, f = None, f[1:]
        p = os.path.join(scratch, f)
        s = open(p).read()
        c = s.count(old)
        if c == 0 or (n and c != n):
            return 'edit matches %d times: %r' % (c, old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', scratch).stdout
    # changed lines belong to the original
    for f in sh('git diff --name-only', scratch).stdout.split():
        bl = sh('git blame -s HEAD -- ' + f, scratch).stdout.splitlines()
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- ' + f, scratch).stdout, re.M):
            a, k = int(m.group(1)), int(m.group(2) or 1)
            for ln in range(a, a + k):
                if not bl[ln - 1].lstrip('^').startswith(BASE[:7]):
                    return 'changes a line of a fix: ' + bl[ln - 1]
            if not k:
                print('   note: pure insertion in', f)
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.rs', 'w').write(b['demo'])
    open(d + '/demo.sh', 'w').write(DEMO.replace('@REL@', '--release' if b['release'] else '').replace('@DIR@', 'release' if b['release'] else 'debug')
                                    .replace('@FEAT@', b['feat']).replace('@BUILDFAIL@', str(b['buildfail'])))
    if b['twin']:       # a program that must not compile, and its shape-corrected twin, which must
        open(d + '/twin.rs', 'w').write(b['twin'])
        t = open(d + '/demo.sh').read().splitlines()
        t = t[:-2] + ['cargo build --offline >build.log 2>&1 && { echo "the program compiles"; exit 1; }',
                      'cp "$here/twin.rs" src/main.rs', 'cargo build --offline >build.log 2>&1 || { tail -20 build.log; exit 98; }', '']
        open(d + '/demo.sh', 'w').write('\n'.join(t))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    err = None
    bad, log = tests(scratch)
    if bad:
        err = 'tests fail: %s\n%s' % (bad[:4], log[-1500:])
    if not err:
        r1 = sh('bash %s/demo.sh' % d, '/repo')
        if r1.returncode:
            err = 'demo fails on the unchanged tree (%d): %s' % (r1.returncode, r1.stdout[-1500:])
    if not err:
        r2 = sh('bash %s/demo.sh' % d, scratch)
        if not r2.returncode or r2.returncode in (98, 99):
            err = 'demo does not fail with the patch (%d): %s' % (r2.returncode, r2.stdout[-1500:])
        else:
            print('   demo with patch: rc=%d %s' % (r2.returncode, r2.stdout.strip().splitlines()[-1:] if r2.stdout.strip() else ''))
    if err:
        shutil.rmtree(d)
        return err
    for c in checks or [b['prop']]:
        r = sh('python3 check.py ' + c, V, env=dict(os.environ, ROWCOL_REPO=scratch))
        print('   check %s: rc=%d' % (c, r.returncode), [l[:220] for l in r.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l][:3], flush=True)
    return None


if __name__ == '__main__':
    files = [a for a in sys.argv[1:] if a.endswith('.py')]
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    for f in files:
        exec(open(f).read())
    scratch = tempfile.mkdtemp(prefix='plant') + '/repo'
    sh('cp -a /repo %s' % scratch, '/')
    try:
        for b in BUGS:
            if only and b['id'] not in only:
                continue
            e = plant(b, scratch, None)
            if e:
                print('   REJECTED:', e[:300], flush=True)
    finally:
        shutil.rmtree(os.path.dirname(scratch))
