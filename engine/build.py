"""Builds what the checks read: the MIR exporter, the program database of /repo's current
tree, and library metadata for the compile-time witnesses."""
import concurrent.futures as cf
import contextlib, fcntl, hashlib, itertools, json, os, shutil, subprocess, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ROWCOL_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NIGHTLY = 'nightly'
STABLE = 'stable'
ALL_FEATURES = ['std', 'unicode_width', 'use_needs_drop']


class BuildError(Exception):
    """/repo does not compile (or the tools are missing)."""


def env(extra=None):
    home = os.environ.get('HOME') or '/root'
    if not os.path.isdir(os.path.join(home, '.cargo')):
        home = '/root'
    e = {
        'HOME': home, 'PATH': home + '/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'CARGO_INCREMENTAL': '0', 'LC_ALL': 'C.UTF-8',
    }
    for k in ('CARGO_HOME', 'RUSTUP_HOME', 'TMPDIR'):
        if os.environ.get(k):
            e[k] = os.environ[k]
    if extra:
        e.update(extra)
    return e


def run(cmd, cwd=None, extra=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def digest(paths, salt=''):
    h = hashlib.sha256(salt.encode())
    for root in paths:
        fs = []
        if os.path.isfile(root):
            fs = [root]
        else:
            for d, ds, ff in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
                fs += [os.path.join(d, f) for f in sorted(ff)]
        for f in fs:
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def repo_digest(salt=''):
    ps = [os.path.join(REPO, 'src')] + [p for p in (os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'build.rs'))
                                        if os.path.exists(p)]
    return digest(ps, salt)


def sysroot_lib():
    rc, o, e = run(['rustc', '+' + NIGHTLY, '--print', 'sysroot'])
    if rc:
        raise BuildError('nightly toolchain: ' + e)
    return o.strip() + '/lib'


def driver():
    d = os.path.join(VERIF, 'driver')
    exe = os.path.join(d, 'target/release/mirdump')
    stamp = os.path.join(d, 'target/stamp')
    dg = digest([os.path.join(d, 'src'), os.path.join(d, 'Cargo.toml')])
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == dg:
        return exe
    rc, o, e = run(['cargo', '+' + NIGHTLY, 'build', '--release', '--offline'], cwd=d, timeout=1500)
    if rc or not os.path.exists(exe):
        raise BuildError('driver: ' + e[-2000:])
    with open(stamp, 'w') as f:
        f.write(dg)
    return exe


FLAGS = ['-Zmir-opt-level=0', '-Coverflow-checks=on', '--cap-lints', 'allow']


def dump_crate(src, crate, out, features=(), dbg=False, calls=False):
    """exports one crate reached from the cargo package `src`"""
    exe = driver()
    tmp = tempfile.mkdtemp(prefix='rcv-')
    try:
        pkg = os.path.join(tmp, 'pkg')
        shutil.copytree(src, pkg, ignore=shutil.ignore_patterns('target'))
        t = os.path.join(pkg, 'Cargo.toml')
        s = open(t).read().replace('"/repo"', json.dumps(REPO))
        open(t, 'w').write(s)
        cmd = ['cargo', '+' + NIGHTLY, 'check', '--offline', '--target-dir', os.path.join(tmp, 't')]
        if features:
            cmd += ['--features', ','.join(features)]
        rc, o, e = run(cmd, cwd=pkg, extra={
            'RUSTC_WRAPPER': exe, 'LD_LIBRARY_PATH': sysroot_lib(), 'MIRDUMP_OUT': out + '.tmp', 'MIRDUMP_CRATE': crate, **({'MIRDUMP_CALLS': '1'} if calls else {}),
            'RUSTFLAGS': ' '.join(FLAGS + (['-Zalways-encode-mir'] if calls else []) + ['-Cdebug-assertions=' + ('on' if dbg else 'off')])})
        if rc or not os.path.exists(out + '.tmp'):
            raise BuildError(e[-3000:])
        os.replace(out + '.tmp', out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


FEATURES = ('std', 'unicode_width')      # the combination analysed by default


def repo_dump(features=None, dbg=False, calls=False, lock=True):
    """path of the exported program database of /repo's current tree"""
    features = FEATURES if features is None else features
    with (Lock() if lock else contextlib.nullcontext()):
        key = repo_digest('|'.join(features) + str(dbg) + str(calls) + digest([os.path.join(VERIF, 'driver/src')]))
        out = os.path.join(BUILD, 'dump-%s.json' % key)
        if not os.path.exists(out):
            dump_crate(os.path.join(VERIF, 'harness'), 'rowcol', out, features, dbg, calls)
        return out


def combinations():
    return [f for r in range(len(ALL_FEATURES) + 1) for f in itertools.combinations(ALL_FEATURES, r)]


def all_dumps(configs, calls=False):
    """program databases for several (features, debug assertions), built side by side: path or BuildError for each"""
    def one(c):
        try:
            return repo_dump(c[0], c[1], calls, lock=False)
        except BuildError as e:
            return e
    with Lock():
        driver()
        with cf.ThreadPoolExecutor(8) as ex:
            return dict(zip(configs, ex.map(one, configs)))


def models_dump():
    with Lock():
        key = digest([os.path.join(VERIF, 'models/src'), os.path.join(VERIF, 'driver/src')])
        out = os.path.join(BUILD, 'models-%s.json' % key)
        if not os.path.exists(out):
            for f in glob.glob(os.path.join(BUILD, 'models-*.json')):
                os.unlink(f)
            dump_crate(os.path.join(VERIF, 'models'), 'models', out)
        return out


def probe_dump():
    """programs that use the crate's macros, exported against the current tree"""
    with Lock():
        key = repo_digest('|'.join(FEATURES) + digest([os.path.join(VERIF, 'probe'), os.path.join(VERIF, 'driver/src')]))
        out = os.path.join(BUILD, 'probe-%s.json' % key)
        if not os.path.exists(out):
            dump_crate(os.path.join(VERIF, 'probe'), 'probe', out, FEATURES)
        return out


class Metadata:
    """library metadata a witness can be type-checked against"""

    def __init__(self, features=('std', 'unicode_width'), toolchain=STABLE):
        self.tmp = tempfile.mkdtemp(prefix='rcv-')
        self.toolchain = toolchain
        pkg = os.path.join(self.tmp, 'pkg')
        shutil.copytree(os.path.join(VERIF, 'witness'), pkg, ignore=shutil.ignore_patterns('target'))
        t = os.path.join(pkg, 'Cargo.toml')
        s = open(t).read().replace('"/repo"', json.dumps(REPO))
        open(t, 'w').write(s)
        cmd = ['cargo', '+' + toolchain, 'check', '--offline', '--message-format=json', '--target-dir',
               os.path.join(self.tmp, 't')]
        if features:
            cmd += ['--features', ','.join(features)]
        rc, o, e = run(cmd, cwd=pkg, extra={'RUSTFLAGS': '--cap-lints allow'})
        if rc:
            self.close()
            raise BuildError(e[-3000:])
        self.libs = {}
        self.deps = set()
        for l in o.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') != 'compiler-artifact':
                continue
            for f in m['filenames']:
                if f.endswith('.rmeta'):
                    self.libs[m['target']['name'].replace('-', '_')] = f
                    self.deps.add(os.path.dirname(f))
        for k in ('rowcol', 'typenum', 'num', 'approx'):
            if k not in self.libs:
                raise BuildError('no metadata for ' + k)
        self.n = 0

    def compile(self, code, name, edition='2015'):
        """(compiled, [error codes], rendered errors)"""
        d = os.path.join(self.tmp, 'w-' + name)
        os.makedirs(d)
        f = os.path.join(d, 'w.rs')
        open(f, 'w').write(code)
        cmd = ['rustc', '+' + self.toolchain, '--crate-type', 'lib', '--crate-name', 'w', '--edition', edition,
               '--emit', 'metadata', '--cap-lints', 'allow', '--error-format', 'json', '-o', os.path.join(d, 'w.rmeta'), f]
        for k in ('rowcol', 'typenum', 'num', 'approx'):
            cmd += ['--extern', '%s=%s' % (k, self.libs[k])]
        for x in self.deps:
            cmd += ['-L', 'dependency=' + x]
        rc, o, e = run(cmd)
        codes, txt = [], []
        for l in e.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error':
                codes.append((m.get('code') or {}).get('code') or '-')
                txt.append(m.get('rendered', '')[:600])
        shutil.rmtree(d, ignore_errors=True)
        return rc == 0, codes, '\n'.join(txt)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


if __name__ == '__main__':
    os.makedirs(BUILD, exist_ok=True)
    print(driver())
    print(models_dump())
