"""Builds /repo's current working tree for analysis and dumps MIR of witness crates.

Everything lives under /verif/target. Results are cached by a hash of /repo's source content, so a
changed tree is always recompiled, whatever its file times say.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TARGET = os.path.join(VERIF, 'target')
TC = 'nightly'

TRIPLES = {
    'x86_64': 'x86_64-unknown-linux-gnu',
    'i686': 'i686-unknown-linux-gnu',
    'aarch64': 'aarch64-unknown-linux-gnu',
    'armv7': 'armv7-unknown-linux-gnueabihf',
    'thumb': 'thumbv7neon-unknown-linux-gnueabihf',
    'win64': 'x86_64-pc-windows-msvc',
    'win32': 'i686-pc-windows-msvc',
}
FEATS = {
    'std': 'std safe_jit default_jit_alloc proc_macros',
    'nightly': 'std safe_jit default_jit_alloc proc_macros tuple_trait c_variadic coverage',
    'custom': 'safe_jit global_jit_alloc proc_macros',
    'spin': 'safe_jit default_jit_alloc',
    'nosafe': 'no_safe_jit proc_macros',
}


class BuildError(Exception):
    pass


class CompileError(Exception):
    def __init__(self, what, out):
        super().__init__(what)
        self.out = out


def env():
    e = {k: v for k, v in os.environ.items()
         if k not in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER',
                      'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_INCREMENTAL')}
    e.setdefault('HOME', '/root')
    e['PATH'] = e.get('PATH', '/usr/bin:/bin') + ':/usr/local/bin:' + e['HOME'] + '/.cargo/bin'
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_AUTO_INSTALL='0', CARGO_TERM_COLOR='never', LANG='C.UTF-8')
    e['CC_aarch64_unknown_linux_gnu'] = 'aarch64-linux-gnu-gcc'
    e['CC_armv7_unknown_linux_gnueabihf'] = 'arm-linux-gnueabihf-gcc'
    e['CC_thumbv7neon_unknown_linux_gnueabihf'] = 'arm-linux-gnueabihf-gcc'
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(['rustc', '+' + TC, '--print', 'sysroot'], env=env(), text=True).strip()
    return _sysroot


def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b'-')
    return h.hexdigest()[:20]


_repo_hash = None


def repo_hash():
    """Content hash of everything in /repo that can influence the compiled crate."""
    global _repo_hash
    if _repo_hash is None:
        ps = []
        for root, dirs, files in os.walk(REPO):
            dirs[:] = [d for d in dirs if d not in ('.git', 'target', 'tests', 'examples')]
            ps += [os.path.join(root, f) for f in files]
        _repo_hash = hash_files(ps)
    return _repo_hash


@contextmanager
def lock(name):
    os.makedirs(os.path.join(TARGET, 'locks'), exist_ok=True)
    with open(os.path.join(TARGET, 'locks', name), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def driver():
    """Build (if needed) and return the path of the MIR dumper."""
    src = glob.glob(os.path.join(VERIF, 'driver', 'src', '*.rs')) + [os.path.join(VERIF, 'driver', 'Cargo.toml')]
    h = hash_files(src)
    out = os.path.join(TARGET, 'driver', 'release', 'mirdump')
    stamp = os.path.join(TARGET, 'driver', 'stamp')
    with lock('driver'):
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
            return out, h
        r = run(['cargo', '+' + TC, 'build', '--release', '--offline', '--target-dir', os.path.join(TARGET, 'driver')],
                cwd=os.path.join(VERIF, 'driver'), env=env())
        if r.returncode:
            raise BuildError('driver build failed:\n' + r.stderr[-4000:])
        with open(stamp, 'w') as f:
            f.write(h)
    return out, h


def parse_cfg(cfg):
    """'x86_64/std' or 'x86_64/nightly/cov' -> (triple, feats, variant)"""
    p = cfg.split('/')
    return TRIPLES[p[0]], FEATS[p[1]], p[2] if len(p) > 2 else ''


RF = {'': ['-Zalways-encode-mir', '-Zmir-opt-level=0'],
      'cov': ['-Cinstrument-coverage', '-Zno-profiler-runtime', '-Zalways-encode-mir', '-Zmir-opt-level=0']}


def compiled(cfg):
    """Compile /repo for cfg; returns {'externs': {name: rmeta}, 'dirs': [...], 'triple', 'flags'}."""
    triple, feats, variant = parse_cfg(cfg)
    d = cfg.split('/')[0] + ('-' + variant if variant else '')
    tdir = os.path.join(TARGET, 'b-' + d)
    key = hashlib.sha256((repo_hash() + cfg).encode()).hexdigest()[:20]
    cache = os.path.join(TARGET, 'cache', 'c-' + key + '.json')
    with lock('b-' + d):
        stamp = os.path.join(tdir, 'stamp-' + cfg.split('/')[1])
        if os.path.exists(cache) and os.path.exists(stamp) and open(stamp).read() == repo_hash():
            info = json.load(open(cache))
            if all(os.path.exists(p) for p in info['externs'].values()):
                return info
        os.makedirs(tdir, exist_ok=True)
        # cargo decides freshness by file times, which say nothing about a restored or copied tree
        tree = os.path.join(tdir, 'tree')
        if not (os.path.exists(tree) and open(tree).read() == repo_hash()):
            for sub in ('debug', triple + '/debug'):
                for pk in ('closure-ffi', 'closure-ffi-proc-macros', 'base'):
                    p = os.path.join(tdir, sub, 'build', pk)
                    if os.path.isdir(p):
                        shutil.rmtree(p)
            with open(tree, 'w') as f:
                f.write(repo_hash())
        e = env()
        e['RUSTFLAGS'] = ' '.join(RF[variant])
        e['CARGO_TARGET_DIR'] = tdir
        cmd = ['cargo', '+' + TC, 'check', '--locked', '--offline', '--target', triple, '-Zbuild-std',
               '-F', feats.replace(' ', ','), '--message-format=json']
        r = run(cmd, cwd=os.path.join(VERIF, 'witness', 'base'), env=e)
        externs, dirs, hostm = {}, set(), None
        msgs = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-message':
                msgs.append((m.get('target', {}).get('name'), m['message'].get('level'), m['message'].get('rendered', '')))
            if m.get('reason') != 'compiler-artifact':
                continue
            for fn in m['filenames']:
                if fn.endswith('.rmeta') and '/' + triple + '/' in fn:
                    externs[m['target']['name'].replace('-', '_')] = fn
                    dirs.add(os.path.dirname(fn))
                if fn.endswith('.so'):
                    dirs.add(os.path.dirname(fn))
        if r.returncode:
            errs = '\n'.join(t for _, lv, t in msgs if lv == 'error')
            raise CompileError(f'cargo check failed for {cfg}', errs + r.stderr[-3000:])
        keep = {k: externs[k] for k in ('core', 'alloc', 'std', 'closure_ffi', 'compiler_builtins', 'proc_macro')
                if k in externs}
        info = {'externs': keep, 'dirs': sorted(dirs), 'triple': triple, 'feats': feats.split(), 'flags': RF[variant]}
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        with open(cache, 'w') as f:
            json.dump(info, f)
        with open(stamp, 'w') as f:
            f.write(repo_hash())
        return info


def rustc_args(info, src, name, extra=()):
    a = [src, '--crate-name', name, '--crate-type', 'lib', '--edition', '2021', '--target', info['triple'],
         '-Zunstable-options', '--sysroot', sysroot(), '--cap-lints', 'allow']
    for k, p in info['externs'].items():
        if k in ('core', 'alloc', 'std', 'compiler_builtins', 'proc_macro'):
            a += ['--extern', f'noprelude:{k}={p}']
        else:
            a += ['--extern', f'{k}={p}']
    for d in info['dirs']:
        a += ['-L', 'dependency=' + d]
    for f in info['feats']:
        a += ['--cfg', f'feature="{f}"']
    a += ['-Coverflow-checks=off', '-Cdebug-assertions=off']
    return a + list(info['flags']) + list(extra)


def dump(cfg, src, extra_cfg=()):
    """MIR dump of witness source file `src` (relative to witness/src) in cfg. Returns json path."""
    drv, dh = driver()
    path = os.path.join(VERIF, 'witness', 'src', src)
    stop = os.path.join(VERIF, 'witness', 'stop.txt')
    key = hashlib.sha256(' '.join([repo_hash(), cfg, src, dh, hash_files([path, stop]), *extra_cfg]).encode()).hexdigest()[:20]
    out = os.path.join(TARGET, 'cache', f'd-{key}.json')
    if os.path.exists(out):
        return out
    info = compiled(cfg)
    with lock('d-' + key):
        if os.path.exists(out):
            return out
        e = env()
        e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        e['MIRDUMP_OUT'] = out + '.tmp'
        e['MIRDUMP_STOP'] = stop
        extra = []
        for c in extra_cfg:
            extra += ['--cfg', c]
        od = os.path.join(TARGET, 'scratch')
        os.makedirs(od, exist_ok=True)
        r = run([drv] + rustc_args(info, path, 'witness', extra + ['--out-dir', od, '--emit=metadata']), env=e)
        if not os.path.exists(out + '.tmp'):
            raise CompileError(f'{src} does not compile in {cfg}', r.stderr[-6000:])
        os.rename(out + '.tmp', out)
    return out


def check_snippet(info, code, name, extra=()):
    """Type-check a snippet against the compiled crate; returns (ok, stderr)."""
    od = os.path.join(TARGET, 'scratch', name + '-' + str(os.getpid()))
    os.makedirs(od, exist_ok=True)
    p = os.path.join(od, 'snip.rs')
    with open(p, 'w') as f:
        f.write(code)
    try:
        r = run(['rustc', '+' + TC] + rustc_args(info, p, 'snip', list(extra) + ['--out-dir', od, '--emit=metadata',
                '--error-format=short']), env=env())
        return r.returncode == 0, r.stderr
    finally:
        shutil.rmtree(od, ignore_errors=True)


def prune(keep_days=0):
    """Drop cached dumps that do not belong to the current tree (disk space)."""
    c = os.path.join(TARGET, 'cache')
    if os.path.isdir(c):
        fs = sorted((os.path.join(c, f) for f in os.listdir(c)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        while total > 4 << 30 and fs:
            f = fs.pop(0)
            total -= os.path.getsize(f)
            os.unlink(f)
