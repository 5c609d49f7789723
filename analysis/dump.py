"""Builds the MIR driver and dumps crates with it.  Nothing of the analysed code is executed."""
import hashlib, json, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('VP_REPO', '/repo')


def _env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'VP_OUT', 'VP_STOP'):
        e.pop(k, None)
    return e


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise RuntimeError('command failed: ' + ' '.join(cmd))
    return r.stdout


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _files(root, exts=('.rs', '.toml', '.lock')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'build')]
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def driver():
    """Path of the driver binary, (re)built when its sources changed."""
    os.makedirs(BUILD, exist_ok=True)
    tgt = os.path.join(BUILD, 'driver')
    exe = os.path.join(tgt, 'debug', 'vp-mir')
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = _env()
        e['CARGO_TARGET_DIR'] = tgt
        _run(['cargo', '+nightly', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'driver'), env=e)
    return exe


def sysroot():
    return _run(['rustc', '+nightly', '--print', 'sysroot']).strip()


def _load(p):
    with open(p) as f:
        return json.load(f)


def dump_repo(assertions=False):
    """MIR of the library crate in /repo (cfg(test) off), from its current source."""
    exe = driver()
    h = _hash(_files(REPO) + _files(os.path.join(VERIF, 'driver')))
    out = os.path.join(BUILD, 'mir', ('debug-' if assertions else 'repo-') + h)
    res = os.path.join(out, 'parsegen.json')
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(res):
            e = _env()
            e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
            e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'repo-target')
            e['RUSTC_WORKSPACE_WRAPPER'] = exe
            e['VP_OUT'] = out
            # as in a release build: debug assertions reject nothing
            e['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'true' if assertions else 'false'
            # force the wrapper to run again for the workspace crate (both cargo target layouts)
            for sub in ('debug/.fingerprint', 'debug/build', 'debug/deps', 'debug/incremental'):
                fp = os.path.join(BUILD, 'repo-target', sub)
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith(('parsegen', 'libparsegen')):
                            subprocess.run(['rm', '-rf', os.path.join(fp, d)])
            _run(['cargo', '+nightly', 'check', '--lib', '--offline', '--quiet'], cwd=REPO, env=e)
    return _load(res)


def dump_file(path, name, deps=()):
    """MIR of a single source file (no std prelude changes), edition 2021, library crate."""
    exe = driver()
    h = _hash([path] + _files(os.path.join(VERIF, 'driver')))
    out = os.path.join(BUILD, 'mir', name + '-' + h)
    res = os.path.join(out, name + '.json')
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(res):
            e = _env()
            e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
            e['VP_OUT'] = out
            e['VP_STOP'] = '1'
            os.makedirs(out, exist_ok=True)
            _run([exe, '--sysroot', sysroot(), '--edition', '2021', '--crate-type', 'lib', '--crate-name', name,
                  '--emit', 'metadata', '-o', os.path.join(out, name + '.rmeta'), path], env=e)
    return _load(res)


if __name__ == '__main__':
    d = dump_repo()
    print("%d bodies, %d types" % (len(d["bodies"]), len(d["adts"])))
    dump_file(os.path.join(VERIF, "models", "models.rs"), "vpmodels")
