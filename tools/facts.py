"""Obtains MIR facts of /repo's current working tree.

The driver (driver/) runs as RUSTC_WORKSPACE_WRAPPER of `cargo check` and
writes one JSON file per crate. Results are cached under .build/ by a hash of
every input (sources of /repo, driver, probe, allow list)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SKIP = {'target', '.git', 'out', 'evidence', 'seeded', '.build'}


class BuildFailure(Exception):
    pass


def _walk(root, skip=SKIP):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            yield os.path.join(d, f)


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.islink(p) or not os.path.isfile(p):
            continue
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'MIRFACTS'))}
    for k in ('CARGO_HOME', 'RUSTUP_HOME'):
        if k in os.environ:
            e[k] = os.environ[k]
    if 'HOME' not in e:
        e['HOME'] = '/root'
    home = e['HOME']
    cb = os.path.join(e.get('CARGO_HOME', home + '/.cargo'), 'bin')
    if cb not in e.get('PATH', ''):
        e['PATH'] = cb + ':' + e.get('PATH', '/usr/bin:/bin')
    return e


def _run(cmd, env, cwd=None, timeout=600):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    src = os.path.join(VERIF, 'driver')
    key = _hash(_walk(src))
    exe = os.path.join(BUILD, 'driver-' + key)
    with Lock('driver'):
        if not os.path.exists(exe):
            env = _env()
            td = os.path.join(BUILD, 'driver-target')
            env['CARGO_TARGET_DIR'] = td
            rc, out = _run(['cargo', '+nightly', 'build', '--release', '--offline',
                            '--manifest-path', os.path.join(src, 'Cargo.toml')], env)
            if rc != 0:
                raise BuildFailure('driver does not build:\n' + out[-4000:])
            tmp = exe + '.tmp'
            shutil.copy2(os.path.join(td, 'release', 'mirfacts'), tmp)
            os.rename(tmp, exe)
    return exe


def sysroot(env):
    rc, out = _run(['rustc', '+nightly', '--print', 'sysroot'], env)
    if rc != 0:
        raise BuildFailure('no nightly toolchain: ' + out)
    return out.strip().splitlines()[-1]


def facts(unit):
    """unit: 'repo' or 'probe'. Returns the directory with the facts."""
    exe = driver()
    allow = os.path.join(VERIF, 'tools', 'allow.txt')
    key = _hash([exe, allow] + list(_walk(os.path.join(VERIF, 'probe'))) + list(_walk(REPO)))
    out = os.path.join(BUILD, 'facts-%s-%s' % (unit, key))
    with Lock('facts-' + unit):
        if os.path.exists(os.path.join(out, 'done')):
            return out
        for d in os.listdir(BUILD):
            if d.startswith('facts-%s-' % unit):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(out)
        env = _env()
        td = os.path.join(BUILD, 'target-' + unit)
        if os.path.isdir(td):
            # keep compiled dependencies, drop everything of the workspace so
            # that the wrapper sees every crate again
            for prof in ('debug',):
                for sub in ('.fingerprint', 'deps', 'incremental', 'build'):
                    p = os.path.join(td, prof, sub)
                    if not os.path.isdir(p):
                        continue
                    for n in os.listdir(p):
                        if any(n.startswith(x) or n.startswith('lib' + x) for x in
                               ('sudo_', 'sudo-', 'probe', 'raw_plugin', 'deny', 'libdeny')):
                            q = os.path.join(p, n)
                            if os.path.isdir(q):
                                shutil.rmtree(q, ignore_errors=True)
                            else:
                                os.unlink(q)
        env['CARGO_TARGET_DIR'] = td
        env['RUSTC_WORKSPACE_WRAPPER'] = exe
        env['MIRFACTS_CRATES'] = 'sudo_pair,sudo_plugin,sudo_plugin_sys,deny_everything,raw_plugin_api,probe'
        env['MIRFACTS_LOCAL'] = env['MIRFACTS_CRATES']
        env['MIRFACTS_OUT'] = out
        env['MIRFACTS_ALLOW'] = allow
        env['LD_LIBRARY_PATH'] = sysroot(env) + '/lib'
        env['RUSTFLAGS'] = ('-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off '
                            '-Coverflow-checks=off -Awarnings')
        if unit == 'repo':
            cmd = ['cargo', '+nightly', 'check', '--offline', '--workspace',
                   '--manifest-path', os.path.join(REPO, 'Cargo.toml')]
        else:
            cmd = ['cargo', '+nightly', 'check', '--offline', '--manifest-path', probe_manifest()]
        rc, txt = _run(cmd, env)
        if rc != 0:
            raise BuildFailure('/repo does not compile for analysis:\n' + txt[-4000:])
        open(os.path.join(out, 'log'), 'w').write(txt)
        open(os.path.join(out, 'done'), 'w').write('')
    return out


def probe_manifest():
    src = os.path.join(VERIF, 'probe')
    if REPO == '/repo':
        return os.path.join(src, 'Cargo.toml')
    dst = os.path.join(BUILD, 'probe')
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('target'))
    p = os.path.join(dst, 'Cargo.toml')
    s = open(p).read().replace("../../repo/", REPO + "/")
    open(p, 'w').write(s)
    return p


def load(unit, crate):
    p = os.path.join(facts(unit), crate + '.json')
    if not os.path.exists(p):
        raise BuildFailure('no facts for crate %s' % crate)
    with open(p) as f:
        return json.load(f)


if __name__ == '__main__':
    for u in sys.argv[1:] or ['repo', 'probe']:
        print(facts(u))
