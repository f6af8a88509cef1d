"""Runs the mirfacts rustc driver over /repo's working tree and loads its output (cached by
content of the sources)."""
import hashlib, json, os, shutil, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')


class BuildError(Exception):
    pass


def src_files():
    out = []
    for base in ('packages/apis', 'packages/compiler'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = sorted(x for x in ds if x not in ('node_modules', 'target', 'pkg', '.git', 'test', 'tests'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.json', '.txt')) and f not in ('package.json', 'package-lock.json'):
                    out.append(os.path.join(d, f))
    for f in ('Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    for f in sorted(os.listdir(os.path.join(VERIF, 'driver', 'src'))):
        h.update(open(os.path.join(VERIF, 'driver', 'src', f), 'rb').read())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.decode('utf8', 'replace').split('=', 1)
                e[k] = v
    except OSError:
        pass
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_RUSTC_WRAPPER'):
        e.pop(k, None)
    e['CARGO_INCREMENTAL'] = '0'
    return e


def sysroot(e):
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, env=e).stdout.strip()


def driver(e):
    exe = os.path.join(BUILD, 'driver', 'release', 'mirfacts')
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        e = dict(e, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
        r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '--manifest-path',
                            os.path.join(VERIF, 'driver', 'Cargo.toml')], capture_output=True, text=True, env=e)
        if r.returncode:
            raise BuildError('driver build failed:\n' + r.stderr[-3000:])
    return exe


NAMES = ['zk_regex_compiler-lib.json', 'zk_regex_apis-lib.json', 'zk_regex-bin.json', 'zk_regex_apis-lib-wasm.json']


def forget(tgt, prefix):
    """make cargo check the workspace crates again, whatever its build directory layout"""
    for sub in ('.fingerprint', 'build'):
        p = os.path.join(tgt, 'debug', sub)
        if os.path.isdir(p):
            for d in os.listdir(p):
                if d.startswith(prefix):
                    shutil.rmtree(os.path.join(p, d), ignore_errors=True)


def produce():
    """directory holding the facts of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dg = digest(src_files())
        out = os.path.join(BUILD, 'facts-' + dg)
        if all(os.path.exists(os.path.join(out, n)) for n in NAMES):
            return out, dg
        for d in os.listdir(BUILD):
            if d.startswith('facts-'):
                for f in os.listdir(os.path.join(BUILD, d)):
                    os.unlink(os.path.join(BUILD, d, f))
                os.rmdir(os.path.join(BUILD, d))
        e = env()
        exe = driver(e)
        tgt = os.path.join(BUILD, 'target')
        tmp = os.path.join(BUILD, 'tmpfacts')
        os.makedirs(tmp, exist_ok=True)
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        forget(tgt, 'zk-regex')
        e.update(MIRFACTS_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=exe, LD_LIBRARY_PATH=sysroot(e) + '/lib')
        e.pop('CARGO_TARGET_DIR', None)
        base = ['cargo', '+nightly', 'check', '--offline', '--locked', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', tgt]
        if not os.path.exists(os.path.join(REPO, 'Cargo.lock')):
            base.remove('--locked')
        r = subprocess.run(base, capture_output=True, text=True, env=e)
        if r.returncode:
            r = subprocess.run([x for x in base if x != '--locked'], capture_output=True, text=True, env=e)
        if r.returncode:
            raise BuildError('cargo check failed:\n' + r.stderr[-4000:])
        forget(tgt, 'zk-regex-apis')
        e2 = dict(e, MIRFACTS_EXTRA='--cfg target_arch="wasm32" -Aexplicit_builtin_cfgs_in_flags', MIRFACTS_TAG='-wasm')
        r = subprocess.run(base + ['-p', 'zk-regex-apis'], capture_output=True, text=True, env=e2)
        if r.returncode:
            raise BuildError('cargo check (wasm cfg) failed:\n' + r.stderr[-4000:])
        missing = [n for n in NAMES if not os.path.exists(os.path.join(tmp, n))]
        if missing:
            raise BuildError('no facts for ' + ', '.join(missing))
        os.rename(tmp, out)
        return out, dg


def load(names=None):
    d, dg = produce()
    return [json.load(open(os.path.join(d, n))) for n in (names or NAMES[:1])], dg


if __name__ == '__main__':
    print(produce())
