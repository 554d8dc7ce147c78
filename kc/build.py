"""Build the driver and dump the MIR of /repo's working tree."""
import hashlib, json, os, re, subprocess, sys, time, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KC_REPO', '/repo')
CACHE = os.environ.get('KC_CACHE', os.path.join(VERIF, '.cache'))
RUSTFLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Zcross-crate-inline-threshold=never'


# which build of the source is analysed: 'release' = no overflow checks and no debug assertions, 'default' = the default
# features only; both may be given
CONFIG = set(x for x in os.environ.get('KC_CONFIG', '').split(',') if x)
BACKUP = 'default' not in CONFIG
if 'release' in CONFIG:
    RUSTFLAGS += ' -Coverflow-checks=off -Cdebug-assertions=off'


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def files(root, skip=('target', '.git', 'node_modules')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.txt', '.h')) or f == 'rust-toolchain':
                p = os.path.join(d, f)
                if '/include/' in p:
                    continue
                out.append(p)
    return out


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, env, cwd, log):
    with open(log, 'w') as f:
        return subprocess.run(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT).returncode


def driver():
    os.makedirs(CACHE, exist_ok=True)
    src = [os.path.join(VERIF, 'driver/src/main.rs'), os.path.join(VERIF, 'driver/Cargo.toml')]
    key = digest(src)
    out = os.path.join(CACHE, 'driver-' + key)
    if os.path.exists(out):
        return out
    td = os.path.join(CACHE, 'driver-target')
    log = os.path.join(CACHE, 'driver.log')
    if run(['cargo', '+nightly', 'build', '--offline', '--target-dir', td], dict(os.environ), os.path.join(VERIF, 'driver'), log):
        raise BuildError('driver build failed, see ' + log + '\n' + open(log).read()[-2000:])
    tmp = out + '.tmp%d' % os.getpid()
    shutil.copy(os.path.join(td, 'debug/kcdriver'), tmp)
    os.replace(tmp, out)
    return out


def dump(features='all', package=None):
    """path of the JSON dump of the current tree. features: 'all' or (package args list)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        key = digest(files(REPO), open(drv, 'rb').read().hex()[:0] + os.path.basename(drv) + repr(features) + repr(package) + ','.join(sorted(CONFIG)))
        out = os.path.join(CACHE, 'dump-%s.json' % key)
        if os.path.exists(out):
            return out
        td = os.path.join(CACHE, 'target-release' if 'release' in CONFIG else 'target')
        for p in ('bip39', 'secp256k1_bip32', 'tesseract-keychain', 'tesseract-keychain-c'):
            for base in ('debug/build/' + p,):
                shutil.rmtree(os.path.join(td, base), ignore_errors=True)
        fp = os.path.join(td, 'debug/.fingerprint')
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(('bip39', 'secp256k1_bip32', 'tesseract-keychain')):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        sr = sysroot()
        env = dict(os.environ)
        env.update(KCD_TARGET=package[1] if package else 'rust_keychain', KCD_OUT=out + '.tmp', LD_LIBRARY_PATH=sr + '/lib', RUSTC_WORKSPACE_WRAPPER=drv,
                   RUSTFLAGS=RUSTFLAGS, CARGO_INCREMENTAL='0')
        for k in ('RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        if os.path.exists(out + '.tmp'):
            os.remove(out + '.tmp')
        args = ['--workspace'] + (['--all-features'] if 'default' not in CONFIG else []) if features == 'all' else list(features)
        log = os.path.join(CACHE, 'dump.log')
        rc = run(['cargo', '+nightly', 'check', '--offline', '--locked', '--target-dir', td] + args, env, REPO, log)
        if rc or not os.path.exists(out + '.tmp'):
            raise BuildError('the tree does not compile under the analysis driver\n' + open(log).read()[-3000:])
        os.replace(out + '.tmp', out)
        # keep the cache small
        old = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE) if f.startswith('dump-') and f.endswith('.json'))
        for _, f in old[:-80]:
            os.remove(os.path.join(CACHE, f))
        return out


def load(features='all', package=None):
    with open(dump(features, package)) as f:
        if 'default' in CONFIG:
            # these names are public, and so shorter, with the feature custom-networks
            return json.loads(re.sub(r'\bkeychain::(?:key_factory|entropy)::|\bkeychain::key::(?=Key\b)', 'keychain::', f.read()))
        return json.load(f)
