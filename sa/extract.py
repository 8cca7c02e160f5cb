"""Compile /repo's current working tree with the extraction driver and load the result.

The driver is a rustc wrapper: `cargo check` runs it instead of rustc on the workspace crates, and it writes the type-checked
MIR of every body.  Nothing of /repo is executed (its crates have no build scripts or procedural macros of their own).
"""
import fcntl, glob, hashlib, os, shutil, subprocess
from .mir import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
PKGS = ['ark-inner-products', 'ark-dh-commitments', 'ark-ip-proofs', 'ark-sipp']
CRATES = [p.replace('-', '_') for p in PKGS]


class ExtractError(Exception):
    pass


def _env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUST')) or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_PROFILE_DEV_DEBUG'] = '0'
    # the release profile's semantics: debug assertions and overflow checks are not what guards a property
    e['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'false'
    e['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
    return e


def _sh(cmd, env=None, timeout=800):
    return subprocess.run(cmd, env=env or _env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def _sysroot():
    r = _sh(['rustc', '+nightly', '--print', 'sysroot'])
    if r.returncode:
        raise ExtractError('nightly toolchain: ' + r.stdout)
    return r.stdout.strip()


def _sha(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def sources():
    out = []
    for d in os.listdir(REPO):
        p = os.path.join(REPO, d)
        if d in ('target', '.git'):
            continue
        if os.path.isdir(p):
            for r, ds, fs in os.walk(p):
                ds[:] = [x for x in ds if x not in ('target', '.git')]
                out += [os.path.join(r, f) for f in fs if f.endswith(('.rs', '.toml'))]
        elif d in ('Cargo.toml', 'Cargo.lock'):
            out.append(p)
    return out


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(BUILD, 'driver-' + _sha([src]))
    s = _sysroot()
    if not os.path.exists(out):
        r = _sh(['rustc', '+nightly', '--edition', '2021', '-O', '-o', out + '.tmp', src, '-C', 'link-arg=-Wl,-rpath,%s/lib' % s])
        if r.returncode:
            raise ExtractError('driver does not build: ' + r.stdout[-3000:])
        os.replace(out + '.tmp', out)
    return out, s


def forget(tgt, pkgs):
    """cargo must not skip a workspace crate: drop what it built (both layouts of the target directory)"""
    for c in pkgs:
        for f in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', c + '-*')) + [os.path.join(tgt, 'debug', 'build', c)]:
            shutil.rmtree(f, ignore_errors=True)


def extract(default_features=True):
    """-> directory with one json file per crate"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(REPO, 'Cargo.lock')) and os.path.exists('/opt/vp/Cargo.lock'):
            shutil.copy('/opt/vp/Cargo.lock', os.path.join(REPO, 'Cargo.lock'))
        drv, s = driver()
        cfg = 'par' if default_features else 'seq'
        key = _sha(sources() + [drv])
        out = os.path.join(BUILD, 'out-%s-%s' % (key, cfg))
        if os.path.isdir(out) and len(glob.glob(out + '/*.json')) == len(CRATES):
            return out
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(BUILD, 't')
        forget(tgt, PKGS)
        e = _env()
        e.update(SA_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=drv, LD_LIBRARY_PATH=s + '/lib', CARGO_TARGET_DIR=tgt)
        base = ['cargo', '+nightly', 'check', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--lib']
        # ip_proofs enables the default features of its path dependencies, so the sequential flavour of those two
        # has to be built on its own
        runs = [PKGS] if default_features else [PKGS, ['ark-dh-commitments'], ['ark-inner-products']]
        for ps in runs:
            cmd = list(base)
            for p in ps:
                cmd += ['-p', p]
            if not default_features:
                cmd.append('--no-default-features')
            if len(ps) == 1:
                forget(tgt, ps)
            r = _sh(cmd, env=e)
            if r.returncode:
                raise ExtractError('%s does not compile (%s):\n%s' % (REPO, ' '.join(cmd[2:]), r.stdout[-3000:]))
        got = sorted(os.path.basename(f)[:-5] for f in glob.glob(tmp + '/*.json'))
        if got != sorted(CRATES):
            raise ExtractError('crates extracted: %s' % got)
        # keep only the newest few outputs
        shutil.rmtree(out, ignore_errors=True)
        os.replace(tmp, out)
        olds = sorted(glob.glob(os.path.join(BUILD, 'out-*')), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        return out


_progs = {}


def load(default_features=True):
    k = default_features
    if k not in _progs:
        p = Program(extract(k))
        if p.errors:
            raise ExtractError('extraction errors: %s' % p.errors[:3])
        _progs[k] = p
    return _progs[k]
