"""Builds the MIR extraction driver and dumps the type-checked program of /repo's current tree.

Nothing of /repo is executed: the compiler front end runs (cargo check) with the driver as rustc
wrapper; the driver writes MIR, types and impls of the chosen crates as JSON."""
import hashlib
import json
import os
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AJV_REPO', '/repo')
CACHE = os.environ.get('AJV_CACHE', os.path.join(VERIF, '.cache'))
TOOLCHAIN = '+nightly'


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), (p.stdout if len(p.stdout) < 9000 else p.stdout[:6000] + '\n...\n' + p.stdout[-3000:])))
    return p.stdout


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'mirdump-' + h)
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = exe + '.%d.tmp' % os.getpid()
        _run(['rustc', TOOLCHAIN, '--edition', '2021', '-O', '-Awarnings', src, '-o', tmp])
        os.replace(tmp, exe)
    return exe


def _env(exe, out, crates):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'):
            del env[k]
    sysroot = _run(['rustc', TOOLCHAIN, '--print', 'sysroot']).strip()
    env.update(LD_LIBRARY_PATH=sysroot + '/lib', AJV_OUT=out, AJV_CRATES=','.join(crates), RUSTC_WRAPPER=exe,
               CARGO_TARGET_DIR=os.path.join(CACHE, 'target'), CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true',
               CARGO_TERM_COLOR='never')
    return env


def _forget(names):
    """make cargo compile these packages again, whatever its fingerprints say"""
    base = os.path.join(CACHE, 'target', 'debug')
    for d in ('.fingerprint', 'build'):
        p = os.path.join(base, d)
        if os.path.isdir(p):
            for f in os.listdir(p):
                if any(f == n or f.startswith(n + '-') for n in names):
                    shutil.rmtree(os.path.join(p, f), ignore_errors=True)


def extract():
    """path of the dump of aj_core for the current tree"""
    exe = driver()
    out = os.path.join(CACHE, 'out')
    os.makedirs(out, exist_ok=True)
    for f in ('aj_core.json', 'aj.json'):
        p = os.path.join(out, f)
        if os.path.exists(p):
            os.remove(p)
    _forget(['aj', 'aj_core', 'aj_macro'])
    t = time.time()
    env = _env(exe, out, ['aj_core', 'aj'])
    cmd = ['cargo', TOOLCHAIN, 'check', '-p', 'aj_core', '-p', 'aj', '--lib', '--offline']
    if os.path.exists(os.path.join(REPO, 'Cargo.lock')):
        cmd.append('--locked')
    try:
        log = _run(cmd, cwd=REPO, env=env)
    except BuildError:
        log = _run(cmd, cwd=REPO, env=env)
    p = os.path.join(out, 'aj_core.json')
    if not os.path.exists(p):
        raise BuildError('no dump produced\n' + log[-2000:])
    return p, time.time() - t


def witness(name, src_dir):
    """checks a crate of /verif that depends on /repo/aj, dumping its MIR"""
    exe = driver()
    out = os.path.join(CACHE, 'out')
    os.makedirs(out, exist_ok=True)
    p = os.path.join(out, name + '.json')
    if os.path.exists(p):
        os.remove(p)
    work = os.path.join(CACHE, 'wit_' + name)
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(src_dir, work)
    ct = os.path.join(work, 'Cargo.toml')
    s = open(ct).read().replace('@REPO@', REPO)
    open(ct, 'w').write(s)
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(work, 'Cargo.lock'))
    _forget(['aj', 'aj_core', 'aj_macro', name])
    env = _env(exe, out, [name])
    _run(['cargo', TOOLCHAIN, 'check', '--offline'], cwd=work, env=env)
    if not os.path.exists(p):
        raise BuildError('no dump produced for ' + name)
    return p
