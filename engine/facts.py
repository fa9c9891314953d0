"""Builds the fact extractor (driver/driver.rs) and runs it over /repo's current working tree."""
import fcntl, glob, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('VERIF_WORK') or os.path.join(VERIF, '.work')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, executable='/bin/bash',
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def ensure(repo='/repo', crate='kuadrant_filter', package='kuadrant-filter'):
    """returns the path of a fresh facts file for the tree at `repo`"""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    drv = os.path.join(WORK, 'driver')
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    env = dict(os.environ)
    env['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + env.get('PATH', '')
    if not os.path.exists(drv) or os.path.getmtime(drv) < os.path.getmtime(src):
        rc, out = sh('rustc +nightly -O --edition 2021 %s -o %s.tmp && mv %s.tmp %s' % (src, drv, drv, drv), env)
        if rc:
            raise BuildError('driver does not build:\n' + out[-3000:])
    rc, root = sh('rustc +nightly --print sysroot', env)
    tgt = os.path.join(WORK, 'target')
    dst = os.path.join(WORK, 'facts-%s' % crate)
    for pat in ('debug/.fingerprint/%s-*' % package, 'debug/build/%s/*/fingerprint' % package):
        for d in glob.glob(os.path.join(tgt, pat)):
            shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    script = '''. /opt/vp/env.sh; cd %s
export LD_LIBRARY_PATH=%s/lib RUSTFLAGS= RUSTC_WORKSPACE_WRAPPER=%s VERIF_FACTS_CRATES=%s VERIF_FACTS_DIR=%s
export CARGO_TARGET_DIR=%s RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0
$CARGO check --offline -p %s --lib''' % (repo, root.strip(), drv, crate, dst, tgt, package)
    rc, out = sh(script, env)
    f = os.path.join(dst, crate + '.json')
    if rc or not os.path.exists(f):
        raise BuildError('the tree does not build (or no facts were produced):\n' + out[-4000:])
    return f
