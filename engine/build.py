"""Builds the MIR dumper and dumps the current /repo tree. Everything lands in /verif/.build
(git-ignored); nothing in /repo is touched."""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

STOP = ['core::fmt', 'std::fmt', 'core::panicking', 'alloc::raw_vec', 'std::alloc', 'alloc::alloc', 'log::', 'rand', 'slotmap::',
        'smallvec::', 'arrayvec::', 'alloc::fmt', 'alloc::collections', 'std::collections', 'std::io', 'std::sys', 'std::thread',
        'hashbrown', 'pathfinding', 'indexmap', 'serde', 'alloc::string']
GENERICS = []


class BuildError(Exception):
    pass


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def repo_files():
    fs = []
    for root, ds, names in os.walk(os.path.join(REPO, 'src')):
        for n in names:
            fs.append(os.path.join(root, n))
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml'):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            fs.append(p)
    return fs


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'mirdump.rs')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'mirdump-' + file_hash([src]))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('mirdump does not build:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def copy_tree(dst, harness=None):
    """verbatim copy of the current crate sources plus (optionally) one appended module"""
    os.makedirs(dst, exist_ok=True)
    for n in ('Cargo.toml', 'Cargo.lock', '.cargo', 'rust-toolchain', 'rust-toolchain.toml', 'build.rs'):
        s = os.path.join(REPO, n)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, n), dirs_exist_ok=True)
        elif os.path.exists(s):
            shutil.copy(s, os.path.join(dst, n))
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'), dirs_exist_ok=True)
    # sections that point at files we did not copy
    ct = open(os.path.join(dst, 'Cargo.toml')).read()
    ct = re.sub(r'(?ms)^\[\[(bench|example|test)\]\].*?(?=^\[|\Z)', '', ct)
    if '[workspace]' not in ct:
        ct += '\n[workspace]\n'
    open(os.path.join(dst, 'Cargo.toml'), 'w').write(ct)
    if harness:
        shutil.copy(harness, os.path.join(dst, 'src', 'rvh.rs'))
        with open(os.path.join(dst, 'src', 'lib.rs'), 'a') as fh:
            fh.write('\n#[allow(missing_docs, dead_code, unused)]\npub mod rvh;\n')


def sweep(tgt):
    """drops the crate's own artifacts (each run compiles it from another path)"""
    for sub in ('deps', '.fingerprint', 'incremental', 'build'):
        for p in glob.glob(os.path.join(tgt, 'debug', sub, '*')):
            b = os.path.basename(p)
            if b.startswith(('traffic', 'libtraffic', 'rvreplay')):
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    os.unlink(p)


def dump(harness=None):
    """-> path of the JSON dump of the current tree (plus the harness module, if any)"""
    exe = driver()
    key = file_hash(repo_files() + [exe] + ([harness] if harness else [])) + '-' + hashlib.sha256('\n'.join(STOP + GENERICS).encode()).hexdigest()[:8]
    out = os.path.join(BUILD, 'mir-%s.json' % key)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    src = tempfile.mkdtemp(prefix='rvsrc-')
    try:
        copy_tree(src, harness)
        env = dict(os.environ)
        env.update(MIRDUMP_OUT=tmp, MIRDUMP_CRATE='traffic_sim', MIRDUMP_GENERICS=','.join(GENERICS), MIRDUMP_STOP='\n'.join(STOP),
                   LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=os.path.join(BUILD, 'tgt'),
                   CARGO_NET_OFFLINE='true', RUSTFLAGS='-Zalways-encode-mir')
        with open(os.path.join(BUILD, 'tgt.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline'], cwd=src, env=env, capture_output=True, text=True)
            sweep(os.path.join(BUILD, 'tgt'))
        if r.returncode != 0 or not os.path.exists(tmp):
            raise BuildError('crate does not build under the dumper:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    finally:
        shutil.rmtree(src, ignore_errors=True)
    for p in glob.glob(os.path.join(BUILD, 'mir-*.json')):
        if p != out and time.time() - os.path.getmtime(p) > 3600:
            os.unlink(p)
    return out


def source_sha256(repo):
    """digest of the source files of a tree, to tell which tree a result belongs to"""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(repo, 'src'))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, repo).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read() + b'\0')
    return h.hexdigest()
