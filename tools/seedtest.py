#!/usr/bin/env python3
"""seedtest.py [--check] ID...: confirms planted bugs in a scratch copy (applies, builds, tests pass, demo
passes before and fails after); with --check also runs the property's check on the changed tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def one(b, check, nodemo):
    d = os.path.join(V, 'seeded', b)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        r = os.path.join(w, 'repo')
        sh(['git', 'clone', '-q', '/repo', r], '/')
        msgs = []
        env = dict(os.environ, CARGO_NET_OFFLINE='true')
        if not nodemo:
            x = sh(['bash', os.path.join(d, 'demo.sh')], r, env=env)
            msgs.append('demo-clean=%d' % x.returncode + ('' if x.returncode == 0 else ' ' + (x.stdout + x.stderr)[-800:]))
        x = sh(['git', 'apply', os.path.join(d, 'patch.diff')], r)
        msgs.append('apply=%d %s' % (x.returncode, x.stderr))
        if not nodemo:
            x = sh(['cargo', 'test', '--workspace', '--offline', '-q'], r, env=dict(env, CARGO_TARGET_DIR='/tmp/seedtgt'))
            msgs.append('tests=%d' % x.returncode + ('' if x.returncode == 0 else (x.stdout + x.stderr)[-1500:]))
            x = sh(['bash', os.path.join(d, 'demo.sh')], r, env=env)
            msgs.append('demo-bug=%d %s' % (x.returncode, (x.stdout + x.stderr).strip()[-160:].replace('\n', ' | ')))
        if check:
            x = sh([os.path.join(V, 'check'), meta['property']], V, env=dict(env, VERIF_REPO=r))
            msgs.append('CHECK=%d\n%s' % (x.returncode, x.stdout[-700:] + x.stderr[-300:]))
        print('%s [%s]: %s' % (b, meta['property'], '; '.join(msgs)))
        sys.stdout.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)


a = sys.argv[1:]
check = '--check' in a
nodemo = '--nodemo' in a
ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(os.path.join(V, 'seeded')))
for b in ids:
    one(b, check, nodemo)
