"""mkseed(id, property, [(file, old, new)...], needs, breaks, main_rs): writes seeded/<id>/ from a textual edit."""
import json
import os
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mkseed(id, prop, edits, needs, breaks, main):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk-')
    r = os.path.join(w, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    for f, old, new in edits:
        p = os.path.join(r, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    shutil.rmtree(w)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'main.rs'), 'w').write(main)
    shutil.copy(os.path.join(V, 'tools', 'demo.sh.tmpl'), os.path.join(d, 'demo.sh'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
