"""mkseed.mk(id, prop, edits=[(file, old, new)], demo=python source, needs=, breaks=): write seeded/<id>/"""
import json, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    diffs = ''
    by = {}
    for f, old, new in edits:
        s = by.get(f) or open('/repo/' + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        by[f] = s.replace(old, new)
    t = tempfile.mkdtemp()
    for f, s in by.items():
        p = os.path.join(t, 'new')
        open(p, 'w').write(s)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-color', '/repo/' + f, p], capture_output=True, text=True).stdout.splitlines(True)
        body = ''.join(l for l in r if not l.startswith(('diff --git', 'index ', '--- ', '+++ ')))
        diffs += f'diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n' + body
    shutil.rmtree(t)
    open(os.path.join(d, 'patch.diff'), 'w').write(diffs)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
