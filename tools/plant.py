"""plant(id, prop, edits, demo, needs, breaks): write seeded/<id>/ from textual edits against /repo HEAD."""
import os, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys, tempfile, shutil
import numpy as np
BOX = tempfile.mkdtemp(prefix='demo_')
os.chdir(BOX)
'''


def plant(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='plant_')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
        for f, a, b in edits:
            p = os.path.join(w, 'r', 'trunk/SUAVE', f)
            s = open(p, newline='').read()
            if '\r\n' in s: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w', newline='').write(s.replace(a, b))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w, ignore_errors=True)
    body = HEAD + 'try:\n' + ''.join('    ' + l + '\n' if l.strip() else '\n' for l in demo.strip('\n').split('\n')) + 'finally:\n    os.chdir("/"); shutil.rmtree(BOX, ignore_errors=True)\nprint("ok")\n'
    open(os.path.join(d, 'demo.py'), 'w').write(body)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg MPLCONFIGDIR=$(mktemp -d)
/opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
''')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    compile(body, id, 'exec')
