"""plant.py ID PROPERTY SPEC.py : make /verif/seeded/ID from a list of edits.

SPEC.py defines EDITS = [(file, old, new), ...], NEEDS, BREAKS and DEMO (python
source of the demonstration, which may import mkfile). It is applied to a scratch
copy of /repo, where the stable tests and the demonstration are run.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
bug, prop, spec = sys.argv[1:4]
quick = '--notest' in sys.argv
ns = runpy.run_path(spec)
d = tempfile.mkdtemp(dir='/tmp')
try:
    r = d + '/repo'
    shutil.copytree('/repo', r, symlinks=True)
    for fn, old, new in ns['EDITS']:
        p = os.path.join(r, fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
    out = os.path.join(VERIF, 'seeded', bug)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(out + '/meta.json', 'w'), indent=1)
    open(out + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    shutil.copy(HERE + '/mkfile.py', out + '/mkfile.py')
    open(out + '/demo.sh', 'w').write(
        '#!/bin/bash\n# run with cwd /repo: 0 if the property holds, 1 if it is broken\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    py = ['bash', out + '/demo.sh']
    a = subprocess.run(py, cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(py, cwd=r, capture_output=True, text=True)
    print('demo unchanged', a.returncode, a.stdout[-600:], a.stderr[-1500:])
    print('demo patched  ', b.returncode, b.stdout[-600:], b.stderr[-900:])
    if not quick:
        base = json.load(open('/opt/vp/BASELINE.json'))
        t = subprocess.run(['unshare', '-Urn', 'bash', '-c', 'ip link set lo up; exec "$@"', 'x', "/opt/venv/bin/python", '-m', 'pytest', '-q', '--no-header', '-p', 'no:cacheprovider',
                            'karabo_data/tests'], cwd=r, capture_output=True, text=True)
        print('tests', t.stdout[-500:])
    c = subprocess.run(['python3', VERIF + '/check.py', prop], env=dict(os.environ, VERIF_REPO=r), cwd=VERIF,
                       capture_output=True, text=True)
    print('check', c.returncode, c.stdout[-700:], c.stderr[-300:])
finally:
    shutil.rmtree(d)
