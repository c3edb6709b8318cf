"""Writes /verif/MANIFEST.json from the property list and props/*.py."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(here,
                                                      'properties.jsonl'))]
NA = {}
PENDING = 'check under construction'
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(here, 'props', i + '.py')):
        checks.append(dict(
            property=i,
            quick_cmd='./check.py %s' % i,
            thorough_cmd='./check.py %s --thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the real Python source with '
            'z3 deciding every path condition and assertion; '
            'counterexamples replayed on the unmodified code',
            level='model_checking',
            level_note='All values of the symbolic inputs within the bounds '
            'listed in the evidence file; floats modelled as reals (plus '
            'nan/inf); numpy/scipy primitives by a symbolic model that is '
            'validated on every run against the real libraries on one '
            'solver-chosen witness per path; RNG draws are symbolic; '
            'plotting, files and processes are stubs that record.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(dict(version=1,
               setup_cmd='/opt/venv/bin/python tools/setup_check.py',
               checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks execute the source of '
               '/repo/dorado as it is. See DESIGN.md.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
