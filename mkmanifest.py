#!/usr/bin/env python3
"""Write MANIFEST.json from the list below (run by hand after a check is added)."""
import json
import os
NA = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'manifest_data.py')).read())
ids = ['C%02d' % i for i in range(1, 21)]
m = dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())"', checks=[], not_applicable=[])
for i in ids:
    if i in TECH:
        m['checks'].append(dict(property=i, quick_cmd='python3-vt run.py %s' % i,
                                thorough_cmd='VERIF_TIER=thorough python3-vt run.py %s --tier thorough' % i,
                                technique=TECH[i], level='model_checking', level_note=NOTE[i]))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'the check is not built yet')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
