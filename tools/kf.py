#!/usr/bin/env python3
"""kf.py PROP COMMIT TEXT: record a repaired defect"""
import json, sys
p, c, t = sys.argv[1:4]
open('/verif/known_findings.jsonl', 'a').write(json.dumps({'kind': 'fixed', 'property': p, 'entry': 'fixed: property=%s %s %s' % (p, c, t)}) + '\n')
