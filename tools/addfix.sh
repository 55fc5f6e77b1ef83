#!/bin/bash
# addfix.sh PID COMMIT TEXT: record a repaired defect
python3 - "$@" <<'PY'
import json, sys
f = '/verif/known_findings.json'; d = json.load(open(f)); d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4])); json.dump(d, open(f, 'w'), indent=1)
PY
