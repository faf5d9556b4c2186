#!/bin/bash
# fixed.sh PROPERTY KEY WHAT : records /repo's HEAD as the repair of a defect
python3 - "$@" <<'PY'
import json, subprocess, sys
p, key, what = sys.argv[1:4]
c = sys.argv[4] if len(sys.argv) > 4 else 'HEAD'
c = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', c]).decode().strip()
with open('/verif/known_findings.jsonl', 'a') as f:
    f.write(json.dumps({'property': p, 'status': 'fixed', 'key': key, 'commit': c, 'what': 'fixed: property=%s %s %s' % (p, c[:10], what)}) + '\n')
PY
