"""Runs the check of each planted bug's property against a scratch copy of
/repo with the bug; writes tools/catch.json (used by tools/design.py)."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]


def one(d):
    n = os.path.basename(d)
    p = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='sa-catch-')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', t])
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=t)
        if subprocess.call(['git', 'apply', d + '/patch.diff'], cwd=t):
            return n, {'property': p, 'rc': 'patch does not apply'}
        r = subprocess.run(
            ['python3', '-c', 'import sys; sys.path.insert(0, "sa");'
             'sys.setrecursionlimit(20000)\nimport framework as f\n'
             'rc, c = f.run_check(%r, repo=%r, write=False)\n'
             'sys.exit(rc)' % (p, t)], cwd=ROOT, capture_output=True,
            text=True)
        m = re.findall(r'rule=(\S+) construct=(.*?) at ', r.stdout)
        return n, {'property': p, 'rc': r.returncode,
                   'rules': sorted({'%s (%s)' % x for x in m})[:4]}
    finally:
        shutil.rmtree(t)


ds = [d for d in sorted(glob.glob(ROOT + '/seeded/*'))
      if not want or os.path.basename(d) in want]
with ThreadPoolExecutor(8) as ex:
    res = dict(ex.map(one, ds))
f = ROOT + '/tools/catch.json'
old = json.load(open(f)) if want and os.path.exists(f) else {}
old.update(res)
json.dump(old, open(f, 'w'), indent=1, sort_keys=True)
for n, r in sorted(res.items()):
    if r['rc'] != 1:
        print('NOT CAUGHT', n, r)
print(len(res), 'planted bugs,', sum(r['rc'] == 1 for r in res.values()),
      'caught')
