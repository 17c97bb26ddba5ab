"""Plants the bugs of tools/seeds.py: python3 tools/mkseed.py [ID...]

For each: copies /repo to a scratch directory, makes the change, checks that the changed lines are lines of the
original repository, that the repository's stable tests still pass, that the demonstration passes before and fails
after, and writes seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from seeds import SEEDS
BASE = '1e2bf6e'
STABLE = json.load(open('/opt/vp/BASELINE.json'))
STUB = open(os.path.join(ROOT, 'pyvc', 'stubs', 'mmap.py')).read()
DEMO = '''#!/bin/bash
# exit 0: the property holds in the demonstrated case; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
JYTHONPATH=/opt/jydeps/site PYTHONDONTWRITEBYTECODE=1 timeout 200 jython -B -Dpython.cachedir.skip=true "$D/demo.py" "$PWD"
'''
HEAD = '''import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))  # mmap stub
sys.path.insert(0, sys.argv[1])
'''


def stable():
  v = STABLE
  for k in ('stable', 'passed', 'tests', 'stable_pass'):
    if isinstance(v, dict) and k in v: v = v[k]
  return set(v)


def run_tests(repo):
  t = tempfile.mkdtemp()
  src = open('/opt/vp/run_tests.py').read().replace('"/repo"', repr(repo))
  open(t + '/rt.py', 'w').write(src)
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JYTHONPATH='/opt/jydeps/site')
  subprocess.run(['jython', '-B', '-Dpython.cachedir.skip=true', t + '/rt.py', t + '/lines.txt'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=repo)
  subprocess.run(['python3', '/opt/vp/results.py', t + '/o.json', 'lines:' + t + '/lines.txt'], check=True)
  o = json.load(open(t + '/o.json'))
  shutil.rmtree(t)
  return o


def main(ids):
  for s in SEEDS:
    if ids and s['id'] not in ids: continue
    scratch = tempfile.mkdtemp(prefix='seed-')
    repo = scratch + '/repo'
    try:
      shutil.copytree('/repo', repo, symlinks=True)
      out = os.path.join(ROOT, 'seeded', s['id'])
      os.makedirs(out, exist_ok=True)
      for fn, old, new in s['edits']:
        p = os.path.join(repo, fn)
        t = open(p, newline='').read()
        if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert t.count(old) == 1, (s['id'], fn, t.count(old))
        open(p, 'w', newline='').write(t.replace(old, new))
      d = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True).stdout
      open(out + '/patch.diff', 'wb').write(d)
      # changed lines are original ones
      orig = False
      fn = None
      for l in subprocess.run(['git', '-C', repo, 'diff', '-U0'], capture_output=True, text=True, errors='replace').stdout.splitlines():
        if l.startswith('--- a/'): fn = l[6:]
        elif l.startswith('@@'):
          a = l.split()[1][1:].split(',')
          st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
          if n:
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (st, st + n - 1), 'HEAD', '--', fn], capture_output=True, text=True, errors='replace').stdout
            fresh = subprocess.run(['git', '-C', '/repo', 'rev-list', BASE + '..HEAD'], capture_output=True, text=True).stdout.split()
            if any(not any(f.startswith(x.split()[0].lstrip('^')[:7]) for f in fresh) for x in b.splitlines()): orig = True
      for f in ('demo.sh', 'demo.py', 'mmap.py'):
        if os.path.exists(out + '/' + f): os.remove(out + '/' + f)
      open(out + '/demo.sh', 'w').write(DEMO)
      open(out + '/demo.py', 'w').write(HEAD + s['demo'].lstrip('\n'))
      open(out + '/mmap.py', 'w').write(STUB)
      json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
      o = run_tests(repo)
      bad = [t for t in stable() if t not in o['passed']]
      a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
      b = subprocess.run(['bash', out + '/demo.sh'], cwd=repo, capture_output=True, text=True)
      ok = orig and not bad and a.returncode == 0 and b.returncode != 0
      print('%-28s %s %s' % (s['id'], s['property'], 'OK' if ok else 'BAD'), '' if ok else (orig, bad, a.returncode, a.stderr[-300:], b.returncode), flush=True)
      if ok: print('     ' + (b.stderr.strip().splitlines() or ['?'])[-1][:150])
    finally:
      shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
  main(sys.argv[1:])
