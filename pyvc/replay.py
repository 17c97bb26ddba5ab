"""Replay a violation on the real code: python3-vt pyvc/replay.py replays/C04-1.json

Runs the recorded scenario script under Jython on /repo's current tree and prints what each step gave."""
import sys, os, json, tempfile, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
print("property %s, obligation %s\nfailed: %s" % (r['property'], r['obligation'], r.get('label')))
if 'script' not in r:
  print("the verifier gave no input; its output:"); print(json.dumps(r.get('verifier'), indent=1)); sys.exit(0)
print("inputs: %s" % json.dumps(r['inputs']))
t = tempfile.mkdtemp(prefix='replay-')
try:
  a, b = os.path.join(t, 'a'), os.path.join(t, 'b')
  json.dump({"path": [os.path.join(HERE, 'stubs'), os.environ.get('PYVC_REPO', '/repo')], "cases": [r['script']]}, open(a, 'w'))
  e = dict(os.environ, JYTHONPATH='/opt/jydeps/site', PYTHONDONTWRITEBYTECODE='1')
  subprocess.run(["jython", "-B", "-Dpython.cachedir.skip=true", os.path.join(HERE, 'jy_driver.py'), a, b], env=e, cwd=t, stdout=subprocess.DEVNULL)
  for st in json.load(open(b))[0]: print(json.dumps(st)[:2000])
finally: shutil.rmtree(t, ignore_errors=True)
