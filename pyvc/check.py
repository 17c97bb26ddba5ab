"""Discharge the obligations of one property against the working tree of the repository.

  check.py --property C01 [--tier quick|thorough] [--repo /repo] [--only SUBSTR] [-v]

exit 0: every obligation held (proved, or bounded where the evidence says so); exit 1: VIOLATION line(s)."""
import sys, os, json, time, argparse, subprocess, tempfile, shutil, random, multiprocessing, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'specs'))
sys.setrecursionlimit(20000)
from kit import *
from interp import Interp
from libmodels import LIBS
import vc
import conform

JY = ["jython", "-B", "-Dpython.cachedir.skip=true"]


def jy_env():
  e = dict(os.environ); e['JYTHONPATH'] = '/opt/jydeps/site'; e['PYTHONDONTWRITEBYTECODE'] = '1'
  return e


def dump_sources(repo, out, tops='d7a,modem,util'):
  p = subprocess.run(JY + [os.path.join(HERE, 'jy_dump.py'), repo, tops, out], env=jy_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
  if p.returncode != 0 or not os.path.exists(out):
    sys.stderr.write(p.stderr.decode('utf8', 'replace')[-3000:])
    raise SystemExit("cannot read the sources of %s" % repo)
  return json.load(open(out))


class Jy(object):
  """Runs concrete scenario scripts on the real code (several Jython processes)."""
  def __init__(self, repo, tmp): self.repo = repo; self.tmp = tmp; self.n = 0; self.ran = 0

  def run(self, cases, procs=6, timeout=400):
    if not cases: return []
    self.ran += len(cases)
    k = max(1, min(procs, (len(cases) + 39) // 40))
    chunks = [cases[i::k] for i in range(k)]
    ps = []
    for ch in chunks:
      self.n += 1
      a = os.path.join(self.tmp, 'req%d.json' % self.n); b = os.path.join(self.tmp, 'res%d.json' % self.n)
      json.dump({"path": [os.path.join(HERE, 'stubs'), self.repo], "cases": ch}, open(a, 'w'))
      ps.append((subprocess.Popen(JY + [os.path.join(HERE, 'jy_driver.py'), a, b], env=jy_env(), cwd=self.tmp, stdout=subprocess.DEVNULL,
                                  stderr=open(b + '.err', 'w'), stdin=subprocess.DEVNULL), b))
    out = [None] * len(cases)
    end = time.time() + timeout
    for i, (p, b) in enumerate(ps):
      try: p.wait(max(1, end - time.time()))
      except subprocess.TimeoutExpired: p.kill(); p.wait()
      if os.path.exists(b):
        try: res = json.load(open(b))
        except ValueError: res = []
        for j, r in enumerate(res): out[i + j * k] = r
      else:
        sys.stderr.write(open(b + '.err').read()[-1500:])
    return out


def conc_case(it, ob, leaves):
  """(script for the driver, judge-ready pieces) for concrete leaves; None when they are outside the precondition."""
  c = Ctx([], deadline=time.time() + 60); Ctx.cur = c
  it.steps = 0; it.depth = 0; it.map_probe = None
  try:
    G = FixedGen(it, leaves, [])
    script, s = ob.build(G)
    return conc_script(script, G.leaves), G, s
  except (Reject, KeyError): return None
  finally: undo(c)


def rand_case(it, ob, rng):
  for _ in range(200):
    c = Ctx([], deadline=time.time() + 60); Ctx.cur = c
    it.steps = 0; it.depth = 0; it.map_probe = None
    G = RandGen(it, rng, ob.maxlen)
    try:
      script, s = ob.build(G)
      return conc_script(script, G.leaves), G, s
    except Reject: continue
    finally: undo(c)
  return None


def leaves_json(leaves):
  return {k: vc.json_leaf(v) for k, v in leaves.items()}


def leaves_back(it, j):
  out = {}
  for k, v in j.items():
    if isinstance(v, dict) and 'e' in v: out[k] = find_class(it, v['e'][0]).members[v['e'][1]]
    else: out[k] = v
  return out


def judge_res(it, ob, G, s, res):
  """Failed labels of one real run."""
  out = vc.decode_outcome(it, res)
  return vc.judge_concrete(it, ob, G, s, out)


_IT = None; _OBS = None
PATH_INPUTS = 3      # paths of a part of a proof whose inputs are also run for real


def jsonable(leaves):
  try: json.dumps(leaves_json(leaves)); return True
  except (TypeError, KeyError, AttributeError, ValueError): return False



def work(a, share=None):
  """Worker: discharge one obligation (or the part of it below some decision prefixes) symbolically."""
  i, deadline, start, state = a
  ob = _OBS[i]
  it = _IT
  it.contracts = {}
  it.no_contract = set(); it.watch = None
  it.loop_rules = dict(getattr(ob, 'loop_rules', {}) or {})
  for k, r in it.loop_rules.items():
    if state is not None and hasattr(r, 'stale'): r.stale = set(state[k])
  for cd in ob.uses: install_contract(it, cd)
  if not all(getattr(r, 'portable', False) for r in it.loop_rules.values()): share = None
  P = ob.on_path = conform.Paths(it, ob, PATH_INPUTS)
  vc.ScriptRunner.observe = staticmethod(conform.observe) if conform.exact(ob) else None
  v = explore(it, ob, timeout=max(1.0, deadline - time.time()), max_paths=ob.max_paths, deadline=deadline, start=start or [[]], share=share)
  ref = []
  for label, leaves in v.refuted:
    try: json.dumps(leaves_json(leaves) if leaves is not None else None)
    except (TypeError, KeyError, AttributeError, ValueError):      # inputs that are only known in part (runs of arbitrary objects)
      v.undecided.append('refuted for an input that is only known in part: %s' % label); continue
    ref.append((label, leaves_json(leaves) if leaves is not None else None))
  status = 'undecided' if v.status == 'refuted' and not ref else v.status
  return i, {'status': status, 'refuted': ref, 'undecided': v.undecided[:5], 'paths': v.paths, 'checks': v.checks, 'queries': v.queries,
             'solver_s': v.solver_s, 'seconds': v.seconds, 'labels': v.labels, 'covers': v.covers, 'called': sorted(v.called),
             'inputs': [(leaves_json(lv), ex) for _, lv, ex in P.got if jsonable(lv)]}


class Workers(object):
  """Forked workers: obligations from a shared list, then parts of obligations that busy workers hand over. Results are files."""
  def __init__(self, todo, n, tmp, timeout):
    self.todo = todo; self.tmp = tmp; self.timeout = timeout
    self.n = n if todo else 0
    self.lock = multiprocessing.Lock()
    self.next = multiprocessing.Value('i', 0, lock=False)      # obligations taken
    self.idle = multiprocessing.Value('i', 0, lock=False)      # workers without work
    self.made = multiprocessing.Value('i', 0, lock=False)      # parts handed over
    self.given = multiprocessing.Value('i', 0, lock=False)     # parts taken
    self.gen = multiprocessing.Array('i', max(todo) + 1 if todo else 1, lock=False)      # generation of each obligation
    self.pids = []
    sys.stdout.flush(); sys.stderr.flush()
    for _ in range(self.n):
      pid = os.fork()
      if pid == 0:
        try:
          signal.signal(signal.SIGINT, signal.SIG_DFL)
          self.main()
        finally: os._exit(0)
      self.pids.append(pid)

  def main(self):
    idle = False
    while True:
      with self.lock:
        t = None
        if self.given.value < self.made.value:
          t = ('part', self.given.value); self.given.value += 1
        elif self.next.value < len(self.todo):
          t = ('ob', self.next.value); self.next.value += 1
        if t and idle: self.idle.value -= 1; idle = False
        if not t and not idle: self.idle.value += 1; idle = True
        if not t and self.idle.value == self.n: return
      if t is None: time.sleep(0.02); continue
      if t[0] == 'ob':
        i = self.todo[t[1]]; k = 0; gen = 0
        a = (i, time.time() + self.timeout(i), None, None)
      else:
        a = json.load(open(os.path.join(self.tmp, 'part%d' % t[1])))
        i = a[0]; k = t[1] + 1; gen = a[4]
      while a is not None and gen == self.gen[i]: a, k, gen = self.one(a, k, gen)

  def one(self, a, k, gen):
    """One part of an obligation. When a loop rule learns something every part is void: a new generation starts at the root."""
    i = a[0]
    def path(g, k): return os.path.join(self.tmp, 'ob%d.%d.%d' % (i, g, k))
    open(path(gen, k) + '.run', 'w').close()
    rules = dict(getattr(_OBS[i], 'loop_rules', {}) or {})
    def state(): return {q: sorted(r.stale) for q, r in rules.items() if hasattr(r, 'stale')}
    def share(left, paths):
      if self.gen[i] != gen: raise Void()
      if len(left) < 2 or paths < 4 or self.idle.value <= self.made.value - self.given.value: return
      with self.lock:
        m = self.made.value
        f = os.path.join(self.tmp, 'part%d' % m)
        json.dump((i, a[1], [left[0]], state(), gen), open(f + '.tmp', 'w')); os.rename(f + '.tmp', f)
        open(path(gen, m + 1) + '.run', 'w').close()
        self.made.value += 1
      left.pop(0)
    try: r = work(a[:4], share)[1]
    except Void: return None, k, gen
    except vc.Restart:
      with self.lock:
        if self.gen[i] != gen: return None, k, gen
        if gen >= 40: r = no_result('too many restarts of a loop rule')
        else:
          self.gen[i] = gen + 1
          open(path(gen + 1, 0) + '.run', 'w').close()
          return (i, a[1], None, state()), 0, gen + 1
    except BaseException as e: r = no_result('worker: %s: %s' % (type(e).__name__, e))
    try: json.dumps(r)
    except Exception as e: r = no_result('worker: %s: %s' % (type(e).__name__, e))
    json.dump(r, open(path(gen, k) + '.part', 'w')); os.rename(path(gen, k) + '.part', path(gen, k) + '.json')
    return None, k, gen

  def collect(self, deadline):
    left = set(self.pids)
    while left and time.time() < deadline:
      for p in list(left):
        try: q, _ = os.waitpid(p, os.WNOHANG)
        except ChildProcessError: q = p
        if q: left.discard(p)
      if left: time.sleep(0.05)
    for p in left:
      try: os.kill(p, signal.SIGKILL); os.waitpid(p, 0)
      except OSError: pass
    out = {}
    have = sorted(os.listdir(self.tmp))
    for i in self.todo:
      parts = []
      for f in have:
        if f.startswith('ob%d.%d.' % (i, self.gen[i])) and f.endswith('.run'):
          g = os.path.join(self.tmp, f[:-4] + '.json')
          parts.append(json.load(open(g)) if os.path.exists(g) else no_result('time or memory limit of the check'))
      out[i] = merge(parts) if parts else no_result('time or memory limit of the check')
    return out


class Void(Exception):
  """The part belongs to an older generation."""


def merge(parts):
  r = no_result('')
  r['undecided'] = []
  for p in parts:
    for k in ('refuted', 'undecided', 'inputs'): r[k] = r[k] + p[k]
    for k in ('paths', 'checks', 'queries', 'solver_s', 'seconds'): r[k] += p[k]
    for k in ('labels', 'covers'):
      for x, n in p[k].items(): r[k][x] = r[k].get(x, 0) + n
    r['called'] = sorted(set(r['called']) | set(p['called']))
  r['refuted'] = r['refuted'][:3]
  r['inputs'] = r['inputs'][:2 * PATH_INPUTS]
  r['status'] = 'refuted' if r['refuted'] else 'undecided' if r['undecided'] else 'vacuous' if r['checks'] == 0 else 'proved'
  return r


def no_result(why):
  return {'status': 'undecided', 'refuted': [], 'undecided': [why], 'paths': 0, 'checks': 0, 'queries': 0, 'solver_s': 0, 'seconds': 0, 'labels': {}, 'covers': {}, 'called': [], 'inputs': []}


def install_contract(it, cd):
  """Callers see the contract of cd.__iter__ (its bytes are enc(view)) instead of its body; a callable installs its own contract."""
  if not isinstance(cd, Codec): return cd(it)
  q = cd.path + '.__iter__'
  def con(it, f, args, kw):
    try: v = cd.view_of(it, args[0])
    except (Mismatch, Unsupported): return NotImplemented
    c = cd.valid(it, v)
    if c is not True:
      if c is False: return NotImplemented
      if Ctx.cur._check(z3.Not(as_z3bool(c))) != z3.unsat: return NotImplemented
    return GenV(lambda: list(cd.enc(v)))
  it.contracts[q] = con


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--property', required=True); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--repo', default=os.environ.get('PYVC_REPO', '/repo')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
  ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--no-evidence', action='store_true')
  A = ap.parse_args()
  t0 = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  thorough = A.tier == 'thorough'
  tmp = tempfile.mkdtemp(prefix='pyvc-')
  try: rc = run(A, t0, seed, thorough, tmp)
  finally: shutil.rmtree(tmp, ignore_errors=True)
  sys.stdout.flush()
  os._exit(rc)


def run(A, t0, seed, thorough, tmp):
  global _IT, _OBS
  pid = A.property
  asts = dump_sources(A.repo, os.path.join(tmp, 'ast.json'))
  import registry
  prop = registry.get(pid)
  mods = sorted(asts)
  for i, (root, tops) in enumerate(prop.extra_src):      # dependencies verified from their own source instead of a model
    root = {'@repo': A.repo, '@stubs': os.path.join(HERE, 'stubs')}.get(root, root)
    for k, v in dump_sources(root, os.path.join(tmp, 'ast-x%d.json' % i), tops).items():
      if not k.endswith('.test'): asts.setdefault(k, v)
  mods += prop.load
  it = Interp(asts, LIBS)
  load_errors = []
  for m in mods:
    try: it.import_module(m)
    except (PyRaise, Unsupported, Exception) as e: load_errors.append('%s: %s' % (m, e))
  obs = prop.obligations()
  if A.only: obs = [o for o in obs if A.only in o.id]
  ids = [o.id for o in obs]
  assert len(set(ids)) == len(ids), "duplicate obligation ids"
  _IT, _OBS = it, obs
  known = json.load(open(os.path.join(ROOT, 'known-findings.json')))['findings']
  known = [k for k in known if k['property'] == pid]
  budget = 1500 if thorough else 330
  jobs = []
  results = {}
  todo = [i for i, o in enumerate(obs) if not o.bounded_only]
  todo.sort(key=lambda i: -obs[i].timeout)
  pool = Workers(todo, A.jobs, tmp, lambda i: obs[i].timeout * (4 if thorough else 1))

  # meanwhile: concrete cases of every obligation on the real code (cross-check of the engine; stand-in where needed)
  rng = random.Random('%s/%d' % (pid, seed))
  jy = Jy(A.repo, tmp)
  cases = []
  def add_cases(i, n, r):
    for _ in range(n):
      try: c = rand_case(it, obs[i], r)
      except (PyRaise, Unsupported, Budget) as e:
        return
      except Exception as e:
        if A.v: traceback.print_exc()
        return
      if c is not None: cases.append((i, c))
  for i, o in enumerate(obs):
    add_cases(i, (o.cases * (4 if thorough else 1)) if o.bounded_only else max(6, o.cases // 4) * (4 if thorough else 1), rng)
  first = list(cases)
  real = jy.run([c[0] for _, c in first])
  viol = []      # (obligation index, label, leaves, G, s, script, res, how)
  runs = {}
  lost = 0
  undecided_cases = {}
  def judge_all(cs, rs, how):
    nonlocal lost
    for (i, (script, G, s)), res in zip(cs, rs):
      if res is None: lost += 1; continue
      try: bad, cov = judge_res(it, obs[i], G, s, res)
      except (Unsupported, Budget, PathAbort) as e:
        undecided_cases[obs[i].id] = str(e); continue
      except Exception as e:
        undecided_cases[obs[i].id] = '%s: %s' % (type(e).__name__, e)
        if A.v: traceback.print_exc()
        continue
      runs[i] = runs.get(i, 0) + 1
      for label in bad: viol.append((i, label, dict(G.leaves), script, res, how))
  judge_all(first, real, 'random input')

  results = pool.collect(t0 + budget)

  # inputs of explored paths on the real code: the contract again, and the outcome the engine predicts for them
  cs = []
  for i, r in sorted(results.items()):
    for lj, ex in r['inputs']:
      try: c = conc_case(it, obs[i], leaves_back(it, lj))
      except Exception: c = None
      if c is not None: cs.append((i, c, ex))
  rs = jy.run([c[0] for _, c, _ in cs], timeout=max(60, 500 - (time.time() - t0)))
  judge_all([(i, c) for i, c, _ in cs], rs, 'an input of a path of the proof')
  compared = 0; differ = []
  for (i, c, ex), res in zip(cs, rs):
    if res is None or ex is None: continue
    compared += 1
    d = conform.differs(c[0], ex, res)
    if d:
      differ.append('%s: %s' % (obs[i].id, d[:300]))
      if A.v: print('DIFFERS', obs[i].id, d[:300], leaves_json(c[1].leaves))
      r = results[i]      # the engine misjudges this code: its proof does not count
      if r['status'] == 'proved': r['status'] = 'undecided'; r['undecided'] = ['the engine predicts another outcome than the real run: ' + d[:200]]

  # replay the refutations on the real code
  rep = []
  noinput = []
  for i, r in sorted(results.items()):
    if r['status'] != 'refuted': continue
    for label, lj in r['refuted']:
      if lj is None: continue
      try: c = conc_case(it, obs[i], leaves_back(it, lj))
      except Exception as e:
        if A.v: traceback.print_exc()
        c = None
      if c is not None: rep.append((i, label, c))
  rr = jy.run([c[0] for _, _, c in rep])
  spurious = {}
  for (i, label, (script, G, s)), res in zip(rep, rr):
    n = len(viol)
    judge_all([(i, (script, G, s))], [res], "the verifier's counterexample")
    if len(viol) == n:
      spurious.setdefault(i, []).append(label)
      if A.v: print("NOT REPRODUCED", obs[i].id, label, leaves_json(G.leaves))
  violated = set(v[0] for v in viol)
  # undecided or unreproduced obligations: a bounded stand-in
  cases.clear()
  need_more = [i for i, r in results.items() if i not in violated and r['status'] in ('undecided', 'vacuous', 'refuted')]
  per = 0
  if need_more:
    per = max(40, min(400, 2400 // len(need_more))) * (4 if thorough else 1)
    rng2 = random.Random('%s/%d/more' % (pid, seed))
    for i in need_more: add_cases(i, per, rng2)
    more = list(cases)
    judge_all(more, jy.run([c[0] for _, c in more], timeout=max(60, 780 - (time.time() - t0))), 'bounded search')
    violated = set(v[0] for v in viol)
  for i, r in results.items():
    if r['status'] == 'refuted' and i not in violated and any(lj is None for _, lj in r['refuted']) and i not in spurious and not getattr(obs[i], 'weak', False):
      noinput.append(i)

  # covers: a proved obligation whose required situation is unreachable is vacuous
  vac = []
  for i, r in results.items():
    miss = [c for c in obs[i].covers if c not in r['covers']]
    if r['status'] == 'proved' and miss: vac.append((obs[i].id, miss)); r['status'] = 'vacuous'

  # report
  nviol = 0; kf_seen = []
  rdir = os.path.join(ROOT, 'replays'); os.makedirs(rdir, exist_ok=True)
  reported = set()
  for i, label, leaves, script, res, how in viol:
    obs_text = observed(res)
    k = [k for k in known if k['obligation'] == obs[i].id and k['label'] == label and (k.get('observed') is None or k['observed'] in obs_text)]
    if k:
      if k[0] not in kf_seen: kf_seen.append(k[0])
      continue
    if (i, label) in reported: continue
    reported.add((i, label))
    if len(reported) > 12: continue
    nviol += 1
    path = os.path.join(rdir, '%s-%d.json' % (pid, nviol))
    json.dump({'property': pid, 'obligation': obs[i].id, 'label': label, 'found_by': how, 'functions': obs[i].funcs, 'inputs': leaves_json(leaves), 'script': script,
               'observed': res, 'replay_cmd': 'python3-vt pyvc/replay.py ' + path}, open(path, 'w'), indent=1)
    print("FAILED obligation %s: %s (%s); observed: %s" % (obs[i].id, label, how, obs_text[:300]))
    print("VIOLATION property=%s replay=%s" % (pid, path))
  for i in noinput:
    nviol += 1
    path = os.path.join(rdir, '%s-%d.json' % (pid, nviol))
    json.dump({'property': pid, 'obligation': obs[i].id, 'label': results[i]['refuted'][0][0], 'verifier': results[i]}, open(path, 'w'), indent=1)
    print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
  for k in kf_seen: print("KNOWN-FINDING: property=%s %s" % (pid, k['what']))

  proved = [i for i, r in results.items() if r['status'] == 'proved']
  oblist = []
  for i, o in enumerate(obs):
    r = results.get(i)
    st = 'bounded' if r is None else r['status']
    if st == 'refuted' and i not in violated: st = 'undecided'
    oblist.append({'id': o.id, 'status': st if st in ('proved', 'bounded') else ('violated' if i in violated else 'bounded (undecided by the verifier)'),
                   'functions': o.funcs, 'paths': r['paths'] if r else 0, 'conditions': r['checks'] if r else 0, 'real_runs': runs.get(i, 0),
                   'reason': (r['undecided'][:2] if r and st != 'proved' else None), 'note': o.note})
    if A.v:
      print("%-60s %-10s %5.1fs paths=%d checks=%d q=%d real=%d %s" % (o.id, st, r['seconds'] if r else 0, r['paths'] if r else 0, r['checks'] if r else 0, r['queries'] if r else 0, runs.get(i, 0), (r['undecided'][:2] + (spurious.get(i) or []) if r and st != 'proved' else '')))
  called = sorted(set(q for i in proved for q in results[i]['called']))
  ev = {'property': pid, 'tier': A.tier if A.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': prop.level,
        'coverage': {
          'obligations': len(obs), 'discharged': len(proved),
          'checker_cmd': 'python3-vt pyvc/check.py --property %s (PyVC: symbolic weakest-precondition engine over the Jython AST of /repo, back end z3 %s)' % (pid, z3.get_version_string()),
          'trusted_base': registry.TRUSTED + list(prop.trusted),
          'verification_conditions': sum(r['checks'] for r in results.values()), 'paths': sum(r['paths'] for r in results.values()),
          'solver_queries': sum(r['queries'] for r in results.values()), 'solver_seconds': round(sum(r['solver_s'] for r in results.values()), 2),
          'functions_under_contract': called, 'functions_under_contract_count': len(called),
          'obligation_list': oblist,
          'bounded_standins': [o['id'] for o in oblist if o['status'].startswith('bounded')],
          'evaluations': sum(runs.values()), 'rule': 'concrete runs of the same obligations on the real code under Jython (edge-biased random inputs, VERIF_SEED), as cross-check of the engine and as stand-in where undecided',
          'samples': [{'obligation': obs[i].id, 'inputs': short(leaves_json(c[1].leaves))} for i, c in first[:3]],
          'path_outcomes_compared': compared, 'path_outcomes_that_differ': differ[:10],
          'load_errors': load_errors, 'lost_runs': lost, 'unjudged': undecided_cases, 'vacuous': vac,
        },
        'assumptions': registry.ASSUMPTIONS + list(prop.assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
  if not A.no_evidence and not A.only:
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
  print("%s: %d obligations, %d proved, %d bounded, %d violated; %d conditions, %d solver queries (%.1fs), %d real runs; %.1fs" % (
    pid, len(obs), len(proved), len(ev['coverage']['bounded_standins']), len(violated), ev['coverage']['verification_conditions'], ev['coverage']['solver_queries'],
    ev['coverage']['solver_seconds'], sum(runs.values()), time.time() - t0))
  if lost: print("note: %d concrete runs gave no result" % lost)
  if nviol: return 1
  if not obs or not (proved or runs):
    print("ERROR: nothing was checked"); return 3
  return 0


def short(x):
  t = json.dumps(x)
  return x if len(t) < 600 else t[:600] + '...'


def observed(res):
  for st in res or []:
    if 'exc' in st: return "step %s raised %s(%s)" % (st['let'], st['exc']['x'], st['exc']['text'][:160])
  if not res: return 'no step ran'
  return "step %s gave %s" % (res[-1]['let'], json.dumps(res[-1].get('val'))[:200])


if __name__ == '__main__':
  main()
