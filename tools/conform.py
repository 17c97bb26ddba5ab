#!/usr/bin/env python3-vt
"""Compares the engine and its library models with the real Jython, bitstring, cerberus, struct ... (evidence for a stated assumption,
not a proof): every explored path gets a model of its path condition; the outcome the engine predicts for that model (every step's
value or exception, object fields included) is compared with the outcome of running the same script for real.

  conform.py lib [SUBSTR] [--paths N]      the snippets of /verif/conformance/snippets.py (language and library operations, one per function)
  conform.py C05 [SUBSTR] [--paths N]      the obligations of a property (those that assume no contract and abstract no loop)
"""
import sys, os, re, time, json, tempfile, random, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'pyvc'), os.path.join(ROOT, 'specs')]
sys.setrecursionlimit(20000)
import z3
import check, vc, registry, conform
from check import *
from values import *
from sym import *

vc.ScriptRunner.observe = staticmethod(conform.observe)


def snippets(it, conc):
  from kit import Ob, S
  src = open(os.path.join(ROOT, 'conformance', 'snippets.py')).read()
  obs = []
  for mm in re.finditer(r"^def (t_\w+)\((.*?)\):\s*#\s*(.*)$", src, re.M):
    name, args, spec = mm.group(1), [a.strip() for a in mm.group(2).split(',') if a.strip()], mm.group(3).split()
    kinds = dict(x.split('=') for x in spec if '=' in x)
    class O(object): pass
    o = O(); o.id = name; o.uses = []; o.loop_rules = {}; o.max_paths = 4000; o.timeout = 60
    def build(G, name=name, args=args, kinds=kinds):
      leaves = []
      for a in args:
        k = kinds[a]
        if k == 'bool': leaves.append(G.bool(a))
        elif k.startswith('b'):
          lo, hi = k[1:].split('..'); leaves.append(G.bytes(a, int(lo), int(hi)))
        else:
          lo, hi = k.split('..'); leaves.append(G.int(a, int(lo), int(hi)))
      return [{'let': 'r', 'expr': ['call', ['name', 'snippets.' + name], leaves], 'try': True}], None
    o.build = build
    o.judge = lambda J, out, G, s: None
    obs.append(o)
    for n in range(conc):
      def cbuild(G, name=name, args=args, kinds=kinds, n=n):
        rng = random.Random('%s %d' % (name, n)); leaves = []
        def pick(lo, hi): return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), max(lo, min(hi, rng.randint(-3, 3)))])
        for a in args:
          k = kinds[a]
          if k == 'bool': leaves.append(G._add(a, ('bool',), rng.random() < .5)); continue
          b = k.startswith('b'); lo, hi = [int(x) for x in k.lstrip('b').split('..')]
          leaves.append(G._add(a, ('c',), [pick(0, 255) for _ in range(pick(lo, hi))] if b else pick(lo, hi)))
        return [{'let': 'r', 'expr': ['call', ['name', 'snippets.' + name], leaves], 'try': True}], None
      q = O(); q.id = '%s/%d' % (name, n); q.uses = []; q.loop_rules = {}; q.max_paths = 50; q.timeout = 20; q.build = cbuild; q.judge = o.judge
      obs.append(q)
  return obs


def main():
  av = sys.argv[1:]
  npaths = 30
  if '--paths' in av: i = av.index('--paths'); npaths = int(av[i + 1]); del av[i:i + 2]
  nconc = 6
  repo = '/repo'
  if '--repo' in av: i = av.index('--repo'); repo = av[i + 1]; del av[i:i + 2]
  av = [a for a in av if a != '-v']
  what = av[0]; sub = av[1] if len(av) > 1 else ''
  tmp = tempfile.mkdtemp()
  asts = dump_sources(repo, os.path.join(tmp, 'ast.json'))
  mods = sorted(asts)
  extra = [(os.path.join(ROOT, 'conformance'), 'snippets.py')]
  if what == 'lib':
    d = os.path.join(tmp, 'lib'); os.mkdir(d); os.mkdir(os.path.join(d, 'x')); shutil.copy(os.path.join(ROOT, 'conformance', 'snippets.py'), os.path.join(d, 'x', 'snippets.py'))
    a = dump_sources(d, os.path.join(tmp, 'x.json'), 'x')['x.snippets']
    if a.get('error'): sys.exit(a['error'])
    asts['snippets'] = a; mods = ['snippets']
  else:
    prop = registry.get(what)
    for i, (root, tops) in enumerate(prop.extra_src):
      root = {'@repo': repo, '@stubs': os.path.join(ROOT, 'pyvc', 'stubs')}.get(root, root)
      for k, v in dump_sources(root, os.path.join(tmp, 'x%d.json' % i), tops).items():
        if not k.endswith('.test'): asts.setdefault(k, v)
    mods += prop.load
  it = Interp(asts, LIBS)
  for m in mods:
    try: it.import_module(m)
    except (PyRaise, Unsupported) as e: print('load', m, e)
  obs = snippets(it, nconc) if what == 'lib' else [o for o in prop.obligations() if conform.exact(o) and not o.bounded_only]
  obs = [o for o in obs if sub in o.id]
  cases = []; stats = {}
  for o in obs:
    P = o.on_path = conform.Paths(it, o, npaths)
    it.contracts = {}; it.no_contract = set(); it.watch = None; it.loop_rules = {}
    v = vc.explore(it, o, timeout=min(o.timeout or 60, 40), max_paths=max(npaths * 6, 60))
    cases.extend((o.id, vc.conc_script(sc, lv), ex, repr(lv)[:400]) for sc, lv, ex in P.got)
    st = '' if not v.undecided else v.undecided[0][:150]
    if what == 'lib' and st and not o.id.endswith(('/1', '/2', '/3', '/4', '/5')): print('undecided %s: %s' % (o.id, st))
    stats.setdefault(o.id, st)
    if '-v' in sys.argv: print(o.id, len(P.got), 'paths of', v.paths, stats[o.id], v.status)
  jy = Jy(repo if what != 'lib' else os.path.join(ROOT, 'conformance'), tmp)
  res = jy.run([c[1] for c in cases])
  bad = 0; steps = 0
  for (oid, script, exp, lv), r in zip(cases, res):
    if r is None: print('no result', oid); continue
    steps += len(exp)
    d = conform.differs(script, exp, r)
    if d: bad += 1; print('MISMATCH %s: %s\n    inputs %s' % (oid, d[:600], lv))
  shutil.rmtree(tmp)
  print('%s: %d functions or obligations, %d paths compared, %d steps, %d uncompared parts, %d mismatches' % (what, len(obs), len(cases), steps, conform.WILDS[0], bad))
  return 1 if bad else 0

if __name__ == '__main__': sys.exit(main())
