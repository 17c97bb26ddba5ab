"""Compares what the engine predicts on a path of a proof with what the real code does on an input of that path."""
import random, re
import z3
import vc
from interp import *
from values import *
from sym import *

WILD = ('?',)


def qual(c): return '%s.%s' % (c.module, c.name)


def items_of(m, items):
  out = []
  for x in items:
    if isinstance(x, SymSeg):
      k = evalm(m, x.length) if not isinstance(x.length, int) else x.length
      if k > 5000: raise Unsupported('long run')
      out.extend(x.at(i) for i in range(k))
    else: out.append(x)
  return out


def view(it, m, v, memo):
  """The engine's value under a model, in the shape of the driver's dump."""
  if v is None or isinstance(v, bool): return v
  if isinstance(v, SBool): return evalm(m, v)
  if isinstance(v, int): return ('i', v)
  if isinstance(v, SInt): return ('i', evalm(m, v))
  if isinstance(v, float): return ('f', v)
  if isinstance(v, SRat):
    try:
      e = m.eval(v.e, model_completion=True) if hasattr(v, 'e') else None
      return ('f', float(e.as_fraction())) if e is not None else WILD
    except Exception: return WILD
  if isinstance(v, str): return ('s', str(v))
  if isinstance(v, SStr): return ('s', ''.join(chr(evalm(m, x)) for x in items_of(m, v.items)))
  if isinstance(v, SText):
    out = ''
    for p in v.parts:
      if isinstance(p, str): out += p
      elif isinstance(p[1], (SBool, bool)) and p[2] in ('', 's', 'r'): out += str(evalm(m, p[1]))
      elif isinstance(p[1], (SInt, int)) and p[2] in ('x', 'X', '02x', '04x', '02X', '5', '05', '04X'): out += format(evalm(m, p[1]), p[2])
      elif isinstance(p[1], (SInt, int)) and not isinstance(p[1], bool) and p[2] in ('', 's', 'd'): out += str(evalm(m, p[1]))
      else: return WILD
    return ('s', out)
  if isinstance(v, PBytearray): return ('ba', [evalm(m, x) for x in items_of(m, v.items)])
  if isinstance(v, PList): return ('l', [view(it, m, x, memo) for x in items_of(m, v.items)])
  if isinstance(v, tuple): return ('t', [view(it, m, x, memo) for x in v])
  if isinstance(v, PDict): return ('d', sorted(((view(it, m, k, memo), view(it, m, x, memo)) for k, x in v.d.values()), key=repr))
  if isinstance(v, SEnum):
    n = evalm(m, v.val)
    return ('e', qual(v.cls), [x.d['name'] for x in v.cls.members.values() if x.d['value'] == n][0])
  if isinstance(v, Obj):
    if v.cls.is_enum: return ('e', qual(v.cls), v.d['name'])
    if is_exc(v): return exc(v)
    if id(v) in memo: return ('ref',)
    memo[id(v)] = v
    return ('o', qual(v.cls), {k: view(it, m, x, memo) for k, x in v.d.items()})
  if isinstance(v, ClassV): return WILD
  if isinstance(v, At):
    p = v.pos
    return ('stream', p if isinstance(p, int) else evalm(m, p))
  return WILD


class At(object):
  def __init__(self, pos): self.pos = pos

def observe(it, out, name, v):
  if not hasattr(out, 'seen'): out.seen = {}
  out.seen[name] = At(v.p_pos(it)) if type(v).__name__ == 'BitStream' else vc.snapshot(it, v)


def is_exc(v): return any(c.name == 'BaseException' for c in v.cls.mro)


def exc(v): return ('x', v.cls.name)


def real(j, memo=None):
  if j is None or isinstance(j, bool): return j
  if 'o' in j: return ('o', j['c'], {k: real(x) for k, x in j['a'].items()})
  if 'ref' in j: return ('ref',)
  if 'x' in j: return ('x', j['x'])
  k, v = next(iter(j.items()))
  if k == 'i': return ('i', int(v))
  if k == 'f': return ('f', float(v))
  if k in ('s', 'u'): return ('s', v)
  if k == 'ba': return ('ba', v)
  if k == 'il': return ('l', [('i', x) for x in v])
  if k == 'l': return ('l', [real(x) for x in v])
  if k == 't': return ('t', [real(x) for x in v])
  if k == 'd': return ('d', sorted(((real(a), real(b)) for a, b in v), key=repr))
  if k == 'e': return ('e', v[0], v[1])
  if k == 'stream': return ('stream', v)
  return WILD


EXCLUDED = ('command.lists',)     # tags drawn at random are part of the bytes
WILDS = [0]
def same(a, b, path=''):
  """None, or where the two differ (a: engine, b: real)."""
  if a == WILD or b == WILD: WILDS[0] += 1; return None
  if type(a) is tuple and type(b) is tuple and a[0] == b[0] == 's' and 'with tag' in b[1]: a, b = [('s', re.sub(r'with tag \d+', 'with tag', x[1])) for x in (a, b)]
  if type(a) is tuple and type(b) is tuple:
    if a[0] != b[0]: return '%s: %r / %r' % (path, a, b)
    k = a[0]
    if k == 'f': return None if abs(a[1] - b[1]) <= 1e-9 * max(1, abs(a[1])) else '%s: %r / %r' % (path, a, b)
    if k in ('l', 't'):
      if len(a[1]) != len(b[1]): return '%s: %r / %r' % (path, a, b)
      for i, (x, y) in enumerate(zip(a[1], b[1])):
        d = same(x, y, '%s[%d]' % (path, i))
        if d: return d
      return None
    if k == 'd':
      if len(a[1]) != len(b[1]): return '%s: %r / %r' % (path, a, b)
      for x, y in zip(a[1], b[1]):
        if x[0] == y[0] == ('s', 'tag_id'): WILDS[0] += 1; continue
        d = same(x[0], y[0], path + '.key') or same(x[1], y[1], '%s[%r]' % (path, x[0]))
        if d: return d
      return None
    if k == 'o':
      if a[1] != b[1]: return '%s: class %s / %s' % (path, a[1], b[1])
      for n in sorted(set(a[2]) | set(b[2])):
        if n.startswith('_err') or n in ('_schema', '_au'): continue
        if n == 'tag_id': WILDS[0] += 1; continue        # drawn at random
        if n not in a[2] or n not in b[2]: return '%s.%s: only in the %s' % (path, n, 'engine' if n in a[2] else 'real object')
        d = same(a[2][n], b[2][n], '%s.%s' % (path, n))
        if d: return d
      return None
    return None if a == b else '%s: %r / %r' % (path, a, b)
  return None if a == b and type(a) is type(b) else '%s: %r / %r' % (path, a, b)



def exact(o):
  """The engine's outcome is the real one: no contract stands for a body, no loop is abstracted."""
  return not o.uses and not getattr(o, 'loop_rules', None) and o.id not in EXCLUDED


def path_model(c, G, seed):
  """A model of the path condition: random values of some inputs, short runs of bytes where possible. Leaves scopes on the solver."""
  s = c.solver
  rng = random.Random(seed)
  ints = [(n, v) for n, v in sorted(G.leaves.items()) if isinstance(v, SInt) and v.kind == 'bv']
  rng.shuffle(ints)
  for n, v in ints[:4]:
    lo, hi = bounds(v)
    s.push(); s.add(as_z3bool(scmp('==', v, rng.choice([lo, hi, rng.randint(lo, hi)]))))
    if s.check() != z3.sat: s.pop()
  lens = [x.length for v in G.leaves.values() if isinstance(v, list) for x in v if isinstance(x, SymSeg) and isinstance(x.length, SInt)]
  for k in ([2, 8, 40, 256, None] if lens else [None]):
    s.push()
    if k is not None:
      for l in lens: s.add(as_z3bool(scmp('<=', l, k)))
    if s.check() == z3.sat: return s.model()
    s.pop()
  return None


class Paths(object):
  """Inputs (and predicted outcomes) of some paths of one obligation."""
  def __init__(self, it, ob, limit): self.it = it; self.ob = ob; self.limit = limit; self.got = []; self.seen = 0

  def __call__(self, c, G, script, out):
    self.seen += 1
    if len(self.got) >= self.limit or (self.limit < 10 and len(self.got) >= 2 and self.seen & (self.seen - 1)): return    # spread over the exploration
    s = c.solver; depth = s.num_scopes()
    s.set('timeout', 1000)
    try:
      m = path_model(c, G, '%s %d' % (self.ob.id, self.seen))
      if m is None: return
      leaves = vc.conc_leaves(m, G)
      if leaves is None or any(isinstance(x, list) and len(x) > 3000 for x in leaves.values()): return
      exp = None
      if exact(self.ob) and not c.notes:      # no uninterpreted checksum, no undetermined equality of runs
        exp = []
        for n in out.order:
          k, v = out.steps[n]
          exp.append((n, k, exc(v) if k == 'exc' else view(self.it, m, out.seen[n], {})))
      self.got.append((script, leaves, exp))
    except (Unsupported, PathAbort, Budget, z3.Z3Exception, TypeError, KeyError, AttributeError): pass
    finally:
      while s.num_scopes() > depth: s.pop()
      s.set('timeout', c.timeout_ms if hasattr(c, 'timeout_ms') else 15000)


def tup(x):
  """Back from JSON."""
  if isinstance(x, list): return tuple(tup(y) for y in x)
  if isinstance(x, dict): return {k: tup(v) for k, v in x.items()}
  return x


def norm(x):
  """Lists and tuples alike (the views pass through JSON)."""
  return tup(x) if isinstance(x, (list, dict)) else tuple(norm(y) for y in x) if isinstance(x, tuple) else x


def differs(script, exp, res):
  """None, or where prediction and real run differ."""
  for i, (n, k, v) in enumerate(exp):
    st = res[i] if i < len(res) else None
    if st is None or st['let'] != n: return 'steps differ at ' + n
    if i < len(script) and script[i].get('quiet') and 'exc' not in st: continue
    d = same(norm(v), norm(real(st['exc'] if 'exc' in st else st['val'])), n)
    if d: return d
  return None
