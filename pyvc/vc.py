"""Obligations: a scenario (a script over the real API with symbolic leaves) and a judge (the contract).

The same script runs in the engine (all inputs at once, every path) and under Jython on the real code (one input);
the same judge decides both."""
import json, time, random, sys, traceback
import z3
from sym import *
from values import *
import builtins_py2 as bt
from interp import Interp, is_str, Opaque


# ---------------------------------------------------------------- generators of leaves
class SymGen(object):
  """Leaves are fresh symbolic constants; every structural choice is explored."""
  symbolic = True

  def __init__(self, it): self.it = it; self.leaves = {}; self.kinds = {}

  def _add(self, name, kind, v):
    assert name not in self.leaves, name
    self.leaves[name] = v; self.kinds[name] = kind
    return ["leaf", name]

  def int(self, name, lo, hi): return self._add(name, ('int', lo, hi), Ctx.cur.fresh_int(name, lo, hi))
  def bool(self, name): return self._add(name, ('bool',), Ctx.cur.fresh_bool(name))

  def enum(self, name, path, only=None):
    cls = self.it.get(path)
    ms = []
    for m in cls.members.values():
      if m not in ms and (only is None or m.d['name'] in only): ms.append(m)
    if all(type(m.d['value']) is int for m in ms) and len(ms) > 1:
      vals = sorted(m.d['value'] for m in ms)
      v = Ctx.cur.fresh_int(name, vals[0], vals[-1])
      if len(vals) != vals[-1] - vals[0] + 1: Ctx.cur.assume(as_z3bool(sor(*[scmp('==', v, x) for x in vals])))
      return self._add(name, ('enum', path), SEnum(cls, v))
    k = Ctx.cur.choose(len(ms))
    return self._add(name, ('enum', path), ms[k])

  def bytes(self, name, lo, hi):
    """A list of byte values whose length is symbolic in [lo, hi]."""
    c = Ctx.cur
    if lo == hi and hi <= 64:
      return self._add(name, ('bytes', lo, hi), [c.fresh_int('%s_%d' % (name, i), 0, 255) for i in range(hi)])
    n = c.fresh_int(name + '_len', lo, hi)
    f = z3.Function(c.fresh_name(name), z3.BitVecSort(40), z3.BitVecSort(8))
    def at(i):
      return SInt(z3.ZeroExt(1, f(to_bv(sinty(i), 40))), 0, 255)
    return self._add(name, ('bytes', lo, hi), [SymSeg(n, at, ('slice', f.name(), 0), 'int', f.name(), 0)])

  def bytes_like(self, name, lo, hi, maker): return self.bytes(name, lo, hi)

  fixed = {}
  def choice(self, name, n):
    k = self.fixed[name] if name in self.fixed else Ctx.cur.choose(n)
    self.leaves['#' + name] = k
    return k

  def derive(self, name, items):
    """A byte list computed by the specification."""
    return self._add(name, ('derived',), list(items))

  def derive_int(self, name, v): return self._add(name, ('derived',), sinty(v))

  def assume(self, c):
    c = c if isinstance(c, (bool, SBool)) else bool(c)
    if isinstance(c, bool):
      if not c: raise PathAbort()
      return
    Ctx.cur.assume_feasible(as_z3bool(c))

  def val(self, leaf): return self.leaves[leaf[1]]
  def length(self, leaf): return seq_len(self.leaves[leaf[1]])


class Reject(Exception): pass


class RandGen(object):
  """Leaves are concrete: edge values first, then random (the bounded stand-in and the conformance runs)."""
  symbolic = False

  def __init__(self, it, rng, maxlen=48): self.it = it; self.rng = rng; self.leaves = {}; self.kinds = {}; self.maxlen = maxlen

  def _add(self, name, kind, v):
    self.leaves[name] = v; self.kinds[name] = kind
    return ["leaf", name]

  def int(self, name, lo, hi):
    r = self.rng
    m = r.random()
    if m < 0.35:
      span = hi - lo
      cands = [lo, hi, lo + 1, hi - 1, 0, 1, -1] + [lo + (1 << k) for k in range(span.bit_length())] + [(1 << k) - 1 for k in range(70)] + [(1 << k) for k in range(70)]
      cands = [c for c in cands if lo <= c <= hi]
      v = r.choice(cands)
    elif m < 0.6: v = lo + (r.getrandbits(max(1, r.randint(1, max(1, (hi - lo).bit_length())))) % (hi - lo + 1))
    else: v = r.randint(lo, hi)
    return self._add(name, ('int', lo, hi), v)

  def bool(self, name): return self._add(name, ('bool',), self.rng.random() < 0.5)

  def enum(self, name, path, only=None):
    cls = self.it.get(path)
    ms = [m for k, m in cls.members.items() if m.d['name'] == k and (only is None or k in only)]
    return self._add(name, ('enum', path), self.rng.choice(ms))

  def bytes(self, name, lo, hi):
    r = self.rng
    h = min(hi, max(lo, self.maxlen))
    m = r.random()
    if m < 0.25: n = r.choice([lo, min(lo + 1, h), h, min(h, lo + 8)])
    elif m < 0.3 and hi > h: n = min(hi, r.choice([63, 64, 65, 255, 256, 257]))
    else: n = r.randint(lo, h)
    n = max(lo, n)
    b = [r.choice([0, 255, 0xC0, 0x7f, 0x80]) if r.random() < 0.2 else r.randrange(256) for _ in range(n)]
    return self._add(name, ('bytes', lo, hi), b)

  def bytes_like(self, name, lo, hi, maker):
    """Random bytes from a generator that knows what is interesting."""
    return self._add(name, ('bytes', lo, hi), [int(x) for x in maker(self.rng)])

  fixed = {}
  def choice(self, name, n):
    k = self.fixed[name] if name in self.fixed else self.rng.randrange(n)
    self.leaves['#' + name] = k
    return k

  def derive(self, name, items):
    return self._add(name, ('derived',), [int(x) for x in items])

  def derive_int(self, name, v): return self._add(name, ('derived',), int(v))

  def assume(self, c):
    if not bool(c): raise Reject()

  def val(self, leaf): return self.leaves[leaf[1]]
  def length(self, leaf): return len(self.leaves[leaf[1]])


# ---------------------------------------------------------------- scripts in the engine
class Outcome(object):
  def __init__(self): self.steps = {}; self.order = []
  def ok(self, k): return k in self.steps and self.steps[k][0] == 'ok'
  def exc(self, k): return self.steps[k][1] if k in self.steps and self.steps[k][0] == 'exc' else None
  def __getitem__(self, k):
    if self.steps[k][0] != 'ok': raise KeyError(k)
    return self.steps[k][1]


def leaf_value(v):
  if isinstance(v, list): return PList(v)
  return v


class ScriptRunner(object):
  observe = None
  def __init__(self, it, leaves): self.it = it; self.leaves = leaves; self.env = {}

  def ev(self, e):
    it = self.it
    k = e[0]
    if k == 'leaf': return leaf_value(self.leaves[e[1]])
    if k == 'var': return self.env[e[1]]
    if k == 'lit':
      v = e[1]
      return v
    if k == 'none': return None
    if k == 'name': return it.builtins[e[1][12:]] if e[1].startswith('__builtin__.') else it.get(e[1])
    if k == 'enum': return it.getitem(it.get(e[1]), e[2])
    if k == 'list': return PList([self.ev(x) for x in e[1]])
    if k == 'call':
      f = self.ev(e[1]); a = [self.ev(x) for x in e[2]]; kw = {n: self.ev(x) for n, x in sorted((e[3] if len(e) > 3 else {}).items())}
      return it.call(f, a, kw)
    if k == 'attr': return it.getattr(self.ev(e[1]), e[2])
    if k == 'method':
      o = self.ev(e[1]); a = [self.ev(x) for x in e[3]]; kw = {n: self.ev(x) for n, x in sorted((e[4] if len(e) > 4 else {}).items())}
      return it.call_method(o, e[2], a, kw)
    if k == 'setattr':
      it.setattr(self.ev(e[1]), e[2], self.ev(e[3])); return None
    if k == 'tolist': return PList(it.iter_items(self.ev(e[1])))
    if k == 'tobytearray': return it.call(it.builtins['bytearray'], [self.ev(e[1])], {})
    if k == 'tobytes':    # a byte string from a list of byte values
      v = self.ev(e[1])
      return SStr(bt.byte_items(it, v)).norm()
    if k == 'stream':
      v = self.ev(e[1])
      return it.call(it.import_module('bitstring').dict['ConstBitStream'], [], {'bytes': PBytearray(bt.byte_items(it, v))})
    if k == 'concat':
      out = []
      for x in e[1]: out.extend(it.iter_items(self.ev(x)))
      return PList(out)
    if k == 'eq': return it.eq(self.ev(e[1]), self.ev(e[2]))
    if k == 'ne': return it.ne(self.ev(e[1]), self.ev(e[2]))
    if k == 'str': return it.str_of(self.ev(e[1]))
    if k == 'len': return it.len_(self.ev(e[1]))
    if k == 'item': return it.getitem(self.ev(e[1]), self.ev(e[2]))
    if k == 'bytestr': return e[1]
    raise Exception("script form " + k)

  def run(self, script):
    out = Outcome()
    for st in script:
      name = st['let']
      try:
        v = self.ev(st['expr'])
        if isinstance(v, GenV): v = PList(self.it.iter_items(v))
        self.env[name] = v
        if self.observe is not None: self.observe(self.it, out, name, v)
        out.steps[name] = ('ok', snapshot(self.it, v) if st.get('snap') else v)
        out.order.append(name)
      except PyRaise as e:
        out.steps[name] = ('exc', e.exc)
        out.order.append(name)
        if not st.get('try'): break
    return out


def snapshot(it, v, memo=None):
  if memo is None: memo = {}
  if id(v) in memo: return memo[id(v)]
  if isinstance(v, Obj):
    if v.cls.is_enum: return v
    o = Obj(v.cls); memo[id(v)] = o
    o.d = {k: snapshot(it, x, memo) for k, x in v.d.items()}
    return o
  if isinstance(v, HexL): return v
  if isinstance(v, (PList, PBytearray)):
    o = type(v)([]); memo[id(v)] = o
    o.items = [snapshot(it, x, memo) for x in v.items]
    return o
  if isinstance(v, PDict):
    o = PDict(); memo[id(v)] = o
    o.d = {k: (kk, snapshot(it, x, memo)) for k, (kk, x) in v.d.items()}
    return o
  if isinstance(v, tuple): return tuple(snapshot(it, x, memo) for x in v)
  return v


class HexL(object): pass


# ---------------------------------------------------------------- exploration
class Verdict(object):
  def __init__(self):
    self.paths = 0; self.checks = 0; self.queries = 0; self.solver_s = 0.0; self.aborted = 0
    self.refuted = []; self.undecided = []; self.covers = {}; self.labels = {}
    self.called = {}
    self.seconds = 0.0

  @property
  def status(self):
    if self.refuted: return 'refuted'
    if self.undecided: return 'undecided'
    if self.checks == 0: return 'vacuous'
    return 'proved'


class Restart(Exception):
  """A rule has learnt something about the loop it abstracts: the exploration starts again."""


class PathDone(Exception):
  """The path ends here: a loop body has been shown to preserve its invariant."""


def refute(c, neg):
  """Look for a model of neg = not (a and b ...): the conjuncts one by one."""
  def flat(e): return [y for x in e.children() for y in flat(x)] if z3.is_and(e) else [e]
  parts = [z3.Not(x) for x in flat(neg.arg(0))] if z3.is_not(neg) else [neg]
  res = z3.unsat, neg
  for p in parts:
    r = c._check(p)
    if r == z3.sat: return r, p
    if r == z3.unknown: res = r, p
  return res


def prove(label, cond):
  """An obligation inside a rule or contract (invariant, precondition), decided where it arises."""
  c = Ctx.cur
  if cond is True: c.side.append((label, 'ok')); return
  neg = z3.BoolVal(True) if cond is False else z3.Not(as_z3bool(cond))
  r, neg = refute(c, neg)
  if r == z3.unsat: c.side.append((label, 'ok'))
  elif r == z3.unknown: c.side.append((label, 'unknown'))
  else: c.side.append((label, small_model(c, neg, c.G)))


class Judge(object):
  """Collects the postconditions of one path."""
  def __init__(self, it): self.it = it; self.conds = []; self.covers = set()
  def check(self, label, c): self.conds.append((label, c))
  def cover(self, label): self.covers.add(label)
  def fail(self, label): self.conds.append((label, False))


def explore(it, ob, timeout=60.0, max_paths=4000, max_refuted=3, verbose=False, deadline=None, start=((),), share=None):
  """Every path of the obligation below the given decision prefixes. share(prefixes): may take some of them to another process."""
  V = Verdict()
  t0 = time.time()
  if deadline is None: deadline = t0 + timeout
  work = [list(x) for x in start]
  restarts = 0
  while work:
    if share is not None: share(work, V.paths)
    prefix = work.pop()
    c = Ctx(prefix, timeout_ms=int(min(20.0, timeout) * 1000), deadline=deadline)
    Ctx.cur = c
    it.steps = 0; it.depth = 0; it.stack = []; it.map_probe = None; it.called = V.called
    try:
      V.paths += 1
      if V.paths > max_paths: raise Budget("more than %d paths" % max_paths)
      G = c.G = SymGen(it)
      script, ghost = ob.build(G)
      R = ScriptRunner(it, G.leaves)
      out = R.run(script)
      J = Judge(it)
      ob.judge(J, out, G, ghost)
      for k in J.covers: V.covers[k] = V.covers.get(k, 0) + 1
      for label, cond in J.conds:
        V.checks += 1
        V.labels[label] = V.labels.get(label, 0) + 1
        if cond is True: continue
        neg = z3.BoolVal(True) if cond is False else z3.Not(as_z3bool(cond))
        r, neg = refute(c, neg)
        if r == z3.unsat: continue
        if r == z3.unknown:
          V.undecided.append("%s: solver %s" % (label, c.solver.reason_unknown())); continue
        if len(V.refuted) < max_refuted:
          V.refuted.append((label, small_model(c, neg, G)))
        else: V.refuted.append((label, None))
      if getattr(ob, 'on_path', None) is not None: ob.on_path(c, G, script, out)
    except PathDone: pass
    except Restart:
      undo(c)
      if share is not None: raise
      restarts += 1
      if restarts > 40: V.undecided.append("too many restarts of a loop rule"); break
      V.paths = V.checks = 0; V.refuted = []; V.undecided = []; V.labels = {}; V.covers = {}
      work = [[]]
      continue
    except PathAbort:
      V.aborted += 1
    except Unsupported as e:
      msg = "%s (line %s of %s)" % (e, it.cur_line, it.stack_note if hasattr(it, 'stack_note') else '?')
      V.undecided.append(msg)
      if verbose: traceback.print_exc()
    except Budget as e:
      V.undecided.append("budget: %s" % e)
      V.queries += c.queries; V.solver_s += c.solver_s
      undo(c)
      break
    except RecursionError:
      V.undecided.append("recursion limit of the engine")
    except z3.Z3Exception as e:
      V.undecided.append("solver: %s" % e)
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
      # an engine limitation met by changed code: undecided, never a refutation
      V.undecided.append("engine: %s: %s" % (type(e).__name__, e))
      if verbose: traceback.print_exc()
    for label, verdict in c.side:
      V.checks += 1
      V.labels[label] = V.labels.get(label, 0) + 1
      if verdict == 'ok': continue
      if verdict == 'unknown': V.undecided.append("%s: solver unknown" % label)
      elif len(V.refuted) < max_refuted: V.refuted.append((label, verdict))
      else: V.refuted.append((label, None))
    V.queries += c.queries; V.solver_s += c.solver_s
    undo(c)
    work.extend(reversed(c.pending))
    if len(V.refuted) >= max_refuted: break
    if len(V.undecided) > 40: break
  Ctx.cur = None
  V.seconds = time.time() - t0
  return V


def undo(c):
  for f in reversed(c.undo): f()
  c.undo = []
  Ctx.cur = None


def small_model(c, neg, G):
  """A model of the failed condition with short byte runs where possible; returns concrete leaves."""
  s = c.solver
  s.push()
  try:
    s.add(neg)
    lens = []
    for n, v in G.leaves.items():
      if isinstance(v, list):
        for x in v:
          if isinstance(x, SymSeg) and isinstance(x.length, SInt): lens.append(x.length)
    best = None
    for k in ([0, 1, 2, 4, 8, 16, 40, 64, 256, None] if lens else [None]):
      s.push()
      try:
        if k is not None:
          for l in lens: s.add(as_z3bool(scmp('<=', l, k)))
        if c._check() == z3.sat: best = s.model()
      except Budget: pass
      finally: s.pop()
      if best is not None: break
    if best is None: return None
    return conc_leaves(best, G)
  except (Budget, Unsupported, z3.Z3Exception): return None
  finally: s.pop()


def conc_leaves(m, G):
  out = {}
  for n, v in G.leaves.items():
    if isinstance(v, list):
      r = []
      for x in v:
        if isinstance(x, SymSeg):
          k = evalm(m, x.length)
          if k > 70000: return None
          r.extend(evalm(m, x.at(i)) for i in range(k))
        else: r.append(evalm(m, x))
      out[n] = r
    elif isinstance(v, SEnum):
      val = evalm(m, v.val)
      out[n] = [mm for mm in v.cls.members.values() if mm.d['value'] == val][0]
    else: out[n] = evalm(m, v)
  return out


# ---------------------------------------------------------------- concrete runs
class FixedGen(object):
  """Replays given leaves through build()."""
  symbolic = False

  def __init__(self, it, leaves, choices): self.it = it; self.given = leaves; self.leaves = {}; self.kinds = {}; self.choices = list(choices)

  def _add(self, name, kind):
    self.leaves[name] = self.given[name]; self.kinds[name] = kind
    return ["leaf", name]
  def int(self, name, lo, hi): return self._add(name, ('int', lo, hi))
  def bool(self, name): return self._add(name, ('bool',))
  def enum(self, name, path, only=None): return self._add(name, ('enum', path))
  def bytes(self, name, lo, hi): return self._add(name, ('bytes', lo, hi))
  def bytes_like(self, name, lo, hi, maker): return self._add(name, ('bytes', lo, hi))
  def choice(self, name, n):
    self.leaves['#' + name] = self.given['#' + name]
    return self.given['#' + name]
  def derive(self, name, items):
    self.leaves[name] = [int(x) for x in items]; self.kinds[name] = ('derived',)
    return ["leaf", name]
  def derive_int(self, name, v):
    self.leaves[name] = int(v); self.kinds[name] = ('derived',)
    return ["leaf", name]
  def assume(self, c):
    if not bool(c): raise Reject()
  def val(self, leaf): return self.leaves[leaf[1]]
  def length(self, leaf): return len(self.leaves[leaf[1]])


def json_leaf(v):
  if isinstance(v, Obj): return {"e": [v.cls.module + '.' + v.cls.name, v.d['name']]}
  return v


def conc_script(script, leaves):
  """The script with its leaves filled in (plain JSON for the Jython driver)."""
  def f(e):
    if isinstance(e, list):
      if len(e) == 2 and e[0] == 'leaf' and isinstance(e[1], str):
        v = leaves[e[1]]
        if isinstance(v, Obj): return ["enum", v.cls.module + '.' + v.cls.name, v.d['name']]
        if isinstance(v, list): return ["intlist", v]
        return ["lit", v]
      return [f(x) for x in e]
    if isinstance(e, dict): return {k: f(x) for k, x in e.items()}
    return e
  return f(script)


def decode(it, j, memo):
  """A value dumped by the Jython driver, as an engine value."""
  if j is None or isinstance(j, bool): return j
  k, v = next(iter(j.items())) if len(j) == 1 else (None, None)
  if 'o' in j:
    cls = find_class(it, j['c'])
    o = Obj(cls); memo[j['o']] = o
    for n, x in j['a'].items(): o.d[n] = decode(it, x, memo)
    return o
  if 'ref' in j: return memo[j['ref']]
  if 'x' in j: return decode_exc(it, j)
  if k == 'i': return int(v)
  if k == 'f': return float(v)
  if k == 's': return v
  if k == 'u': return U(v)
  if k == 'ba': return PBytearray(v)
  if k == 'l': return PList([decode(it, x, memo) for x in v])
  if k == 'il': return PList(v)
  if k == 't': return tuple(decode(it, x, memo) for x in v)
  if k == 'd':
    d = PDict()
    for a, b in v:
      a = decode(it, a, memo)
      try: d.d[hkey(a)] = (a, decode(it, b, memo))
      except Unsupported: pass
    return d
  if k == 'e':
    cls = find_class(it, v[0])
    return cls.members[v[1]]
  if k == 'c': return find_class(it, v)
  return Opaque('value ' + str(j)[:80])


def find_class(it, q):
  m, n = q.rsplit('.', 1)
  if m in it.asts:
    c = it.import_module(m).dict.get(n)
    if isinstance(c, ClassV): return c
  return ClassV(n, [it.builtins['object']], {}, m)


def decode_exc(it, j):
  name = j['x']
  cls = None
  if name in it.exc_classes and not j['q'].startswith('d7a'): cls = it.exc_classes[name]
  elif j['q'].startswith('bitstring'): cls = it.import_module('bitstring').dict.get(name)
  else:
    m = j['q'].rsplit('.', 1)[0]
    if m in it.asts: cls = it.import_module(m).dict.get(name)
  if cls is None:
    b = [it.exc_classes[n] for n in j['mro'] if n in it.exc_classes][:1] or [it.exc_classes['Exception']]
    cls = ClassV(name, b, {}, '?'); cls.is_exc = True
  o = Obj(cls); o.d['args'] = tuple(['?'] * j.get('n', 0)); o.d['text'] = j.get('text', '')
  return o


def decode_outcome(it, res):
  out = Outcome()
  memo = {}
  for st in res:
    if 'exc' in st: out.steps[st['let']] = ('exc', decode_exc(it, st['exc']))
    else: out.steps[st['let']] = ('ok', decode(it, st['val'], {}))
    out.order.append(st['let'])
  return out


def judge_concrete(it, ob, G, ghost, out):
  """Failed labels of a concrete outcome."""
  c = Ctx([], deadline=time.time() + 60)
  Ctx.cur = c
  it.steps = 0; it.depth = 0; it.map_probe = None
  try:
    J = Judge(it)
    ob.judge(J, out, G, ghost)
    bad = []
    for label, cond in J.conds:
      if isinstance(cond, SBool): cond = bool(cond)
      if not cond: bad.append(label)
    return bad, J.covers
  finally:
    undo(c)
