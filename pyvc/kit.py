"""Specification kit: declarative field domains, byte layouts, and scenarios (contracts over the real API)."""
import time
from sym import *
from values import *
import builtins_py2 as bt
from vc import *


# ---------------------------------------------------------------- byte layout helpers (spec functions)
def bits(*fs):
  """Big-endian packing of (width, value) pairs; the total width is a multiple of 8."""
  out = []; acc = 0; w = 0
  for n, v in fs:
    v = sinty(v)
    acc = (acc << n) | v if not (isinstance(acc, int) and acc == 0) else v
    w += n
    if w % 8 == 0:
      for k in range(w // 8): out.append((acc >> (w - 8 - 8 * k)) & 0xFF)
      acc = 0; w = 0
  assert w == 0
  return out

def be(v, n): return [(sinty(v) >> (8 * (n - 1 - k))) & 0xFF for k in range(n)]
def le(v, n): return be(v, n)[::-1]
def ite(c, a, b):
  """if-then-else on integers without forking."""
  if isinstance(c, bool): return a if c else b
  a, b = sinty(a), sinty(b)
  (al, ah), (bl, bh) = bounds(a), bounds(b)
  lo, hi = min(al, bl), max(ah, bh)
  w = need(lo, hi)
  return mk(z3.If(c.b, to_bv(a, w), to_bv(b, w)), lo, hi)


class V(object):
  """A specification-level value (view) of an object."""
  def __init__(self, **kw): self.__dict__.update(kw)
  def __repr__(self): return "V(%s)" % ', '.join('%s=%r' % x for x in sorted(self.__dict__.items()))


class Mismatch(Exception): pass


# ---------------------------------------------------------------- field domains
class Int(object):
  def __init__(self, lo, hi): self.lo, self.hi = lo, hi
  def gen(self, G, n):
    l = G.int(n, self.lo, self.hi); return l, G.val(l)
  def view_of(self, it, o):
    if isinstance(o, bool) or not is_intlike(o): raise Mismatch()
    return o
  def valid(self, it, v): return sand(scmp('>=', v, self.lo), scmp('<=', v, self.hi))
  def same(self, it, o, v):
    if not is_intlike(o) or isinstance(o, (bool, SBool)): return False
    return scmp('==', o, v)

def U8(): return Int(0, 255)


class Bool(object):
  def gen(self, G, n):
    l = G.bool(n); return l, G.val(l)
  def view_of(self, it, o):
    if not isinstance(o, (bool, SBool)): raise Mismatch()
    return o
  def valid(self, it, v): return True
  def same(self, it, o, v):
    if isinstance(o, (bool, SBool)) and isinstance(v, (bool, SBool)):
      return it.as_bool(it.eq(o, v))
    return False


class Enum(object):
  def __init__(self, path, only=None): self.path, self.only = path, only
  def gen(self, G, n):
    l = G.enum(n, self.path, self.only); return l, G.val(l)
  def view_of(self, it, o):
    if not isinstance(o, (Obj, SEnum)) or o.cls is not it.get(self.path): raise Mismatch()
    return o
  def valid(self, it, v):
    if self.only is None: return True
    if isinstance(v, SEnum):
      ok = [m.d['value'] for m in v.cls.members.values() if m.d['name'] in self.only]
      return sor(*[scmp('==', v.val, x) for x in ok])
    return v.d['name'] in self.only
  def same(self, it, o, v):
    if not isinstance(o, (Obj, SEnum)): return False
    return it.as_bool(it.enum_eq(o, v))


def ev(e):
  """Integer value of an enum member of a view."""
  return e.val if isinstance(e, SEnum) else e.d['value']


class Const(object):
  """A fixed value (not passed to the constructor unless expr given)."""
  def __init__(self, value): self.value = value
  def gen(self, G, n): return ["lit", self.value], self.value
  def view_of(self, it, o): return o
  def valid(self, it, v): return True
  def same(self, it, o, v):
    if v is None: return o is None
    return it.as_bool(it.eq(o, v))


class Bytes(object):
  """A list of byte values."""
  def __init__(self, lo=0, hi=64): self.lo, self.hi = lo, hi
  def gen(self, G, n):
    l = G.bytes(n, self.lo, self.hi); return l, G.val(l)
  def view_of(self, it, o):
    try: return bt.byte_items(it, o)
    except PyRaise: raise Mismatch()
  def valid(self, it, v):
    n = seq_len(v)
    return sand(scmp('>=', n, self.lo), scmp('<=', n, self.hi))
  def same(self, it, o, v):
    if not isinstance(o, (PList, PBytearray)): return False
    return items_same(it, o.items, v)


def items_same(it, a, v):
  if any(not isinstance(x, (int, SInt, SymSeg, SBool)) for x in a): return False
  return it.as_bool(bt.items_eq(it, list(a), list(v)))


class Ascii(object):
  """A text of lo..hi ASCII characters (the view: its codes)."""
  def __init__(self, lo, hi): self.lo, self.hi = lo, hi
  def gen(self, G, n):
    k = self.lo + G.choice(n + '#', self.hi - self.lo + 1)
    cs = [G.val(G.int('%s[%d]' % (n, i), 0, 127)) for i in range(k)]
    return ["tobytes", G.derive(n, cs)], cs
  def view_of(self, it, o):
    if not is_str(o): raise Mismatch()
    return bt.codes(bt.lower(o))
  def valid(self, it, v): return sand(self.lo <= len(v) <= self.hi, *[scmp('<', x, 128) for x in v])
  def same(self, it, o, v):
    if not is_str(o): return False
    return it.as_bool(bt.items_eq(it, bt.codes(bt.lower(o)), list(v)))


class Nullable(object):
  def __init__(self, f): self.f = f
  def gen(self, G, n):
    if G.choice(n + '?', 2): return self.f.gen(G, n)
    return ["none"], None
  def view_of(self, it, o): return None if o is None else self.f.view_of(it, o)
  def valid(self, it, v): return True if v is None else self.f.valid(it, v)
  def same(self, it, o, v):
    if v is None or o is None: return v is None and o is None
    return self.f.same(it, o, v)


class OneOf(object):
  """A union of codecs, told apart by class."""
  def __init__(self, *cs): self.cs = cs
  def gen(self, G, n):
    k = G.choice(n + '|', len(self.cs))
    e, v = self.cs[k].gen(G, n)
    return e, v
  def pick(self, it, v):
    for c in self.cs:
      if c is v.codec or getattr(c, 'c', None) is v.codec: return c
    raise Mismatch()
  def view_of(self, it, o):
    for c in self.cs:
      if isinstance(o, Obj) and o.cls is it.get(c.path):
        return c.view_of(it, o)
    raise Mismatch()
  def valid(self, it, v): return self.pick(it, v).valid(it, v)
  def same(self, it, o, v): return self.pick(it, v).same(it, o, v)
  def enc(self, v): return v.codec.enc(v)
  def wire(self, v): return v.codec.wire(v)


class Codec(object):
  """The specification of one class: constructor fields, the byte layout, and (optionally) a class invariant."""
  path = None
  fields = ()          # (attribute, domain) or (attribute, domain, constructor keyword)
  parse = True         # has parse(stream)
  notparsed = ()       # attributes parse() does not restore
  extra_parse = ()     # script arguments of parse before the stream

  def __init__(self, **kw):
    for k, v in kw.items(): setattr(self, k, v)

  def inv(self, v): return True
  def enc(self, v): raise NotImplementedError
  def wire(self, v):
    """The bytes as received (where they differ from the serialized ones)."""
    return self.enc(v)
  def seen(self, v):
    """The view after decoding (what a round trip must restore)."""
    return v

  def ctor(self): return ["name", self.path]
  def kwargs(self, es): return es

  def gen(self, G, n=''):
    es, v = {}, V(codec=self)
    for f in self.fields:
      e, x = f[1].gen(G, (n + '.' if n else '') + f[0])
      kw = f[2] if len(f) > 2 else f[0]
      if kw is not None: es[kw] = e
      setattr(v, f[0], x)
    c = self.inv(v)
    if c is not True: G.assume(c)
    return ["call", self.ctor(), [], self.kwargs(es)], v

  def view_of(self, it, o):
    if not isinstance(o, Obj) or o.cls is not it.get(self.path): raise Mismatch()
    v = V(codec=self)
    for f in self.fields:
      try: x = it.getattr(o, f[0])
      except PyRaise: raise Mismatch()
      setattr(v, f[0], f[1].view_of(it, x))
    return v

  def valid(self, it, v):
    r = True
    for f in self.fields: r = sand(r, f[1].valid(it, getattr(v, f[0])))
    return sand(r, self.inv(v))

  def same(self, it, o, v, parsed=False):
    if not isinstance(o, Obj) or o.cls is not it.get(self.path): return False
    r = True
    for f in self.fields:
      if parsed and f[0] in self.notparsed: continue
      try: x = it.getattr(o, f[0])
      except PyRaise: return False
      r = sand(r, f[1].same(it, x, getattr(v, f[0])))
      if r is False: return False
    return r

  def parse_expr(self, s): return ["method", ["name", self.path], "parse", list(self.extra_parse) + [s]]


class StepFailed(Exception): pass


class Out(object):
  """Read access to an outcome for the postconditions."""
  def __init__(self, it, out): self.it = it; self.o = out
  def __getitem__(self, k):
    if not self.o.ok(k): raise StepFailed(k)
    return self.o.steps[k][1]
  def ok(self, k): return self.o.ok(k)
  def exc(self, k): return self.o.exc(k)
  def has(self, k): return k in self.o.steps


class S(object):
  """One scenario under construction."""
  def __init__(self, G): self.G = G; self.it = G.it; self.script = []; self.posts = []

  def let(self, name, expr, may_fail=False, snap=False, quiet=False):
    """quiet: the value is not looked at."""
    st = {"let": name, "expr": expr}
    if quiet: st["quiet"] = True
    if may_fail: st["try"] = True
    if snap: st["snap"] = True
    self.script.append(st)
    return ["var", name]

  def ensure(self, label, f): self.posts.append((label, f))

  # -- common postconditions
  def ok(self, name, label=None):
    self.posts.append((label or 'no exception from ' + name, lambda o: o.ok(name)))

  def raises(self, name, classes=None, label=None):
    def f(o):
      e = o.exc(name)
      if e is None: return False
      if classes is None: return exc_is(o.it, e, ('Exception',)) and not exc_is(o.it, e, ('SystemExit', 'KeyboardInterrupt'))
      return exc_is(o.it, e, classes)
    self.posts.append((label or name + ' raises', f))

  def bytes_eq(self, name, items, label=None):
    """The step's value (bytearray / byte string / list of ints) is exactly these bytes."""
    self.posts.append((label or name + ' equals the specified bytes', lambda o: same_bytes(o.it, o[name], items() if callable(items) else items)))

  def same(self, name, codec, view, parsed=False, label=None):
    self.posts.append((label or name + ' has the specified field values', lambda o: codec.same(o.it, o[name], view, parsed) if isinstance(codec, Codec) else codec.same(o.it, o[name], view)))

  def value(self, name, v, label=None):
    self.posts.append((label or name + ' has the specified value', lambda o: same_value(o.it, o[name], v() if callable(v) else v)))

  def cover(self, label): self.posts.append((None, label))


def exc_is(it, e, names):
  return any(c.name in names for c in e.cls.mro)


def same_bytes(it, v, items):
  if isinstance(v, (str, SStr, SText)) and not isinstance(v, U): got = bt.byte_items(it, v)
  elif isinstance(v, (PBytearray, PList)): got = list(v.items)
  else: return False
  if any(not isinstance(x, (int, SInt, SymSeg, SBool)) for x in got): return False
  return it.as_bool(bt.items_eq(it, got, list(items)))


def same_value(it, a, b):
  if isinstance(b, (bool, SBool)) != isinstance(a, (bool, SBool)): return False
  if b is None or a is None: return a is b
  return it.as_bool(it.eq(a, b))


class Ob(object):
  """A named obligation: fn(S) builds the scenario and its postconditions."""
  def __init__(self, id, fn, funcs=(), timeout=60, covers=(), uses=(), max_paths=4000, cases=40, bounded_only=False, note=None, frame=True, maxlen=48, fixed=None):
    self.id = id; self.fn = fn; self.funcs = list(funcs); self.timeout = timeout; self.covers = list(covers)
    self.uses = list(uses); self.max_paths = max_paths; self.cases = cases; self.bounded_only = bounded_only; self.note = note
    self.frame = frame; self.maxlen = maxlen; self.fixed = fixed or {}

  def build(self, G):
    G.fixed = self.fixed
    s = S(G)
    self.fn(s)
    return s.script, s

  def judge(self, J, out, G, s):
    o = Out(J.it, out)
    for label, f in s.posts:
      if label is None: J.cover(f); continue
      try: r = f(o)
      except StepFailed: continue
      J.check(label, r)
