"""Heap values of the engine."""
import z3
from sym import *


class Poison(object):
  def __repr__(self): return "POISON"
POISON = Poison()


class U(str):
  """A Python 2 unicode string."""
  __slots__ = ()


class SymSeg(object):
  """A run of symbolic length inside a sequence. at(i) is the byte code / integer at index i."""
  __slots__ = ('length', 'at', 'key', 'kind', 'base', 'off')

  def __init__(self, length, at, key, kind='int', base=None, off=0):
    self.length = length; self.at = at; self.key = key; self.kind = kind
    self.base = base; self.off = off      # this run is base[off : off + length] of one named run of bytes

  def with_kind(self, kind):
    return SymSeg(self.length, self.at, self.key, kind, self.base, self.off)

  def slice(self, off, n):
    if isinstance(off, int) and off == 0 and n is self.length: return self
    at = self.at
    key = ('slice', self.key, ekey(off)) if self.base is None else ('slice', self.base, ekey(self.off + off))
    return SymSeg(n, lambda i: at(off + i), key, self.kind, self.base, self.off + off)

  def elem(self, i):
    v = self.at(i)
    if self.kind == 'char': return SStr([v]).norm()
    return v

  def __repr__(self): return "Seg[%s]" % (self.length,)


def ekey(x):
  if isinstance(x, SInt): return ('e', z3.simplify(x.e).sexpr())
  if isinstance(x, SBool): return ('e', z3.simplify(x.b).sexpr())
  return x


class Seq(object):
  __slots__ = ('items', 'epoch')

  def __init__(self, items=None):
    self.items = list(items) if items is not None else []
    self.epoch = Ctx.cur.epoch if Ctx.cur is not None else 0

  def has_sym(self):
    return any(isinstance(i, SymSeg) for i in self.items)

  def length(self):
    return seq_len(self.items)


class PList(Seq):
  __slots__ = ()


class PBytearray(Seq):
  __slots__ = ()


class SStr(Seq):
  """A byte string with symbolic characters (items: codes or SymSeg). Immutable."""
  __slots__ = ()

  def norm(self):
    if all(type(i) is int for i in self.items): return ''.join(map(chr, self.items))
    return self


class USStr(SStr):
  """A unicode string of symbolic ASCII characters."""
  __slots__ = ()

  def norm(self):
    if all(type(i) is int for i in self.items): return U(''.join(map(chr, self.items)))
    return self


class SText(object):
  """Formatted text with symbolic parts; parts: str or ('s', value, spec)."""
  __slots__ = ('parts',)

  def __init__(self, parts):
    out = []
    for p in parts:
      if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] = out[-1] + p
      elif p == '': continue
      else: out.append(p)
    self.parts = out

  def __repr__(self): return "SText(%r)" % (self.parts,)


def seq_len(items):
  n = 0
  c = 0
  for i in items:
    if isinstance(i, SymSeg): n = n + i.length
    else: c += 1
  return n + c if not isinstance(n, int) else n + c


class PDict(object):
  __slots__ = ('d', 'epoch', 'readonly')

  def __init__(self):
    self.d = {}          # hkey -> (key, value)
    self.epoch = Ctx.cur.epoch if Ctx.cur is not None else 0
    self.readonly = False


class PSet(object):
  __slots__ = ('d', 'epoch')

  def __init__(self):
    self.d = {}
    self.epoch = Ctx.cur.epoch if Ctx.cur is not None else 0


class ClassV(object):
  def __init__(self, name, bases, d, module=None):
    self.name = name; self.bases = list(bases); self.dict = d; self.module = module
    self.newstyle = any(b.newstyle for b in bases)
    self.native_new = None
    self.is_enum = any(b.is_enum for b in bases)
    self.is_intenum = any(b.is_intenum for b in bases)
    self.members = None
    self.is_exc = any(b.is_exc for b in bases)
    self.mro = self._mro()
    self.epoch = 0

  def _mro(self):
    if not self.newstyle:
      out = [self]
      for b in self.bases:
        for c in b.mro:
          if c not in out: out.append(c)
      return out
    seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
    out = [self]
    while True:
      seqs = [s for s in seqs if s]
      if not seqs: return out
      for s in seqs:
        c = s[0]
        if not any(c in t[1:] for t in seqs): break
      else: raise Unsupported("inconsistent class hierarchy " + self.name)
      out.append(c)
      for s in seqs:
        if s and s[0] is c: s.pop(0)

  def lookup(self, name):
    for c in self.mro:
      if name in c.dict: return c.dict[name]
    return None

  def has(self, name):
    return any(name in c.dict for c in self.mro)

  def subclass_of(self, other):
    return other in self.mro

  @property
  def qual(self):
    return (self.module + '.' if self.module else '') + self.name

  def __repr__(self): return "<class %s>" % self.qual


class Obj(object):
  __slots__ = ('cls', 'd', 'epoch', 'tag')

  def __init__(self, cls):
    self.cls = cls; self.d = {}
    self.epoch = Ctx.cur.epoch if Ctx.cur is not None else 0
    self.tag = None

  def __repr__(self):
    if self.cls.is_enum and 'name' in self.d: return "%s.%s" % (self.cls.name, self.d['name'])
    return "<%s>" % self.cls.name


class SEnum(object):
  """A symbolic member of an enum class, identified by its (unique integer) value."""
  __slots__ = ('cls', 'val')

  def __init__(self, cls, val):
    self.cls = cls; self.val = val

  def __repr__(self): return "SEnum(%s,%s)" % (self.cls.name, self.val)


class FuncV(object):
  def __init__(self, name, node, glob, defaults, closure, qual, module):
    self.name = name; self.node = node; self.glob = glob; self.defaults = defaults; self.closure = closure
    self.qual = qual; self.module = module
    self.cls = None
    self.attrs = {}

  def __repr__(self): return "<function %s>" % self.qual


class BoundMethod(object):
  __slots__ = ('func', 'self_')

  def __init__(self, func, self_):
    self.func = func; self.self_ = self_


class Builtin(object):
  """A native callable: fn(interp, args, kwargs)."""
  __slots__ = ('name', 'fn')

  def __init__(self, name, fn):
    self.name = name; self.fn = fn

  def __repr__(self): return "<builtin %s>" % self.name


class StaticV(object):
  def __init__(self, f): self.f = f


class ClassMV(object):
  def __init__(self, f): self.f = f


class PropertyV(object):
  def __init__(self, fget, fset=None): self.fget = fget; self.fset = fset


class SuperV(object):
  __slots__ = ('cls', 'obj')

  def __init__(self, cls, obj): self.cls = cls; self.obj = obj


class ModuleV(object):
  def __init__(self, name, d=None, file=None):
    self.name = name; self.dict = d if d is not None else {}; self.file = file
    self.native = False

  def __repr__(self): return "<module %s>" % self.name


class GenV(object):
  """A generator: evaluated to completion when first consumed."""
  __slots__ = ('run', 'items')

  def __init__(self, run): self.run = run; self.items = None

  def force(self):
    if self.items is None:
      self.items = self.run()
    r, self.items = self.items, []
    return r


class Native(object):
  """A modelled library object: getattr(interp, name) / setattr / call."""
  epoch = 0
  cls_name = 'native'

  def getattr(self, interp, name):
    m = getattr(self, 'm_' + name, None)
    if m is not None: return Builtin(name, lambda it, a, k: m(it, *a, **k))
    p = getattr(self, 'p_' + name, None)
    if p is not None: return p(interp)
    raise Unsupported("attribute %s of modelled %s" % (name, self.cls_name))

  def setattr(self, interp, name, v):
    raise Unsupported("set attribute %s of modelled %s" % (name, self.cls_name))


class PyRaise(Exception):
  def __init__(self, exc):
    Exception.__init__(self)
    self.exc = exc

  def __str__(self):
    return "%s%r" % (self.exc.cls.name, self.exc.d.get('args'))


def hkey(v):
  if isinstance(v, (bool, int, float)) and not isinstance(v, (SInt,)): return v
  if isinstance(v, str): return str(v)
  if v is None: return None
  if isinstance(v, tuple): return ('t',) + tuple(hkey(x) for x in v)
  if isinstance(v, (Obj, ClassV, FuncV, Builtin)):
    if isinstance(v, Obj) and v.cls.is_intenum: return v.d['value']
    return ('o', id(v))
  if isinstance(v, SStr): raise Unsupported("symbolic string as a key")
  raise Unsupported("hash of %s" % type(v).__name__)
