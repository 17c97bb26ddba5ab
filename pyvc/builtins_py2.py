"""Python 2.7 (Jython) builtins and methods of built-in values for the symbolic interpreter."""
import math
from fractions import Fraction
import z3
from sym import *
from values import *
from interp import SliceV, Opaque, is_str, str_cat, codes, str_parts, SStr, SText
from values import USStr

EXC = {
  'BaseException': None, 'Exception': 'BaseException', 'StandardError': 'Exception', 'ValueError': 'StandardError',
  'TypeError': 'StandardError', 'LookupError': 'StandardError', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
  'AttributeError': 'StandardError', 'AssertionError': 'StandardError', 'ArithmeticError': 'StandardError',
  'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'NameError': 'StandardError',
  'UnboundLocalError': 'NameError', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'StandardError',
  'ImportError': 'StandardError', 'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError',
  'UnicodeEncodeError': 'UnicodeError', 'EnvironmentError': 'StandardError', 'IOError': 'EnvironmentError',
  'OSError': 'EnvironmentError', 'EOFError': 'StandardError', 'StopIteration': 'Exception',
  'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'MemoryError': 'StandardError',
}


def B(name):
  def deco(f): return Builtin(name, lambda it, a, k: f(it, *a, **k))
  return deco


class TypeV(ClassV):
  """A built-in type."""


# ---------------------------------------------------------------- helpers on values
def check_byte(it, v):
  if isinstance(v, (bool, SBool)): v = sinty(v)
  if isinstance(v, int):
    if not 0 <= v <= 255: it.throw('ValueError', "byte must be in range(0, 256)")
    return v
  if isinstance(v, SInt):
    lo, hi = bounds(v)
    if lo is not None and hi is not None and lo >= 0 and hi <= 255: return v
    if not sand(scmp('>=', v, 0), scmp('<=', v, 255)): it.throw('ValueError', "byte must be in range(0, 256)")
    return narrow(v, 0, 255)
  if isinstance(v, str):
    if len(v) != 1: it.throw('ValueError', "string must be of size 1")
    return ord(v)
  if isinstance(v, SStr):
    if len(v.items) == 1 and not isinstance(v.items[0], SymSeg): return v.items[0]
    raise Unsupported("byte from a symbolic string")
  if isinstance(v, (Obj, SEnum)) and it.num(v) is not None: return check_byte(it, it.num(v))
  it.throw('TypeError', "an integer or string of size 1 is required")


def narrow(v, lo, hi):
  """v is known on this path to lie in [lo, hi]."""
  l, h = bounds(v)
  lo = lo if l is None else max(l, lo); hi = hi if h is None else min(h, hi)
  if lo == hi: return lo
  if v.kind == 'int':
    r = SInt(v.e, lo, hi, 'int')
    return to_bvint(r)
  return mk(v.e, lo, hi)


def check_seg(it, seg):
  """A run of byte values: every element must provably be a byte."""
  c = Ctx.cur
  if seg.kind == 'char': return seg.with_kind('int')
  hi = bounds(seg.length)[1]
  if hi is None: raise Unsupported("unbounded run")
  i = c.fresh_int('ck', 0, max(hi - 1, 1))
  v = seg.at(i)
  if isinstance(v, int):
    if 0 <= v <= 255: return seg
    it.throw('ValueError', "byte must be in range(0, 256)")
  lo, h = bounds(v)
  if lo is not None and h is not None and 0 <= lo and h <= 255: return seg
  bad = sor(scmp('<', v, 0), scmp('>', v, 255))
  if bad is False or not c.feasible(z3.And(as_z3bool(scmp('<', i, seg.length)), as_z3bool(bad))):
    at = seg.at
    return SymSeg(seg.length, lambda j: narrow(at(j), 0, 255), ('byte', seg.key), seg.kind)
  raise Unsupported("byte range of a symbolic run")


def byte_items(it, v):
  if isinstance(v, PBytearray): return list(v.items)
  if isinstance(v, (U, USStr)): it.throw('TypeError', "unicode argument without an encoding")
  if isinstance(v, str): return [ord(c) for c in v]
  if isinstance(v, SStr): return list(v.items)
  if isinstance(v, SText): return text_codes(v)
  if isinstance(v, BufferV): return list(v.items)
  out = []
  for x in it.iter_items(v):
    if isinstance(x, SymSeg): out.append(check_seg(it, x))
    else: out.append(check_byte(it, x))
  return out


class BufferV(object):
  def __init__(self, items): self.items = items


def digits(v, width=0, pad=' ', base=10, upper=False):
  """Exact rendering of a symbolic integer as character codes; forks on the number of digits."""
  v = sinty(v)
  lo, hi = bounds(v)
  if lo is None or hi is None or hi >= base ** 12: raise Unsupported("rendering of an unbounded integer")
  if lo < 0:
    if scmp('<', v, 0):
      raise Unsupported("rendering of a negative symbolic integer")
  n = 1
  while base ** n <= hi:
    if scmp('<', v, base ** n): break
    n += 1
  out = []
  for k in range(n - 1, -1, -1):
    d = (v // (base ** k)) % base
    if isinstance(d, int): out.append(ord("0123456789abcdef"[d]) if not upper else ord("0123456789ABCDEF"[d])); continue
    if base <= 10:
      d = 48 + d
      out.append(d)
      Ctx.cur.memo.setdefault('digits', {})[id(d)] = (d, v, base, k, n)     # lemma: reading the n digits gives v back
    else:
      w = d
      e = z3.If(to_bv(w, 10) < 10, to_bv(w + 48, 10), to_bv(w + (55 if upper else 87), 10))
      out.append(SInt(e, 48, 102))
  while len(out) < width: out.insert(0, ord(pad))
  return out


def spec_codes(v, spec):
  if spec in ('', 's', 'd', 'r') :
    if isinstance(v, str): return [ord(c) for c in (repr(v) if spec == 'r' else v)]
    if isinstance(v, bool): return [ord(c) for c in str(v)]
    if isinstance(v, SBool): return [ord(c) for c in str(bool(v))]
    if isinstance(v, int): return [ord(c) for c in str(v)]
    if isinstance(v, SInt): return digits(v)
    if isinstance(v, SStr): return list(v.items)
    if v is None: return [ord(c) for c in 'None']
    raise Unsupported("text of %s" % type(v).__name__)
  s = spec
  pad = ' '
  left = False
  if len(s) > 1 and s[1] in '<>=': pad = s[0]; left = s[1] == '<'; s = s[2:]
  elif s[0] in '<>=': left = s[0] == '<'; s = s[1:]
  if s[:1] == '0': pad = '0'; s = s[1:]
  w = ''
  while s and s[0].isdigit(): w += s[0]; s = s[1:]
  w = int(w or 0)
  if s in ('', 'd', 'i', 'u'): base = 10
  elif s in ('x', 'X'): base = 16
  else: raise Unsupported("format " + spec)
  v = sinty(v)
  if not isinstance(v, (int, SInt)): raise Unsupported("format of %s" % type(v).__name__)
  if left:
    ds = digits(v, 0, pad, base, s == 'X')
    return ds + [ord(pad)] * (w - len(ds))
  return digits(v, w, pad, base, s == 'X')


def text_codes(t):
  out = []
  for p in t.parts:
    if isinstance(p, str): out.extend(ord(c) for c in p)
    else: out.extend(spec_codes(p[1], p[2]))
  return out


def lower(v):
  """SText -> SStr / str"""
  if isinstance(v, SText): return SStr(text_codes(v)).norm()
  return v


def str_eq(it, a, b):
  if isinstance(a, str) and isinstance(b, str):
    if isinstance(a, U) != isinstance(b, U) and any(ord(c) > 127 for c in a + b): return False
    return str(a) == str(b)
  if isinstance(a, SText) and isinstance(b, SText) and len(a.parts) == len(b.parts) and \
     all(p is q or p == q if isinstance(p, str) and isinstance(q, str) else
         (not isinstance(p, str) and not isinstance(q, str) and p[1] is q[1] and p[2] == q[2])
         for p, q in zip(a.parts, b.parts)): return True
  return items_eq(it, codes(lower(a)), codes(lower(b)))


def seg_eq(it, a, b):
  """Equality of two whole runs of the same position: by key, else by the solver on an arbitrary index."""
  c = Ctx.cur
  le = scmp('==', a.length, b.length)
  if le is False: return False
  if a.key == b.key and a.kind == b.kind: return le
  if a.base is not None and a.base == b.base:
    same = scmp('==', a.off, b.off)
    if same is True or (same is not False and not c.feasible(z3.And(as_z3bool(le), z3.Not(same.b)))): return le
  hi = bounds(a.length)[1]; hj = bounds(b.length)[1]
  if hi is None or hj is None: raise Unsupported("unbounded run")
  i = c.fresh_int('sk', 0, max(hi, hj, 1))
  x, y = a.at(i), b.at(i)
  same = it.as_bool(it.eq(x, y))
  if same is True: return le
  dom = z3.And(as_z3bool(scmp('<', i, a.length)), as_z3bool(le))
  if not c.feasible(z3.And(dom, z3.Not(as_z3bool(same)))): return le
  # equality of the two runs as a quantified formula is avoided: fork on a witness index
  if c.branch(c.fresh_bool('segeq').b):
    # assume pointwise equality is possible only if lengths agree; the equal branch carries no pointwise fact
    c.assume(as_z3bool(le)); c.assume(z3.Implies(as_z3bool(scmp('<', i, a.length)), as_z3bool(same)))
    c.notes.add('seg_eq')
    if c._check() == z3.unsat: raise PathAbort()
    return True
  if c.branch(as_z3bool(le)):
    c.assume_feasible(z3.And(as_z3bool(scmp('<', i, a.length)), z3.Not(as_z3bool(same))))
  return False


def items_eq(it, a, b):
  """Equality of two item lists that may contain runs."""
  if not any(isinstance(x, SymSeg) for x in a) and not any(isinstance(x, SymSeg) for x in b):
    if len(a) != len(b): return False
    r = True
    for x, y in zip(a, b):
      r = sand(r, it.is_same_or_eq(x, y))
      if r is False: return False
    return r
  la, lb = seq_len(a), seq_len(b)
  if not bool(scmp('==', la, lb)): return False
  a, b = list(a), list(b)
  r = True
  while a or b:
    a = drop_empty(a); b = drop_empty(b)
    if not a and not b: return r
    if not a or not b: return False
    x, y = a[0], b[0]
    if isinstance(x, SymSeg) and isinstance(y, SymSeg):
      d = x.length - y.length
      if isinstance(d, SInt) and bool(scmp('==', d, 0)): d = 0
      if isinstance(d, int) and d == 0:
        r = sand(r, seg_eq(it, x, y)); a.pop(0); b.pop(0)
      elif bool(scmp('<', x.length, y.length)):
        r = sand(r, seg_eq(it, x, y.slice(0, x.length))); a.pop(0); b[0] = y.slice(x.length, y.length - x.length)
      else:
        r = sand(r, seg_eq(it, x.slice(0, y.length), y)); b.pop(0); a[0] = x.slice(y.length, x.length - y.length)
    elif isinstance(x, SymSeg):
      r = sand(r, it.is_same_or_eq(x.elem(0), y)); a[0] = x.slice(1, x.length - 1); b.pop(0)
    elif isinstance(y, SymSeg):
      r = sand(r, it.is_same_or_eq(x, y.elem(0))); b[0] = y.slice(1, y.length - 1); a.pop(0)
    else:
      r = sand(r, it.is_same_or_eq(x, y)); a.pop(0); b.pop(0)
    if r is False: return False
  return r


def drop_empty(a):
  while a and isinstance(a[0], SymSeg):
    if bool(scmp('==', a[0].length, 0)): a = a[1:]
    else: break
  return a


def repeat_sym(it, a, n):
  items = [ord(c) for c in a] if isinstance(a, str) else list(a.items) if isinstance(a, Seq) else None
  if items is None or len(items) != 1 or isinstance(items[0], SymSeg): return None
  lo, hi = bounds(n)
  if hi is not None and hi <= 16: return None
  if not bool(scmp('>', n, 0)): return '' if isinstance(a, str) else type(a)([])
  v = items[0]
  if is_intlike(v) or isinstance(v, int):
    seg = SymSeg(n, lambda i: v, ('rep', ekey(v)), 'int')
    if isinstance(a, (str, SStr)): return SStr([seg])
    return type(a)([seg])
  return None


# ---------------------------------------------------------------- indexing
def norm_index(it, i, n, what):
  x = it.num(i)
  if x is None: it.throw('TypeError', what + " indices must be integers")
  if isinstance(x, (float, SRat)): it.throw('TypeError', what + " indices must be integers")
  return sinty(x)


def split_at(it, items, k):
  """items[:k], items[k:] for 0 <= k <= len (k may be symbolic)."""
  a, b = [], list(items)
  while b:
    if isinstance(k, int) and k == 0: break
    x = b[0]
    if isinstance(x, SymSeg):
      if bool(scmp('>=', k, x.length)): a.append(x); k = k - x.length; b.pop(0)
      else:
        if not (isinstance(k, int) and k == 0) and bool(scmp('>', k, 0)):
          a.append(x.slice(0, k)); b[0] = x.slice(k, x.length - k)
        return a, b
    else:
      if bool(scmp('>=', k, 1)): a.append(x); k = k - 1; b.pop(0)
      else: return a, b
  return a, b


def slice_bounds(it, items, s):
  """0 <= lo <= hi <= n of a slice without a step."""
  n = seq_len(items)
  def clamp(v, d):
    if v is None: return d
    v = it.num(v)
    if v is None or isinstance(v, (float, SRat)): it.throw('TypeError', "slice indices must be integers")
    v = sinty(v)
    if scmp('<', v, 0):
      v = v + n
      if scmp('<', v, 0): return 0
      return v
    if scmp('>', v, n): return n
    return v
  lo, hi = clamp(s.lo, 0), clamp(s.hi, n)
  if bool(scmp('<', hi, lo)): hi = lo
  return lo, hi


def cut(it, items, s):
  """What comes before and after a slice."""
  lo, hi = slice_bounds(it, items, s)
  a, rest = split_at(it, items, lo)
  _, b = split_at(it, rest, hi - lo)
  return list(a), list(b)


def slice_items(it, items, s):
  if s.step is not None and s.step != 1:
    if any(isinstance(x, SymSeg) for x in items): raise Unsupported("extended slice of a symbolic run")
    lo = None if s.lo is None else concretize(sinty(s.lo)); hi = None if s.hi is None else concretize(sinty(s.hi))
    return list(items)[slice(lo, hi, s.step)]
  if not any(isinstance(x, SymSeg) for x in items) and (s.lo is None or isinstance(s.lo, int)) and (s.hi is None or isinstance(s.hi, int)):
    return list(items)[slice(s.lo, s.hi)]
  lo, hi = slice_bounds(it, items, s)
  if not bool(scmp('<', lo, hi)): return []
  _, rest = split_at(it, items, lo)
  first, _ = split_at(it, rest, hi - lo)
  return first


def index_item(it, items, i, what):
  i = norm_index(it, i, None, what)
  n = seq_len(items)
  if scmp('<', i, 0): i = i + n
  if not sand(scmp('>=', i, 0), scmp('<', i, n)): it.throw('IndexError', "index out of range")
  if isinstance(i, int) and not any(isinstance(x, SymSeg) for x in items[:i + 1]): return items[i], i, None
  k = i
  for j, x in enumerate(items):
    if isinstance(x, SymSeg):
      if scmp('<', k, x.length): return x.elem(k), j, k
      k = k - x.length
    else:
      if isinstance(k, SInt) and not any(isinstance(y, SymSeg) for y in items):
        return table_select(it, items, k), None, None
      if bool(scmp('==', k, 0)): return x, j, None
      k = k - 1
  raise Unsupported("indexing")


def table_select(it, items, k):
  """items[k] for a symbolic k over a concrete table of integers, else fork."""
  n = len(items)
  if n >= 32 and (n & (n - 1)) == 0 and k.kind == 'bv' and all(type(x) is int and x >= 0 for x in items) and items[0] == 0 \
     and all(items[j] == items[j & (j - 1)] ^ items[j & -j] for j in range(1, n)):
    # a GF(2)-linear table: the xor of the entries of the bits of k
    w = need(0, max(items)); e = z3.BitVecVal(0, w); kw = max(k.e.size(), need(0, n)); ke = ext(k.e, kw)
    for b in range(n.bit_length() - 1):
      e = e ^ z3.If(z3.Extract(b, b, ke) == 1, z3.BitVecVal(items[1 << b], w), z3.BitVecVal(0, w))
    return mk(e, 0, (1 << max(items).bit_length()) - 1)
  if all(type(x) is int or isinstance(x, SInt) and x.kind == 'bv' for x in items) and len(items) > 1 and k.kind == 'bv':
    los = [bounds(x) for x in items]
    lo, hi = min(l for l, h in los), max(h for l, h in los)
    w = need(lo, hi)
    e = to_bv(items[-1], w)
    kw = max(k.e.size(), need(0, len(items)))
    for j in range(len(items) - 2, -1, -1): e = z3.If(ext(k.e, kw) == j, to_bv(items[j], w), e)
    return mk(e, lo, hi)
  for j, x in enumerate(items[:-1]):
    if bool(scmp('==', k, j)): return x
  return items[-1]


def getitem(it, o, i):
  if isinstance(o, PDict):
    r = dict_get(it, o, i)
    if r is POISON: it.throw('KeyError', i)
    return r
  if isinstance(o, SText): o = lower(o)
  if isinstance(o, (str, SStr)):
    if isinstance(o, str) and isinstance(i, int) and not isinstance(i, bool):
      try: return o[i]
      except IndexError: it.throw('IndexError', "string index out of range")
    if isinstance(o, str) and isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi)):
      return (U if isinstance(o, U) else str)(o[i.lo:i.hi:i.step])
    cs = codes(o)
    if isinstance(i, SliceV): return SStr(slice_items(it, cs, i)).norm()
    v = index_item(it, [x.with_kind('int') if isinstance(x, SymSeg) else x for x in cs], i, 'string')[0]
    return SStr([v]).norm()
  if isinstance(o, (PList, PBytearray)):
    if isinstance(i, SliceV): return type(o)(slice_items(it, o.items, i))
    return index_item(it, o.items, i, 'list')[0]
  if isinstance(o, tuple):
    if isinstance(i, SliceV): return tuple(slice_items(it, list(o), i))
    return index_item(it, list(o), i, 'tuple')[0]
  if isinstance(o, ClassV) and o.members is not None:
    if isinstance(i, str):
      if i in o.members: return o.members[i]
      it.throw('KeyError', i)
    raise Unsupported("enum lookup by a symbolic name")
  if isinstance(o, Obj):
    m = o.cls.lookup('__getitem__')
    if m is not None: return it.call(it.bind(m, o), [i], {})
    it.throw('TypeError', "'%s' object has no attribute '__getitem__'" % o.cls.name)
  if isinstance(o, Native) and hasattr(o, 'getitem'): return o.getitem(it, i)
  if isinstance(o, BufferV): return getitem(it, SStr(o.items).norm(), i)
  if o is None or is_intlike(o) or isinstance(o, (float, FuncV)):
    it.throw('TypeError', "object is not subscriptable")
  raise Unsupported("indexing of %s" % type(o).__name__)


def dict_get(it, d, k):
  if isinstance(k, (SInt, SBool, SEnum, SStr, SText)):
    if isinstance(k, SText): k = lower(k)
    if isinstance(k, str):
      r = d.d.get(hkey(k))
      return POISON if r is None else r[1]
    ents = list(d.d.values())
    vals = [v for kk, v in ents]
    for kk, v in ents:
      if it.truth(it.eq(kk, k)): return v
    return POISON
  r = d.d.get(hkey(k))
  return POISON if r is None else r[1]


def setitem(it, o, i, v):
  if isinstance(o, PDict):
    if isinstance(i, SEnum): i = it.concretize_enum(i)
    if isinstance(i, (SInt, SBool)): i = concretize(i)
    it.dict_mut(o)
    o.d[hkey(i)] = (i, v)
    return
  if isinstance(o, (PList, PBytearray)):
    it.seq_mut(o)
    if isinstance(i, SliceV):
      new = list(it.iter_items(v)) if isinstance(o, PList) else byte_items(it, v)
      if i.step is not None: raise Unsupported("extended slice assignment")
      a, b = cut(it, o.items, i)
      o.items = a + new + b
      return
    _, j, off = index_item(it, o.items, i, 'list')
    if j is None or off is not None: raise Unsupported("store at a symbolic index")
    if isinstance(o, PBytearray): v = check_byte(it, v)
    o.items = list(o.items); o.items[j] = v
    return
  if isinstance(o, Obj):
    m = o.cls.lookup('__setitem__')
    if m is not None: it.call(it.bind(m, o), [i, v], {}); return
  it.throw('TypeError', "object does not support item assignment")


def delitem(it, o, i):
  if isinstance(o, PDict):
    it.dict_mut(o)
    k = hkey(i)
    if k not in o.d: it.throw('KeyError', i)
    del o.d[k]; return
  if isinstance(o, (PList, PBytearray)):
    it.seq_mut(o)
    if isinstance(i, SliceV):
      if i.step is not None: raise Unsupported("extended slice deletion")
      a, b = cut(it, o.items, i)
      o.items = a + b
      return
    _, j, off = index_item(it, o.items, i, 'list')
    if j is None or off is not None: raise Unsupported("deletion at a symbolic index")
    o.items = o.items[:j] + o.items[j + 1:]; return
  raise Unsupported("del item of %s" % type(o).__name__)


# ---------------------------------------------------------------- text
def str_of(it, v):
  if is_str(v): return v
  if v is None: return 'None'
  if isinstance(v, bool): return str(v)
  if isinstance(v, int): return str(v)
  if isinstance(v, float): return repr(v)
  if isinstance(v, (SInt, SBool)): return SText([('s', v, '')])
  if isinstance(v, PBytearray): return SStr(v.items).norm()
  if isinstance(v, Obj):
    if v.cls.is_exc:
      a = v.d.get('args', ())
      m = v.cls.lookup('__str__')
      if m is not None and not isinstance(m, Builtin): return it.call(it.bind(m, v), [], {})
      return '' if not a else str_of(it, a[0]) if len(a) == 1 else SText([('s', a, '')])
    if v.cls.is_enum:
      if v.cls.lookup('__str__') is None: return "%s.%s" % (v.cls.name, v.d['name'])
    m = v.cls.lookup('__str__') or v.cls.lookup('__repr__')
    if m is not None and not isinstance(m, Builtin): return it.call(it.bind(m, v), [], {})
    return SText([('s', v, '')])
  if isinstance(v, BufferV): return SStr(v.items).norm()
  return SText([('s', v, '')])


def percent(it, f, a):
  if isinstance(f, SText): raise Unsupported("symbolic format string")
  if isinstance(a, PDict): raise Unsupported("mapping format")
  args = list(a) if isinstance(a, tuple) else [a]
  parts = []
  i = 0; k = 0
  cur = ''
  while i < len(f):
    c = f[i]
    if c != '%': cur += c; i += 1; continue
    i += 1
    if i < len(f) and f[i] == '%': cur += '%'; i += 1; continue
    spec = ''
    while i < len(f) and f[i] in '-+ #0123456789.l': spec += f[i]; i += 1
    if i >= len(f): it.throw('ValueError', "incomplete format")
    conv = f[i]; i += 1
    if k >= len(args): it.throw('TypeError', "not enough arguments for format string")
    v = args[k]; k += 1
    if conv in 'sr':
      if spec: raise Unsupported("format %" + spec + conv)
      s = str_of(it, v) if conv == 's' else SText([('s', v, 'r')])
      parts.append(cur); cur = ''
      parts.extend(str_parts(s))
    elif conv in 'diuxXc':
      n = it.num(v)
      if conv == 'c' and is_str(v): parts.append(cur); cur = ''; parts.extend(str_parts(v)); continue
      if n is None: it.throw('TypeError', "%%%s format: a number is required" % conv)
      if isinstance(n, (float, SRat)): n = SRat.of(n).trunc()
      n = sinty(n)
      if isinstance(n, int): cur += ('%' + spec + conv) % n
      else:
        parts.append(cur); cur = ''
        if conv == 'c': raise Unsupported("%c")
        parts.append(('s', n, spec + ('d' if conv in 'diu' else conv)))
    else:
      if isinstance(v, float) or isinstance(v, int): cur += ('%' + spec + conv) % v
      else: raise Unsupported("format %" + conv)
  if k < len(args): it.throw('TypeError', "not all arguments converted during string formatting")
  parts.append(cur)
  t = SText(parts)
  uni = isinstance(f, U) or any(isinstance(x, (U, USStr)) for x in args)
  if all(isinstance(p, str) for p in t.parts): return U(''.join(t.parts)) if uni else ''.join(t.parts)
  if uni: raise Unsupported("symbolic unicode text")
  return t


def str_format(it, f, args, kw):
  parts = []
  i = 0; k = 0; cur = ''
  while i < len(f):
    c = f[i]
    if c == '{':
      if i + 1 < len(f) and f[i + 1] == '{': cur += '{'; i += 2; continue
      j = f.index('}', i)
      fld = f[i + 1:j]; i = j + 1
      name, _, spec = fld.partition(':')
      conv = ''
      if '!' in name: name, conv = name.split('!')
      attrs = name.split('.')
      name = attrs[0]
      if '[' in fld: raise Unsupported("format field " + fld)
      if name == '': idx = k; k += 1
      elif name.isdigit(): idx = int(name)
      else: idx = None
      if idx is None:
        if name not in kw: it.throw('KeyError', name)
        v = kw[name]
      else:
        if idx >= len(args): it.throw('IndexError', "tuple index out of range")
        v = args[idx]
      for a in attrs[1:]: v = it.getattr(v, a)
      if conv not in ('', 's') or (conv and spec): raise Unsupported("format field " + fld)
      if spec == '':
        if not conv and (isinstance(v, (bool, SBool)) or isinstance(v, (Obj, SEnum)) and v.cls.is_intenum): v = sinty(it.num(v))   # as Jython does
        s = str_of(it, v)
        parts.append(cur); cur = ''
        parts.extend(str_parts(s)); continue
      n = it.num(v)
      if is_str(v):
        if isinstance(v, str): cur += format(str(v), spec); continue
        raise Unsupported("format of symbolic text")
      if n is None:
        if isinstance(v, Obj): it.throw('ValueError', "format")
        it.throw('ValueError', "Unknown format code")
      n = sinty(n) if not isinstance(n, (float, SRat)) else n
      if isinstance(n, (int, float)): cur += format(n, spec)
      elif isinstance(n, SInt):
        parts.append(cur); cur = ''
        parts.append(('s', n, spec))
      else: raise Unsupported("format of float")
      continue
    if c == '}':
      cur += '}'; i += 2; continue
    cur += c; i += 1
  parts.append(cur)
  t = SText(parts)
  if all(isinstance(p, str) for p in t.parts): return U(''.join(t.parts)) if isinstance(f, U) else ''.join(t.parts)
  if isinstance(f, U): raise Unsupported("symbolic unicode text")
  return t


def to_int(it, v, base=None):
  if isinstance(v, SText) and len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][2] in ('', 'd', 's') \
     and base in (None, 10) and is_intlike(v.parts[0][1]): return sinty(v.parts[0][1])
  if isinstance(v, SText): v = lower(v)
  if isinstance(v, str):
    try: return int(v.strip().rstrip('L') if v.strip()[-1:] == 'L' else v, base if base is not None else 10)
    except ValueError: it.throw('ValueError', "invalid literal for int()")
  if isinstance(v, SStr):
    cs = v.items
    if any(isinstance(x, SymSeg) for x in cs): raise Unsupported("int() of a symbolic string")
    b = base if base is not None else 10
    if b == 16 and len(cs) > 2 and cs[0] == 48 and isinstance(cs[0], int) and isinstance(cs[1], int) and chr(cs[1]) in 'xX': cs = cs[2:]
    for x in cs:       # signs, blanks, the suffix of a long and base prefixes are not modelled
      if isinstance(x, int): odd = chr(x) in ' \t\n\r\f\v+-LlxXoObB_' and not (b == 16 and chr(x) in 'bB')
      else: odd = bool(sor(*[scmp('==', x, ord(k)) for k in ' \t\n\r\f\v+-LlxXoObB']))
      if odd: raise Unsupported("int() of text with a sign or blanks")
    r = 0
    ds = list(cs)
    while ds and ds[0] == 48 and isinstance(ds[0], int): ds.pop(0)
    info = [Ctx.cur.memo.get('digits', {}).get(id(x)) for x in ds]
    if ds and all(i is not None for i in info) and info[0][4] == len(ds) and all(i[1] is info[0][1] and i[2] == b and i[3] == len(ds) - 1 - j for j, i in enumerate(info)):
      return info[0][1]
    for x in cs:
      if isinstance(x, int):
        d = "0123456789abcdef".find(chr(x).lower())
        if d < 0 or d >= b: it.throw('ValueError', "invalid literal for int()")
      else:
        if b > 10: raise Unsupported("hex int() of a symbolic string")
        if not sand(scmp('>=', x, 48), scmp('<=', x, 47 + b)): it.throw('ValueError', "invalid literal for int()")
        d = narrow(x, 48, 47 + b)
        d = d - 48
      r = r * b + d
    return r
  if base is not None: it.throw('TypeError', "int() can't convert non-string with explicit base")
  if isinstance(v, (bool, SBool)): return sinty(v)
  if isinstance(v, (int, SInt)): return v
  if isinstance(v, float): return int(v)
  if isinstance(v, SRat): return v.trunc()
  if isinstance(v, (Obj, SEnum)):
    n = it.num(v)
    if n is not None: return n
    if isinstance(v, Obj):
      m = v.cls.lookup('__int__')
      if m is not None: return it.call(it.bind(m, v), [], {})
      if not v.cls.newstyle: it.throw('AttributeError', '__int__')
  it.throw('TypeError', "int() argument must be a string or a number")


# ---------------------------------------------------------------- attributes of built-in values
PY2_ONLY = ('decode', 'iteritems', 'iterkeys', 'itervalues', 'has_key', 'viewkeys', 'viewvalues', 'viewitems', 'next', 'im_self', 'im_func', 'im_class', 'func_name',
            'func_code', 'func_defaults', 'func_dict', 'func_globals')

def missing(it, host, name, what):
  """An attribute the model lacks: an AttributeError only when the real type lacks it too."""
  if hasattr(host, name) or name in PY2_ONLY or name.startswith('__'): raise Unsupported(what + '.' + name)
  it.throw('AttributeError', "'%s' object has no attribute '%s'" % (what, name))


def value_attr(it, o, name):
  if isinstance(o, SText):
    o = lower(o)
  if isinstance(o, (str, SStr)):
    f = STR.get(name)
    if f is None:
      missing(it, '', name, 'str')
    return Builtin(name, lambda t, a, k: f(t, o, *a, **k))
  if isinstance(o, PList):
    f = LIST.get(name)
    if f is None:
      if name in ('copy', 'clear'): it.throw('AttributeError', "'list' object has no attribute '%s'" % name)
      missing(it, [], name, 'list')
    return Builtin(name, lambda t, a, k: f(t, o, *a, **k))
  if isinstance(o, PBytearray):
    f = BYTEARRAY.get(name)
    if f is None:
      missing(it, bytearray(), name, 'bytearray')
    return Builtin(name, lambda t, a, k: f(t, o, *a, **k))
  if isinstance(o, PDict):
    f = DICT.get(name)
    if f is None:
      missing(it, {}, name, 'dict')
    return Builtin(name, lambda t, a, k: f(t, o, *a, **k))
  if isinstance(o, PSet):
    f = SET.get(name)
    if f is None: missing(it, set(), name, 'set')
    return Builtin(name, lambda t, a, k: f(t, o, *a, **k))
  if isinstance(o, tuple):
    if name == 'index': return Builtin(name, lambda t, a, k: list_index(t, PList(list(o)), *a))
    missing(it, (), name, 'tuple')
  if o is None: missing(it, None, name, 'NoneType')
  if is_intlike(o):
    if name == 'bit_length':
      def bl(t, a, k):
        v = sinty(o)
        if isinstance(v, int): return v.bit_length()
        lo, hi = bounds(v)
        if lo is None or lo < 0 or hi is None: raise Unsupported("bit_length")
        n = hi.bit_length()
        w = need(0, n)
        e = z3.BitVecVal(n, w)
        x = to_bv(v, need(lo, hi))
        for k in range(n - 1, lo.bit_length() - 1, -1):    # bit_length is the smallest k with v < 2^k
          e = z3.If(z3.Extract(x.size() - 1, k, x) == 0, z3.BitVecVal(k, w), e)
        return mk(e, lo.bit_length(), n)
      return Builtin(name, bl)
    if name == 'real': return o
    missing(it, 1, name, 'int')
  if isinstance(o, (float, SRat)):
    if name == 'is_integer' and isinstance(o, float): return Builtin(name, lambda t, a, k: o.is_integer())
    missing(it, 1.0, name, 'float')
  if isinstance(o, GenV):
    if name == 'next':
      def nx(t, a, k):
        items = o.force()
        if not items: t.throw('StopIteration')
        if isinstance(items[0], SymSeg): raise Unsupported("next over a symbolic run")
        o.items = items[1:]
        o.run = lambda: []
        return items[0]
      return Builtin(name, nx)
  raise Unsupported("attribute %s of %s" % (name, type(o).__name__))


def s_join(it, s, seq):
  parts = []
  out = ''
  first = True
  for x in it.iter_items(seq):
    if isinstance(x, SymSeg):
      if x.kind == 'text': out = str_cat(out, SText([('s', Opaque('text of a run'), '')])); first = False; continue
      if x.kind != 'char': it.throw('TypeError', "sequence item: expected string, int found")
      if s != '': raise Unsupported("join of a symbolic run with a separator")
      x = SStr([x.with_kind('int')])
    if not is_str(x): it.throw('TypeError', "sequence item: expected string")
    out = str_cat(out, x) if first else str_cat(str_cat(out, s), x)
    first = False
  return out


def concrete(it, *xs):
  for x in xs:
    if not isinstance(x, (str, int, type(None))) : raise Unsupported("string method on symbolic text")


def s_conc(fn):
  def f(it, s, *a):
    concrete(it, s, *a)
    try: r = fn(s, *a)
    except ValueError as e: it.throw('ValueError', str(e))
    except TypeError as e: it.throw('TypeError', str(e))
    if isinstance(r, list): return PList(r)
    return r
  return f


def s_decode(it, s, enc='ascii', errors='strict'):
  if enc == 'hex':
    if isinstance(s, HexStr): return SStr(s.items).norm()
    if isinstance(s, str):
      try: return bytes.fromhex(s).decode('latin-1')
      except ValueError: it.throw('TypeError', "Non-hexadecimal digit found")
    raise Unsupported("hex decode of symbolic text")
  if isinstance(s, str) and enc in ('ascii', 'utf-8', 'utf8', 'latin-1'):
    if all(ord(c) < 128 for c in s) or enc == 'latin-1': return U(s)
    if enc == 'ascii': it.throw('UnicodeDecodeError', "ordinal not in range(128)")
  if isinstance(s, SStr) and str(enc).lower() == 'ascii': return USStr(ascii_only(it, s, 'UnicodeDecodeError'))
  raise Unsupported("decode")


def ascii_only(it, s, exc):
  if any(isinstance(x, SymSeg) for x in s.items): raise Unsupported("text conversion of a run")
  if not bool(sand(*[scmp('<', x, 128) for x in s.items])): it.throw(exc, "ordinal not in range(128)")
  return s.items


def s_encode(it, s, enc='ascii', errors='strict'):
  if isinstance(s, SStr) and not isinstance(s, HexStr) and str(enc).lower() == 'ascii':
    return SStr(ascii_only(it, s, 'UnicodeEncodeError' if isinstance(s, USStr) else 'UnicodeDecodeError')).norm()
  if enc == 'hex' and isinstance(s, (str, SStr)): return HexStr(codes(s)).low()
  if isinstance(s, str) and str(enc).lower() in ('ascii', 'utf-8', 'utf8', 'latin-1') and all(ord(c) < 128 for c in s): return str(s)
  raise Unsupported("encode")


def s_just(left):
  def f(it, s, n, pad=' '):
    n = concretize(n) if not isinstance(n, int) else n
    if isinstance(s, str): return s.ljust(n, pad) if left else s.rjust(n, pad)
    if any(isinstance(x, SymSeg) for x in s.items): raise Unsupported("ljust of a run")
    k = max(0, n - len(s.items)); p = [ord(pad)] * k
    return SStr(s.items + p if left else p + s.items)
  return f


class HexStr(SStr):
  """hexlify() of a byte sequence; items are the original bytes' two characters when expanded."""
  __slots__ = ('raw',)

  def __init__(self, raw):
    self.raw = list(raw)
    out = []
    if any(isinstance(x, SymSeg) for x in raw): out = [SymSeg(seq_len(raw) * 2, lambda i: (_ for _ in ()).throw(Unsupported("hex digits of a run")), ('hex', id(self)), 'int')]
    else:
      for x in raw:
        if isinstance(x, int): out += [ord(c) for c in "%02x" % x]
        else: out += digits(x, 2, '0', 16) if False else hex2(x)
    SStr.__init__(self, out)

  @property
  def bytes(self): return self.raw

  def low(self): return self


def hex2(x):
  out = []
  for d in (x >> 4, x & 15):
    if isinstance(d, int): out.append(ord("0123456789abcdef"[d])); continue
    out.append(SInt(z3.If(to_bv(d, 10) < 10, to_bv(d + 48, 10), to_bv(d + 87, 10)), 48, 102))
  return out


def s_decode2(it, s, enc='ascii', errors='strict'):
  if enc == 'hex' and isinstance(s, HexStr): return SStr(s.raw).norm()
  return s_decode(it, s, enc, errors)


def s_startswith(it, s, p):
  if isinstance(s, str) and isinstance(p, str): return s.startswith(p)
  a, b = codes(s), codes(lower(p))
  if any(isinstance(x, SymSeg) for x in a + b): raise Unsupported("startswith on a run")
  if len(a) < len(b): return False
  return items_eq(it, a[:len(b)], b)


STR = {
  'join': s_join, 'format': lambda it, s, *a, **k: str_format(it, s, a, k) if isinstance(s, str) else (_ for _ in ()).throw(Unsupported("format")),
  'upper': s_conc(str.upper), 'lower': s_conc(str.lower), 'strip': s_conc(str.strip), 'lstrip': s_conc(str.lstrip),
  'rstrip': s_conc(str.rstrip), 'split': s_conc(str.split), 'rsplit': s_conc(str.rsplit), 'replace': s_conc(str.replace),
  'find': s_conc(str.find), 'index': s_conc(str.index), 'isdigit': s_conc(str.isdigit), 'startswith': s_startswith,
  'endswith': s_conc(str.endswith), 'ljust': s_just(True), 'rjust': s_just(False), 'zfill': s_conc(str.zfill),
  'count': s_conc(str.count), 'decode': s_decode2, 'encode': s_encode, 'title': s_conc(str.title),
}


def l_append(it, l, v):
  if it.map_probe is not None and it.map_probe.append(l, v): return None
  it.seq_mut(l); l.items = l.items + [v]


def l_extend(it, l, v):
  items = list(it.iter_items(v))
  it.seq_mut(l); l.items = l.items + items


def l_pop(it, l, i=-1):
  n = seq_len(l.items)
  if not bool(scmp('>', n, 0)): it.throw('IndexError', "pop from empty list")
  v, j, off = index_item(it, l.items, i, 'list')
  it.seq_mut(l)
  if off is not None:
    seg = l.items[j]
    if isinstance(off, int) and off == 0: l.items = l.items[:j] + [seg.slice(1, seg.length - 1)] + l.items[j + 1:]; return v
    if bool(scmp('==', off, seg.length - 1)): l.items = l.items[:j] + [seg.slice(0, seg.length - 1)] + l.items[j + 1:]; return v
    if bool(scmp('==', off, 0)): l.items = l.items[:j] + [seg.slice(1, seg.length - 1)] + l.items[j + 1:]; return v
    raise Unsupported("pop in the middle of a run")
  if j is None: raise Unsupported("pop at a symbolic index")
  l.items = l.items[:j] + l.items[j + 1:]
  return v


def l_insert(it, l, i, v):
  it.seq_mut(l)
  n = seq_len(l.items)
  if isinstance(i, int) and i == 0: l.items = [v] + l.items; return
  if l.has_sym() or not isinstance(i, int): raise Unsupported("insert")
  x = list(l.items); x.insert(i, v); l.items = x


def list_index(it, l, v):
  for k, x in enumerate(l.items):
    if isinstance(x, SymSeg): raise Unsupported("index in a run")
    if it.truth(it.is_same_or_eq(x, v)): return k
  it.throw('ValueError', "list.index(x): x not in list")


def b_index(it, l, v):
  """Position of the first occurrence of a byte; in a run: a fresh position, with the fact that nothing before it is that byte."""
  if is_str(v):
    cs = codes(v)
    if len(cs) != 1 or isinstance(cs[0], SymSeg): raise Unsupported("index of a byte string")
    v = cs[0]
  if not is_intlike(v): it.throw('TypeError', "an integer is required")
  v = sinty(v); k = 0; c = Ctx.cur
  for x in l.items:
    if isinstance(x, SymSeg):
      if c.choose(2) == 0:
        hi = bounds(x.length)[1]
        if not bool(scmp('>', x.length, 0)): raise PathAbort()
        p = c.fresh_int('pos', 0, max(hi - 1, 1))
        c.assume(as_z3bool(scmp('<', p, x.length)))
        c.assume_feasible(scmp('==', x.at(p), v))
        c.memo.setdefault('notin', []).append((x, p, v))
        return k + p
      c.memo.setdefault('notin', []).append((x, x.length, v))
      k = k + x.length
    else:
      if it.truth(scmp('==', x, v)): return k
      k = k + 1
  it.throw('ValueError', "value not found in bytearray")


def instantiate(base, j):
  """Facts about absence (b_index) for the byte at index j of a named run."""
  c = Ctx.cur
  for (x, n, v) in c.memo.get('notin', []):
    if x.base != base: continue
    i = j - x.off
    c.assume(as_z3bool(simplies(sand(scmp('>=', i, 0), scmp('<', i, n)), scmp('!=', x.at(i), v))))


def merge_runs(items):
  """Adjacent runs that are consecutive parts of one named run, joined."""
  out = []
  for x in items:
    if out and isinstance(x, SymSeg) and isinstance(out[-1], SymSeg) and x.base is not None and out[-1].base == x.base and x.kind == out[-1].kind:
      y = out[-1]
      e = scmp('==', y.off + y.length, x.off)
      if e is True or (e is not False and not Ctx.cur.feasible(z3.Not(e.b))):
        n = y.length + x.length; at = y.at
        out[-1] = SymSeg(n, at, y.key, y.kind, y.base, y.off); continue
    out.append(x)
  return out


def l_remove(it, l, v):
  i = list_index(it, l, v)
  it.seq_mut(l); l.items = l.items[:i] + l.items[i + 1:]


def l_reverse(it, l):
  if l.has_sym(): raise Unsupported("reverse of a run")
  it.seq_mut(l); l.items = l.items[::-1]


def l_sort(it, l, cmp=None, key=None, reverse=False):
  it.seq_mut(l); l.items = sort_items(it, l.items, key, reverse)


def l_count(it, l, v):
  if l.has_sym(): raise Unsupported("count in a run")
  return sum(1 for x in l.items if it.truth(it.is_same_or_eq(x, v)))


LIST = {'append': l_append, 'extend': l_extend, 'pop': l_pop, 'insert': l_insert, 'index': list_index, 'remove': l_remove,
        'reverse': l_reverse, 'sort': l_sort, 'count': l_count}


def b_append(it, l, v):
  v = check_byte(it, v)
  if it.map_probe is not None and it.map_probe.append(l, v): return None
  it.seq_mut(l); l.items = l.items + [v]


def b_extend(it, l, v):
  items = byte_items(it, v)
  it.seq_mut(l); l.items = l.items + items


BYTEARRAY = {'append': b_append, 'extend': b_extend, 'pop': l_pop, 'insert': lambda it, l, i, v: l_insert(it, l, i, check_byte(it, v)),
             'decode': lambda it, l, *a: s_decode2(it, SStr(l.items).norm(), *a), 'reverse': l_reverse,
             'index': b_index, 'count': l_count, 'remove': l_remove}


def d_get(it, d, k, default=None):
  r = dict_get(it, d, k)
  return default if r is POISON else r


def d_update(it, d, *o, **kw):
  it.dict_mut(d)
  for x in o:
    if isinstance(x, PDict): d.d.update(x.d)
    else:
      for p in it.iter_items(x):
        k, v = it.iter_items(p); d.d[hkey(k)] = (k, v)
  for k, v in kw.items(): d.d[k] = (k, v)


def d_pop(it, d, k, *df):
  r = dict_get(it, d, k)
  if r is POISON:
    if df: return df[0]
    it.throw('KeyError', k)
  it.dict_mut(d)
  if isinstance(k, (SInt, SEnum, SStr, SText)): raise Unsupported("pop by a symbolic key")
  del d.d[hkey(k)]
  return r


def d_setdefault(it, d, k, v=None):
  r = dict_get(it, d, k)
  if r is not POISON: return r
  setitem(it, d, k, v); return v


def d_copy(it, d):
  r = PDict(); r.d = dict(d.d); return r


def d_clear(it, d):
  it.dict_mut(d); d.d = {}


DICT = {'get': d_get, 'keys': lambda it, d: PList([k for k, v in d.d.values()]), 'values': lambda it, d: PList([v for k, v in d.d.values()]),
        'items': lambda it, d: PList([(k, v) for k, v in d.d.values()]), 'iteritems': lambda it, d: PList([(k, v) for k, v in d.d.values()]),
        'iterkeys': lambda it, d: PList([k for k, v in d.d.values()]), 'itervalues': lambda it, d: PList([v for k, v in d.d.values()]),
        'has_key': lambda it, d, k: dict_get(it, d, k) is not POISON, 'update': d_update, 'pop': d_pop, 'setdefault': d_setdefault,
        'copy': d_copy, 'clear': d_clear}


def set_add(it, s, v):
  it.note_write(s, 'items')
  if s.epoch == 0:
    old = dict(s.d); it.undo(lambda: setattr(s, 'd', old))
  s.d[hkey(v)] = v


SET = {'add': set_add}


def sort_items(it, items, key=None, reverse=False):
  if any(isinstance(x, SymSeg) for x in items): raise Unsupported("sort of a run")
  ks = [(it.call(key, [x], {}) if key is not None else x) for x in items]
  out = []
  for k, x in zip(ks, items):
    j = len(out)
    while j > 0:
      lt = it.truth(it.compare('Lt', k, out[j - 1][0])) if not reverse else it.truth(it.compare('Gt', k, out[j - 1][0]))
      if not lt: break
      j -= 1
    out.insert(j, (k, x))
  return [x for k, x in out]


# ---------------------------------------------------------------- the builtins module
def make(it):
  ns = {}
  obj = TypeV('object', [], {}, None); obj.newstyle = True; obj.mro = [obj]
  def obj_new(t, cls, a, k):
    if cls is not obj: return POISON
    return Obj(obj)
  obj.native_new = obj_new
  def object_init(t, a, k): return None
  obj.dict['__init__'] = Builtin('__init__', object_init)
  def object_eq(t, a, k): return a[0] is a[1]
  def obj_setattr(t, a, k): t.obj_set(a[0], a[1], a[2])
  obj.dict['__setattr__'] = Builtin('__setattr__', obj_setattr)
  obj.dict['__hash__'] = Builtin('__hash__', lambda t, a, k: id(a[0]))
  obj.dict['__doc__'] = None
  ns['object'] = obj
  for n, b in EXC.items(): pass
  done = {}
  def mk_exc(n):
    if n in done: return done[n]
    b = EXC[n]
    c = TypeV(n, [mk_exc(b)] if b else [obj], {}, None)
    c.is_exc = True
    c.native_new = None
    if b is None:
      def einit(t, a, k):
        a[0].d['args'] = tuple(a[1:]); a[0].d['message'] = a[1] if len(a) == 2 else ''
      c.dict['__init__'] = Builtin('__init__', einit)
    done[n] = c
    return c
  for n in EXC: ns[n] = mk_exc(n)
  ns['None'] = None; ns['True'] = True; ns['False'] = False; ns['NotImplemented'] = NotImplementedV
  ns['__name__'] = '__builtin__'
  types = {}
  def ty(name, new, bases=()):
    c = TypeV(name, list(bases) or [obj], {}, None); c.native_new = lambda t, cls, a, k: new(t, *a, **k)
    types[name] = c; ns[name] = c
    return c
  def n_int(t, v=0, base=None): return to_int(t, v, base)
  tint = ty('int', n_int)
  ty('long', n_int)
  def n_bool(t, v=False):
    if isinstance(v, SInt): return scmp('!=', v, 0)
    if isinstance(v, SBool): return v
    return t.truth(v)
  ty('bool', n_bool, [tint])
  def n_float(t, v=0.0):
    if isinstance(v, str):
      try: return float(v)
      except ValueError: t.throw('ValueError', "could not convert string to float")
    if isinstance(v, SInt): return SRat(v, 1)
    n = t.num(v)
    if n is None: t.throw('TypeError', "float() argument must be a string or a number")
    return float(n) if isinstance(n, (int, bool)) else n
  ty('float', n_float)
  tbs = ty('basestring', lambda t, *a: t.throw('TypeError', "basestring"))
  ty('str', lambda t, v='': str_of(t, v), [tbs])
  def n_uni(t, v='', *a):
    s = str_of(t, v)
    return U(s) if isinstance(s, str) else s
  ty('unicode', n_uni, [tbs])
  ns['bytes'] = types['str']
  def n_list(t, v=None): return PList(t.iter_items(v) if v is not None else [])
  ty('list', lambda t, *a: PList(t.iter_items(a[0]) if a else []))
  def n_tuple(t, *a):
    items = t.iter_items(a[0]) if a else []
    if any(isinstance(x, SymSeg) for x in items): raise Unsupported("tuple of a symbolic run")
    return tuple(items)
  ty('tuple', n_tuple)
  def n_dict(t, *a, **k):
    d = PDict(); d_update(t, d, *a, **k); return d
  ty('dict', n_dict)
  def n_set(t, *a):
    s = PSet()
    for x in (t.iter_items(a[0]) if a else []):
      if isinstance(x, (SymSeg, SInt)): raise Unsupported("set of symbolic values")
      s.d[hkey(x)] = x
    return s
  ty('set', n_set); ty('frozenset', n_set)
  def n_bytearray(t, *a):
    if not a: return PBytearray([])
    v = a[0]
    n = t.num(v)
    if n is not None and not isinstance(n, (float, SRat)):
      n = sinty(n)
      if isinstance(n, SInt):
        if not bool(scmp('>=', n, 0)): t.throw('ValueError', "negative count")
        lo, hi = bounds(n)
        if hi is not None and hi <= 16: n = concretize(n)
        else: return PBytearray([SymSeg(n, lambda i: 0, ('zeros',), 'int')])
      if n < 0: t.throw('ValueError', "negative count")
      return PBytearray([0] * n)
    return PBytearray(byte_items(t, v))
  ty('bytearray', n_bytearray)
  ty('buffer', lambda t, v, *a: BufferV(byte_items(t, v)))
  ty('type', None)
  def n_type(t, *a):
    if len(a) == 1: return type_of(t, a[0])
    raise Unsupported("type() with three arguments")
  types['type'].native_new = lambda t, cls, a, k: n_type(t, *a)

  def type_of(t, v):
    if isinstance(v, (Obj, SEnum)): return v.cls
    if isinstance(v, (bool, SBool)): return types['bool']
    if isinstance(v, (int, SInt)): return types['int']
    if isinstance(v, (float, SRat)): return types['float']
    if isinstance(v, (U, USStr)): return types['unicode']
    if is_str(v): return types['str']
    if isinstance(v, PList): return types['list']
    if isinstance(v, PBytearray): return types['bytearray']
    if isinstance(v, tuple): return types['tuple']
    if isinstance(v, PDict): return types['dict']
    if isinstance(v, PSet): return types['set']
    if isinstance(v, ClassV): return types['type']
    if v is None: return nonetype
    raise Unsupported("type of %s" % type(v).__name__)
  nonetype = TypeV('NoneType', [obj], {}, None)
  it.type_of = lambda v: type_of(it, v)
  it.types = types

  def isinst(t, v, c):
    if isinstance(c, tuple):
      r = False
      for x in c:
        r = isinst(t, v, x)
        if r: return r
      return False
    if not isinstance(c, ClassV):
      if isinstance(c, Opaque): raise Unsupported("isinstance with " + c.name)
      if isinstance(c, Builtin): raise Unsupported("isinstance with builtin")
      t.throw('TypeError', "isinstance() arg 2 must be a class")
    if isinstance(v, (Obj, SEnum)): return v.cls.subclass_of(c) or (c is types['int'] and v.cls.is_intenum)
    if isinstance(v, Native):
      k = getattr(v, 'classv', None)
      return k is not None and k.subclass_of(c)
    if c is obj: return True
    if isinstance(v, (GenV, FuncV, BoundMethod, Builtin, Opaque, ModuleV, StaticV, SuperV)): 
      if isinstance(v, Opaque): raise Unsupported("isinstance of " + v.name)
      return False
    if isinstance(v, (int, SInt)) and not isinstance(v, bool) and c is types['int']:
      lo, hi = bounds(v)
      if lo is None or hi is None or lo < -(1 << 31) or hi >= (1 << 31):
        if isinstance(v, int): return False
        raise Unsupported("int / long distinction")
      return True
    if isinstance(v, (int, SInt)) and c is types['long']:
      if isinstance(v, int): return not (-(1 << 31) <= v < (1 << 31))
      lo, hi = bounds(v)
      if lo is not None and hi is not None and lo >= -(1 << 31) and hi < (1 << 31): return False
      raise Unsupported("int / long distinction")
    return type_of(t, v).subclass_of(c)
  it.isinst = lambda v, c: isinst(it, v, c)
  ns['isinstance'] = Builtin('isinstance', lambda t, a, k: isinst(t, *a))

  def issub(t, c, d):
    if isinstance(d, tuple): return any(issub(t, c, x) for x in d)
    if not isinstance(c, ClassV): t.throw('TypeError', "issubclass() arg 1 must be a class")
    return c.subclass_of(d)
  ns['issubclass'] = Builtin('issubclass', lambda t, a, k: issub(t, *a))

  def b_len(t, v):
    if t.watch is not None and isinstance(v, (PList, PDict)): t.watch(v, None, 'r')
    if isinstance(v, Seq): return v.length()
    if isinstance(v, SText): return len_of_text(v)
    if isinstance(v, (str, tuple)): return len(v)
    if isinstance(v, (PDict, PSet)): return len(v.d)
    if isinstance(v, BufferV): return seq_len(v.items)
    if isinstance(v, Obj):
      m = v.cls.lookup('__len__')
      if m is not None:
        r = t.call(t.bind(m, v), [], {})
        n = t.num(r)
        if n is None or isinstance(n, (float, SRat)): t.throw('TypeError', "an integer is required")
        if scmp('<', n, 0): t.throw('ValueError', "__len__() should return >= 0")
        return r
      t.throw('TypeError' if v.cls.newstyle else 'AttributeError', "object of type '%s' has no len()" % v.cls.name)
    if isinstance(v, ClassV) and v.members is not None: return len(set(id(m) for m in v.members.values()))
    if isinstance(v, Native) and hasattr(v, 'len'): return v.len(t)
    if v is None or is_intlike(v) or isinstance(v, (float, GenV, FuncV, SEnum)):
      t.throw('TypeError', "object has no len()")
    raise Unsupported("len of %s" % type(v).__name__)
  def len_of_text(v):
    x = lower(v)
    return len(x) if isinstance(x, str) else x.length()
  ns['len'] = Builtin('len', lambda t, a, k: b_len(t, *a))
  it.len_ = lambda v: b_len(it, v)

  def b_chr(t, v):
    n = t.num(v)
    if n is None or isinstance(n, (float, SRat)): t.throw('TypeError', "chr() arg")
    n = sinty(n)
    if isinstance(n, int):
      if not 0 <= n <= 255: t.throw('ValueError', "chr() arg not in range(256)")
      return chr(n)
    if not sand(scmp('>=', n, 0), scmp('<=', n, 255)): t.throw('ValueError', "chr() arg not in range(256)")
    return SStr([narrow(n, 0, 255)]).norm()
  ns['chr'] = Builtin('chr', lambda t, a, k: b_chr(t, *a))
  def b_ord(t, v):
    if isinstance(v, SText): v = lower(v)
    if isinstance(v, str):
      if len(v) != 1: t.throw('TypeError', "ord() expected a character")
      return ord(v)
    if isinstance(v, SStr):
      if len(v.items) == 1 and not isinstance(v.items[0], SymSeg): return v.items[0]
      n = v.length()
      if not bool(scmp('==', n, 1)): t.throw('TypeError', "ord() expected a character")
      return index_item(t, [x.with_kind('int') if isinstance(x, SymSeg) else x for x in v.items], 0, 'str')[0]
    if isinstance(v, PBytearray) and isinstance(v.length(), int) and v.length() == 1: return v.items[0]
    t.throw('TypeError', "ord() expected string of length 1")
  ns['ord'] = Builtin('ord', lambda t, a, k: b_ord(t, *a))

  def b_range(t, *a):
    a = [sinty(t.num(x)) if t.num(x) is not None and not isinstance(t.num(x), (float, SRat)) else t.throw('TypeError', "range() integer expected") for x in a]
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    if all(isinstance(x, int) for x in (lo, hi, st)):
      if st == 0: t.throw('ValueError', "range() arg 3 must not be zero")
      r = range(lo, hi, st)
      if len(r) > 100000: raise Unsupported("huge range")
      return PList(list(r))
    if not (isinstance(st, int) and st == 1):
      if any(not isinstance(x, int) and (None in bounds(x) or bounds(x)[1] - bounds(x)[0] > 64) for x in (lo, hi, st)): raise Unsupported("range with a symbolic bound and a step")
      return b_range(t, concretize(lo), concretize(hi), concretize(st))
    n = hi - lo
    if isinstance(n, int): return PList([lo + j for j in range(max(n, 0))])
    if not bool(scmp('>', n, 0)): return PList([])
    l, h = bounds(n)
    if h is not None and h <= 16:
      n = concretize(n); return PList([lo + j for j in range(n)])
    return PList([SymSeg(n, lambda i: lo + i, ('range', ekey(lo)), 'int')])
  ns['range'] = Builtin('range', lambda t, a, k: b_range(t, *a))
  ns['xrange'] = ns['range']

  def b_map(t, f, *seqs):
    if len(seqs) != 1: raise Unsupported("map over several sequences")
    out = []
    for x in t.iter_items(seqs[0]):
      if isinstance(x, SymSeg): out.extend(t.map_seg(x, lambda v: t.call(f, [v], {}) if f is not None else v))
      else: out.append(t.call(f, [x], {}) if f is not None else x)
    return PList(out)
  ns['map'] = Builtin('map', lambda t, a, k: b_map(t, *a))
  def b_filter(t, f, s):
    items = t.iter_items(s)
    if any(isinstance(x, SymSeg) for x in items): raise Unsupported("filter over a symbolic run")
    r = [x for x in items if t.truth(t.call(f, [x], {}) if f is not None else x)]
    if isinstance(s, str): return ''.join(r)
    return PList(r)
  ns['filter'] = Builtin('filter', lambda t, a, k: b_filter(t, *a))
  def b_reduce(t, f, s, *init):
    items = list(t.iter_items(s))
    if any(isinstance(x, SymSeg) for x in items): raise Unsupported("reduce over a symbolic run")
    if init: acc = init[0]
    else:
      if not items: t.throw('TypeError', "reduce() of empty sequence")
      acc = items.pop(0)
    for x in items: acc = t.call(f, [acc, x], {})
    return acc
  ns['reduce'] = Builtin('reduce', lambda t, a, k: b_reduce(t, *a))
  def b_sum(t, s, start=0):
    acc = start
    for x in t.iter_items(s):
      if isinstance(x, SymSeg): raise Unsupported("sum over a symbolic run")
      acc = t.binop('Add', acc, x)
    return acc
  ns['sum'] = Builtin('sum', lambda t, a, k: b_sum(t, *a))
  def b_minmax(op):
    def f(t, a, k):
      items = list(t.iter_items(a[0])) if len(a) == 1 else list(a)
      key = k.get('key')
      if any(isinstance(x, SymSeg) for x in items): raise Unsupported("min/max over a symbolic run")
      if not items: t.throw('ValueError', "empty sequence")
      best = items[0]
      kb = t.call(key, [best], {}) if key else best
      for x in items[1:]:
        kx = t.call(key, [x], {}) if key else x
        if t.truth(t.compare(op, kx, kb)): best, kb = x, kx
      return best
    return f
  ns['min'] = Builtin('min', b_minmax('Lt')); ns['max'] = Builtin('max', b_minmax('Gt'))
  def b_anyall(isany):
    def f(t, a, k):
      r = not isany
      for x in t.iter_items(a[0]):
        if isinstance(x, SymSeg): raise Unsupported("any/all over a symbolic run")
        v = t.truth(x)
        if v == isany: return isany
      return r
    return f
  ns['any'] = Builtin('any', b_anyall(True)); ns['all'] = Builtin('all', b_anyall(False))
  def b_sorted(t, s, cmp=None, key=None, reverse=False): return PList(sort_items(t, list(t.iter_items(s)), key, reverse))
  ns['sorted'] = Builtin('sorted', lambda t, a, k: b_sorted(t, *a, **k))
  def b_reversed(t, s):
    items = list(t.iter_items(s))
    if any(isinstance(x, SymSeg) for x in items): raise Unsupported("reversed run")
    return PList(items[::-1])
  ns['reversed'] = Builtin('reversed', lambda t, a, k: b_reversed(t, *a))
  def b_zip(t, *ss):
    its = [list(t.iter_items(s)) for s in ss]
    if any(isinstance(x, SymSeg) for i in its for x in i):
      if all(len(i) == 1 and isinstance(i[0], SymSeg) and i[0].kind != 'char' and ekey(i[0].length) == ekey(its[0][0].length) for i in its):
        return PList([SymSeg(its[0][0].length, lambda j: tuple(i[0].at(j) for i in its), ('zip',) + tuple(i[0].key for i in its), 'obj')])
      raise Unsupported("zip over a symbolic run")
    return PList([tuple(x) for x in zip(*its)])
  ns['zip'] = Builtin('zip', lambda t, a, k: b_zip(t, *a))
  def b_enum(t, s, start=0):
    items = list(t.iter_items(s))
    if any(isinstance(x, SymSeg) for x in items):
      if len(items) == 1 and items[0].kind != 'char':
        return PList([SymSeg(items[0].length, lambda j: (start + j, items[0].at(j)), ('enumerate', items[0].key), 'obj')])
      raise Unsupported("enumerate over a symbolic run")
    return PList([(start + i, x) for i, x in enumerate(items)])
  ns['enumerate'] = Builtin('enumerate', lambda t, a, k: b_enum(t, *a))
  ns['iter'] = Builtin('iter', lambda t, a, k: GenV(lambda: list(t.iter_items(a[0]))))
  def b_next(t, g, *d):
    if isinstance(g, GenV):
      items = g.force()
      if not items:
        g.items = []
        if d: return d[0]
        t.throw('StopIteration')
      if isinstance(items[0], SymSeg): raise Unsupported("next over a symbolic run")
      g.items = items[1:]
      return items[0]
    raise Unsupported("next")
  ns['next'] = Builtin('next', lambda t, a, k: b_next(t, *a))
  def b_abs(t, v):
    n = t.num(v)
    if n is None: t.throw('TypeError', "bad operand type for abs()")
    if isinstance(n, SRat): raise Unsupported("abs of float")
    if isinstance(n, (int, float)): return abs(n)
    n = sinty(n)
    return n if scmp('>=', n, 0) else -n
  ns['abs'] = Builtin('abs', lambda t, a, k: b_abs(t, *a))
  def b_round(t, v, nd=0):
    n = t.num(v)
    if isinstance(n, (int, float)) and not isinstance(n, bool):
      m = 10 ** nd
      return math.floor(abs(n) * m + 0.5) / m * (1 if n >= 0 else -1) + 0.0
    if isinstance(n, SInt) and nd == 0: return SRat(n, 1)
    raise Unsupported("round of a symbolic value")
  ns['round'] = Builtin('round', lambda t, a, k: b_round(t, *a))
  def b_divmod(t, a, b): return (t.binop('FloorDiv', a, b), t.binop('Mod', a, b))
  ns['divmod'] = Builtin('divmod', lambda t, a, k: b_divmod(t, *a))
  ns['pow'] = Builtin('pow', lambda t, a, k: t.binop('Pow', *a))
  def b_hex(t, v):
    n = t.num(v)
    if n is None: t.throw('TypeError', "hex() argument can't be converted to hex")
    if isinstance(n, int): return hex(int(n)) + ('L' if not -(1 << 31) <= n < (1 << 31) else '')
    n = sinty(n); lo, hi = bounds(n)
    if lo is None or hi is None or lo < -(1 << 31) or hi >= (1 << 31): return SText([('s', n, 'hex()')])      # with or without the suffix of a long
    if bool(scmp('<', n, 0)): return SText(['-0x', ('s', -n, 'x')])
    return SText(['0x', ('s', n, 'x')])
  ns['hex'] = Builtin('hex', lambda t, a, k: b_hex(t, *a))
  def b_bin(t, v):
    if isinstance(v, int): return bin(v)
    raise Unsupported("bin of a symbolic value")
  ns['bin'] = Builtin('bin', lambda t, a, k: b_bin(t, *a))
  def b_repr(t, v):
    if isinstance(v, int) and not isinstance(v, bool): return str(v)
    if isinstance(v, str): return repr(str(v))
    return SText([('s', v, 'r')])
  ns['repr'] = Builtin('repr', lambda t, a, k: b_repr(t, *a))
  def b_format(t, v, spec=''): return str_format(t, '{:%s}' % spec, [v], {})
  ns['format'] = Builtin('format', lambda t, a, k: b_format(t, *a))
  def b_getattr(t, o, n, *d):
    if not isinstance(n, str): raise Unsupported("getattr with a symbolic name")
    if not d: return t.getattr(o, n)
    try: return t.getattr(o, n)
    except PyRaise as e:
      if e.exc.cls.subclass_of(ns['AttributeError']): return d[0]
      raise
  ns['getattr'] = Builtin('getattr', lambda t, a, k: b_getattr(t, *a))
  def b_hasattr(t, o, n):
    try: t.getattr(o, n); return True
    except PyRaise: return False
  ns['hasattr'] = Builtin('hasattr', lambda t, a, k: b_hasattr(t, *a))
  ns['setattr'] = Builtin('setattr', lambda t, a, k: t.setattr(*a))
  def b_dir(t, *a):
    o = a[0] if a else None
    if isinstance(o, Obj):
      names = set(o.d)
      for c in o.cls.mro:
        if c is obj: continue
        names |= set(n for n in c.dict)
      return PList(sorted(n for n in names if isinstance(n, str)))
    if isinstance(o, ClassV):
      names = set()
      for c in o.mro: names |= set(c.dict)
      return PList(sorted(names))
    if isinstance(o, ModuleV): return PList(sorted(o.dict))
    raise Unsupported("dir")
  ns['dir'] = Builtin('dir', lambda t, a, k: b_dir(t, *a))
  ns['vars'] = Builtin('vars', lambda t, a, k: t.getattr(a[0], '__dict__'))
  ns['id'] = Builtin('id', lambda t, a, k: id(a[0]))
  ns['callable'] = Builtin('callable', lambda t, a, k: isinstance(a[0], (FuncV, BoundMethod, Builtin, ClassV)))
  ns['hash'] = Builtin('hash', lambda t, a, k: hash(hkey(a[0])))
  ns['locals_'] = Builtin('locals', lambda t, a, k: t.throw('NameError', 'locals'))
  ns['locals'] = ns['locals_']
  def n_static(t, f): return StaticV(f)
  ns['staticmethod'] = Builtin('staticmethod', lambda t, a, k: StaticV(a[0]))
  ns['classmethod'] = Builtin('classmethod', lambda t, a, k: ClassMV(a[0]))
  ns['property'] = Builtin('property', lambda t, a, k: PropertyV(*a, **k))
  def b_super(t, c, o): return SuperV(c, o)
  ns['super'] = Builtin('super', lambda t, a, k: b_super(t, *a))
  ns['print'] = Builtin('print', lambda t, a, k: None)
  def b_cmp(t, a, b):
    if t.truth(t.eq(a, b)): return 0
    return -1 if t.truth(t.compare('Lt', a, b)) else 1
  ns['cmp'] = Builtin('cmp', lambda t, a, k: b_cmp(t, *a))
  return ns


class _NI(object):
  epoch = 0
  def __repr__(self): return "NotImplemented"
NotImplementedV = _NI()
