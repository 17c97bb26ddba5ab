"""Symbolic values and the path context of the deductive engine.

Integers are mathematical: a bit-vector backed SInt carries an interval and its width always covers that interval
(every operation widens first), so no operation can wrap; an Int backed SInt is unbounded."""
import math, time
from fractions import Fraction
import z3


class Unsupported(Exception):
  """A construct outside the engine's subset: the obligation is undecided, never refuted."""


class PathAbort(Exception):
  """The current path is infeasible (an assumption is false)."""


class Budget(Exception):
  pass


class MergeFail(Exception):
  """Speculative evaluation met a fork, an assumption or a write."""


class Ctx(object):
  cur = None

  def __init__(self, prefix=(), timeout_ms=15000, deadline=None):
    self.prefix = list(prefix)
    self.trace = []          # decisions taken: (choice, n_alternatives)
    self.pending = []        # alternative prefixes discovered on this path
    self.solver = z3.Solver()
    self.solver.set('timeout', timeout_ms)
    self.pc = []
    self.n = 0
    self.model = None
    self.refine = {}
    self.keep = []           # keeps z3 asts alive: refine is keyed by ast id
    self.deadline = deadline
    self.writes = []         # writes to pre-existing objects: (obj, what)
    self.undo = []
    self.epoch = 1
    self.queries = 0
    self.solver_s = 0.0
    self.probe = None
    self.notes = set()
    self.memo = {}
    self.steps = 0
    self.nofork = False
    self.side = []           # obligations decided inside rules: (label, 'ok' | 'unknown' | leaves)

  # -- names
  def fresh_name(self, base):
    self.n += 1
    return "%s!%d" % (base, self.n)

  # -- solver
  def _check(self, *extra):
    if self.deadline is not None and time.time() > self.deadline: raise Budget("deadline")
    self.queries += 1
    t = time.time()
    r = self.solver.check(*extra)
    self.solver_s += time.time() - t
    return r

  def assume(self, c):
    c = as_z3bool(c)
    if z3.is_true(c): return
    if self.nofork: raise MergeFail()
    self.pc.append(c)
    self.solver.add(c)
    if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
      self.model = None

  def assume_feasible(self, c):
    self.assume(c)
    if isinstance(c, bool):
      if not c: raise PathAbort()
      return
    if self._check() == z3.unsat: raise PathAbort()

  def feasible(self, c):
    """True unless the solver proves pc /\\ c unsatisfiable."""
    if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)): return True
    r = self._check(c)
    if r == z3.sat:
      try: self.model = self.solver.model()
      except z3.Z3Exception: self.model = None
    return r != z3.unsat

  def branch(self, cond, ref=None):
    """cond: z3 Bool. Decide it on this path."""
    cond = z3.simplify(cond)
    if z3.is_true(cond): return True
    if z3.is_false(cond): return False
    if self.nofork: raise MergeFail()
    i = len(self.trace)
    if i < len(self.prefix):
      c = self.prefix[i]
      self.trace.append(c)
      b = bool(c & 1)
      self.assume(cond if b else z3.Not(cond))
      self._refine(ref, b)
      return b
    ft = self.feasible(cond)
    if not ft:
      self.trace.append(0)
      self.assume(z3.Not(cond)); self._refine(ref, False)
      return False
    ff = self.feasible(z3.Not(cond))
    if not ff:
      self.trace.append(1)
      self.assume(cond); self._refine(ref, True)
      return True
    self.pending.append(self.trace + [0])
    self.trace.append(1)
    self.assume(cond); self._refine(ref, True)
    return True

  def choose(self, n):
    """An n-way nondeterministic choice (all alternatives explored)."""
    if n == 1: return 0
    if self.nofork: raise MergeFail()
    i = len(self.trace)
    if i < len(self.prefix):
      c = self.prefix[i]; self.trace.append(c)
      return c
    for k in range(1, n): self.pending.append(self.trace + [k])
    self.trace.append(0)
    return 0

  def _refine(self, ref, b):
    if ref is None: return
    x, op, c = ref
    if not b:
      op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
    lo, hi = bounds(x)
    if op == '<': hi = c - 1 if hi is None else min(hi, c - 1)
    elif op == '<=': hi = c if hi is None else min(hi, c)
    elif op == '>': lo = c + 1 if lo is None else max(lo, c + 1)
    elif op == '>=': lo = c if lo is None else max(lo, c)
    elif op == '==': lo = hi = c
    self.refine[x.e.get_id()] = (lo, hi)
    self.keep.append(x.e)

  # -- fresh symbolic values
  def fresh_int(self, name, lo=None, hi=None):
    if lo is None or hi is None:
      v = z3.Int(self.fresh_name(name))
      if lo is not None: self.assume(v >= lo)
      if hi is not None: self.assume(v <= hi)
      return SInt(v, lo, hi, 'int')
    if lo == hi: return lo
    w = need(lo, hi)
    if lo == 0:
      v = z3.BitVec(self.fresh_name(name), w - 1)
      if hi != (1 << (w - 1)) - 1: self.assume(z3.ULE(v, hi))
      return SInt(z3.ZeroExt(1, v), lo, hi)
    v = z3.BitVec(self.fresh_name(name), w)
    if lo != -(1 << (w - 1)): self.assume(v >= lo)
    if hi != (1 << (w - 1)) - 1: self.assume(v <= hi)
    return SInt(v, lo, hi)

  def fresh_bool(self, name):
    return SBool(z3.Bool(self.fresh_name(name)))


def ctx():
  return Ctx.cur


def need(lo, hi):
  """Smallest signed width covering [lo, hi]."""
  a = hi.bit_length() + 1 if hi >= 0 else (~hi).bit_length() + 1
  b = lo.bit_length() + 1 if lo >= 0 else (~lo).bit_length() + 1
  return max(a, b, 2)


def bounds(x):
  """Interval of an int-like value, refined by the branches taken on this path."""
  if isinstance(x, bool): return (int(x), int(x))
  if isinstance(x, int): return (x, x)
  if isinstance(x, SBool): return (0, 1)
  r = Ctx.cur.refine.get(x.e.get_id()) if Ctx.cur is not None else None
  lo, hi = x.lo, x.hi
  if r is not None:
    if r[0] is not None and (lo is None or r[0] > lo): lo = r[0]
    if r[1] is not None and (hi is None or r[1] < hi): hi = r[1]
  return (lo, hi)


def ext(e, w):
  s = e.size()
  if s == w: return e
  if s < w: return z3.SignExt(w - s, e)
  return z3.Extract(w - 1, 0, e)


def mk(e, lo, hi):
  if lo == hi: return lo
  w = need(lo, hi)
  if e.size() != w: e = ext(e, w)
  return SInt(e, lo, hi)


def mk_int(e, lo, hi):
  if z3.is_int_value(e): return e.as_long()
  return SInt(e, lo, hi, 'int')


class SBool(object):
  __slots__ = ('b', 'ref')

  def __init__(self, b, ref=None):
    self.b = b
    self.ref = ref

  def __bool__(self):
    return Ctx.cur.branch(self.b, self.ref)

  def __repr__(self): return "SBool(%s)" % self.b

  def as_int(self):
    return SInt(z3.If(self.b, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

  def __add__(self, o): return self.as_int() + o
  __radd__ = __add__
  def __sub__(self, o): return self.as_int() - o
  def __rsub__(self, o): return o - self.as_int()
  def __mul__(self, o): return self.as_int() * o
  __rmul__ = __mul__
  def __lshift__(self, o): return self.as_int() << o
  def __rshift__(self, o): return self.as_int() >> o
  def __and__(self, o):
    if isinstance(o, bool): o = SBool(z3.BoolVal(o))
    if isinstance(o, SBool): return sb(z3.And(self.b, o.b))
    return self.as_int() & o
  __rand__ = __and__
  def __or__(self, o):
    if isinstance(o, bool): o = SBool(z3.BoolVal(o))
    if isinstance(o, SBool): return sb(z3.Or(self.b, o.b))
    return self.as_int() | o
  __ror__ = __or__
  def __xor__(self, o): return self.as_int() ^ o
  __rxor__ = __xor__
  def __neg__(self): return -self.as_int()
  def __invert__(self): return ~self.as_int()


def sb(b, ref=None):
  b = z3.simplify(b)
  if z3.is_true(b): return True
  if z3.is_false(b): return False
  return SBool(b, ref)


def snot(x):
  if isinstance(x, SBool):
    ref = None
    if x.ref is not None:
      ref = (x.ref[0], {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[x.ref[1]], x.ref[2])
    return sb(z3.Not(x.b), ref)
  return not x


def as_z3bool(x):
  if isinstance(x, SBool): return x.b
  if isinstance(x, bool): return z3.BoolVal(x)
  return x


def sand(*xs):
  out = []
  for x in xs:
    if isinstance(x, bool):
      if not x: return False
      continue
    out.append(as_z3bool(x))
  if not out: return True
  return sb(z3.And(*out))


def sor(*xs):
  out = []
  for x in xs:
    if isinstance(x, bool):
      if x: return True
      continue
    out.append(as_z3bool(x))
  if not out: return False
  return sb(z3.Or(*out))


def simplies(a, b):
  return sor(snot(a), b)


def sinty(x):
  """int-like -> int or SInt"""
  if isinstance(x, SBool): return x.as_int()
  if isinstance(x, bool): return int(x)
  return x


def is_intlike(x):
  return isinstance(x, (bool, int, SInt, SBool))


def to_int_expr(x):
  if isinstance(x, int): return z3.IntVal(x)
  if x.kind == 'int': return x.e
  return z3.BV2Int(x.e, is_signed=True)


def to_bv(x, w):
  if isinstance(x, int): return z3.BitVecVal(x, w)
  if x.kind == 'int':
    lo, hi = bounds(x)
    if lo is None or hi is None: raise Unsupported("bit-vector view of an unbounded integer")
    return z3.Int2BV(x.e, w)
  return ext(x.e, w)


def cmp_bounds(op, a, b):
  (al, ah), (bl, bh) = a, b
  if op == '<':
    if ah is not None and bl is not None and ah < bl: return True
    if al is not None and bh is not None and al >= bh: return False
  elif op == '<=':
    if ah is not None and bl is not None and ah <= bl: return True
    if al is not None and bh is not None and al > bh: return False
  elif op == '==':
    if ah is not None and bl is not None and ah < bl: return False
    if al is not None and bh is not None and al > bh: return False
  return None


def scmp(op, a, b):
  a, b = sinty(a), sinty(b)
  if isinstance(b, float):
    if math.isinf(b) or math.isnan(b): raise Unsupported("inf/nan")
    f = Fraction(b)
    if f.denominator == 1: b = int(f)
    elif op == '==': return False
    elif op == '!=': return True
    elif op in ('<', '<='): op, b = '<=', math.floor(f)
    else: op, b = '>=', math.ceil(f)
  if isinstance(a, int) and isinstance(b, int):
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
  if op == '!=': return snot(scmp('==', a, b))
  if op == '>' or op == '>=':
    return _scmp({'>': '<', '>=': '<='}[op], b, a, True)
  return _scmp(op, a, b, False)


def _scmp(op, a, b, swapped):
  r = cmp_bounds(op, bounds(a), bounds(b))
  if r is not None: return r
  ref = None
  if isinstance(b, int) and isinstance(a, SInt): ref = (a, op, b)
  elif isinstance(a, int) and isinstance(b, SInt):
    ref = (b, {'<': '>', '<=': '>=', '==': '=='}[op], a)
  if (isinstance(a, SInt) and a.kind == 'int') or (isinstance(b, SInt) and b.kind == 'int'):
    x, y = to_int_expr(a), to_int_expr(b)
  else:
    bs = [bounds_raw(a), bounds_raw(b)]
    w = max(need(*bs[0]), need(*bs[1]))
    x, y = to_bv(a, w), to_bv(b, w)
  e = {'<': lambda: x < y, '<=': lambda: x <= y, '==': lambda: x == y}[op]()
  return sb(e, ref)


def bounds_raw(x):
  if isinstance(x, int): return (x, x)
  return (x.lo, x.hi)


def pick(lo, hi):
  return (min(lo), max(hi))


class SInt(object):
  __slots__ = ('e', 'lo', 'hi', 'kind')

  def __init__(self, e, lo, hi, kind='bv'):
    self.e = e; self.lo = lo; self.hi = hi; self.kind = kind

  def __repr__(self): return "SInt(%s,%s,%s)" % (self.e, self.lo, self.hi)

  def __bool__(self): return bool(scmp('!=', self, 0))
  def __eq__(self, o):
    if not is_intlike(o) and not isinstance(o, float): return False
    return scmp('==', self, o)
  def __ne__(self, o): return snot(self.__eq__(o))
  __hash__ = None
  def __lt__(self, o): return scmp('<', self, o)
  def __le__(self, o): return scmp('<=', self, o)
  def __gt__(self, o): return scmp('>', self, o)
  def __ge__(self, o): return scmp('>=', self, o)

  def _bin(self, o, op):
    return binop(op, self, o)
  def __add__(self, o): return binop('+', self, o)
  def __radd__(self, o): return binop('+', o, self)
  def __sub__(self, o): return binop('-', self, o)
  def __rsub__(self, o): return binop('-', o, self)
  def __mul__(self, o): return binop('*', self, o)
  def __rmul__(self, o): return binop('*', o, self)
  def __and__(self, o): return binop('&', self, o)
  def __rand__(self, o): return binop('&', o, self)
  def __or__(self, o): return binop('|', self, o)
  def __ror__(self, o): return binop('|', o, self)
  def __xor__(self, o): return binop('^', self, o)
  def __rxor__(self, o): return binop('^', o, self)
  def __lshift__(self, o): return binop('<<', self, o)
  def __rlshift__(self, o): return binop('<<', o, self)
  def __rshift__(self, o): return binop('>>', self, o)
  def __rrshift__(self, o): return binop('>>', o, self)
  def __floordiv__(self, o): return binop('//', self, o)
  def __rfloordiv__(self, o): return binop('//', o, self)
  def __mod__(self, o): return binop('%', self, o)
  def __rmod__(self, o): return binop('%', o, self)
  def __neg__(self): return binop('-', 0, self)
  def __invert__(self): return binop('-', -1, self)


def binop(op, a, b):
  a, b = sinty(a), sinty(b)
  if isinstance(a, int) and isinstance(b, int):
    if op == '<<' and b > 4096: raise Unsupported("huge shift")
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
            '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b, '//': lambda: a // b,
            '%': lambda: a % b}[op]()
  if not (isinstance(a, (int, SInt)) and isinstance(b, (int, SInt))):
    return NotImplemented
  if (isinstance(a, SInt) and a.kind == 'int') or (isinstance(b, SInt) and b.kind == 'int'):
    return int_binop(op, a, b)
  (al, ah), (bl, bh) = bounds(a), bounds(b)
  ra, rb = bounds_raw(a), bounds_raw(b)
  if op in '+-*':
    if op == '+':
      if isinstance(b, int) and b == 0: return a
      if isinstance(a, int) and a == 0: return b
      lo, hi = al + bl, ah + bh
    elif op == '-':
      if isinstance(b, int) and b == 0: return a
      lo, hi = al - bh, ah - bl
    else:
      if isinstance(b, int) and b == 1: return a
      if isinstance(a, int) and a == 1: return b
      c = [al * bl, al * bh, ah * bl, ah * bh]; lo, hi = min(c), max(c)
    # the result is exact modulo 2^w for any w >= need(lo, hi): the refined interval holds on this path
    w = max(need(lo, hi), 2)
    x, y = to_bv(a, w), to_bv(b, w)
    return mk({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op](), lo, hi)
  if op in ('&', '|', '^'):
    if op == '&':
      if isinstance(b, int) and b == 0 or isinstance(a, int) and a == 0: return 0
      if al >= 0 and bl >= 0: lo, hi = 0, min(ah, bh)
      elif bl >= 0: lo, hi = 0, bh
      elif al >= 0: lo, hi = 0, ah
      else: m = max(need(al, ah), need(bl, bh)); lo, hi = -(1 << (m - 1)), max(ah, bh)
      if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0 and al >= 0 and ah <= b: return a
    else:
      if isinstance(b, int) and b == 0: return a
      if isinstance(a, int) and a == 0: return b
      if al >= 0 and bl >= 0:
        k = max(ah.bit_length(), bh.bit_length()); lo, hi = (max(al, bl) if op == '|' else 0), (1 << k) - 1
      else: m = max(need(al, ah), need(bl, bh)); lo, hi = -(1 << (m - 1)), (1 << (m - 1)) - 1
    w = max(need(al, ah), need(bl, bh), need(lo, hi))
    x, y = to_bv(a, w), to_bv(b, w)
    return mk({'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op](), lo, hi)
  if op in ('<<', '>>'):
    if isinstance(b, SInt): b = concretize(b, 256)
    if b < 0: raise ValueError("negative shift count")
    if b == 0: return a
    if isinstance(a, int): return (a << b) if op == '<<' else (a >> b)
    if op == '<<':
      lo, hi = al << b, ah << b
      w = need(lo, hi)
      return mk(to_bv(a, w) << b, lo, hi)
    lo, hi = al >> b, ah >> b
    w = max(need(al, ah), 2)
    if b >= w: b = w - 1
    return mk(to_bv(a, w) >> b, lo, hi)
  if op in ('//', '%'):
    if isinstance(b, SInt):
      if bl <= 0 <= bh:
        if b == 0: raise ZeroDivisionError()
        raise Unsupported("division by a symbolic value of unknown sign")
    elif b == 0: raise ZeroDivisionError()
    if bl < 0: raise Unsupported("division by a negative value")
    w = max(need(al, ah), need(bl, bh)) + 1
    x, y = to_bv(a, w), to_bv(b, w)
    if isinstance(b, int) and (b & (b - 1)) == 0:
      k = b.bit_length() - 1
      if op == '%': return mk(x & (b - 1), 0, min(b - 1, ah) if al >= 0 else b - 1)
      return mk(x >> k, al >> k, ah >> k)
    if al >= 0:
      if op == '%': return mk(z3.URem(x, y), 0, min(ah, bh - 1))
      return mk(z3.UDiv(x, y), al // bh, ah // bl)
    m = x % y          # bvsmod: the sign follows the divisor, as in Python
    if op == '%': return mk(m, 0, bh - 1)
    return mk((x - m) / y, min(al // bl, al // bh), max(ah // bl, ah // bh))
  return NotImplemented


def int_binop(op, a, b):
  (al, ah), (bl, bh) = bounds(a), bounds(b)
  if op in ('&', '|', '^') or (op in ('<<', '>>') and isinstance(b, SInt)):
    if None not in (al, ah, bl, bh):
      return binop(op, to_bvint(a), to_bvint(b))
    if op == '&' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
      return mk_int(to_int_expr(a) % (b + 1), 0, b)
    raise Unsupported("bit operation on an unbounded integer")
  x, y = to_int_expr(a), to_int_expr(b)
  def add(p, q): return None if p is None or q is None else p + q
  if op == '+': return mk_int(x + y, add(al, bl), add(ah, bh))
  if op == '-': return mk_int(x - y, None if al is None or bh is None else al - bh,
                              None if ah is None or bl is None else ah - bl)
  if op == '*':
    if isinstance(a, SInt) and isinstance(b, SInt): raise Unsupported("nonlinear integer arithmetic")
    if None in (al, ah, bl, bh): lo = hi = None
    else: c = [al * bl, al * bh, ah * bl, ah * bh]; lo, hi = min(c), max(c)
    if lo is None and al is not None and isinstance(b, int) and b >= 0: lo = al * b
    return mk_int(x * y, lo, hi)
  if op in ('<<', '>>', '//', '%'):
    if isinstance(b, SInt): raise Unsupported("division by a symbolic integer")
    if op in ('<<', '>>'):
      if b < 0: raise ValueError("negative shift count")
      if op == '<<': return int_binop('*', a, 1 << b)
      b = 1 << b; op = '//'; y = z3.IntVal(b)
    if b == 0: raise ZeroDivisionError()
    if b < 0: raise Unsupported("division by a negative value")
    if op == '//': return mk_int(x / y, None if al is None else al // b, None if ah is None else ah // b)
    return mk_int(x % y, 0, b - 1)
  raise Unsupported("integer operation " + op)


def to_bvint(x):
  if isinstance(x, int) or x.kind == 'bv': return x
  lo, hi = bounds(x)
  if lo is None or hi is None: raise Unsupported("bit-vector view of an unbounded integer")
  c = Ctx.cur
  key = ('bvof', x.e.get_id())
  if key not in c.memo:
    v = c.fresh_int('bvof', lo, hi)
    c.keep.append(x.e)
    if not isinstance(v, int): c.assume(to_int_expr(v) == x.e)
    c.memo[key] = v
  return c.memo[key]


def concretize(x, limit=64):
  """Fork over the feasible values of a small-domain integer."""
  if isinstance(x, int): return x
  x = sinty(x)
  if isinstance(x, int): return x
  c = Ctx.cur
  lo, hi = bounds(x)
  if lo is None or hi is None: raise Unsupported("cannot enumerate an unbounded integer")
  if hi - lo > 4 * limit + 4: raise Unsupported("cannot enumerate an integer in [%s, %s]" % (lo, hi))
  n = 0
  for v in range(lo, hi):
    eq = scmp('==', x, v)
    if isinstance(eq, bool):
      if eq: return v
      continue
    if eq: return v
    n += 1
  c.assume_feasible(scmp('==', x, hi))
  return hi


class SRat(object):
  """A float holding an exactly representable rational num / den (den a power of two, |num| < 2^53)."""
  __slots__ = ('num', 'den')

  def __init__(self, num, den):
    self.num = num; self.den = den
    lo, hi = bounds(num)
    if lo is None or hi is None or max(abs(lo), abs(hi)) >= (1 << 53):
      raise Unsupported("float result outside the exactly representable range")

  @staticmethod
  def of(x):
    if isinstance(x, SRat): return x
    if isinstance(x, float):
      f = Fraction(x); return SRat(f.numerator, f.denominator)
    return SRat(sinty(x), 1)

  def trunc(self):
    lo, hi = bounds(self.num)
    if self.den == 1: return self.num
    if lo >= 0: return self.num // self.den
    if scmp('>=', self.num, 0): return self.num // self.den
    return -((-self.num) // self.den)


def rat_binop(op, a, b):
  a, b = SRat.of(a), SRat.of(b)
  if op == '*': return SRat(binop('*', a.num, b.num), a.den * b.den)
  if op in '+-':
    return SRat(binop(op, binop('*', a.num, b.den), binop('*', b.num, a.den)), a.den * b.den)
  if not isinstance(b.num, int): raise Unsupported("float division by a symbolic value")
  if b.num == 0: raise ZeroDivisionError()
  if b.num < 0: raise Unsupported("float division by a negative value")
  if op == '/' and (b.num & (b.num - 1)) == 0:
    return SRat(binop('*', a.num, b.den), a.den * b.num)
  if op == '%' and a.den == 1 and b.den == 1:
    return SRat(binop('%', a.num, b.num), 1)
  if op == '//' and a.den == 1 and b.den == 1:
    return SRat(binop('//', a.num, b.num), 1)
  raise Unsupported("float operation " + op)


def rat_cmp(op, a, b):
  a, b = SRat.of(a), SRat.of(b)
  return scmp(op, binop('*', a.num, b.den), binop('*', b.num, a.den))


def evalm(model, x):
  """Value of a symbolic leaf under a model."""
  if isinstance(x, SBool): return z3.is_true(model.eval(x.b, model_completion=True))
  if isinstance(x, SInt):
    v = model.eval(x.e, model_completion=True)
    if x.kind == 'int': return v.as_long()
    return v.as_signed_long()
  return x
