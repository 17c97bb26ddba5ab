"""Models of the third-party and standard modules the repository imports (each is a stated assumption;
tools/conform.py compares them with the real modules under Jython)."""
import math
import z3
from sym import *
from values import *
import builtins_py2 as bt
from interp import is_str, codes, Opaque, OpaqueModule


def mod(name, d):
  m = ModuleV(name, d); m.native = True
  return m


def bi(name):
  def deco(f): return Builtin(name, lambda it, a, k: f(it, *a, **k))
  return deco


def mkclass(it, name, bases, module, d=None):
  c = ClassV(name, bases, d if d is not None else {}, module)
  return c


# ---------------------------------------------------------------- enum
def m_enum(it):
  o = it.builtins['object']
  E = ClassV('Enum', [o], {'__native_enum__': True}, 'enum'); E.is_enum = True
  I = ClassV('IntEnum', [E], {'__native_enum__': True}, 'enum'); I.is_enum = True; I.is_intenum = True
  return mod('enum', {'Enum': E, 'IntEnum': I, 'unique': Builtin('unique', lambda t, a, k: a[0])})


# ---------------------------------------------------------------- cerberus
RULES = {'nullable', 'type', 'allowed', 'min', 'max', 'minlength', 'maxlength', 'schema', 'required', 'allow_unknown', 'forbidden', 'empty'}


def cdict(it, d):
  if not isinstance(d, PDict): raise Unsupported("schema that is not a dictionary")
  return {k: v for k, v in d.d.values()}


def type_ok(it, t, v):
  ts = it.iter_items(t) if isinstance(t, PList) else [t]
  for x in ts:
    if x == 'integer':
      if is_intlike(v): return True
      if isinstance(v, (Obj, SEnum)) and v.cls.is_intenum: return True
    elif x == 'boolean':
      if isinstance(v, (bool, SBool)): return True
    elif x == 'string':
      if is_str(v): return True
    elif x == 'list':
      if isinstance(v, (PList, tuple, bt.BufferV)): return True
    elif x == 'dict':
      if isinstance(v, PDict): return True
    elif x == 'float':
      if isinstance(v, (float, SRat)) or is_intlike(v): return True
    elif x == 'number':
      if (isinstance(v, (float, SRat)) or is_intlike(v)) and not isinstance(v, (bool, SBool)): return True
    elif x == 'binary':
      if is_str(v) or isinstance(v, PBytearray): return True
    elif x == 'set':
      if isinstance(v, PSet): return True
    else: raise Unsupported("cerberus type %r" % (x,))
  return False


def iterable(it, v):
  if isinstance(v, (Seq, SText, str, tuple, PDict, PSet, bt.BufferV)): return True
  if isinstance(v, Obj): return v.cls.lookup('__iter__') is not None
  if isinstance(v, ClassV): return v.members is not None
  return False


def validate_field(it, self, field, rules, value):
  """One field against its rules: the conjunction of the accumulated outcomes."""
  r = cdict(it, rules) if isinstance(rules, PDict) else rules
  ok = True
  if value is None: return bool(it.truth(r.get('nullable', False)))
  if 'type' in r and not type_ok(it, r['type'], value): return False
  for k in r:
    if k in ('nullable', 'type', 'required', 'allow_unknown'): continue
    c = r[k]
    if k == 'allowed':
      if iterable(it, value) and not is_str(value):
        for x in it.iter_items(value):
          if isinstance(x, SymSeg): raise Unsupported("allowed over a run")
          ok = sand(ok, it.as_bool(it.contains(c, x)))
      else: ok = sand(ok, it.as_bool(it.contains(c, value)))
    elif k == 'min': ok = sand(ok, snot(it.as_bool(it.compare('Lt', value, c))))
    elif k == 'max': ok = sand(ok, snot(it.as_bool(it.compare('Gt', value, c))))
    elif k == 'minlength':
      if iterable(it, value): ok = sand(ok, snot(it.as_bool(it.compare('Lt', it.len_(value), c))))
    elif k == 'maxlength':
      if iterable(it, value): ok = sand(ok, snot(it.as_bool(it.compare('Gt', it.len_(value), c))))
    elif k == 'schema':
      if c is None: continue
      if isinstance(value, (PList, tuple)):
        for i, x in enumerate(it.iter_items(value)):
          if isinstance(x, SymSeg):
            ok = sand(ok, seg_ok(it, self, c, x))
          else: ok = sand(ok, validate_field(it, self, i, c, x))
          if ok is False: break
      elif isinstance(value, PDict): ok = sand(ok, validate_mapping(it, self, c, value))
    elif k in ('oneof_schema', 'anyof_schema', 'allof_schema', 'noneof_schema'):
      vs = []
      for s in it.iter_items(c):
        if isinstance(value, PDict): vs.append(validate_mapping(it, self, s, value))
        else: vs.append(True)
      ok = sand(ok, logical(k[:-7], vs))
    elif k in ('oneof', 'anyof', 'allof', 'noneof'):
      vs = []
      for s in it.iter_items(c):
        d = cdict(it, s)
        if 'type' not in d and 'type' in r: d = dict(d, type=r['type'])
        vs.append(validate_field(it, self, field, d, value))
      ok = sand(ok, logical(k, vs))
    else:
      m = self.cls.lookup('_validate_' + str(k))
      if m is None: raise Unsupported("cerberus rule %r" % (k,))
      n0 = self.d.get('_errs', 0)
      it.call(it.bind(m, self), [c, field, value], {})
      if self.d.get('_errs', 0) != n0: ok = False
    if ok is False and k not in (): pass
  return ok


def seg_ok(it, self, rules, seg):
  c = Ctx.cur
  hi = bounds(seg.length)[1]
  if hi is None: raise Unsupported("unbounded run")
  i = c.fresh_int('el', 0, max(hi - 1, 1))
  p0 = len(c.pending)
  ok = validate_field(it, self, 0, rules, seg.elem(i))
  if len(c.pending) != p0: raise Unsupported("branch on an element of a run")
  if ok is True: return True
  dom = as_z3bool(scmp('<', i, seg.length))
  if ok is not False and not c.feasible(z3.And(dom, z3.Not(as_z3bool(ok)))): return True
  if ok is False: return snot(scmp('>', seg.length, 0))
  raise Unsupported("element constraint on a symbolic run")


def logical(op, vs):
  if op == 'oneof':
    alts = []
    for i, v in enumerate(vs):
      alts.append(sand(v, *[snot(w) for j, w in enumerate(vs) if j != i]))
    return sor(*alts)
  if op == 'anyof': return sor(*vs)
  if op == 'allof': return sand(*vs)
  return sand(*[snot(v) for v in vs])


def validate_mapping(it, self, schema, doc):
  s = cdict(it, schema)
  ok = True
  for f in s:
    k = hkey(f)
    if k in doc.d:
      ok = sand(ok, validate_field(it, self, f, s[f], doc.d[k][1]))
      if ok is False: return False
    elif isinstance(s[f], PDict) and it.truth(cdict(it, s[f]).get('required', False)): return False
  return ok


def m_cerberus(it):
  o = it.builtins['object']
  V = ClassV('Validator', [o], {}, 'cerberus')
  def init(t, self, schema=None, allow_unknown=False, **k):
    if k: raise Unsupported("cerberus Validator options")
    self.d['_schema'] = schema; self.d['_errs'] = 0; self.d['_au'] = allow_unknown
  def validate(t, self, doc, schema=None, **k):
    if k: raise Unsupported("cerberus validate options")
    s = schema if schema is not None else self.d['_schema']
    if not t.truth(self.d['_au']): raise Unsupported("cerberus without allow_unknown")
    self.d['_errs'] = 0
    # every definition is evaluated (no short circuit), so that exceptions of custom rules are observed
    return validate_mapping(t, self, s, doc)
  def err(t, self, *a): self.d['_errs'] = self.d.get('_errs', 0) + 1
  V.dict.update({'__init__': Builtin('__init__', lambda t, a, k: init(t, *a, **k)), 'validate': Builtin('validate', lambda t, a, k: validate(t, *a, **k)),
    '_error': Builtin('_error', lambda t, a, k: err(t, *a)), 'errors': PropertyV(Builtin('errors', lambda t, a, k: PDict())),
    '__call__': Builtin('validate', lambda t, a, k: validate(t, *a, **k))})
  return mod('cerberus', {'Validator': V})


# ---------------------------------------------------------------- bitstring
class BitStream(Native):
  cls_name = 'ConstBitStream'

  def __init__(self, it, items):
    self.all = list(items)
    self.rest = list(items)
    self.bit = 0
    self.consumed = 0
    self.E = it.import_module('bitstring').dict

  # -- properties
  def p_pos(self, it):
    return self.consumed * 8 + self.bit
  p_bitpos = p_pos
  def p_bytepos(self, it):
    if self.bit: it.throw(self.E['ByteAlignError'])
    return self.consumed
  def p_len(self, it): return seq_len(self.all) * 8
  p_length = p_len
  def p_bytes(self, it): return SStr(self.all).norm()

  def setattr(self, it, name, v):
    if name == 'bytepos': self.seek(it, v, 0)
    elif name in ('pos', 'bitpos'):
      if isinstance(v, int): self.seek(it, v >> 3, v & 7)
      else:
        b = v & 7
        self.seek(it, v >> 3, concretize(b))
    else: raise Unsupported("set stream attribute " + name)

  def seek(self, it, k, b):
    n = seq_len(self.all)
    if not sand(scmp('>=', k, 0), scmp('<=', k, n)): it.throw('ValueError', "Bit position out of range")
    if b and not bool(scmp('<', k, n)): it.throw('ValueError', "Bit position out of range")
    if isinstance(k, int) and k == 0: self.rest = list(self.all)
    else: self.rest = bt.split_at(it, self.all, k)[1]
    self.consumed = k; self.bit = b

  def m_read(self, it, fmt):
    save = (self.rest, self.bit, self.consumed)
    try: return self._read(it, fmt)
    except PyRaise:
      self.rest, self.bit, self.consumed = save
      raise

  def m_peek(self, it, fmt):
    save = (self.rest, self.bit, self.consumed)
    try: return self._read(it, fmt)
    finally: self.rest, self.bit, self.consumed = save

  def _tokens(self, it, fmt, kw):
    out = []
    if isinstance(fmt, PList): toks = [x for f in it.iter_items(fmt) for x in self._split(f)]
    else: toks = self._split(fmt)
    for f in toks:
      if isinstance(f, str) and ':' in f and f.split(':')[1] in kw:
        out.append((f.split(':')[0], kw[f.split(':')[1]]))
      else: out.append(f)
    return out

  def _split(self, f):
    if isinstance(f, str): return [x.strip() for x in f.split(',')]
    return [f]

  def m_readlist(self, it, fmt, **kw):
    save = (self.rest, self.bit, self.consumed)
    out = PList()
    try:
      for f in self._tokens(it, fmt, kw):
        v = self._read(it, f)
        if not (isinstance(f, str) and f.startswith('pad')): out.items.append(v)
    except PyRaise:
      self.rest, self.bit, self.consumed = save
      raise
    return out

  def m_peeklist(self, it, fmt, **kw):
    save = (self.rest, self.bit, self.consumed)
    try: return self.m_readlist(it, fmt, **kw)
    finally: self.rest, self.bit, self.consumed = save

  def m_bytealign(self, it):
    if self.bit:
      k = 8 - self.bit
      self.rest = self.rest[1:]; self.bit = 0; self.consumed = self.consumed + 1
      return k
    return 0

  def _parse(self, it, fmt):
    if isinstance(fmt, tuple): return fmt[0], fmt[1]
    if is_intlike(fmt): return 'bits', sinty(fmt)
    if isinstance(fmt, SStr): fmt = fmt.norm()
    if isinstance(fmt, SText):
      if len(fmt.parts) == 2 and isinstance(fmt.parts[0], str) and fmt.parts[0].endswith(':') and \
         not isinstance(fmt.parts[1], str) and fmt.parts[1][2] in ('', 'd', 's') and is_intlike(fmt.parts[1][1]):
        return fmt.parts[0][:-1], sinty(fmt.parts[1][1])
      raise Unsupported("symbolic read format")
    if not isinstance(fmt, str): raise Unsupported("read format %r" % (fmt,))
    f = fmt.strip()
    if f == 'bool': return 'bool', 1
    if ':' in f:
      k, n = f.split(':', 1)
      try: return k.strip(), int(n)
      except ValueError: raise Unsupported("read format " + fmt)
    raise Unsupported("read format " + fmt)

  def err(self, it):
    it.throw(self.E['ReadError'])

  def _read(self, it, fmt):
    kind, n = self._parse(it, fmt)
    if kind == 'bool': n = 1
    if isinstance(n, SInt):
      if scmp('<', n, 0): it.throw('ValueError', "Can't read a token with a negative length.")
      if kind == 'bytes': return self._bytes(it, n)
      if kind == 'pad' and self.bit == 0 and not Ctx.cur.feasible(as_z3bool(scmp('!=', n & 7, 0))):
        self._bytes(it, n >> 3); return None
      if kind == 'pad' or kind == 'bits': raise Unsupported("symbolic bit count")
      n = concretize(n, 256)
    if n < 0: it.throw('ValueError', "Can't read a token with a negative length.")
    if kind == 'bytes': return self._bytes(it, n)
    bs, sh = self._take(it, n)
    if kind == 'pad': return None
    if kind == 'bits': return Bits(bs, sh, n)
    if kind in ('uint', 'int', 'uintle', 'intle', 'uintbe', 'intbe', 'uintne', 'hex', 'bin', 'bool'):
      if n == 0:
        if kind in ('hex', 'bin'): return ''
        it.throw(self.E['InterpretError'])
      if kind in ('uintle', 'intle', 'uintbe', 'intbe'):
        if n % 8: it.throw(self.E['InterpretError'])
        if kind.endswith('le'):
          if sh: raise Unsupported("unaligned little-endian read")
          bs = bs[::-1]
      v = bits_uint(bs, sh, n)
      if kind == 'bool': return v == 1 if isinstance(v, int) else scmp('==', v, 1)
      if kind.startswith('int'):
        if isinstance(v, int): return v - (1 << n) if v >> (n - 1) else v
        e = z3.simplify(to_bv(v, n) if v.e.size() >= n else ext(v.e, n))
        return SInt(e, -(1 << (n - 1)), (1 << (n - 1)) - 1) if n >= 2 else -v
      if kind in ('hex', 'bin'):
        if isinstance(v, int):
          return ('%0' + str((n + 3) // 4) + 'x') % v if kind == 'hex' else bin(v)[2:].rjust(n, '0')
        raise Unsupported("hex of symbolic bits")
      return v
    raise Unsupported("read kind " + kind)

  def _need(self, it, nbytes):
    """Make the first nbytes of rest individual bytes; ReadError if fewer are available."""
    out = []
    rest = list(self.rest)
    while len(out) < nbytes:
      if not rest: self.err(it)
      x = rest[0]
      if isinstance(x, SymSeg):
        want = nbytes - len(out)
        if len(rest) == 1:
          if not bool(scmp('>=', x.length, want)): self.err(it)
          for i in range(want): out.append(x.at(i))
          rest[0] = x.slice(want, x.length - want)
          continue
        if bool(scmp('>', x.length, 0)):
          out.append(x.at(0)); rest[0] = x.slice(1, x.length - 1)
        else: rest.pop(0)
      else:
        out.append(x); rest.pop(0)
    return out, rest

  def _take(self, it, n):
    """n bits (concrete) from the current bit offset: (bytes, bit shift)."""
    if n == 0: return [], 0
    nb = (self.bit + n + 7) // 8
    bs, rest = self._need(it, nb)
    sh = self.bit
    end = self.bit + n
    full, b = divmod(end, 8)
    if b:
      self.rest = [bs[full]] + rest
    else: self.rest = rest
    self.consumed = self.consumed + full
    self.bit = b
    return bs, sh

  def _bytes(self, it, n):
    if self.bit:
      n = concretize(n) if isinstance(n, SInt) else n
      bs, sh = self._take(it, 8 * n)
      return SStr([bits_uint(bs[i:i + 2], sh, 8) for i in range(n)]).norm()
    if isinstance(n, int):
      bs, rest = self._need(it, n) if n <= 64 else (None, None)
      if bs is not None:
        self.rest = rest; self.consumed = self.consumed + n
        return SStr(bs).norm()
    if not bool(scmp('<=', n, seq_len(self.rest))): self.err(it)
    a, rest = bt.split_at(it, self.rest, n)
    self.rest = rest; self.consumed = self.consumed + n
    return SStr(a).norm()


class Bits(Native):
  cls_name = 'Bits'

  def __init__(self, bs, sh, n): self.bs, self.sh, self.n = bs, sh, n
  def p_uint(self, it):
    if self.n == 0: it.throw(it.import_module('bitstring').dict['InterpretError'])
    return bits_uint(self.bs, self.sh, self.n)
  def p_len(self, it): return self.n
  def p_length(self, it): return self.n


def bits_uint(bs, sh, n):
  """The n-bit unsigned integer that starts sh bits into the byte list."""
  if all(isinstance(b, int) for b in bs):
    v = 0
    for b in bs: v = (v << 8) | b
    return (v >> (8 * len(bs) - sh - n)) & ((1 << n) - 1)
  es = [z3.BitVecVal(b, 8) if isinstance(b, int) else z3.simplify(ext(b.e, 8) if b.kind == 'bv' else to_bv(to_bvint(b), 8)) for b in bs]
  e = es[0] if len(es) == 1 else z3.Concat(*es)
  w = 8 * len(bs)
  hi = w - sh - 1
  e = z3.simplify(z3.Extract(hi, hi - n + 1, e))
  if z3.is_bv_value(e): return e.as_long()
  return SInt(z3.ZeroExt(1, e), 0, (1 << n) - 1)


def m_bitstring(it):
  ex = it.builtins['Exception']; ve = it.builtins['ValueError']; ie = it.builtins['IndexError']
  def cls(n, bases):
    c = ClassV(n, bases, {}, 'bitstring'); c.is_exc = True
    return c
  Err = cls('Error', [ex])
  def einit(t, a, k):
    a[0].d['args'] = (); a[0].d['message'] = ''; a[0].d['msg'] = a[1] if len(a) > 1 else ''
  Err.dict['__init__'] = FuncLike(einit)
  ns = {'Error': Err, 'ReadError': cls('ReadError', [Err, ie]), 'InterpretError': cls('InterpretError', [Err, ve]),
        'ByteAlignError': cls('ByteAlignError', [Err]), 'CreationError': cls('CreationError', [Err, ve])}
  def new(t, auto=None, bytes=None, length=None, offset=None, **k):
    if k or length is not None or offset is not None: raise Unsupported("ConstBitStream options")
    if auto is not None:
      if isinstance(auto, PBytearray): return BitStream(t, auto.items)
      raise Unsupported("ConstBitStream(auto)")
    if bytes is None: return BitStream(t, [])
    return BitStream(t, bt.byte_items(t, bytes))
  for n in ('ConstBitStream', 'BitStream', 'Bits', 'BitArray'):
    c = ClassV(n, [it.builtins['object']], {}, 'bitstring')
    c.native_new = lambda t, cls, a, k: new(t, *a, **k)
    ns[n] = c
  return mod('bitstring', ns)


class FuncLike(Builtin):
  """A native method that the exception constructor must call."""
  def __init__(self, fn): Builtin.__init__(self, 'native', fn)


# ---------------------------------------------------------------- struct
SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def parse_fmt(fmt):
  if not isinstance(fmt, str): raise Unsupported("symbolic struct format")
  little = False; native = True
  f = fmt
  if f and f[0] in '<>=!@':
    native = f[0] in '@'
    little = f[0] == '<'
    f = f[1:]
  out = []
  n = ''
  for c in f:
    if c.isspace(): continue
    if c.isdigit(): n += c; continue
    k = int(n) if n else 1; hadn = bool(n); n = ''
    if c == 's': out.append(('s', k)); continue
    if c not in SIZES: raise Unsupported("struct format " + fmt)
    sz = SIZES[c]
    for _ in range(k):
      if native:
        off = sum(SIZES.get(x, 0) if x != 's' else y for x, y in out)
        while off % sz: out.append(('x', 1)); off += 1
      out.append((c, sz))
  return out, little


def m_struct(it):
  serr = ClassV('error', [it.builtins['Exception']], {}, 'struct'); serr.is_exc = True
  def calcsize(t, fmt):
    fs, _ = parse_fmt(fmt)
    return sum(s for ch, s in fs)
  def pack(t, fmt, *args):
    fs, little = parse_fmt(fmt)
    need_ = sum(1 for c, s in fs if c != 'x')
    if len(args) < need_: t.throw(serr, "insufficient arguments to pack")
    if len(args) > need_: t.throw(serr, "too many arguments for pack format")
    out = []; k = 0
    for c, sz in fs:
      if c == 'x': out.append(0); continue
      v = args[k]; k += 1
      if c == 's':
        cs = codes(v) if is_str(v) else t.throw(serr, "argument for 's' must be a string")
        if any(isinstance(x, SymSeg) for x in cs): raise Unsupported("pack of a run")
        out.extend((cs + [0] * sz)[:sz]); continue
      if c == 'c':
        out.extend(codes(v)); continue
      n = t.num(v)
      if n is None: t.throw(serr, "required argument is not an integer")
      if isinstance(n, (float, SRat)): n = SRat.of(n).trunc()
      n = sinty(n)
      if c == '?': n = 1 if t.truth(n) else 0
      if isinstance(n, int): bs = [(n >> (8 * j)) & 255 for j in range(sz)]
      else:
        # Jython's struct keeps the low bytes without a range check
        bs = [byte_of(n, j) for j in range(sz)]
      out.extend(bs if little else bs[::-1])
    return SStr(out).norm()
  def unpack(t, fmt, s):
    fs, little = parse_fmt(fmt)
    items = bt.byte_items(t, s)
    total = sum(s_ for c, s_ in fs)
    if any(isinstance(x, SymSeg) for x in items):
      if not bool(scmp('==', seq_len(items), total)): t.throw(serr, "unpack str size does not match format")
      flat = []
      while len(flat) < total:
        items = bt.drop_empty(items)
        x = items[0]
        if isinstance(x, SymSeg): flat.append(x.at(0)); items = [x.slice(1, x.length - 1)] + items[1:]
        else: flat.append(x); items = items[1:]
      items = flat
    if len(items) != total: t.throw(serr, "unpack str size does not match format")
    out = []
    for c, sz in fs:
      bs, items = items[:sz], items[sz:]
      if c == 'x': continue
      if c in ('s', 'c'): out.append(SStr(bs).norm()); continue
      if little: bs = bs[::-1]
      v = bits_uint(bs, 0, 8 * sz)
      if c == '?': v = scmp('!=', v, 0)
      elif c.islower():
        n = 8 * sz
        if isinstance(v, int): v = v - (1 << n) if v >> (n - 1) else v
        else: v = SInt(z3.simplify(ext(v.e, n)), -(1 << (n - 1)), (1 << (n - 1)) - 1)
      out.append(v)
    return tuple(out)
  def calcsize(t, fmt): return sum(s for c, s in parse_fmt(fmt)[0])
  return mod('struct', {'pack': Builtin('pack', lambda t, a, k: pack(t, *a)), 'unpack': Builtin('unpack', lambda t, a, k: unpack(t, *a)),
    'calcsize': Builtin('calcsize', lambda t, a, k: calcsize(t, *a)), 'error': serr})


def byte_of(n, j):
  if n.kind == 'int': n = to_bvint(n)
  if isinstance(n, int): return (n >> (8 * j)) & 255
  w = max(8 * j + 8, n.e.size())
  e = z3.simplify(z3.Extract(8 * j + 7, 8 * j, ext(n.e, w)))
  if z3.is_bv_value(e): return e.as_long()
  return SInt(z3.ZeroExt(1, e), 0, 255)


# ---------------------------------------------------------------- math
def m_math(it):
  def fl(t, v):
    n = t.num(v)
    if n is None: t.throw('TypeError', "a float is required")
    return n
  def wrap(name, f, sym=None):
    def g(t, *a):
      ns = [fl(t, x) for x in a]
      if all(isinstance(n, (int, float)) for n in ns):
        try: return f(*[float(n) if not isinstance(n, bool) else float(n) for n in ns])
        except ValueError: t.throw('ValueError', "math domain error")
        except OverflowError: t.throw('OverflowError', "math range error")
        except ZeroDivisionError: t.throw('ValueError', "math domain error")
      if sym is not None: return sym(t, *ns)
      raise Unsupported("math.%s of a symbolic value" % name)
    return Builtin(name, lambda t, a, k: g(t, *a))
  def ceil_s(t, v):
    v = SRat.of(v)
    if v.den == 1: return v
    return SRat(-((-v.num) // v.den), 1)
  def floor_s(t, v):
    v = SRat.of(v)
    return SRat(v.num // v.den, 1)
  def pow_s(t, a, b):
    if isinstance(b, (SInt, SBool)) and isinstance(a, (int, float)):
      return math.pow(a, concretize(sinty(b)))
    raise Unsupported("math.pow of a symbolic value")
  def jlog(*a):
    if len(a) == 2:
      if a[0] <= 0 or a[1] <= 0: raise ValueError()
      return math.log(a[0]) / math.log(a[1])
    return math.log(a[0])
  return mod('math', {'pow': wrap('pow', math.pow, pow_s), 'ceil': wrap('ceil', lambda x: float(math.ceil(x)), ceil_s),
    'floor': wrap('floor', lambda x: float(math.floor(x)), floor_s), 'log': wrap('log', jlog),
    'sqrt': wrap('sqrt', math.sqrt), 'fabs': wrap('fabs', math.fabs), 'pi': math.pi, 'e': math.e, 'exp': wrap('exp', math.exp),
    'log10': wrap('log10', math.log10), 'trunc': Builtin('trunc', lambda t, a, k: bt.to_int(t, a[0]))})


# ---------------------------------------------------------------- crc
CRC_TABLE = {  # name: (polynomial without the top bit, initial value, reflected, final xor)
  'crc-ccitt-false': (0x1021, 0xFFFF, False, 0), 'xmodem': (0x1021, 0x0000, False, 0), 'crc-16': (0x8005, 0, True, 0),
  'kermit': (0x1021, 0, True, 0), 'x-25': (0x1021, 0x0000, True, 0xFFFF), 'crc-aug-ccitt': (0x1021, 0x1D0F, False, 0),
  'crc-16-buypass': (0x8005, 0, False, 0), 'crc-16-genibus': (0x1021, 0x0000, False, 0xFFFF), 'modbus': (0x8005, 0xFFFF, True, 0),
}


def crc_spec(data, poly=0x1021, init=0xFFFF):
  """CRC-16/CCITT-FALSE, bit by bit (the specification)."""
  r = init
  for b in data:
    r ^= b << 8
    for _ in range(8):
      r = ((r << 1) ^ poly if r & 0x8000 else r << 1) & 0xFFFF
  return r


def item_key(x):
  if isinstance(x, SymSeg): return ('g', x.key, ekey(x.length))
  return ekey(x)


def crc_value(name, items):
  """The CRC of a byte sequence: computed when concrete, else an uninterpreted function of (algorithm, content)."""
  c = Ctx.cur
  if all(isinstance(x, int) for x in items):
    if name not in CRC_TABLE: raise Unsupported("CRC algorithm " + name)
    poly, init, refl, xo = CRC_TABLE[name]
    if refl: raise Unsupported("reflected CRC " + name)
    return crc_spec(items, poly, init ^ 0) ^ xo
  c.notes.add('crc')
  if len(items) == 1 and isinstance(items[0], SymSeg) and items[0].base is not None:
    x = items[0]
    f = z3.Function('crc!%s!%s' % (name, x.base), z3.BitVecSort(40), z3.BitVecSort(40), z3.BitVecSort(16))
    v = SInt(z3.ZeroExt(1, f(to_bv(sinty(x.off), 40), to_bv(sinty(x.length), 40))), 0, 0xFFFF)
    if bounds(x.length)[0] <= 0: c.assume(as_z3bool(simplies(scmp('==', x.length, 0), scmp('==', v, crc_value(name, [])))))
    return v
  key = ('crc', name, tuple(item_key(x) for x in items))
  if key not in c.memo:
    # extensional lookup: an earlier application to a provably equal sequence has the same value
    c.memo[key] = c.fresh_int('crc', 0, 0xFFFF)
    c.memo.setdefault('crc_apps', []).append((name, list(items), c.memo[key]))
  return c.memo[key]


class CrcFun(Native):
  cls_name = 'crc function'

  def __init__(self, name): self.name = name

  def call(self, it, args, kw):
    if len(args) != 1 or kw: raise Unsupported("incremental CRC")
    v = args[0]
    if not (is_str(v) or isinstance(v, (PBytearray, bt.BufferV))): it.throw('TypeError', "string argument expected")
    if isinstance(v, (U, USStr)): it.throw('TypeError', "string argument expected")
    return crc_value(self.name, bt.byte_items(it, v))


def m_crcmod(it):
  def mk(t, name):
    if not isinstance(name, str): raise Unsupported("CRC name")
    return CrcFun(name.lower())
  m = mod('crcmod.predefined', {'mkCrcFun': Builtin('mkCrcFun', lambda t, a, k: mk(t, *a, **k)),
                                'mkPredefinedCrcFun': Builtin('mkCrcFun', lambda t, a, k: mk(t, *a, **k))})
  return m


def m_crcmod_top(it):
  d = {'predefined': it.import_module('crcmod.predefined')}
  def mkfun(t, poly, initCrc=None, rev=True, xorOut=0):
    for n, (p, i, r, x) in CRC_TABLE.items():
      # crcmod's initCrc is the value before the final xor
      if poly == (0x10000 | p) and rev == r and xorOut == x and initCrc == (i ^ x if x else i): return CrcFun(n)
    raise Unsupported("custom CRC")
  d['mkCrcFun'] = Builtin('mkCrcFun', lambda t, a, k: mkfun(t, *a, **k))
  return mod('crcmod', d)


def m_binascii(it):
  def hexl(t, v):
    if not (is_str(v) or isinstance(v, (PBytearray, bt.BufferV))): t.throw('TypeError', "expected a string")
    items = bt.byte_items(t, v)
    if all(isinstance(x, int) for x in items): return ''.join("%02x" % x for x in items)
    return bt.HexStr(items)
  def unhex(t, v): return bt.s_decode2(t, v, 'hex')
  return mod('binascii', {'hexlify': Builtin('hexlify', lambda t, a, k: hexl(t, *a)), 'b2a_hex': Builtin('hexlify', lambda t, a, k: hexl(t, *a)),
    'unhexlify': Builtin('unhexlify', lambda t, a, k: unhex(t, *a)), 'a2b_hex': Builtin('unhexlify', lambda t, a, k: unhex(t, *a))})


def m_random(it):
  def randint(t, a, b):
    if Ctx.cur is None: return a
    if not (isinstance(a, int) and isinstance(b, int)): raise Unsupported("randint bounds")
    if a > b: t.throw('ValueError', "empty range for randrange()")
    v = Ctx.cur.fresh_int('rand', a, b)
    Ctx.cur.memo.setdefault('rands', []).append(v)
    return v
  def randrange(t, a, b=None):
    return randint(t, 0, a - 1) if b is None else randint(t, a, b - 1)
  return mod('random', {'randint': Builtin('randint', lambda t, a, k: randint(t, *a)), 'randrange': Builtin('randrange', lambda t, a, k: randrange(t, *a))})


class Printer(Native):
  cls_name = 'PrettyPrinter'
  def m_pformat(self, it, v): return SText([('s', v, 'pformat')])
  def m_pprint(self, it, v): return None


class Null(Native):
  """An object whose methods have no effect the properties observe (logging, printing)."""
  cls_name = 'null'

  def __init__(self, ret=None): self.ret = ret
  def getattr(self, it, name):
    return Builtin(name, lambda t, a, k: self.ret)


def m_logging(it):
  n = Null()
  d = {'getLogger': Builtin('getLogger', lambda t, a, k: n)}
  for i, x in enumerate(('NOTSET', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL')): d[x] = i * 10
  for x in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'basicConfig'):
    d[x] = Builtin(x, lambda t, a, k: None)
  d['Formatter'] = Builtin('Formatter', lambda t, a, k: Null()); d['StreamHandler'] = Builtin('StreamHandler', lambda t, a, k: Null())
  return mod('logging', d)


def m_inspect(it):
  return mod('inspect', {'isclass': Builtin('isclass', lambda t, a, k: isinstance(a[0], ClassV)),
                         'ismethod': Builtin('ismethod', lambda t, a, k: isinstance(a[0], BoundMethod)),
                         'isfunction': Builtin('isfunction', lambda t, a, k: isinstance(a[0], FuncV))})


def m_pprint(it):
  def pf(t, v): return SText([('s', v, 'pformat')])
  return mod('pprint', {'pprint': Builtin('pprint', lambda t, a, k: None), 'pformat': Builtin('pformat', lambda t, a, k: pf(t, a[0])),
                        'PrettyPrinter': Builtin('PrettyPrinter', lambda t, a, k: Printer())})


def m_abc(it):
  return mod('abc', {'ABCMeta': it.builtins['type'], 'abstractmethod': Builtin('abstractmethod', lambda t, a, k: a[0]),
                     'abstractproperty': Builtin('abstractproperty', lambda t, a, k: PropertyV(*a))})


def m_importlib(it):
  return mod('importlib', {'import_module': Builtin('import_module', lambda t, a, k: imp(t, a[0]))})


def imp(t, name):
  if not isinstance(name, str): raise Unsupported("import of a symbolic name")
  if name not in t.asts: raise Unsupported("import of " + name)
  return t.import_module(name)


def m_jsonpickle(it):
  """jsonpickle 1.4: registered handlers only (an exact class first, then a registered base class)."""
  import json
  B = ClassV('BaseHandler', [it.builtins['object']], {}, 'jsonpickle.handlers')
  def init(t, a, k):
    t.setattr(a[0], 'context', a[1] if len(a) > 1 else k.get('context'))
    return None
  B.dict['__init__'] = Builtin('__init__', init)
  exact, bases = {}, {}
  def register(t, a, k):
    cls = a[0]; handler = a[1] if len(a) > 1 else k.get('handler'); base = a[2] if len(a) > 2 else k.get('base', False)
    if handler is None:
      def deco(t2, a2, k2):
        register(t2, [cls, a2[0], base], {}); return a2[0]
      return Builtin('_register', deco)
    if not isinstance(cls, ClassV): t.throw('TypeError', "not a class/type")
    exact[cls] = handler
    if t.truth(base): bases[cls] = handler
    return None
  def handler_of(cls):
    if cls in exact: return exact[cls]
    for c, h in bases.items():
      if c in cls.mro: return h
    return None
  def plain(t, v):
    if v is None or isinstance(v, (bool, int, str)): return v
    if isinstance(v, PList): return [plain(t, x) for x in v.items]
    if isinstance(v, PDict): return {plain(t, kv[0]): plain(t, kv[1]) for kv in v.d.values()}
    raise Unsupported("JSON form of %s" % type(v).__name__)
  def back(t, v):
    if isinstance(v, list): return PList([back(t, x) for x in v])
    if isinstance(v, dict):
      d = PDict()
      for k, x in v.items(): t.setitem(d, U(k), back(t, x))
      return d
    return U(v) if isinstance(v, str) else v
  def encode(t, a, k):
    v = a[0]
    if not isinstance(v, Obj) or len(a) > 1 or k: raise Unsupported("jsonpickle.encode of %s" % type(v).__name__)
    h = handler_of(v.cls)
    if h is None: raise Unsupported("jsonpickle.encode without a handler")
    d = PDict()
    t.setitem(d, 'py/object', v.cls.module + '.' + v.cls.name)
    return json.dumps(plain(t, t.call_method(t.call(h, [Null()], {}), 'flatten', [v, d], {})))
  def decode(t, a, k):
    if not isinstance(a[0], str) or len(a) > 1 or k: raise Unsupported("jsonpickle.decode")
    d = json.loads(a[0])
    if not isinstance(d, dict) or 'py/object' not in d: raise Unsupported("jsonpickle.decode of other documents")
    cls = t.get(d['py/object'])
    h = handler_of(cls)
    if h is None: raise Unsupported("jsonpickle.decode without a handler")
    return t.call_method(t.call(h, [Null()], {}), 'restore', [back(t, d)], {})
  h = mod('jsonpickle.handlers', {'BaseHandler': B, 'register': Builtin('register', register)})
  it.modules['jsonpickle.handlers'] = h
  return mod('jsonpickle', {'handlers': h, 'encode': Builtin('encode', encode), 'decode': Builtin('decode', decode),
                            'set_encoder_options': Builtin('x', lambda t, a, k: None)})


class LockV(Native):
  cls_name = 'lock'
  def m_acquire(self, it, *a, **k): return True
  def m_release(self, it): return None
  def m___enter__(self, it): return True
  def m___exit__(self, it, *a): return None


class ThreadV(Native):
  cls_name = 'thread'
  def __init__(self, kw): self.kw = kw; self.log = []
  def m_start(self, it): self.log.append('start')
  def m_join(self, it, *a): self.log.append('join')
  def setattr(self, it, name, v): self.kw[name] = v


def m_threading(it):
  return mod('threading', {'Lock': Builtin('Lock', lambda t, a, k: LockV()), 'RLock': Builtin('RLock', lambda t, a, k: LockV()),
                           'Thread': Builtin('Thread', lambda t, a, k: ThreadV(dict(k)))})


def m_time(it):
  return mod('time', {'sleep': Builtin('sleep', lambda t, a, k: None)})


def m_datetime(it):
  c = ClassV('datetime', [it.builtins['object']], {}, 'datetime')
  c.dict['now'] = StaticV(Builtin('now', lambda t, a, k: Opaque('datetime.now()')))
  return mod('datetime', {'datetime': c})


def m_serial(it):
  e = ClassV('SerialException', [it.builtins['IOError']], {}, 'serial'); e.is_exc = True
  return mod('serial', {'SerialException': e, 'Serial': Opaque('serial.Serial'), 'PARITY_NONE': 'N', 'STOPBITS_ONE': 1, 'EIGHTBITS': 8})


def m_collections(it):
  return mod('collections', {'OrderedDict': it.builtins['dict']})


def m_copy(it):
  def cp(t, v, deep, memo=None):
    if isinstance(v, PList): return PList([cp(t, x, deep) if deep else x for x in v.items])
    if isinstance(v, PBytearray): return PBytearray(v.items)
    if isinstance(v, PDict):
      d = PDict(); d.d = {k: (kk, cp(t, x, deep) if deep else x) for k, (kk, x) in v.d.items()}; return d
    if isinstance(v, Obj):
      if v.cls.is_enum: return v
      o = Obj(v.cls); o.d = {k: cp(t, x, deep) if deep else x for k, x in v.d.items()}; return o
    if isinstance(v, tuple): return tuple(cp(t, x, deep) if deep else x for x in v)
    if isinstance(v, SymSeg): return v
    return v
  return mod('copy', {'copy': Builtin('copy', lambda t, a, k: cp(t, a[0], False)), 'deepcopy': Builtin('deepcopy', lambda t, a, k: cp(t, a[0], True))})


def m_itertools(it):
  return mod('itertools', {'chain': Builtin('chain', lambda t, a, k: PList([x for s in a for x in t.iter_items(s)]))})


def m_functools(it):
  return mod('functools', {'reduce': it.builtins['reduce'], 'wraps': Builtin('wraps', lambda t, a, k: Builtin('w', lambda t2, a2, k2: a2[0]))})


def m_sys(it):
  from interp import OpaqueModule
  m = OpaqueModule('sys'); m.dict['maxint'] = (1 << 31) - 1; m.dict['version_info'] = (2, 7, 3, 'final', 0)
  return m


def m_absent(it): raise it.exc('ImportError', "No module named " + "_crcfunext")


LIBS = {'sys': m_sys, '_crcfunext': m_absent, 'enum': m_enum, 'cerberus': m_cerberus, 'bitstring': m_bitstring, 'struct': m_struct, 'math': m_math,
        'crcmod.predefined': m_crcmod, 'crcmod': m_crcmod_top, 'binascii': m_binascii, 'random': m_random, 'logging': m_logging,
        'inspect': m_inspect, 'pprint': m_pprint, 'abc': m_abc, 'importlib': m_importlib, 'jsonpickle': m_jsonpickle,
        'threading': m_threading, 'time': m_time, 'datetime': m_datetime, 'serial': m_serial, 'collections': m_collections,
        'copy': m_copy, 'itertools': m_itertools, 'functools': m_functools}
