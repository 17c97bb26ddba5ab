# One operation (or a few that belong together) per function; the comment gives the domain of each argument.
# Run under Jython 2.7 against the real modules and, as a syntax tree, by the engine.
import struct
import enum
import math
import binascii
from bitstring import ConstBitStream, ReadError
from cerberus import Validator

class E(enum.Enum):
  A = 0
  B = 1
  C = 7
  D = 1

class I(enum.IntEnum):
  X = 1
  Y = 2

# -- integers
def t_div(a, b): # a=-300..300 b=-5..5
  return [a // b, a % b, divmod(a, b)]
def t_bits(a, b): # a=-70000..70000 b=-70000..70000
  return [a & b, a | b, a ^ b, ~a, -a, +b, abs(a)]
def t_shift(a, b): # a=-5000..5000 b=0..9
  return [a << b, a >> b]
def t_shift_neg(a, b): # a=0..5 b=-2..2
  return a << b
def t_mul(a, b): # a=-70000..70000 b=-70000..70000
  return [a * b, a - b, a + b]
def t_pow(b): # b=0..9
  return [2 ** b, pow(4, b)]
def t_cmp(a, b): # a=-2..3 b=-2..3
  return [a < b, a <= b, a == b, a != b, a > b, a >= b, min(a, b), max(a, b), cmp(a, b), a < b < 3, not a, bool(b)]
def t_boolops(a, b): # a=0..2 b=0..2
  return [a and b, a or b, not a and b, (a or None) is None, a if b else -1]
def t_bool_arith(p, q): # p=bool q=bool
  return [p + q, p << 3 | q, int(p), p == 1, p & q, p ^ q, p is True, -p]
def t_conv(a): # a=-40..300
  return [int(a), bool(a), float(a), long(a), str(a), repr(a), hex(a), "%d" % a, "%5d|%-5d|%05d" % (a, a, a), "%x" % abs(a), "%02X" % abs(a), "{0}".format(a), "{:d}".format(a)]
def t_chr(a): # a=-2..258
  return chr(a)
def t_ord(d): # d=b0..2
  return ord("".join(map(chr, d)))
def t_truediv(a, b): # a=0..200 b=1..8
  return [float(a) / b, a / b, int(a / float(b)), math.floor(a / float(b)), math.ceil(float(a) / b)]
def t_int_str(a): # a=0..300
  return [int(str(a)), int(hex(a), 16), int("12", 8)]
def t_range(a, b): # a=-3..4 b=-3..4
  return [range(a, b), range(b), list(xrange(a)), range(a, b, 2), range(b, a, -1)]
# -- sequences
def t_slice(d, a, b): # d=b0..6 a=-7..7 b=-7..7
  return [d[a:b], d[a:], d[:b], d[::2], d[::-1]]
def t_index(d, a): # d=b0..5 a=-6..6
  return d[a]
def t_setitem(d, a, b): # d=b3..3 a=-4..4 b=0..9
  d[a] = b
  return d
def t_list_ops(d, a): # d=b0..5 a=0..255
  x = list(d)
  x.append(a); x.extend([1, 2]); x.insert(0, a); x += [9]
  return [x, len(x), a in d, x * 2, x + d, x == d, x.pop(), x, x.pop(0), x.count(a), x[-1], sum(d), any(d), all(d)]
def t_list_remove(d, a): # d=b0..4 a=0..3
  x = [v % 4 for v in d]
  x.remove(a)
  return x
def t_list_index(d, a): # d=b0..4 a=0..3
  return [v % 4 for v in d].index(a)
def t_list_del(d, a): # d=b0..4 a=-5..5
  x = list(d)
  del x[a]
  return x
def t_list_delslice(d, a, b): # d=b0..5 a=-6..6 b=-6..6
  x = list(d)
  del x[a:b]
  return x
def t_setslice(d, a, b): # d=b0..5 a=0..6 b=0..6
  x = list(d)
  x[a:b] = [1, 2, 3]
  return x
def t_sorted(d): # d=b3..3
  return [sorted(d), sorted(d, reverse=True), max(d), min(d), list(reversed(d))]
def t_comprehension(d, a): # d=b0..4 a=0..255
  return [[x for x in d if x > a], [(i, x) for i, x in enumerate(d)], zip(d, [1, 2]), map(lambda x: x + 1, d), filter(lambda x: x & 1, d),
          reduce(lambda p, q: p * 2 + q, d, a), {1: a}[1], dict((i, x) for i, x in enumerate(d)), tuple(d)]
def t_unpack2(d): # d=b0..4
  p, q = d
  return p + q
def t_bytearray(d, a): # d=b0..4 a=-2..258
  x = bytearray(d)
  x.append(a)
  return [x, len(x), x[0], x[1:], list(x), x + bytearray(b"ab"), x == bytearray(d), str(x)]
def t_bytearray_new(a): # a=-1..4
  return bytearray(a)
def t_bytearray_list(a): # a=-2..258
  return bytearray([1, a])
def t_bytearray_ops(d): # d=b0..5
  x = bytearray(d)
  x.extend([1, 2]); x += bytearray([7]); x.insert(1, 5)
  y = x[2:]
  del x[0:2]
  return [x, y, x.find(b"\x01"), b"\x01" in x, 1 in x, bytes(x), [b for b in x], bytearray(x), x.pop()]
def t_bytearray_mul(a): # a=0..4
  return bytearray(b"\x00") * a
def t_setslice_neg(d, a, b): # d=b3..3 a=-5..6 b=-5..6
  x = list(d); y = bytearray(d)
  x[a:b] = [1, 2, 3]
  y[a:b] = bytearray([9])
  return [x, y]
def t_delslice_fix(d, a, b): # d=b3..3 a=-5..6 b=-5..6
  x = list(d); y = bytearray(d)
  del x[a:b]
  del y[a:b]
  return [x, y]
def t_slices_fix(d, a): # d=b4..4 a=-6..6
  return [d[a:], d[:a], d[a:-1], d[1:a], d[::2], d[::-1], "".join(map(chr, d))[a:], tuple(d)[:a], bytearray(d)[a:2]]
def t_list_ops_fix(d, a): # d=b3..3 a=0..255
  x = list(d)
  x.append(a); x.extend([1, 2]); x.insert(0, a); x += [9]
  return [x, len(x), a in d, x * 2, x + d, x == d, x.pop(), x, x.pop(0), x.count(a), x[-1], sum(d), any(d), all(d)]
def t_remove_fix(d, a): # d=b3..3 a=0..3
  x = [v % 4 for v in d]
  i = x.index(a)
  x.remove(a)
  return [i, x]
def t_del_fix(a): # a=-4..4
  x = [1, 2, 3]
  del x[a]
  return x
def t_set_fix(a): # a=-4..4
  x = [1, 2, 3]
  x[a] = 9
  return x
def t_comp_fix(d, a): # d=b3..3 a=0..255
  return [[x for x in d if x > a], [(i, x) for i, x in enumerate(d)], zip(d, [1, 2]), map(lambda x: x + 1, d), filter(lambda x: x & 1, d),
          reduce(lambda p, q: p * 2 + q, d, a), {1: a}[1], dict((i, x) for i, x in enumerate(d)), tuple(d)]
def t_unpack_fix(d): # d=b3..3
  p, (q, r) = d[0], d[1:]
  a = b = p
  (x, y), z = (p, q), r
  return [p, q, r, a, b, x, y, z]
def t_unpack_bad(d): # d=b3..3
  p, q = d
  return p
def t_gen_fix(d): # d=b3..3
  g = gen(d)
  return [list(gen(d)), sum(gen(d)), tuple(gen(d)), [x for x in gen(d) if x & 1], next(g, -1), next(g), next(g), next(g, -1), bytearray(x & 255 for x in gen(d))]
def t_gen_stop(d): # d=b2..2
  g = gen(d)
  return [next(g), g.next(), next(g)]
def t_for_fix(d, a): # d=b3..3 a=0..255
  for i, x in enumerate(d):
    if x == a: break
    if x < a: continue
  else:
    return "none"
  return i
def t_pack_fix(d): # d=b4..4
  return [struct.pack("4B", *d), struct.pack(">BB", *d[:2]), bytearray(struct.pack(">HH", d[0], d[1])), map(ord, struct.pack("<I", d[2]))]
def t_int_text(a): # a=-300..300
  return [int("%d" % a), int("%d" % abs(a)), int(" 12 "), int("-%d" % 5), int("0x1F", 16)]
def t_divpos(a): # a=-300..300
  return [a // 8, a % 8, divmod(a, 60), a / 16, a // -8, a % -8]
def t_listeq(d, a): # d=b2..2 a=0..255
  return [d == [a, 1], [d[0]] == [a], (d[0], a) == (a, d[1]), d != [a, 1], bytearray(d) == bytearray([a, a]), [1, 2] < [1, 3], (1, 2) > (1,)]
# -- text
def t_str(d): # d=b0..4
  s = "".join(chr(x) for x in d)
  return [s, len(s), s + "x", s * 2, s[1:], s == "ab", [c for c in s], bytearray(s), map(ord, s), s.encode("hex"), binascii.hexlify(s), list(s)]
def t_strip(d): # d=b0..3
  s = "".join(chr(32 + (x & 1)) for x in d)
  return [s.strip(), s.rstrip(), s.lstrip(), s.ljust(5), s.rjust(5), s.startswith(" "), s.endswith("!"), s.replace("!", "ab")]
def t_split(a): # a=0..1000
  s = "x,%d,,y" % a
  return [s.split(","), s.split(",", 1), "-".join(s.split(",")), s.upper(), s.lower(), s.find(","), s.count(","), s.index("x")]
def t_format(a, p): # a=0..255 p=bool
  return ["%s %s" % (a, p), "{0} {1}".format(a, p), "{} {x}".format(a, x=p), "%r" % (a,), "0x%02x" % a, "%s" % [a, p], "%s" % (None,), "%%", "{{}}".format(), str(E.B), repr("a")]
def t_format_hex(a): # a=0..70000
  return ["%04x" % a, "%X" % a, "{:x}".format(a), "{0:04X}".format(a), "{:02x}".format(a & 15)]
def t_hex_back(a): # a=0..255
  return [binascii.unhexlify("%02x" % a), ("%02x" % a).decode("hex"), bytearray.fromhex(u"%02x" % a)]
def t_str_hex(a): # a=0..15
  return ("%x" % a).decode("hex")
def t_format_more(a, p): # a=0..2 p=bool
  e = E(a % 2); i = I(a % 2 + 1)
  return ["{} {} {}".format(e, i, p), "{!s} {!s}".format(p, e), "%s %d" % (e, i), str(i), "%s" % p, "%d" % p, "{x.name}".format(x=e), "{0[0]}".format("a") if 0 else 1, "%s" % (e.name,), str(p), repr(p), str([a]), str((a, 1)), str({a: 1}), str(bytearray([65 + a])), str(None)]
def t_format_args(a): # a=0..2
  return "%d %d" % (a,)
def t_format_args2(a): # a=0..2
  return "{} {}".format(a)
def t_format_type(a): # a=0..2
  return "%d" % ("x" * a)
def t_join_type(a): # a=0..2
  return ",".join([a])
def t_concat_type(a): # a=0..2
  return [1] + (a,)
def t_chars(d): # d=b2..2
  s = "".join(map(chr, d))
  return [s.isdigit(), s.isalpha(), s.isspace(), s.isupper()]
def t_unicode(a): # a=0..99
  u = u"x%d" % a
  return [u, u == "x%d" % a, isinstance(u, str), isinstance(u, unicode), u.encode("ascii"), "x".decode("ascii"), u[0]]
# -- dictionaries
def t_dict(a, b): # a=0..3 b=0..3
  d = {0: "z", 1: "o"}
  d[a] = b
  return [d, len(d), a in d, d.get(b), d.get(b, 9), d.pop(a), sorted(d.keys()), d.setdefault(b, 5), sorted(d.items())]
def t_dict_missing(a): # a=0..3
  return {0: 1, 2: 3}[a]
def t_dict_del(a): # a=0..3
  d = {0: 1, 2: 3}
  del d[a]
  return d
def t_dict_update(a): # a=0..3
  d = {0: 1}
  d.update({a: 2}); e = dict(d); e[9] = a
  return [d, e, dict(x=a), d == {0: 1, a: 2}, dict([(1, a)]), sorted(d.values())]
# -- enums
def t_enum(a): # a=-1..9
  return E(a)
def t_enum_attrs(a): # a=0..1
  e = E(a)
  return [e, e.name, e.value, e == E.A, e is E.A, e in (E.A, E.C), str(e), e.__class__ is E, isinstance(e, E), E["B"], [x for x in E], E.D is E.B, len(list(E)), e != 0, e == a]
def t_intenum(a): # a=0..3
  e = I(a)
  return [e, e + 1, e == a, int(e), e < 2, e in [1], isinstance(e, int), {1: 5}.get(e)]
def t_enum_missing(): #
  return E["Z"]
# -- exceptions, generators, functions
def t_finally(a): # a=0..3
  log = []
  try:
    try:
      log.append(1)
      if a == 1: raise ValueError("x")
      if a == 2: raise KeyError(a)
      if a == 3: return log
    except ValueError as e:
      log.append(str(e))
    else:
      log.append("else")
    finally:
      log.append("fin")
  except KeyError as e:
    log.append(e.args)
  return log
def t_for_else(d, a): # d=b0..4 a=0..255
  for i, x in enumerate(d):
    if x == a: break
    if x < a: continue
  else:
    return "none"
  return i
def t_while(a): # a=0..20
  out = []
  while a:
    out.append(a & 1)
    a >>= 1
    if len(out) > 3: break
  else:
    return [out, "all"]
  return out
def gen(d):
  n = 0
  for x in d:
    n += x
    yield n
  return
def t_gen(d): # d=b0..4
  g = gen(d)
  return [list(gen(d)), sum(gen(d)), tuple(gen(d)), [x for x in gen(d) if x & 1], next(g, -1), bytearray(x & 255 for x in gen(d))]
def t_gen_next(d): # d=b0..2
  g = gen(d)
  return [next(g), next(g)]
def kw(a, b=2, *c, **d): return [a, b, list(c), d]
def t_call(a): # a=0..9
  return [kw(a), kw(a, a), kw(1, 2, a, 4), kw(b=a, a=3), kw(a, x=1), kw(*[a, 1, 2]), kw(**{"a": a}), kw(a, *(5, 6), **{"z": a})]
def t_call_bad(a): # a=0..9
  return kw(b=a)
class P(object):
  N = [0]
  def __init__(self, v, w=None):
    self.v = v
    self.w = [] if w is None else w
  def __eq__(self, o): return isinstance(o, P) and self.v == o.v
  def __ne__(self, o): return not self == o
  def __iter__(self):
    yield self.v
    for x in self.w: yield x
  def __len__(self): return len(self.w)
  def __getitem__(self, k): return self.w[k]
  def __str__(self): return "P(%s)" % self.v
  @property
  def twice(self): return self.v * 2
  @staticmethod
  def make(v): return P(v)
  @classmethod
  def make2(cls, v): return cls(v, [v])
class Q(P):
  def __init__(self, v): super(Q, self).__init__(v + 1, [v])
  @property
  def twice(self): return super(Q, self).twice + 1
def t_class(a, b): # a=0..9 b=0..9
  p, q = P(a, [b, 1]), Q(b)
  return [p == q, p != q, list(p), len(q), p[0], str(q), p.twice, q.twice, P.make(a).v, Q.make(b).v, P.make2(a).w, isinstance(q, P), hasattr(p, "z"), getattr(p, "z", b),
          q.__class__.__name__, p in [P(b)], bool(P(a)), bool(q), [x for x in q]]
def t_class_missing(a): # a=0..9
  return P(a).nothing
def t_setattr(a): # a=0..9
  p = P(a)
  setattr(p, "n", a); p.v += 1; p.w.append(a)
  return [p.n, p.v, p.w, p.__dict__ == {"v": a + 1, "w": [a], "n": a}]
def t_closure(a): # a=0..9
  fs = [lambda x, i=i: x + i for i in range(3)]
  gs = [lambda: i for i in range(3)]
  return [f(a) for f in fs] + [g() for g in gs]
def t_isinstance(a, p): # a=0..3 p=bool
  return [isinstance(a, int), isinstance(p, int), isinstance(p, bool), isinstance("", str), isinstance(u"", basestring), isinstance([], list), isinstance(None, object), type(a) is int, type(p) is bool, callable(kw)]
def t_unbound(a): # a=0..2
  if a == 1: x = 1
  return x
def t_none(a): # a=0..2
  return None + a
def t_mixed(a): # a=0..2
  return "x" + a
def t_noncallable(a): # a=0..2
  return a()
def t_noniter(a): # a=0..2
  return [x for x in a]
def t_assert(a): # a=0..2
  assert a != 1, "no"
  return a
def t_reraise(a): # a=0..2
  try:
    if a: raise IndexError("q")
  except IndexError:
    if a == 2: raise
    raise RuntimeError("other")
  return 0
# -- struct
def t_pack(a): # a=-300..70000
  return [struct.pack(">I", a), struct.pack("<H", a & 0xFFFF), struct.pack(">B", a & 255)]
def t_pack_wrap(a): # a=-300..70000
  return [struct.pack(">H", a), struct.pack("B", a), struct.pack(">b", a), struct.pack(">h", a)]
def t_pack_many(a, b): # a=0..255 b=0..4294967295
  return struct.pack(">BIHxB", a, b, b & 65535, 7)
def t_pack_q(b): # b=0..18446744073709551615
  return struct.pack(">Q", b)
def t_pack_c(a): # a=0..255
  return struct.pack(">c2s", chr(a), "ab")
def t_pack_list(d): # d=b0..5
  return struct.pack("4B", *d)
def t_pack_str(): #
  return struct.pack(">B", "a")
def t_pack_none(): #
  return struct.pack(">B", None)
def t_pack_bool(p): # p=bool
  return struct.pack(">B", p)
def t_unpack(d): # d=b0..9
  return struct.unpack(">BHI", "".join(chr(x) for x in d))
def t_unpack_le(d): # d=b4..4
  s = "".join(chr(x) for x in d)
  return [struct.unpack("<I", s), struct.unpack("<i", s), struct.unpack(">hH", s), struct.unpack("4b", s), struct.unpack("!I", bytearray(d))]
def t_calcsize(): #
  return [struct.calcsize(">BHI"), struct.calcsize("<BI")]
# -- bitstring
def t_bs_uint(d, a): # d=b0..4 a=1..12
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read("uint:" + str(a)), s.pos, s.len]
def t_bs_mixed(d): # d=b0..6
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read("bool"), s.read("uint:7"), s.read("int:8"), s.read("uint:16"), s.pos, s.bytepos, s.length - s.pos]
def t_bs_fail_pos(d): # d=b0..3
  s = ConstBitStream(bytes=bytearray(d))
  out = []
  try:
    out.append(s.read("uint:3")); out.append(s.read("uint:16"))
  except ReadError:
    out.append("short")
  return out + [s.pos]
def t_bs_readerror(d): # d=b0..1
  s = ConstBitStream(bytes=bytearray(d))
  try: return s.read("uint:8")
  except IndexError: return "index"
def t_bs_bytes(d, a): # d=b0..5 a=0..6
  s = ConstBitStream(bytes=bytearray(d))
  x = s.read("bytes:" + str(a))
  return [x, len(x), s.pos, map(ord, x)]
def t_bs_bytes_off(d): # d=b0..4
  s = ConstBitStream(bytes=bytearray(d))
  s.read("uint:3")
  return [s.read("bytes:2"), s.pos]
def t_bs_pad(d): # d=b0..3
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read("pad:4"), s.read("uint:4"), s.pos]
def t_bs_bits(d): # d=b0..3
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read("bits:5").uint, s.read("bits:1").uint, s.pos]
def t_bs_peek(d): # d=b0..3
  s = ConstBitStream(bytes=bytearray(d))
  return [s.peek("uint:8"), s.pos, s.read("uint:8"), s.peek("uint:8"), s.pos]
def t_bs_readlist(d): # d=b0..4
  s = ConstBitStream(bytes=bytearray(d))
  return [s.readlist("uint:8, uint:4, bool"), s.pos]
def t_bs_readlist_kw(d, a): # d=b0..4 a=0..5
  s = ConstBitStream(bytes=bytearray(d))
  return [s.readlist("bytes:b", b=a), s.pos]
def t_bs_setpos(d, a): # d=b0..3 a=-1..30
  s = ConstBitStream(bytes=bytearray(d))
  s.pos = a
  return [s.pos, s.read("uint:2")]
def t_bs_setbytepos(d, a): # d=b0..3 a=-1..5
  s = ConstBitStream(bytes=bytearray(d))
  s.bytepos = a
  return [s.pos, s.read("uint:8")]
def t_bs_bytepos_unaligned(d): # d=b1..2
  s = ConstBitStream(bytes=bytearray(d))
  s.read("uint:3")
  return s.bytepos
def t_bs_le(d): # d=b0..3
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read("uintle:16"), s.read("intbe:8")]
def t_bs_unpack(d): # d=b0..4
  s = ConstBitStream(bytes=bytearray(d))
  return s.unpack("uint:8, uint:16")
def t_bs_hex(d): # d=b0..3
  s = ConstBitStream(bytes=bytearray(d))
  return s.read("hex:8")
def t_bs_int(d, a): # d=b2..2 a=1..9
  s = ConstBitStream(bytes=bytearray(d))
  return s.read("int:" + str(a))
def t_bs_int_arg(d, a): # d=b0..3 a=0..9
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read(a).uint, s.pos]
def t_bs_empty(): #
  s = ConstBitStream(bytes=bytearray([]))
  return [s.len, s.pos, s.read("bytes:0")]
def t_bs_copy(d): # d=b0..4
  s = ConstBitStream(bytes=bytearray(d)); s.read("uint:8")
  t = s.read("bytes:1"); u = ConstBitStream(bytes=t)
  return [u.read("uint:8"), u.len, s.len, s.pos, s == s, len(s), s.bitpos]
def t_bs_long(d): # d=b0..10
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read("uint:64"), s.read("bool"), s.read("uint:1"), s.read("uint:6")]
def t_bs_intmix(d): # d=b3..3
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read("bool"), s.read("uint:2"), s.read("uint:5"), s.read("int:8"), s.read("uint:3"), s.read("pad:2"), s.read("uint:2"), s.read("bool")]
def t_bs_int16(d): # d=b0..5
  s = ConstBitStream(bytes=bytearray(d))
  return [s.read("int:16"), s.read("uintle:16"), s.read("uintbe:8")]
def t_bs_str(d): # d=b0..4
  s = ConstBitStream(bytes="".join(map(chr, d)))
  return [s.read("uint:8"), s.pos]
def t_bs_list(d): # d=b0..4
  s = ConstBitStream(bytes=d)
  return [s.read("uint:8"), s.pos]
def t_bs_peek_fail(d): # d=b0..2
  s = ConstBitStream(bytes=bytearray(d))
  s.read("uint:4")
  try: return s.peek("uint:8")
  except ReadError: return [s.pos, "short"]
def t_bs_after(d): # d=b1..3
  s = ConstBitStream(bytes=bytearray(d))
  s.read("uint:8")
  try: s.read("bytes:2")
  except IndexError: s.pos = 0
  return [s.pos, s.read("uint:8")]
def t_bs_bad(): #
  return ConstBitStream(bytes=bytearray([1, 2])).read("uint:0")
# -- cerberus
class V1(Validator):
  def _validate_is_odd(self, odd, field, value):
    if odd and not bool(value & 1): self._error(field, "odd")
def val(schema, doc):
  v = Validator(schema, allow_unknown=True)
  return v.validate(doc)
def t_cb_int(a): # a=-3..300
  return val({"x": {"type": "integer", "min": 0, "max": 255}}, {"x": a})
def t_cb_types(a, p): # a=0..3 p=bool
  return [val({"x": {"type": t}}, {"x": v}) for t in ("integer", "boolean", "string", "list", "dict", "float", "number") for v in (a, p, "s", u"s", [a], (a,), {"k": a}, None, 1.5, E.A, bytearray([a]))]
def t_cb_type_list(a): # a=0..3
  return [val({"x": {"type": ["integer", "string"]}}, {"x": v}) for v in (a, "s", [a], None)]
def t_cb_null(a): # a=0..3
  return [val({"x": {"type": "integer", "nullable": True, "min": a}}, {"x": v}) for v in (None, 1)] + [val({"x": {"nullable": True}}, {"x": None}), val({"x": {}}, {"x": None})]
def t_cb_allowed(a): # a=0..5
  return [val({"x": {"allowed": [0, 1, 4]}}, {"x": a}), val({"x": {"allowed": [E.A, E.B]}}, {"x": E.C if a else E.A}), val({"x": {"allowed": [0, 1]}}, {"x": [a, 1]}), val({"x": {"type": "integer", "allowed": range(3)}}, {"x": a})]
def t_cb_missing(a): # a=0..5
  return [val({"x": {"type": "integer"}}, {"y": a}), val({"x": {"required": True}}, {"y": a}), val({}, {"y": a}), val({"x": {"required": True}}, {"x": a})]
def t_cb_len(d): # d=b0..5
  return [val({"x": {"type": "list", "minlength": 1, "maxlength": 3}}, {"x": list(d)}), val({"x": {"minlength": 2}}, {"x": "".join(map(chr, d))})]
def t_cb_list(d): # d=b0..3
  return val({"x": {"type": "list", "schema": {"type": "integer", "max": 99}}}, {"x": list(d)})
def t_cb_listdict(a, b): # a=0..9 b=0..9
  return val({"x": {"type": "list", "schema": {"type": "dict", "schema": {"k": {"max": 5}}}}}, {"x": [{"k": a}, {"k": b, "z": 1}]})
def t_cb_nested(a): # a=0..9
  return [val({"x": {"type": "dict", "schema": {"k": {"type": "integer", "min": 3}}}}, {"x": {"k": a, "q": 1}}), val({"x": {"schema": {"k": {"min": 3}}}}, {"x": 5})]
def t_cb_minmax_mixed(a): # a=0..9
  return [val({"x": {"min": 2}}, {"x": "s"}), val({"x": {"max": 2}}, {"x": a}), val({"x": {"min": 2.5}}, {"x": a}), val({"x": {"min": 1}}, {"x": True})]
def t_cb_anyof(a): # a=0..20
  return [val({"x": {"type": "integer", "anyof": [{"min": 10}, {"max": 3}]}}, {"x": a}), val({"x": {"oneof": [{"min": 10}, {"min": 5}]}}, {"x": a}),
          val({"x": {"noneof": [{"min": 10}]}}, {"x": a}), val({"x": {"allof": [{"min": 2}, {"max": 9}]}}, {"x": a})]
def t_cb_anyof_schema(a): # a=0..20
  return [val({"x": {"type": "dict", "anyof_schema": [{"k": {"min": 10}}, {"k": {"max": 3}}]}}, {"x": {"k": a}}), val({"x": {"type": "dict", "oneof_schema": [{"k": {"min": 10}}, {"k": {"min": 5}}]}}, {"x": {"k": a}})]
def t_cb_custom(a): # a=0..20
  return V1({"x": {"is_odd": True, "max": 9}}, allow_unknown=True).validate({"x": a})
def t_cb_twice(a): # a=0..20
  v = Validator({"x": {"max": 9}}, allow_unknown=True)
  return [v.validate({"x": a}), v.validate({"x": 1}), v.validate({"x": a})]
