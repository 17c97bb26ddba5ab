from kit import *
from interp import fold_value
from libmodels import crc_spec
from registry import Property

CRC = 'd7a.support.Crc.calculate_crc'


def spec_step(acc, x):
  """One byte of CRC-16/CCITT-FALSE: polynomial 0x1021, most significant bit first."""
  r = acc ^ (sinty(x) << 8)
  for _ in range(8):
    r = ite(scmp('!=', r & 0x8000, 0), ((r << 1) ^ 0x1021) & 0xFFFF, (r << 1) & 0xFFFF)
  return r


def spec_crc(items):
  """CRC-16/CCITT-FALSE of a byte sequence (runs of symbolic length: the fold of spec_step)."""
  r = 0xFFFF
  for x in items:
    if isinstance(x, SymSeg):
      if not bool(scmp('>', x.length, 0)): continue
      c = Ctx.cur
      acc = c.fresh_int('sacc', 0, 0xFFFF); e = c.fresh_int('selt', 0, 255)
      r = fold_value(r, acc, e, spec_step(acc, e), 16, x)
    else: r = spec_step(r, x)
  return r


KINDS = {'string': "tobytes", 'bytearray': "tobytearray", 'list': "tolist"}


def value(kind):
  def f(s):
    G = s.G
    d = G.bytes('data', 0, (1 << 30))
    s.let('r', ["call", ["name", CRC], [[KINDS[kind], d]]]); s.ok('r', 'a checksum is computed')
    def two(o):
      if not isinstance(o['r'], (PList, tuple)): return False
      v = spec_crc(G.val(d))
      return same_bytes(s.it, PList(s.it.iter_items(o['r'])), [sinty(v) >> 8, sinty(v) & 255])
    s.posts.append(('the checksum is CRC-16/CCITT-FALSE of the bytes, most significant byte first', two))
    s.let('again', ["call", ["name", CRC], [[KINDS[kind], d]]])
    s.posts.append(('the checksum depends on the bytes alone', lambda o: same_value(s.it, o['again'], o['r'])))
  return f


def detects(s):
  """Any two sequences of equal length that differ in exactly one byte have different checksums."""
  G = s.G
  p = G.bytes('before', 0, (1 << 29)); x = G.int('x', 0, 255); y = G.int('y', 0, 255); q = G.bytes('after', 0, (1 << 29))
  G.assume(scmp('!=', G.val(x), G.val(y)))
  a = G.derive('a', list(G.val(p)) + [G.val(x)] + list(G.val(q)))
  b = G.derive('b', list(G.val(p)) + [G.val(y)] + list(G.val(q)))
  s.let('ra', ["call", ["name", CRC], [["tobytes", a]]]); s.ok('ra')
  s.let('rb', ["call", ["name", CRC], [["tobytes", b]]]); s.ok('rb')
  s.posts.append(('changing one byte changes the checksum', lambda o: snot(same_value(s.it, o['ra'], o['rb']))))


def known(s):
  """The published check value."""
  s.let('r', ["call", ["name", CRC], [["tobytes", s.G.derive('d', list(b'123456789'))]]])
  s.value('r', lambda: PList([0x29, 0xB1]))


def make():
  return [Ob('value.' + k, value(k), [CRC], cases=60, maxlen=300, timeout=120) for k in sorted(KINDS)] + \
         [Ob('single_byte_change', detects, [CRC], cases=60, timeout=120), Ob('check_value', known, [CRC], cases=4)]


PROP = Property('C14', make, extra_src=[('/opt/jydeps/site', 'crcmod')],
                assumptions=["the crcmod sources in /opt/jydeps/site are the ones that run (they are verified too: no model of the CRC routine is used here)"])
