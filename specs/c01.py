from codecs_common import *
from codecs_lib import CTs
from registry import Property

CTP = 'd7a.types.ct.CT'


def p4(e):
  """4 ** e for 0 <= e <= 7."""
  r = 4 ** 7
  for k in range(6, -1, -1): r = ite(scmp('==', e, k), 4 ** k, r)
  return r


def value(exp, mant): return binop('*', p4(exp), mant)


def make():
  c = CTs
  obs = [ob_build(c), ob_parse(c), ob_trunc(c)]

  def bytes_all(s):
    b = s.G.bytes('b', 1, 1)
    st = s.let('s', ["stream", b]); s.let('p', c.parse_expr(st)); s.ok('p', 'every byte is a compressed time')
    s.let('r', ["tobytearray", ["var", 'p']]); s.ok('r'); s.bytes_eq('r', s.G.val(b), 'the byte is restored')
  obs.append(Ob('CT.byte-bijection', bytes_all, [CTP + '.parse', CTP + '.__iter__']))

  def decomp(s):
    e, v = c.gen(s.G)
    o = s.let('o', e)
    s.let('d', ["method", o, 'decompress', []]); s.ok('d')
    s.value('d', lambda: value(v.exp, v.mant), 'decompress is mantissa times 4 to the exponent')
    s.let('i', ["call", ["name", "__builtin__.int"], [o]]); s.ok('i')
    s.value('i', lambda: value(v.exp, v.mant), 'int() is mantissa times 4 to the exponent')
    s.let('cv', ["method", o, 'compressed_value', []]); s.ok('cv')
    s.value('cv', lambda: (v.exp << 5) + v.mant, 'compressed_value is the encoded byte')
  obs.append(Ob('CT.decompress', decomp, [CTP + '.decompress', CTP + '.__int__', CTP + '.compressed_value']))

  MAX = 31 * 4 ** 7

  def comp(ceil):
    def f(s):
      G = s.G
      x = G.int('value', 0, MAX); xv = G.val(x)
      kw = {} if ceil is None else {"ceil": ["lit", ceil]}
      e2 = G.int('e2', 0, 7); m2 = G.int('m2', 0, 31)
      s.let('c', ["method", ["name", CTP], 'compress', [x], kw]); s.ok('c', 'every duration up to the maximum can be compressed')
      s.let('d', ["method", ["var", 'c'], 'decompress', []]); s.ok('d')
      def exp_of(o): return s.it.getattr(o['c'], 'exp')
      def finest(o):
        e = exp_of(o)
        return sand(scmp('<=', xv, binop('*', p4(e), 31)), sor(scmp('==', e, 0), scmp('>', binop('*', 4, xv), binop('*', p4(e), 31))))
      s.ensure('the finest scale that can hold the duration is used', finest)
      if ceil is not False:
        s.ensure('rounding up never shortens the duration', lambda o: scmp('>=', o['d'], xv))
        w = value(G.val(e2), G.val(m2))
        s.ensure('no representable duration lies between', lambda o: sor(scmp('<', w, xv), scmp('>=', w, o['d'])))
      else:
        s.ensure('rounding down never lengthens the duration', lambda o: scmp('<=', o['d'], xv))
        s.ensure('the rounding error is below one step of the scale', lambda o: scmp('<', binop('-', xv, o['d']), p4(exp_of(o))))
    return f
  obs.append(Ob('CT.compress', comp(None), [CTP + '.compress'], timeout=120))
  obs.append(Ob('CT.compress.ceil', comp(True), [CTP + '.compress'], timeout=120))
  obs.append(Ob('CT.compress.floor', comp(False), [CTP + '.compress'], timeout=120))

  def over(s):
    x = s.G.int('value', MAX + 1, 2 ** 31 - 1)
    s.let('c', ["method", ["name", CTP], 'compress', [x]], may_fail=True)
    s.ensure('a duration beyond the maximum yields no compressed time', lambda o: (o.ok('c') and o['c'] is None) or not o.ok('c'))
  obs.append(Ob('CT.compress.overflow', over, [CTP + '.compress']))

  def reject(field):
    def f(s):
      x = s.G.int(field, -2 ** 31, 2 ** 31 - 1); xv = s.G.val(x)
      s.G.assume(sor(scmp('<', xv, 0), scmp('>', xv, 7 if field == 'exp' else 31)))
      s.let('o', ["call", ["name", CTP], [], {field: x}], may_fail=True)
      s.raises('o', ('ValueError',), 'an out of range %s is rejected' % field)
    return f
  obs.append(Ob('CT.reject.exp', reject('exp'), [CTP + '.__init__']))
  obs.append(Ob('CT.reject.mant', reject('mant'), [CTP + '.__init__']))
  return obs


PROP = Property('C01', make)
