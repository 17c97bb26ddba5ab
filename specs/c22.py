from codecs_common import *
from codecs_lib import *
from registry import Property

KINDS = {'channel_header': ChHeader, 'file_permissions': Permissions, 'file_properties': Properties, 'file_header': FileHeaders, 'length': Lengths}


def pair(c):
  """a == b exactly when all fields are equal; != is the complement; both are symmetric; the arguments are unchanged."""
  def f(s):
    ea, va = c.gen(s.G, 'a'); eb, vb = c.gen(s.G, 'b')
    a, b = s.let('a', ea), s.let('b', eb)
    s.let('eq', ["eq", a, b]); s.ok('eq', 'equality raises nothing')
    s.let('ne', ["ne", a, b]); s.ok('ne', 'inequality raises nothing')
    s.let('qe', ["eq", b, a]); s.let('en', ["ne", b, a])
    s.let('aa', ["eq", a, a])
    def want(o): return c.same(o.it, o['b'], va)
    s.posts.append(('equal exactly when all fields are equal', lambda o: iff(o['eq'], want(o))))
    s.posts.append(('unequal exactly when not equal', lambda o: iff(o['ne'], snot(o['eq']))))
    s.posts.append(('equality is symmetric', lambda o: sand(iff(o['qe'], o['eq']), iff(o['en'], o['ne']))))
    s.posts.append(('every value equals itself', lambda o: iff(o['aa'], True)))
    s.same('a', c, va, label='the left argument is unchanged'); s.same('b', c, vb, label='the right argument is unchanged')
  return f


def twin(c):
  """Two objects built from the same field values are equal."""
  def f(s):
    e, v = c.gen(s.G)
    a, b = s.let('a', e), s.let('b', e)
    s.let('eq', ["eq", a, b]); s.let('ne', ["ne", a, b])
    s.value('eq', True, 'objects with the same field values are equal'); s.value('ne', False, 'and not unequal')
  return f


def iff(a, b):
  if not isinstance(a, (bool, SBool)) or not isinstance(b, (bool, SBool)): return False
  return sand(simplies(a, b), simplies(b, a))


def others(k, c):
  """A value never equals an object of another kind (a length equals the integer it stands for)."""
  def f(s):
    G = s.G
    e, v = c.gen(G)
    a = s.let('a', e)
    alts = [["none"], ["lit", "x"], ["list", []], ["lit", True if k != 'length' else None] if k != 'length' else ["none"]] + [KINDS[j] for j in sorted(KINDS) if j != k] + ['int']
    i = G.choice('other', len(alts))
    b, want = alts[i], False
    if isinstance(b, Codec): b, _ = b.gen(G, 'other')
    if b == 'int':
      l = G.int('number', -5, 2 ** 31 - 1); b = l
      if k == 'length': want = scmp('==', G.val(l), v.value)
    b = s.let('b', b)
    s.let('eq', ["eq", a, b]); s.ok('eq', 'comparing with another kind of object raises nothing')
    s.let('ne', ["ne", a, b]); s.ok('ne', 'comparing with another kind of object raises nothing (!=)')
    s.let('qe', ["eq", b, a]); s.let('en', ["ne", b, a])
    s.posts.append(('objects of different kinds are not equal', lambda o: iff(o['eq'], want)))
    s.posts.append(('objects of different kinds are unequal', lambda o: iff(o['ne'], snot(want))))
    s.posts.append(('also with the arguments exchanged', lambda o: sand(iff(o['qe'], want), iff(o['en'], snot(want)))))
    s.same('a', c, v, label='the argument is unchanged')
  return f


def make():
  obs = []
  for k, c in sorted(KINDS.items()):
    F = [c.path + '.__eq__', c.path + '.__ne__']
    obs += [Ob(k + '.pair', pair(c), F, timeout=100), Ob(k + '.twin', twin(c), F), Ob(k + '.others', others(k, c), F)]
  return obs
PROP = Property('C22', make)
