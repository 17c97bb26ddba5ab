from codecs_common import *
from codecs_lib import *
from registry import Property


def header(c, exact=True):
  """A system file object declares the identifier and the length of the table; its content is exactly (or at most) that long."""
  def f(s):
    e, v = c.gen(s.G)
    o = s.let('o', e); s.ok('o', 'a valid argument tuple is accepted')
    s.let('id', ["attr", o, "id"]); s.let('length', ["attr", o, "length"]); s.let('name', ["attr", o, "name"])
    s.let('n', ["len", ["tolist", o]]); s.ok('n', 'a valid file serializes')
    s.value('id', lambda: c.ids(v), 'the identifier is the one of this file')
    s.value('length', c.length(v), 'the declared length is the documented one')
    s.value('name', c.path.split('.')[-1], 'the name is the class')
    if exact: s.value('n', c.length(v), 'the content is exactly as long as declared')
    else: s.posts.append(('the content fits in the declared length', lambda o: scmp('<=', o['n'], c.length(v))))
  return f


def table(s):
  """Every identifier of the table is listed with its documented length and class, in order."""
  k = s.G.choice('id', len(FILE_TABLE))
  i = sorted(FILE_TABLE)[k]
  e = s.G.derive_int('file_id', i)
  T = ["attr", ["name", SF + "system_files.SystemFiles"], "files"]
  m = s.let('m', ["call", ["name", SF + "system_file_ids.SystemFileIds"], [e]]); s.ok('m', 'every documented identifier exists')
  f = s.let('f', ["item", T, m]); s.ok('f', 'every documented identifier is listed')
  s.let('length', ["attr", f, "length"])
  s.value('length', FILE_TABLE[i], 'the declared length is the documented one')
  s.let('cls', ["attr", ["attr", f, "__class__"], "__name__"])
  s.value('cls', FILE_NAMES.get(i, 'NotImplementedFile'), 'it is handled by its own class')
  if i in FILE_NAMES:
    s.let('id', ["attr", f, "id"]); s.value('id', i, 'the listed file has this identifier')
  s.let('count', ["len", T]); s.posts.append(('nothing else is listed', lambda o: len(FILE_TABLE) == o['count']))
  a = s.let('all', ["method", ["call", ["name", SF + "system_files.SystemFiles"], []], "get_all_system_files", []])
  s.let('nth', ["attr", ["item", a, ["lit", k]], "value"]); s.value('nth', i, 'the files are listed in the order of their identifiers')
  s.let('n', ["len", a]); s.value('n', len(FILE_TABLE), 'all files are listed once')


def fill(n, k):
  """Shorter lists are completed to the announced number of channels."""
  def f(s):
    c = PHY_STATUS[k]
    e, v = c.gen(s.G)
    e[3]['channel_status_list_length'] = ["lit", n]
    o = s.let('o', e); s.ok('o', 'a status with fewer listed channels is accepted')
    s.let('b', ["tobytearray", o]); s.ok('b', 'it serializes')
    def enc():
      b = c.enc(v)
      return b[:14] + [n] + b[15:] + bits((3, 0), (1, 1), (1, 0), (11, 0), (8, 0)) * (n - k)
    s.bytes_eq('b', enc, 'missing channels are serialized as default channels')
  return f


def make():
  obs = []
  for k, c in sorted(FIXED_FILES.items()):
    obs += [ob_build(c, k), ob_parse(FirmwareParsed if k == 'firmware_version' else c, k), ob_trunc(c, k)]
    obs.append(Ob(k + '.declared', header(c, k != 'x'), [c.path + '.__init__', c.path + '.__iter__', SF + 'file.File.__init__', SF + 'file.File.name']))
  for n, c in enumerate(PHY_STATUS):
    obs += [ob_build(c, 'phy_status.%d' % n), ob_parse(c, 'phy_status.%d' % n)]
    if n in (0, 1, 2, 3): obs.append(ob_trunc(c, 'phy_status.%d' % n))
  obs.append(Ob('phy_status.declared', header(PHY_STATUS[10], True), [PHY_STATUS[0].path + '.__init__']))
  obs.append(Ob('phy_status.fill', fill(3, 1), [PHY_STATUS[0].path + '.__init__']))
  for k, c in sorted(IFCONF_FILES.items()):
    obs += [ob_build(c, 'interface_configuration.' + k)]
    obs.append(Ob('interface_configuration.%s.declared' % k, header(c, False), [c.path + '.__init__']))
  obs.append(Ob('table', table, [SF + 'system_files.SystemFiles', SF + 'not_implemented.NotImplementedFile.__init__'], timeout=120))
  obs += [ob_codes(e) for e in ('system_files.system_file_ids.SystemFileIds', 'system_files.engineering_mode.EngineeringModeMode',)]
  return obs
PROP = Property('C08', make)
