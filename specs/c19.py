from codecs_common import *
from registry import Property

ENUMS = ['phy.channel_header.ChannelCoding', 'phy.channel_header.ChannelClass', 'phy.channel_header.ChannelBand', 'phy.channel_status_identifier.Bandwidth',
         'dll.access_profile.CsmaCaMode', 'dll.parser.FrameType', 'sp.qos.ResponseMode', 'sp.qos.RetryMode', 'alp.operands.query.QueryType',
         'alp.operands.query.ArithComparisonType', 'alp.interface.InterfaceType', 'system_files.system_file_ids.SystemFileIds',
         'system_files.engineering_mode.EngineeringModeMode', 'fs.file_properties.ActionCondition', 'fs.file_properties.StorageClass',
         'd7anp.addressee.IdType', 'd7anp.addressee.NlsMethod']
H = 'd7a.support.serialization.enum_handler.EnumHandler'


def all_enums(it):
  """Every enumeration class defined in the package's sources (the list above, and any other)."""
  out = ['d7a.' + e for e in ENUMS]
  for m, rec in sorted(it.asts.items()):
    if not m.startswith('d7a') or '.test' in m or m.endswith('.examples') or 'error' in rec: continue
    try: mod = it.import_module(m)
    except Exception: continue
    for k, v in sorted(mod.dict.items()):
      if isinstance(v, ClassV) and v.members and v.module == m and m + '.' + k not in out: out.append(m + '.' + k)
  return out


def members(it, path):
  c = it.get(path)
  return [n for n in c.members]          # aliases included


def roundtrip(first):
  def f(s):
    G = s.G
    es = all_enums(s.it)
    e = es[G.choice('enumeration', len(es))]
    ms = members(s.it, e)
    n = ms[G.choice('member', len(ms))]
    m = s.let('m', ["enum", e, n])
    j = s.let('j', ["call", ["name", "jsonpickle.encode"], [m]]); s.ok('j', 'every enumeration value serializes')
    r = s.let('r', ["call", ["name", "jsonpickle.decode"], [j]]); s.ok('r', 'its JSON form is accepted')
    s.posts.append(('the restored value is the same enumeration value', lambda o: o['r'] is o['m'] or (isinstance(o['r'], Obj) and o['r'].cls is o['m'].cls and o['r'].d['name'] == o['m'].d['name'])))
    s.let('is', ["eq", r, m]); s.value('is', True, 'the restored value equals the serialized one')
    d = s.let('d', ["method", ["call", ["name", H], [["none"]]], "flatten", [m, ["call", ["name", "__builtin__.dict"], []]]]); s.ok('d', 'the handler accepts every enumeration value')
    s.let('v', ["item", d, ["lit", "value"]])
    s.posts.append(('the JSON form carries the name of the member', lambda o: o['v'] == o['m'].d['name']))
  return f


def make():
  return [Ob('handler.roundtrip', roundtrip(True), [H + '.flatten', H + '.restore', 'd7a.__init__'], timeout=120, cases=300, max_paths=4000)]
PROP = Property('C19', make)
