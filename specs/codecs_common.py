"""Generic obligations over a Codec: constructor and serialization, parsing, truncation."""
from kit import *


def ob_build(c, name=None, timeout=60, twice=True, n='', uses=(), **kw):
  """Every valid argument tuple is accepted, stored, and serialized to exactly the specified bytes (twice: repeatable)."""
  def f(s):
    e, v = c.gen(s.G, n)
    o = s.let('o', e); s.ok('o', 'a valid argument tuple is accepted')
    s.same('o', c, v, label='the object holds its arguments')
    s.let('b', ["tobytearray", o]); s.ok('b', 'a valid object serializes')
    s.bytes_eq('b', lambda: c.enc(v), 'serialized bytes are exactly the specified layout')
    if twice:
      s.let('b2', ["tobytearray", o]); s.ok('b2', 'serializing again succeeds')
      s.bytes_eq('b2', lambda: c.enc(v), 'serializing again gives the same bytes')
      s.same('o', c, v, label='serializing leaves the object unchanged')
  return Ob((name or c.path.split('.')[-1]) + '.serialize', f, [c.path + '.__init__', c.path + '.__iter__'], timeout=timeout, uses=uses, **kw)


def wire_of(c, v):
  c = getattr(v, 'codec', c)
  return c.wire(v)


def told_length(G, enc):
  """parse() is told the number of bytes (leaf n)."""
  G.derive_int('n', seq_len(enc))


def ob_parse(c, name=None, timeout=60, tail=64, reser=True, n='', sized=False, **kw):
  """Parsing the specified bytes of any valid value, followed by anything, restores the value and consumes exactly those bytes."""
  def f(s):
    G = s.G
    _, v = c.gen(G, n)
    enc = wire_of(c, v)
    d = G.derive(n + 'enc', enc)
    t = G.bytes(n + 'tail', 0, tail)
    if sized: told_length(G, enc)
    st = s.let('s', ["stream", ["concat", [d, t]]])
    s.let('p', c.parse_expr(st)); s.ok('p', 'the bytes of a valid value are accepted')
    s.let('pos', ["attr", st, "pos"])
    s.same('p', c, c.seen(v), True, 'the parsed object has the encoded field values')
    s.posts.append(('exactly the encoded bytes are consumed', lambda o: scmp('==', o['pos'], seq_len(enc) * 8)))
    if reser:
      s.let('b', ["tobytearray", ["var", 'p']]); s.ok('b', 'the parsed object serializes')
      s.bytes_eq('b', lambda: c.enc(v), 'the parsed object serializes back to the same bytes')
  return Ob((name or c.path.split('.')[-1]) + '.parse', f, [c.path + '.parse'], timeout=timeout, **kw)


def ob_trunc(c, name=None, timeout=60, n='', classes=None, sized=False, **kw):
  """No strict prefix of the bytes of a valid value is accepted."""
  def f(s):
    G = s.G
    _, v = c.gen(G, n)
    enc = wire_of(c, v)
    L = seq_len(enc)
    if sized: told_length(G, enc)
    k = G.int(n + 'cut', 0, 600)
    G.assume(scmp('<', G.val(k), L))
    st = s.let('s', ["stream", G.derive(n + 'prefix', bt.slice_items(s.it, enc, SliceV(0, G.val(k), None)))])
    s.let('p', c.parse_expr(st), may_fail=True)
    s.raises('p', classes, 'a truncated value is rejected')
  return Ob((name or c.path.split('.')[-1]) + '.truncated', f, [c.path + '.parse'], timeout=timeout, **kw)


from interp import SliceV


# ---------------------------------------------------------------- codes of enumerations
CODES = {
  'phy.channel_header.ChannelCoding': 'PN9=0 RFU=1 FEC_PN9=2 CW=3',
  'phy.channel_header.ChannelClass': 'LO_RATE=0 LORA=1 NORMAL_RATE=2 HI_RATE=3',
  'phy.channel_header.ChannelBand': 'NOT_IMPL=0 BAND_433=2 BAND_868=3 BAND_915=4',
  'phy.channel_status_identifier.Bandwidth': 'kHz25=1 kHz200=0',
  'dll.access_profile.CsmaCaMode': 'UNC=0 AIND=1 RAIND=2 RIGD=3',
  'sp.qos.ResponseMode': 'RESP_MODE_NO=0 RESP_MODE_ALL=1 RESP_MODE_ANY=2 RESP_MODE_NO_RPT=4 RESP_MODE_ON_ERROR=5 RESP_MODE_PREFERRED=6',
  'sp.qos.RetryMode': 'RETRY_MODE_NO=0',
  'alp.operands.query.QueryType': 'NON_VOID_CHECK=0 ARITH_COMP_WITH_ZERO=1 ARITH_COMP_WITH_VALUE=2 ARITH_COMP_BETWEEN_FILES=3 RANGE_COMP=4 STRING_TOKEN=7',
  'alp.operands.query.ArithComparisonType': 'INEQUALITY=0 EQUALITY=1 LESS_THAN=2 LESS_THAN_OR_EQUAL_TO=3 GREATER_THAN=4 GREATER_THAN_OR_EQUAL_TO=5',
  'alp.interface.InterfaceType': 'HOST=0 SERIAL=1 LORAWAN_ABP=2 LORAWAN_OTAA=3 D7ASP=215',
  'system_files.system_file_ids.SystemFileIds': ' '.join(['%s=%d' % x for x in zip(
    ('UID FACTORY_SETTINGS FIRMWARE_VERSION DEVICE_CAPACITY DEVICE_STATUS ENGINEERING_MODE VID RFU_07 PHY_CONFIG PHY_STATUS DLL_CONFIG DLL_STATUS NWL_ROUTING NWL_SECURITY '
     'NWL_SECURITY_KEY NWL_SSR NWL_STATUS TRL_STATUS SEL_CONFIG FOF_STATUS RFU_14 RFU_15 RFU_16 LOCATION_DATA ALP_ROOT_AUTHENTICATION_KEY ALP_USER_AUTHENTICATION_KEY '
     'D7AALP_RFU_1A D7AALP_RFU_1B D7AALP_RFU_1C D7AALP_RFU_1D D7AALP_RFU_1E D7AALP_RFU_1F').split(), range(32))] + ['ACCESS_PROFILE_%d=%d' % (i, 32 + i) for i in range(15)] + ['RFU_2F=47']),
  'system_files.engineering_mode.EngineeringModeMode': ' '.join('ENGINEERING_MODE_MODE_%s=%d' % (n, i) for i, n in enumerate('OFF CONT_TX TRANSIENT_TX PER_RX PER_TX'.split())),
  'fs.file_properties.ActionCondition': 'LIST=0 READ=1 WRITE=2 WRITE_FLUSH=3',
  'fs.file_properties.StorageClass': 'TRANSIENT=0 VOLATILE=1 RESTORABLE=2 PERMANENT=3',
  'd7anp.addressee.IdType': 'NBID=0 NOID=1 UID=2 VID=3',
  'd7anp.addressee.NlsMethod': 'NONE=0 AES_CTR=1 AES_CBC_MAC_128=2 AES_CBC_MAC_64=3 AES_CBC_MAC_32=4 AES_CCM_128=5 AES_CCM_64=6 AES_CCM_32=7',
}


def ob_codes(enum):
  """Every documented member has its documented code, and the code leads back to it."""
  rows = [(n, int(v)) for n, v in (x.split('=') for x in CODES[enum].split())]
  path = 'd7a.' + enum
  def f(s):
    n, v = rows[s.G.choice('member', len(rows))]
    s.let('v', ["attr", ["enum", path, n], "value"]); s.ok('v', 'the documented value exists')
    s.value('v', v, 'an enumeration value has its documented code')
    s.let('n', ["attr", ["call", ["name", path], [s.G.derive_int('code', v)]], "name"]); s.ok('n', 'the documented code is known')
    s.value('n', n, 'a code means its documented value')
  return Ob(enum.split('.')[-1] + '.codes', f, [path], cases=len(rows) * 4)

# ---------------------------------------------------------------- contracts of callees
def frame_only(q, attrs, label):
  """The callee returns None, raises nothing and writes only these attributes of self (to values no caller here reads)."""
  def install(it):
    def con(it, f, args, kw):
      o = args[0]
      for a in attrs: it.setattr(o, a, Opaque(label + '.' + a))
      return None
    it.contracts[q] = con
  return install


from vc import Opaque
TRY_PARSE = frame_only('d7a.alp.operations.responses.ReturnFileData.try_parse_system_file', ['systemfile_type', 'file_data_parsed'], 'ReturnFileData')
