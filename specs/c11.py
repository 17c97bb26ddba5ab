"""Invalid field values are refused: for every validated class, one field at a time takes a value outside its domain (the domains are those
of the codecs, written from the documented ranges; nothing is read from the repository's schemas)."""
from codecs_common import *
from codecs_lib import *
import codecs_lib as L
from registry import Property

FAR = 1 << 200
OTHER = ["call", ["name", "d7a.types.ct.CT"], [], {}]
OTHER2 = ["call", ["name", "d7a.alp.operands.tag_id.TagId"], [], {"tag_id": ["lit", 0]}]


def bad_kinds(d):
  """(name, expression maker) of the ways a value can be outside this domain."""
  def lit(x): return lambda G, n: ["lit", x]
  none = ('none', lambda G, n: ["none"]); text = ('text', lit("7")); lst = ('list', lambda G, n: ["list", []]); num = ('number', lambda G, n: G.int(n + '!num', -300, 70000))
  obj = ('object', lambda G, n: OTHER2)
  if isinstance(d, Int):
    return [('low', lambda G, n: G.int(n + '!low', -FAR, d.lo - 1)), ('high', lambda G, n: G.int(n + '!high', d.hi + 1, FAR)), none, text, lst, obj]
  if isinstance(d, Bool): return [none, text, num, lst]
  if isinstance(d, Enum):
    out = [none, text, num, obj, ('other enumeration', lambda G, n: G.enum(n + '!enum', IFT if d.path != IFT else NLS))]
    return out
  if isinstance(d, Bytes):
    def element(G, n):
      k = G.choice(n + '!which', 5)
      x = G.int(n + '!b', 256, FAR) if k == 0 else G.int(n + '!b', -FAR, -1) if k == 1 else [["lit", "x"], ["none"], OTHER2][k - 2]
      k = G.choice(n + '!at', 3)
      l = [G.int('%s!e%d' % (n, i), 0, 255) for i in range(2)]; l.insert(k, x)
      return ["list", l]
    return [('element', element), ('number', num[1]), none, obj]
  if isinstance(d, Ascii):
    def long(G, n): return ["tobytes", G.derive(n + '!long', [65 + i % 26 for i in range(d.hi + 1 + G.choice(n + '!more', 3))])]
    return [num, lst, obj, ('too long', long)]
  if isinstance(d, ListOf):
    out = [none, num, obj]
    def size(m): return lambda G, n: ["list", [d.c.gen(G, '%s!%d' % (n, i))[0] for i in range(m)]]
    if d.lo: out.append(('too few', size(d.lo - 1)))
    out.append(('too many', size(d.hi + 1)))
    def elem(G, n):
      m = max(d.lo, 1); l = [d.c.gen(G, '%s!%d' % (n, i))[0] for i in range(m)]
      l[G.choice(n + '!at', m)] = [OTHER2, ["none"], ["lit", 3]][G.choice(n + '!which', 3)]
      return ["list", l]
    return out + [('element', elem)]
  if isinstance(d, Nullable): return [k for k in bad_kinds(d.f) if k[0] != 'none']
  if hasattr(d, 'path') or isinstance(d, Union):
    p = getattr(d, 'path', None)
    return [none, text, num, lst, ('object', lambda G, n: OTHER if p != CTs.path else OTHER2)]
  return []


def refuses(c, fields, skip=()):
  def f(s):
    G = s.G
    fs = [x for x in fields if bad_kinds(x[1]) and (len(x) < 3 or x[2])]
    x = fs[G.choice('field', len(fs))]
    ks = [k for k in bad_kinds(x[1]) if (x[0], k[0]) not in skip]
    k = ks[G.choice('kind', len(ks))]
    e, v = c.gen(G)
    kw = x[2] if len(x) > 2 else x[0]
    e = list(e); e[3] = dict(e[3]); e[3][kw] = k[1](G, x[0])
    s.let('o', e, may_fail=True)
    s.raises('o', None, 'a field outside its domain is refused')
    s.posts.append((None, '%s: %s' % (x[0], k[0])))
  return f


def accepts(c):
  def f(s):
    e, v = c.gen(s.G)
    s.let('o', e); s.ok('o', 'every value of the documented domain is accepted')
    s.same('o', c, v, label='the object holds its arguments')
  return f


def missing(c, names):
  def f(s):
    G = s.G
    e, v = c.gen(G)
    e = list(e); e[3] = dict(e[3]); del e[3][names[G.choice('which', len(names))]]
    s.let('o', e, may_fail=True)
    s.raises('o', None, 'a missing field is refused')
  return f


NAMED = {}
def codec(name, c, required='', skip=(), uses=(), fields=None, lo=None):
  NAMED[name] = V(c=c, required=required.split(), skip=skip, uses=list(uses), fields=fields or c.fields)


codec('CT', CTs); codec('Length', Lengths); codec('Offset', Offsets); codec('QoS', QoSs); codec('Configuration', SessCfg)
codec('Status', Statuses, 'channel_id rx_level link_budget target_rx_level nls missed retry unicast fifo_token seq_nr response_to addressee')
codec('ChannelHeader', ChHeader, 'channel_coding channel_class channel_band'); codec('ChannelID', ChID, 'channel_header channel_index'); codec('ChannelStatus', ChStatus)
codec('SubBand', SubBands); codec('SubProfile', SubProfiles); codec('AccessProfile', AccProfile, 'channel_header sub_profiles sub_bands')
codec('FilePermissions', Permissions); codec('FileProperties', Properties, 'act_enabled act_condition storage_class')
codec('FileHeader', FileHeaders, 'permissions properties alp_command_file_id interface_file_id file_size allocated_size')
codec('Data', L._Data(64)); codec('DataRequest', DataRequests, 'length'); codec('FileId', FileIds, 'file_id'); codec('TagId', TagIds, 'tag_id'); codec('FileHeaderOperand', HeaderOperands, 'file_id file_header')
codec('ArithParams', ArithParams, 'signed_data_type comp_type')
codec('Query', L._Query(64), 'type mask_present params compare_length compare_value file_a_offset',
      fields=[(f, d if d is not None else Lengths) for f, d in L._Query(64).fields if f != 'mask_present'] + [('mask_present', Bool())])
for _c in IFCONF: codec('InterfaceConfiguration.' + _c.fields[0][1].only[0], _c, 'interface_id', skip=[('interface_configuration', 'none'), ('interface_configuration', 'object')])
codec('Indirect', IndirectOver, 'interface_file_id', skip=[('interface_configuration_overload', 'none')])
codec('InterfaceStatus', IfStatusD7, 'interface_id interface_status', skip=[('interface_status', 'none')], fields=[('interface_id', U8()), ('interface_status', Statuses)])
codec('AnpControl', AnpControls, 'has_no_origin_access_id has_hopping nls_method origin_id_type')
codec('AtpControl', AtpControls, 'is_dialog_start has_tl has_te is_ack_requested is_ack_not_void is_ack_record_requested has_agc')
codec('FgControl', FgControls, 'id_type'); codec('BgControl', BgControls, 'id_type tag'); codec('BgFrame', BgFrames, 'subnet control payload crc16')
for _k, _c in ADDR.items(): codec('Addressee.' + _k, _c)
codec('Addressee.NOID', ADDR['NOID'], fields=ADDR['NOID'].fields[:2] + ADDR['NOID'].fields[3:])
REQ = {'tag_response': 'eop error', 'if_status_d7': 'status_operand_extension operation', 'if_status_d7_none': 'status_operand_extension operation', 'if_status_serial': 'status_operand_extension operation'}
for _k, _c in ACTIONS.items(): codec('action.' + _k, _c, REQ.get(_k, ''), uses=[TRY_PARSE] if _k == 'return_data' else [])
for _k, _c in OPS.items():
  if _c.operand is not None: codec('operation.' + _k, _c, 'operand', uses=[TRY_PARSE] if _k == 'return_data' else [])
for _k, _c in FIXED_FILES.items(): codec('file.' + _k, _c, skip=[('access_profile', 'none')])
for _i in (0, 1, 10): codec('file.phy_status.%d' % _i, PHY_STATUS[_i], fields=[f if f[0] != 'channel_status_list_length' else (f[0], U8()) for f in PHY_STATUS[_i].fields],
                              skip=[('channel_status_list_length', 'high'), ('channel_status_identifier', 'too few'), ('channel_status_identifier', 'too many')])
_atp = L._AtpFrame(Cmd0, False); _anp = L._AnpFrame(_atp); _fg = L._FgFrame(_anp)
codec('AtpFrame', _atp, 'control dialog_id transaction_id alp_command', skip=[('agc_rx_level_i', 'none')], fields=[('control', AtpControls), ('dialog_id', U8()), ('transaction_id', U8()), ('alp_command', Cmd0), ('agc_rx_level_i', Int(0, 31)),
      ('tl', Nullable(CTs)), ('te', Nullable(CTs)), ('tc', Nullable(CTs))])
codec('AnpFrame', _anp, 'control origin_access_class origin_access_id d7atp_frame', fields=[('control', AnpControls), ('origin_access_class', U8()), ('origin_access_id', Bytes()), ('d7atp_frame', _atp)])
codec('FgFrame', _fg, 'length subnet control target_address d7anp_frame crc16', fields=[('length', U8()), ('subnet', U8()), ('control', FgControls), ('target_address', Bytes()), ('d7anp_frame', _anp), ('crc16', Int(0, 0xFFFF))])


def make():
  obs = []
  for k, x in sorted(NAMED.items()):
    c = x.c
    kw = dict(timeout=60, uses=x.uses)
    if k in ('AnpFrame', 'FgFrame'):     # the choices inside the transport frame are those of AtpFrame.*
      kw['fixed'] = {'d7anp_frame.' * (k == 'FgFrame') + 'd7atp_frame.' + f: f in ('has_tl', 'start') for f in ('has_tl', 'has_te', 'ackreq', 'start', 'has_agc')}
    obs.append(Ob(k + '.accepts', accepts(c), [c.path + '.__init__'], cases=20, **kw))
    obs.append(Ob(k + '.refuses', refuses(c, x.fields, x.skip), [c.path + '.__init__'], cases=120, **kw))
    if x.required: obs.append(Ob(k + '.required', missing(c, x.required), [c.path + '.__init__'], cases=20, **kw))
  return obs
PROP = Property('C11', make)
