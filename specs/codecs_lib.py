"""The byte layouts and value domains of the protocol objects (the specification side).

Written from the D7A layouts the library documents and the wire order its users rely on; nothing here is read from
/repo's code at run time."""
from kit import *


def flag(b): return b     # a boolean in bits()


# ---------------------------------------------------------------- types
class _CT(Codec):
  path = 'd7a.types.ct.CT'; fields = (('exp', Int(0, 7)), ('mant', Int(0, 31)))
  def enc(self, v): return bits((3, v.exp), (5, v.mant))
CTs = _CT()


def enc_length(n):
  """Minimal length coding: 2 bits = number of extra bytes."""
  if n <= 0x3F: return bits((2, 0), (6, n))
  if n <= 0x3FFF: return bits((2, 1), (14, n))
  if n <= 0x3FFFFF: return bits((2, 2), (22, n))
  return bits((2, 3), (30, n))

LMAX = 0x3FFFFFFF


class _Length(Codec):
  path = 'd7a.alp.operands.length.Length'; fields = (('value', Int(0, LMAX)),)
  def enc(self, v): return enc_length(v.value)
Lengths = _Length()


class LenOf(object):
  """A Length attribute given to the constructor as a plain integer."""
  def __init__(self, lo=0, hi=LMAX): self.d = Int(lo, hi)
  def gen(self, G, n): return self.d.gen(G, n)
  def view_of(self, it, o): return Lengths.view_of(it, o).value
  def valid(self, it, v): return self.d.valid(it, v)
  def same(self, it, o, v): return Lengths.same(it, o, V(value=v))


class _Offset(Codec):
  path = 'd7a.alp.operands.offset.Offset'; fields = (('id', U8()), ('offset', Lengths))
  def enc(self, v): return bits((8, v.id)) + Lengths.enc(v.offset)
Offsets = _Offset()


# ---------------------------------------------------------------- addressee, qos, session configuration
IDT = 'd7a.d7anp.addressee.IdType'
NLS = 'd7a.d7anp.addressee.NlsMethod'
IDTYPES = {'NBID': 0, 'NOID': 1, 'UID': 2, 'VID': 3}


class _Addressee(Codec):
  path = 'd7a.d7anp.addressee.Addressee'
  def __init__(self, kind):
    self.kind = kind
    self.id = {'NBID': CTs, 'NOID': Const(None), 'UID': Int(0, 2 ** 64 - 1), 'VID': Int(0, 0xFFFF)}[kind]
    self.fields = (('access_class', U8()), ('nls_method', Enum(NLS)), ('id', self.id), ('id_type', Enum(IDT, [kind])))
  def enc(self, v):
    h = bits((2, 0), (2, IDTYPES[self.kind]), (4, ev(v.nls_method)), (8, v.access_class))
    return h + {'NBID': lambda: CTs.enc(v.id), 'NOID': lambda: [], 'UID': lambda: be(v.id, 8), 'VID': lambda: be(v.id, 2)}[self.kind]()
  def view_of(self, it, o):
    v = Codec.view_of(self, it, o)
    if not (isinstance(v.id_type, Obj) and v.id_type.d['name'] == self.kind): raise Mismatch()
    return v
ADDR = {k: _Addressee(k) for k in IDTYPES}


class _AnyAddressee(object):
  """Union over the identifier type."""
  path = 'd7a.d7anp.addressee.Addressee'
  def gen(self, G, n=''):
    k = G.choice(n + '|idtype', 4)
    return ADDR[['NBID', 'NOID', 'UID', 'VID'][k]].gen(G, n)
  def view_of(self, it, o):
    try: t = it.getattr(o, 'id_type')
    except PyRaise: raise Mismatch()
    if isinstance(t, SEnum): t = it.concretize_enum(t)
    if not isinstance(t, Obj) or t.d.get('name') not in ADDR: raise Mismatch()
    return ADDR[t.d['name']].view_of(it, o)
  def valid(self, it, v): return v.codec.valid(it, v)
  def same(self, it, o, v, parsed=False): return v.codec.same(it, o, v)
  def enc(self, v): return v.codec.enc(v)
  def wire(self, v): return v.codec.wire(v)
  def parse_expr(self, s): return ["method", ["name", self.path], "parse", [s]]
  def seen(self, v): return v
AnyAddr = _AnyAddressee()


class _QoS(Codec):
  path = 'd7a.sp.qos.QoS'
  fields = (('resp_mod', Enum('d7a.sp.qos.ResponseMode')), ('retry_mod', Enum('d7a.sp.qos.RetryMode')), ('stop_on_err', Bool()), ('record', Bool()))
  def enc(self, v): return bits((1, v.stop_on_err), (1, v.record), (3, ev(v.retry_mod)), (3, ev(v.resp_mod)))
QoSs = _QoS()


class _SessionConfiguration(Codec):
  path = 'd7a.sp.configuration.Configuration'
  fields = (('qos', QoSs), ('dorm_to', CTs), ('addressee', AnyAddr))
  def enc(self, v): return QoSs.enc(v.qos) + CTs.enc(v.dorm_to) + AnyAddr.enc(v.addressee)
SessCfg = _SessionConfiguration()


# ---------------------------------------------------------------- physical layer
CH = 'd7a.phy.channel_header.'


class _ChannelHeader(Codec):
  path = CH + 'ChannelHeader'
  fields = (('channel_coding', Enum(CH + 'ChannelCoding')), ('channel_class', Enum(CH + 'ChannelClass')), ('channel_band', Enum(CH + 'ChannelBand')))
  def enc(self, v): return bits((1, 0), (3, ev(v.channel_band)), (2, ev(v.channel_class)), (2, ev(v.channel_coding)))
ChHeader = _ChannelHeader()


class _ChannelID(Codec):
  path = 'd7a.phy.channel_id.ChannelID'
  fields = (('channel_header', ChHeader), ('channel_index', Int(0, 0xFFFF)))
  def enc(self, v): return ChHeader.enc(v.channel_header) + be(v.channel_index, 2)
ChID = _ChannelID()


class _ChannelStatus(Codec):
  path = 'd7a.phy.channel_status_identifier.ChannelStatusIdentifier'
  fields = (('channel_band', Enum(CH + 'ChannelBand')), ('channel_bandwidth', Enum('d7a.phy.channel_status_identifier.Bandwidth')), ('channel_index', Int(0, 1039)))
  def enc(self, v): return bits((3, ev(v.channel_band)), (1, ev(v.channel_bandwidth)), (1, 0), (11, v.channel_index))
ChStatus = _ChannelStatus()


class _SubBand(Codec):
  path = 'd7a.phy.subband.SubBand'
  fields = (('channel_index_start', Int(0, 0xFFFF)), ('channel_index_end', Int(0, 0xFFFF)), ('eirp', Int(-128, 127)), ('cca', U8()), ('duty', U8()))
  def enc(self, v): return be(v.channel_index_start, 2) + be(v.channel_index_end, 2) + [sinty(v.eirp) & 0xFF, v.cca, v.duty]
SubBands = _SubBand()


class _SubProfile(Codec):
  path = 'd7a.dll.sub_profile.SubProfile'
  fields = (('subband_bitmap', U8()), ('scan_automation_period', CTs))
  def enc(self, v): return [v.subband_bitmap] + CTs.enc(v.scan_automation_period)
SubProfiles = _SubProfile()


class ListOf(object):
  """A list of n..m objects."""
  def __init__(self, c, lo, hi): self.c, self.lo, self.hi = c, lo, hi
  def gen(self, G, n):
    k = self.lo + G.choice(n + '#', self.hi - self.lo + 1)
    es, vs = [], []
    for i in range(k):
      e, v = self.c.gen(G, '%s[%d]' % (n, i)); es.append(e); vs.append(v)
    return ["list", es], vs
  def view_of(self, it, o):
    if not isinstance(o, PList) or o.has_sym(): raise Mismatch()
    return [self.c.view_of(it, x) for x in o.items]
  def valid(self, it, v):
    if not self.lo <= len(v) <= self.hi: return False
    return sand(*[self.c.valid(it, x) for x in v])
  def same(self, it, o, v):
    if not isinstance(o, PList) or len(o.items) != len(v): return False
    return sand(*[self.c.same(it, a, b) for a, b in zip(o.items, v)])


class _AccessProfile(Codec):
  path = 'd7a.dll.access_profile.AccessProfile'
  def __init__(self, lo=0, hi=8):
    self.fields = (('channel_header', ChHeader), ('sub_profiles', ListOf(SubProfiles, 4, 4)), ('sub_bands', ListOf(SubBands, lo, hi)))
  def enc(self, v):
    out = ChHeader.enc(v.channel_header)
    for x in v.sub_profiles: out = out + SubProfiles.enc(x)
    for x in v.sub_bands: out = out + SubBands.enc(x)
    return out
AccProfile = _AccessProfile()            # serialization: 0 to 8 sub-bands
AccProfileFull = _AccessProfile(8, 8)    # what a stored profile holds (and what parsing expects)


# ---------------------------------------------------------------- status
class _Status(Codec):
  path = 'd7a.sp.status.Status'
  fields = (('channel_id', ChID), ('rx_level', U8()), ('link_budget', U8()), ('target_rx_level', U8()), ('nls', Bool()), ('missed', Bool()),
            ('retry', Bool()), ('unicast', Bool()), ('fifo_token', U8()), ('seq_nr', U8()), ('response_to', CTs), ('addressee', AnyAddr))
  def enc(self, v):
    return (ChID.enc(v.channel_id) + [v.rx_level, v.link_budget, v.target_rx_level] + bits((1, v.nls), (1, v.missed), (1, v.retry), (1, v.unicast), (4, 0)) +
            [v.fifo_token, v.seq_nr] + CTs.enc(v.response_to) + AnyAddr.enc(v.addressee))
Statuses = _Status()


# ---------------------------------------------------------------- file system
class _FilePermissions(Codec):
  path = 'd7a.fs.file_permissions.FilePermissions'
  fields = (('encrypted', Bool()), ('executable', Bool(), 'executeable'), ('user_readable', Bool()), ('user_writeable', Bool()), ('user_executeable', Bool()),
            ('guest_readable', Bool()), ('guest_writeable', Bool()), ('guest_executeable', Bool()))
  def enc(self, v): return bits(*[(1, getattr(v, f[0])) for f in self.fields])
Permissions = _FilePermissions()


class _FileProperties(Codec):
  path = 'd7a.fs.file_properties.FileProperties'
  fields = (('act_enabled', Bool()), ('act_condition', Enum('d7a.fs.file_properties.ActionCondition')), ('storage_class', Enum('d7a.fs.file_properties.StorageClass')))
  def enc(self, v): return bits((1, v.act_enabled), (3, ev(v.act_condition)), (2, 0), (2, ev(v.storage_class)))
Properties = _FileProperties()


class _FileHeader(Codec):
  path = 'd7a.fs.file_header.FileHeader'
  fields = (('permissions', Permissions), ('properties', Properties), ('alp_command_file_id', U8()), ('interface_file_id', U8()),
            ('file_size', Int(0, 2 ** 32 - 1)), ('allocated_size', Int(0, 2 ** 32 - 1)))
  def enc(self, v):
    return Permissions.enc(v.permissions) + Properties.enc(v.properties) + [v.alp_command_file_id, v.interface_file_id] + be(v.file_size, 4) + be(v.allocated_size, 4)
FileHeaders = _FileHeader()


# ---------------------------------------------------------------- ALP operands
class _Data(Codec):
  path = 'd7a.alp.operands.file.Data'
  parse = False
  def __init__(self, hi=LMAX): self.fields = (('data', Bytes(0, hi)), ('offset', Offsets))
  def enc(self, v): return Offsets.enc(v.offset) + enc_length(seq_len(v.data)) + list(v.data)
  def same(self, it, o, v, parsed=False):
    r = Codec.same(self, it, o, v, parsed)
    if r is False: return False
    try: n = it.getattr(o, 'length')
    except PyRaise: return False
    return sand(r, Lengths.same(it, n, V(value=seq_len(v.data))))
Datas = _Data()


class _DataRequest(Codec):
  path = 'd7a.alp.operands.file.DataRequest'
  fields = (('length', LenOf()), ('offset', Offsets)); parse = False
  def enc(self, v): return Offsets.enc(v.offset) + enc_length(v.length)
DataRequests = _DataRequest()


class _FileId(Codec):
  path = 'd7a.alp.operands.file.FileIdOperand'; fields = (('file_id', U8()),); parse = False
  def enc(self, v): return [v.file_id]
FileIds = _FileId()


class _TagId(Codec):
  path = 'd7a.alp.operands.tag_id.TagId'; fields = (('tag_id', U8()),); parse = False
  def enc(self, v): return [v.tag_id]
TagIds = _TagId()


class _FileHeaderOperand(Codec):
  path = 'd7a.alp.operands.file_header.FileHeaderOperand'
  fields = (('file_id', U8()), ('file_header', FileHeaders))
  def enc(self, v): return [v.file_id] + FileHeaders.enc(v.file_header)
HeaderOperands = _FileHeaderOperand()


Q = 'd7a.alp.operands.query.'


class _ArithParams(Codec):
  path = Q + 'ArithQueryParams'
  fields = (('signed_data_type', Bool()), ('comp_type', Enum(Q + 'ArithComparisonType')))
  def enc(self, v): return bits((4, 0), (1, v.signed_data_type), (3, ev(v.comp_type)))
  parse = False     # parses 4 bits, inside a query
ArithParams = _ArithParams()


class _Query(Codec):
  """A comparison of a file value with a given value."""
  path = Q + 'QueryOperand'
  def __init__(self, hi=LMAX):
    self.fields = (('type', Enum(Q + 'QueryType', ['ARITH_COMP_WITH_VALUE'])), ('mask_present', Const(False)), ('params', ArithParams),
                   ('compare_value', Bytes(0, hi)), ('compare_length', None), ('file_a_offset', Offsets))
  def gen(self, G, n=''):
    v = V(codec=self); es = {}
    for f, d in self.fields:
      if f == 'compare_length': continue
      e, x = d.gen(G, (n + '.' if n else '') + f)
      es[f] = e; setattr(v, f, x)
    es['compare_length'] = ["call", ["name", Lengths.path], [], {"value": ["len", es['compare_value']]}]
    v.compare_length = V(codec=Lengths, value=seq_len(v.compare_value))
    return ["call", self.ctor(), [], es], v
  def view_of(self, it, o): raise Mismatch()
  def same(self, it, o, v, parsed=False):
    if not isinstance(o, Obj) or o.cls is not it.get(self.path): return False
    r = True
    for f, d in self.fields:
      try: x = it.getattr(o, f)
      except PyRaise: return False
      if f == 'compare_length': r = sand(r, Lengths.same(it, x, v.compare_length))
      else: r = sand(r, d.same(it, x, getattr(v, f)))
      if r is False: return False
    return r
  def enc(self, v):
    return (bits((3, 2), (1, 0), (1, v.params.signed_data_type), (3, ev(v.params.comp_type))) + enc_length(seq_len(v.compare_value)) +
            list(v.compare_value) + Offsets.enc(v.file_a_offset))
Queries = _Query()


IFT = 'd7a.alp.interface.InterfaceType'


class _LoraABP(Codec):
  path = 'd7a.alp.operands.lorawan_interface_configuration_abp.LoRaWANInterfaceConfigurationABP'
  fields = (('adr_enabled', Bool()), ('request_ack', Bool()), ('app_port', U8()), ('data_rate', U8()), ('dev_addr', Int(0, 2 ** 32 - 1)), ('netw_id', Int(0, 2 ** 32 - 1)))
  def enc(self, v): return bits((5, 0), (1, v.adr_enabled), (1, v.request_ack), (1, 0)) + [v.app_port, v.data_rate] + be(v.dev_addr, 4) + be(v.netw_id, 4)
LoraABP = _LoraABP()


class _LoraOTAA(Codec):
  path = 'd7a.alp.operands.lorawan_interface_configuration_otaa.LoRaWANInterfaceConfigurationOTAA'
  fields = (('adr_enabled', Bool()), ('request_ack', Bool()), ('app_port', U8()), ('data_rate', U8()))
  def enc(self, v): return bits((5, 0), (1, v.adr_enabled), (1, v.request_ack), (1, 0)) + [v.app_port, v.data_rate]
LoraOTAA = _LoraOTAA()


class _IfConf(Codec):
  path = 'd7a.alp.operands.interface_configuration.InterfaceConfiguration'
  parse = False
  def __init__(self, name, value, cfg):
    self.value = value; self.cfg = cfg
    self.fields = (('interface_id', Enum(IFT, [name])), ('interface_configuration', cfg if cfg is not None else Const(None)))
  def enc(self, v): return [self.value] + (self.cfg.enc(v.interface_configuration) if self.cfg is not None else [])
  def view_of(self, it, o):
    v = Codec.view_of(self, it, o)
    i = v.interface_id
    if isinstance(i, SEnum) or i.d['value'] != self.value: raise Mismatch()
    if self.cfg is None and v.interface_configuration is not None: raise Mismatch()
    return v
IFCONF = [_IfConf('D7ASP', 0xD7, SessCfg), _IfConf('SERIAL', 1, None), _IfConf('LORAWAN_ABP', 2, LoraABP), _IfConf('LORAWAN_OTAA', 3, LoraOTAA)]
IFHOST = _IfConf('HOST', 0, None)


class Union(object):
  """A union of codecs told apart by their views."""
  def __init__(self, *cs): self.cs = cs
  def gen(self, G, n=''):
    k = G.choice(n + '|', len(self.cs))
    return self.cs[k].gen(G, n)
  def view_of(self, it, o):
    for c in self.cs:
      try: return c.view_of(it, o)
      except Mismatch: pass
    raise Mismatch()
  def valid(self, it, v): return v.codec.valid(it, v)
  def same(self, it, o, v, parsed=False): return v.codec.same(it, o, v)
  def enc(self, v): return v.codec.enc(v)
  def wire(self, v): return v.codec.wire(v)
IfConfs = Union(*IFCONF)


class _Indirect(Codec):
  path = 'd7a.alp.operands.indirect_interface_operand.IndirectInterfaceOperand'
  parse = False
  def __init__(self, over):
    self.over = over
    self.fields = (('interface_file_id', U8()), ('interface_configuration_overload', AnyAddr if over else Const(None)))
  def enc(self, v): return [v.interface_file_id] + (AnyAddr.enc(v.interface_configuration_overload) if self.over else [])
IndirectOver, IndirectPlain = _Indirect(True), _Indirect(False)


class _IfStatus(Codec):
  """Received: interface id, length of the status that follows, the status. Serialized (as the repository's own tests
  pin it): without the length byte - see the known finding on the round trip."""
  path = 'd7a.alp.operands.interface_status.InterfaceStatusOperand'
  parse = False
  def __init__(self, ifid, st):
    self.ifid = ifid; self.st = st
    self.fields = (('interface_id', Const(ifid)), ('interface_status', st if st is not None else Const(None)))
  def enc(self, v): return [self.ifid] + (self.st.enc(v.interface_status) if self.st is not None else [])
  def wire(self, v):
    b = self.st.enc(v.interface_status) if self.st is not None else []
    return [self.ifid, len(b)] + b
IfStatusD7, IfStatusD7None, IfStatusSerial = _IfStatus(0xD7, Statuses), _IfStatus(0xD7, None), _IfStatus(1, None)


# ---------------------------------------------------------------- ALP operations and actions
class _Op(Codec):
  parse = False
  def __init__(self, path, op, operand):
    self.path = 'd7a.alp.operations.' + path; self.op = op; self.operand = operand
    self.fields = (('operand', operand),) if operand is not None else ()
  def enc(self, v): return self.operand.enc(v.operand) if self.operand is not None else []
  def wire(self, v): return self.operand.wire(v.operand) if self.operand is not None else []
  def same(self, it, o, v, parsed=False):
    r = Codec.same(self, it, o, v)
    if r is False: return False
    try: return sand(r, same_value(it, it.getattr(o, 'op'), self.op))
    except PyRaise: return False


OPS = {
  'read_data': _Op('requests.ReadFileData', 1, DataRequests),
  'read_header': _Op('requests.ReadFileHeader', 2, FileIds),
  'write_data': _Op('write_operations.WriteFileData', 4, Datas),
  'write_header': _Op('write_operations.WriteFileHeader', 6, HeaderOperands),
  'break_query': _Op('break_query.BreakQuery', 9, Queries),
  'create_file': _Op('file_management.CreateNewFile', 17, HeaderOperands),
  'return_data': _Op('responses.ReturnFileData', 32, Datas),
  'return_header': _Op('responses.ReturnFileHeader', 33, HeaderOperands),
  'if_status_d7': _Op('status.InterfaceStatus', 34, IfStatusD7),
  'if_status_d7_none': _Op('status.InterfaceStatus', 34, IfStatusD7None),
  'if_status_serial': _Op('status.InterfaceStatus', 34, IfStatusSerial),
  'tag_response': _Op('tag_response.TagResponse', 35, TagIds),
  'forward': _Op('forward.Forward', 50, IfConfs),
  'forward_host': _Op('forward.Forward', 50, IFHOST),
  'indirect_over': _Op('indirect_forward.IndirectForward', 51, IndirectOver),
  'indirect_plain': _Op('indirect_forward.IndirectForward', 51, IndirectPlain),
  'tag_request': _Op('tag_request.TagRequest', 52, TagIds),
  'nop': _Op('nop.NoOperation', 0, None),
}


class _Action(Codec):
  """b7, b6, 6-bit operation code, operand."""
  def __init__(self, cls, b7, b6, op, const=()):
    self.path = 'd7a.alp.' + cls; self.b7 = b7; self.b6 = b6; self.o = OPS[op]; self.opname = op
    fs = []
    for b in (b7, b6):
      if isinstance(b, str): fs.append((b, Bool()))
    for n, val in const: fs.append((n, Const(val)))
    fs.append(('operation', self.o))
    self.fields = tuple(fs)
  def bit(self, v, b): return getattr(v, b) if isinstance(b, str) else b
  def enc(self, v): return bits((1, self.bit(v, self.b7)), (1, self.bit(v, self.b6)), (6, self.o.op)) + self.o.enc(v.operation)
  def wire(self, v): return bits((1, self.bit(v, self.b7)), (1, self.bit(v, self.b6)), (6, self.o.op)) + self.o.wire(v.operation)
  def parse_expr(self, s): return ["method", ["call", ["name", "d7a.alp.parser.Parser"], []], "parse_alp_action", [s]]
  def same(self, it, o, v, parsed=False):
    r = Codec.same(self, it, o, v)
    if r is False: return False
    try: return sand(r, same_value(it, it.getattr(o, 'op'), self.o.op), self.o.operand is None or self.o.operand.same(it, it.getattr(o, 'operand'), v.operation.operand))
    except PyRaise: return False


def reg(op): return _Action('regular_action.RegularAction', 'group', 'resp', op)


ACTIONS = {}
for _k in ('read_data', 'read_header', 'write_data', 'write_header', 'break_query', 'create_file', 'return_data', 'return_header', 'nop'): ACTIONS[_k] = reg(_k)
ACTIONS['forward_regular'] = reg('forward')
ACTIONS['forward'] = _Action('forward_action.ForwardAction', 0, 'resp', 'forward')
ACTIONS['indirect_over'] = _Action('indirect_forward_action.IndirectForwardAction', 1, 'resp', 'indirect_over', [('overload', True)])
ACTIONS['indirect_plain'] = _Action('indirect_forward_action.IndirectForwardAction', 0, 'resp', 'indirect_plain', [('overload', False)])
ACTIONS['tag_request'] = _Action('tag_request_action.TagRequestAction', 'respond_when_completed', 0, 'tag_request')
ACTIONS['tag_response'] = _Action('tag_response_action.TagResponseAction', 'eop', 'error', 'tag_response')
for _k in ('if_status_d7', 'if_status_d7_none', 'if_status_serial'):
  ACTIONS[_k] = _Action('status_action.StatusAction', 0, 1, _k, [('status_operand_extension', 1)])
PARSEABLE = ['read_data', 'write_data', 'break_query', 'create_file', 'return_data', 'return_header', 'forward', 'indirect_over', 'indirect_plain',
             'tag_request', 'tag_response', 'if_status_d7', 'if_status_d7_none', 'if_status_serial']


# ---------------------------------------------------------------- ALP command
class _Command(Codec):
  """A command made of given actions, without tag (what frames of the lower layers carry)."""
  path = 'd7a.alp.command.Command'
  def __init__(self, kinds, lo, hi):
    self.acts = ListOf(Union(*[ACTIONS[k] for k in kinds]), lo, hi)
    self.fields = (('actions', self.acts), ('generate_tag_request_action', Const(False)))
  def enc(self, v):
    out = []
    for a in v.actions: out = out + a.codec.enc(a)
    return out
  def wire(self, v):
    out = []
    for a in v.actions: out = out + a.codec.wire(a)
    return out
  def same(self, it, o, v, parsed=False):
    r = Codec.same(self, it, o, v, parsed)
    if r is False: return False
    try: return sand(r, it.getattr(o, 'interface_status') is None, it.getattr(o, 'tag_id') is None)
    except PyRaise: return False
Cmd0, Cmd1 = _Command([], 0, 0), _Command(['read_data', 'return_data'], 1, 1)


# ---------------------------------------------------------------- network and transport layer
class _AnpControl(Codec):
  path = 'd7a.d7anp.control.Control'
  fields = (('has_no_origin_access_id', Bool()), ('has_hopping', Bool()), ('nls_method', Enum(NLS)), ('origin_id_type', Enum(IDT)))
  def enc(self, v): return bits((1, v.has_no_origin_access_id), (1, v.has_hopping), (2, ev(v.origin_id_type)), (4, ev(v.nls_method)))
AnpControls = _AnpControl()


class _AtpControl(Codec):
  path = 'd7a.d7atp.control.Control'
  names = ('is_dialog_start', 'has_tl', 'has_te', 'is_ack_requested', 'is_ack_not_void', 'is_ack_record_requested', 'has_agc')
  def __init__(self, fixed=None):
    self.fixed = fixed or {}
    self.fields = tuple((n, Const(self.fixed[n]) if n in self.fixed else Bool()) for n in self.names)
  def enc(self, v):
    return bits((1, v.is_dialog_start), (1, 0), (1, v.has_tl), (1, v.has_te), (1, v.is_ack_requested), (1, v.is_ack_not_void), (1, v.is_ack_record_requested), (1, v.has_agc))
AtpControls = _AtpControl()


class _AtpFrame(Codec):
  """Optional fields are present exactly when the control bits say so."""
  path = 'd7a.d7atp.frame.Frame'
  parse = True
  def __init__(self, cmd, ack): self.cmd = cmd; self.ack = ack
  def gen(self, G, n=''):
    p = n + '.' if n else ''
    on = {k: bool(G.choice(p + k, 2)) for k in ('has_tl', 'has_te', 'ackreq', 'start', 'has_agc')}
    ack = bool(self.ack and G.choice(p + 'ack', 2))
    fx = {'has_tl': on['has_tl'], 'has_te': on['has_te'], 'is_ack_requested': on['ackreq'], 'is_dialog_start': on['start'], 'has_agc': on['has_agc'],
          'is_ack_not_void': ack}
    if not self.ack: fx['is_ack_record_requested'] = False
    v = V(codec=self); es = {}
    v.has = on
    def field(k, c):
      es[k], x = c.gen(G, p + k); setattr(v, k, x)
    v.control_codec = _AtpControl(fx)
    field('control', v.control_codec)
    field('dialog_id', U8()); field('transaction_id', U8())
    v.tl = v.te = v.tc = v.ack_template = None; v.agc_rx_level_i = 10
    if on['has_agc']: field('agc_rx_level_i', Int(0, 31))
    if on['has_tl']: field('tl', CTs)
    if on['has_te']: field('te', CTs)
    if on['ackreq'] and on['start']: field('tc', CTs)
    if ack: field('ack_template', Bytes(2, 2))
    field('alp_command', self.cmd)
    return ["call", self.ctor(), [], es], v
  def same(self, it, o, v, parsed=False):
    if not isinstance(o, Obj) or o.cls is not it.get(self.path): return False
    r = True
    for k, c in (('control', v.control_codec), ('dialog_id', U8()), ('transaction_id', U8()), ('agc_rx_level_i', U8()), ('tl', Nullable(CTs)), ('te', Nullable(CTs)),
                 ('tc', Nullable(CTs)), ('ack_template', Nullable(Bytes())), ('alp_command', self.cmd)):
      try: x = it.getattr(o, k)
      except PyRaise: return False
      r = sand(r, c.same(it, x, getattr(v, k)))
      if r is False: return False
    return r
  def enc(self, v):
    out = v.control_codec.enc(v.control) + [v.dialog_id, v.transaction_id]
    if v.has['has_agc']: out = out + [v.agc_rx_level_i]
    for x in (v.tl, v.te, v.tc):
      if x is not None: out = out + CTs.enc(x)
    if v.ack_template is not None: out = out + list(v.ack_template)
    return out + self.cmd.enc(v.alp_command)
  def parse_expr(self, s): return ["method", ["name", self.path], "parse", [s, ["leaf", 'n']]]


class _AnpFrame(Codec):
  path = 'd7a.d7anp.frame.Frame'
  def __init__(self, atp, any_control=False): self.atp = atp; self.any_control = any_control
  def gen(self, G, n=''):
    p = n + '.' if n else ''
    v = V(codec=self); es = {}
    v.kind = G.choice(p + 'origin', 3)
    if self.any_control:
      es['control'], v.control = AnpControls.gen(G, p + 'control')
    else:
      es['control'], v.control = G_fixed(AnpControls, G, p + 'control', {'has_no_origin_access_id': v.kind == 0, 'has_hopping': False}, {'nls_method': ['NONE']},
                                         {'origin_id_type': [None, ['VID'], ['UID']][v.kind]})
    es['origin_access_class'], v.origin_access_class = U8().gen(G, p + 'origin_access_class')
    k = [0, 2, 8][v.kind]
    es['origin_access_id'], v.origin_access_id = Bytes(k, k).gen(G, p + 'origin_access_id')
    es['d7atp_frame'], v.d7atp_frame = self.atp.gen(G, p + 'd7atp_frame')
    return ["call", self.ctor(), [], es], v
  def same(self, it, o, v, parsed=False):
    if not isinstance(o, Obj) or o.cls is not it.get(self.path): return False
    try:
      return sand(AnpControls.same(it, it.getattr(o, 'control'), v.control), U8().same(it, it.getattr(o, 'origin_access_class'), v.origin_access_class),
                  Bytes().same(it, it.getattr(o, 'origin_access_id'), v.origin_access_id), self.atp.same(it, it.getattr(o, 'd7atp_frame'), v.d7atp_frame))
    except PyRaise: return False
  def enc(self, v): return AnpControls.enc(v.control) + [v.origin_access_class] + list(v.origin_access_id) + self.atp.enc(v.d7atp_frame)
  def parse_expr(self, s): return ["method", ["name", self.path], "parse", [s, ["leaf", 'n']]]


def G_fixed(codec, G, n, consts, enums, enums2):
  """gen() of a flat codec with some fields fixed."""
  es, v = {}, V(codec=codec)
  only = dict(enums); only.update(enums2)
  for f, d in codec.fields:
    if f in consts: d = Const(consts[f])
    elif only.get(f) is not None: d = Enum(d.path, only[f])
    e, x = d.gen(G, n + '.' + f)
    es[f] = e; setattr(v, f, x)
  return ["call", codec.ctor(), [], es], v


# ---------------------------------------------------------------- data link layer
class _FgControl(Codec):
  path = 'd7a.dll.foreground_frame_control.ForegroundFrameControl'
  fields = (('id_type', Enum(IDT)), ('eirp_index', Int(0, 63)))
  def enc(self, v): return bits((2, ev(v.id_type)), (6, v.eirp_index))
FgControls = _FgControl()


class _BgControl(Codec):
  path = 'd7a.dll.background_frame_control.BackgroundFrameControl'
  fields = (('id_type', Enum(IDT)), ('tag', Int(0, 63)))
  def enc(self, v): return bits((2, ev(v.id_type)), (6, v.tag))
BgControls = _BgControl()


class _BgFrame(Codec):
  path = 'd7a.dll.background_frame.BackgroundFrame'
  fields = (('subnet', U8()), ('control', BgControls), ('payload', Int(0, 0xFFFF)), ('crc16', Int(0, 0xFFFF)))
  def enc(self, v): return [v.subnet] + BgControls.enc(v.control) + be(v.payload, 2) + be(v.crc16, 2)
BgFrames = _BgFrame()


class _FgFrame(Codec):
  """length counts everything after itself."""
  path = 'd7a.dll.foreground_frame.ForegroundFrame'
  def __init__(self, anp, free=False): self.anp = anp; self.free = free
  def gen(self, G, n=''):
    p = n + '.' if n else ''
    v = V(codec=self); es = {}
    k = G.choice(p + 'target', 3)
    es['subnet'], v.subnet = U8().gen(G, p + 'subnet')
    if self.free: es['control'], v.control = FgControls.gen(G, p + 'control')
    else: es['control'], v.control = G_fixed(FgControls, G, p + 'control', {}, {}, {'id_type': [['NBID', 'NOID'], ['VID'], ['UID']][k]})
    m = [0, 2, 8][k]
    es['target_address'], v.target_address = Bytes(m, m).gen(G, p + 'target_address')
    es['d7anp_frame'], v.d7anp_frame = self.anp.gen(G, p + 'd7anp_frame')
    es['crc16'], v.crc16 = Int(0, 0xFFFF).gen(G, p + 'crc16')
    if self.free: es['length'], v.length = U8().gen(G, p + 'length')
    else:
      v.length = 0
      v.length = seq_len(self.enc(v)) - 1
      G.assume(scmp('<=', v.length, 255))
      es['length'] = G.derive_int(p + 'length', v.length)
    return ["call", self.ctor(), [], es], v
  def same(self, it, o, v, parsed=False):
    if not isinstance(o, Obj) or o.cls is not it.get(self.path): return False
    r = True
    for k, c in (('length', U8()), ('subnet', U8()), ('control', FgControls), ('target_address', Bytes()), ('d7anp_frame', self.anp), ('crc16', Int(0, 0xFFFF))):
      try: x = it.getattr(o, k)
      except PyRaise: return False
      r = sand(r, c.same(it, x, getattr(v, k)))
      if r is False: return False
    return r
  def enc(self, v): return [v.length, v.subnet] + FgControls.enc(v.control) + list(v.target_address) + self.anp.enc(v.d7anp_frame) + be(v.crc16, 2)


# ---------------------------------------------------------------- system files
SF = 'd7a.system_files.'


class SysFile(Codec):
  """A system file: its content layout, its identifier and its declared length."""
  size = None
  def ids(self, v): return self.id
  def length(self, v): return self.size


def U32(): return Int(0, 2 ** 32 - 1)


class _UidFile(SysFile):
  path = SF + 'uid.UidFile'; id, size = 0, 8
  fields = (('uid', Int(0, 2 ** 64 - 1)),)
  def enc(self, v): return be(v.uid, 8)


FACTORY = [(n, U32()) for n in ('rx_bw_low_rate', 'rx_bw_normal_rate', 'rx_bw_high_rate', 'bitrate_lo_rate', 'fdev_lo_rate',
           'bitrate_normal_rate', 'fdev_normal_rate', 'bitrate_hi_rate', 'fdev_hi_rate')]
FACTORY8 = [(n, U8()) for n in ('preamble_size_lo_rate', 'preamble_size_normal_rate', 'preamble_size_hi_rate',
            'preamble_detector_size_lo_rate', 'preamble_detector_size_normal_rate', 'preamble_detector_size_hi_rate',
            'preamble_tol_lo_rate', 'preamble_tol_normal_rate', 'preamble_tol_hi_rate')]


class Rssi(object):
  """Constructed from a number of samples 2^k, held (and stored) as k - 1."""
  def gen(self, G, n):
    raw = G.val(G.int(n, 0, 255))
    if G.symbolic: samples = G.it.arith('Pow', 2, raw + 1)
    else: samples = 2 ** (raw + 1)
    return G.derive_int(n + '.samples', samples), raw
  def view_of(self, it, o): return U8().view_of(it, o)
  def valid(self, it, v): return U8().valid(it, v)
  def same(self, it, o, v): return U8().same(it, o, v)


class _FactoryFile(SysFile):
  path = SF + 'factory_settings.FactorySettingsFile'; id, size = 1, 56
  fields = tuple([('gain', Int(-128, 127))] + FACTORY + FACTORY8 + [('rssi_smoothing', Rssi()), ('rssi_offset', Int(-126, 125)),
           ('lora_bw', U32()), ('lora_SF', Int(6, 12)), ('gaussian', Int(0, 3)), ('paramp', Int(0, 0xFFFF))])
  def enc(self, v):
    out = [sinty(v.gain) & 0xFF]
    for n, _ in FACTORY: out += be(getattr(v, n), 4)
    out += [getattr(v, n) for n, _ in FACTORY8]
    return out + [v.rssi_smoothing, sinty(v.rssi_offset) & 0xFF] + be(v.lora_bw, 4) + [v.lora_SF, v.gaussian] + be(v.paramp, 2)


class _FirmwareFile(SysFile):
  path = SF + 'firmware_version.FirmwareVersionFile'; id, size = 2, 17
  def __init__(self, lo=0):
    self.fields = (('d7a_protocol_version_major', U8()), ('d7a_protocol_version_minor', U8()), ('filesystem_version_major', U8()),
                   ('filesystem_version_minor', U8()), ('application_name', Ascii(lo and 6, 6)), ('git_sha1', Ascii(lo and 7, 7)))
  def enc(self, v):
    def pad(x, n): return list(x) + [32] * (n - len(x))
    return [v.d7a_protocol_version_major, v.d7a_protocol_version_minor, v.filesystem_version_major, v.filesystem_version_minor] + pad(v.application_name, 6) + pad(v.git_sha1, 7)


ENGMODE = SF + 'engineering_mode.EngineeringModeMode'
class _EngineeringFile(SysFile):
  path = SF + 'engineering_mode.EngineeringModeFile'; id, size = 5, 9
  fields = (('mode', Enum(ENGMODE)), ('flags', U8()), ('timeout', U8()), ('channel_id', ChID), ('eirp', Int(-128, 127)))
  def enc(self, v): return [ev(v.mode), v.flags, v.timeout] + ChID.enc(v.channel_id) + [sinty(v.eirp) & 0xFF, 0, 0]
  def wire(self, v): return self.enc(v)[:-2]


class _VidFile(SysFile):
  path = SF + 'vid.VidFile'; id, size = 6, 3
  fields = (('vid', Int(0, 0xFFFF)), ('control', U8()))
  def enc(self, v): return be(v.vid, 2) + [v.control]


class _PhyStatusFile(SysFile):
  path = SF + 'phy_status.PhyStatusFile'; id = 9
  def __init__(self, n, fill=False):
    """n listed channels; fill: the constructor completes shorter lists."""
    self.n = n
    self.fields = (('up_time', U32()), ('rx_time', U32()), ('tx_time', U32()), ('tx_duty_cycle', Int(0, 1000)), ('channel_status_list_length', Const(n)),
                   ('channel_status_identifier', ListOf(ChStatus, n, n)), ('channel_noise_floor', IntList(n)))
  def enc(self, v):
    out = be(v.up_time, 4) + be(v.rx_time, 4) + be(v.tx_time, 4) + be(v.tx_duty_cycle, 2) + [self.n]
    for a, b in zip(v.channel_status_identifier, v.channel_noise_floor): out = out + ChStatus.enc(a) + [b]
    return out
  def length(self, v): return 45


class IntList(object):
  """A list of n byte values."""
  def __init__(self, n): self.n = n
  def gen(self, G, n):
    ls = [G.int('%s[%d]' % (n, i), 0, 255) for i in range(self.n)]
    return ["list", ls], [G.val(l) for l in ls]
  def view_of(self, it, o): return Bytes(self.n, self.n).view_of(it, o)
  def valid(self, it, v): return len(v) == self.n
  def same(self, it, o, v): return isinstance(o, PList) and items_same(it, o.items, v)


class _DllConfigFile(SysFile):
  path = SF + 'dll_config.DllConfigFile'; id, size = 10, 7
  fields = tuple((n, U8()) for n in ('active_access_class', 'lq_filter', 'nf_ctrl', 'rx_nf_method_parameter', 'tx_nf_method_parameter'))
  def enc(self, v): return [v.active_access_class, 0, 0, v.lq_filter, v.nf_ctrl, v.rx_nf_method_parameter, v.tx_nf_method_parameter]


class _DllStatusFile(SysFile):
  path = SF + 'dll_status.DllStatusFile'; id, size = 11, 16
  fields = (('last_rx_packet_level', U8()), ('last_rx_packet_link_budget', U8()), ('noise_floor', U8()), ('channel_header', ChHeader),
            ('channel_index', Int(0, 0xFFFF)), ('scan_timeout_ratio', Int(0, 0xFFFF)), ('scan_count', U32()), ('scan_timeout_count', U32()))
  def enc(self, v):
    return [v.last_rx_packet_level, v.last_rx_packet_link_budget, v.noise_floor] + ChHeader.enc(v.channel_header) + \
           be(v.channel_index, 2) + be(v.scan_timeout_ratio, 2) + be(v.scan_count, 4) + be(v.scan_timeout_count, 4)


class _KeyFile(SysFile):
  def __init__(self, name, cls, id, size):
    self.path = SF + name + '.' + cls; self.id, self.size = id, size
    self.fields = (('key', Int(0, 2 ** 128 - 1)),)
  def enc(self, v): return le(v.key, 16) + [0] * (self.size - 16)


class _AccessProfileFile(SysFile):
  path = SF + 'access_profile.AccessProfileFile'; size = 65
  notparsed = ('access_specifier',)       # not part of the content: it is in the file identifier
  def __init__(self, full=True): self.fields = (('access_specifier', Int(0, 14)), ('access_profile', AccProfileFull if full else AccProfile))
  def enc(self, v): return AccProfile.enc(v.access_profile)
  def ids(self, v): return v.access_specifier + 0x20


class _IfConfFile(SysFile):
  path = SF + 'interface_configuration.InterfaceConfigurationFile'; parse = False
  def __init__(self, conf, size): self.conf = conf; self.size = size; self.fields = (('interface_configuration', conf),)
  def gen(self, G, n=''):
    e, v = SysFile.gen(self, G, n)
    i = G.int((n + '.' if n else '') + 'file_id', 0, 255)
    v.id = G.val(i)
    e[3]['file_id'] = i
    return e, v
  def enc(self, v): return self.conf.enc(v.interface_configuration)
  def ids(self, v): return v.id


FIXED_FILES = {
  'uid': _UidFile(), 'factory_settings': _FactoryFile(), 'firmware_version': _FirmwareFile(), 'engineering_mode': _EngineeringFile(),
  'vid': _VidFile(), 'dll_config': _DllConfigFile(), 'dll_status': _DllStatusFile(),
  'security_key': _KeyFile('security_key', 'SecurityKeyFile', 14, 16),
  'root_key': _KeyFile('root_authentication_key', 'RootAuthenticationKeyFile', 24, 40),
  'user_key': _KeyFile('user_authentication_key', 'UserAuthenticationKeyFile', 25, 40),
  'access_profile': _AccessProfileFile(),
}
FirmwareParsed = _FirmwareFile(1)
PHY_STATUS = [_PhyStatusFile(n) for n in range(11)]
IFCONF_FILES = {'d7asp': _IfConfFile(IFCONF[0], 13), 'lorawan_abp': _IfConfFile(IFCONF[2], 44), 'lorawan_otaa': _IfConfFile(IFCONF[3], 36)}

# identifier -> (declared length, implemented by)
FILE_TABLE = {0: 8, 1: 56, 2: 17, 3: 19, 4: 9, 5: 9, 6: 3, 7: 0, 8: 9, 9: 45, 10: 7, 11: 16, 12: 1, 13: 5, 14: 16, 15: 4, 16: 20, 17: 1, 18: 6, 19: 10,
              20: 0, 21: 0, 22: 0, 23: 1, 24: 40, 25: 40, 26: 0, 27: 0, 28: 0, 29: 0, 30: 0, 31: 0}
FILE_TABLE.update({0x20 + i: 65 for i in range(15)})
FILE_NAMES = {0: 'UidFile', 1: 'FactorySettingsFile', 2: 'FirmwareVersionFile', 5: 'EngineeringModeFile', 6: 'VidFile', 9: 'PhyStatusFile', 10: 'DllConfigFile',
              11: 'DllStatusFile', 14: 'SecurityKeyFile', 24: 'RootAuthenticationKeyFile', 25: 'UserAuthenticationKeyFile'}
FILE_NAMES.update({0x20 + i: 'AccessProfileFile' for i in range(15)})
