"""Independence: separately built objects share no mutable state, and nothing that only looks at an object changes anything.

Every scenario changes one object everywhere it can be changed (each field, in depth) and states what must not have moved: another object
built before from its own arguments, one built or parsed afterwards, the objects built from defaults, the arguments."""
from codecs_common import *
from codecs_lib import *
import codecs_lib as L
from c11 import NAMED
from registry import Property
from interp import SliceV


class Alike(object):
  """A second generation that makes the same structural choices as the first, with values of its own."""
  def __init__(self, G, a, b): self.G = G; self.a = a; self.b = b
  def __getattr__(self, k): return getattr(self.G, k)
  def choice(self, name, n):
    assert name.startswith(self.b)
    key = self.a + name[len(self.b):]
    if key in self.G.made: return self.G.made[key]
    return self.G.choice(name, n)


class Noted(object):
  """Remembers the structural choices of a generation."""
  def __init__(self, G): self.G = G; G.made = {}
  def __getattr__(self, k): return getattr(self.G, k)
  def choice(self, name, n):
    r = self.G.choice(name, n); self.G.made[name] = r
    return r


def two(s, c):
  ea, va = c.gen(Noted(s.G), 'a'); eb, vb = c.gen(Alike(s.G, 'a', 'b'), 'b')
  return ea, va, eb, vb


def fields(v, e):
  """(attribute, expression of the argument) of an object expression."""
  kws = e[3]; out = []
  c = v.codec
  names = {(f[2] if len(f) > 2 else f[0]): f[0] for f in getattr(c, 'fields', ())}
  for kw in sorted(kws): out.append((names.get(kw, kw), kws[kw]))
  return out


def change(s, x, v, e, tag):
  """Changes the object x (of the shape of view v) in depth: every field to the value it has in e, lists longer."""
  n = [0]
  def do(expr): n[0] += 1; s.let('%s%d' % (tag, n[0]), expr, may_fail=True)
  def deep(x, v, e):
    if isinstance(v, V):
      for f, ex in fields(v, e):
        at = ["attr", x, f]; sub = getattr(v, f, None)
        if isinstance(sub, (V, list)): deep(at, sub, ex)
        if isinstance(v.codec, L._Op): do(["setattr", x, 'op', ["lit", 63]])
        if ex[0] == 'call' and ex[1] is None: ex = ["lit", 99]
        if ex[0] != 'none' and not (ex[0] == 'lit' and ex[1] is None): do(["setattr", x, f, ex])
    elif isinstance(v, list) and e[0] not in ('tobytes', 'bytestr'):
      if e[0] == 'list':
        for i, (y, ey) in enumerate(zip(v, e[1])):
          if isinstance(y, V): deep(["item", x, ["lit", i]], y, ey)
        if e[1]: do(["method", x, "append", [e[1][0]]])
      do(["method", x, "insert", [["lit", 0], ["lit", 7]]])
  deep(x, v, e)


def look(s, x, tag):
  """Everything that only looks at an object."""
  s.let(tag + 'text', ["str", x], may_fail=True)
  s.let(tag + 'dict', ["method", x, "as_dict", []], may_fail=True)
  s.let(tag + 'eq', ["eq", x, x], may_fail=True)
  s.let(tag + 'valid', ["method", x, "validate", []], may_fail=True)


def holds(s, name, c, v, what):
  """The object still has its values, and serializes to them."""
  s.let(name + '~', ["var", name])
  s.same(name + '~', c, v, label=what + ' has its own field values')
  if isinstance(v.codec, L.SysFile):
    s.let(name + '~id', ["attr", ["var", name], "id"]); s.value(name + '~id', lambda: v.codec.ids(v), what + ' has its own file identifier')
  if not isinstance(c, L._ArithParams):
    s.let(name + '~b', ["tobytearray", ["var", name]]); s.ok(name + '~b', what + ' serializes')
    s.bytes_eq(name + '~b', lambda: c.enc(v), what + ' serializes to its own bytes')


def independent(c):
  def f(s):
    ea, va, eb, vb = two(s, c)
    a = s.let('a', ea); b = s.let('b', eb)
    s.ok('b', 'a valid argument tuple is accepted')
    change(s, b, vb, ea, 'm')
    s.let('c', eb); s.ok('c', 'a valid argument tuple is accepted later')
    holds(s, 'c', c, vb, 'an object built afterwards')
    holds(s, 'a', c, va, 'an object built before from other arguments')
  return f


def pure(c):
  def f(s):
    G = s.G
    e, v = c.gen(G)
    args = []
    e = list(e); kws = {}
    for (k, ex), (fn, _) in zip(sorted(e[3].items()), fields(v, e)):
      kws[k] = s.let('arg.' + k, ex); args.append((k, fn))
    e[3] = kws
    o = s.let('o', e); s.ok('o', 'a valid argument tuple is accepted')
    look(s, o, 'l')
    if not isinstance(c, L._ArithParams): s.let('x', ["tobytearray", o])
    look(s, o, 'k')
    holds(s, 'o', c, v, 'the object')
    doms = {x[0]: x[1] for x in getattr(v.codec, 'fields', ())}
    for k, fn in args:
      d = doms.get(fn); sub = getattr(v, fn, None)
      if isinstance(sub, V) or isinstance(sub, list):
        s.let('arg.%s~' % k, ["var", 'arg.' + k])
        if isinstance(sub, V): s.posts.append(('the argument %s is unchanged' % k, lambda o, k=k, sub=sub: sub.codec.same(o.it, o['arg.%s~' % k], sub)))
        elif d is not None and not isinstance(d, Ascii): s.posts.append(('the argument %s is unchanged' % k, lambda o, k=k, sub=sub, d=d: d.same(o.it, o['arg.%s~' % k], sub)))
  return f


def parsed(c):
  def f(s):
    G = s.G
    ea, va = c.gen(G, 'a')
    enc = wire_of(c, va)
    d = G.derive('enc', enc)
    s.let('p', c.parse_expr(["stream", d])); s.ok('p', 'the bytes of a valid value are accepted')
    s.let('q', c.parse_expr(["stream", d])); s.ok('q', 'the bytes of a valid value are accepted again')
    s.let('o', ea)
    change(s, ["var", 'p'], va, ea2(s, c, va, ea), 'm')
    s.let('r', c.parse_expr(["stream", d])); s.ok('r', 'the bytes of a valid value are accepted once more')
    for x, t in (('q', 'an object parsed before'), ('r', 'an object parsed afterwards'), ('o', 'a built object')):
      s.let(x + '~', ["var", x]); s.same(x + '~', c, c.seen(va), True, t + ' has its own field values')
      s.let(x + '~b', ["tobytearray", ["var", x]]); s.bytes_eq(x + '~b', lambda: c.enc(va), t + ' serializes to its own bytes')
  return f


def ea2(s, c, va, ea):
  """Other values of the same shape."""
  s.G.made = {}
  def f(v, e):
    if isinstance(v, V):
      e = list(e); e[3] = {k: f(getattr(v, n, None), e[3][k]) for (n, _), k in zip(fields(v, e), sorted(e[3]))}
      return e
    if isinstance(v, list) and e[0] == 'list': return ["list", [f(x, y) for x, y in zip(v, e[1])]]
    return ["lit", 99] if e[0] != 'tobytes' else ["bytestr", "zz"]
  return f(va, ea)


# ---------------------------------------------------------------- defaults
DEFAULTED = {
  'CT': 'exp mant', 'Length': 'value', 'Offset': 'id offset', 'QoS': 'resp_mod retry_mod stop_on_err record', 'Configuration': 'qos dorm_to addressee', 'ChannelStatus': 'channel_band channel_bandwidth channel_index',
  'SubBand': 'channel_index_start channel_index_end eirp cca duty', 'SubProfile': 'subband_bitmap scan_automation_period', 'Data': 'data offset', 'DataRequest': 'offset',
  'FilePermissions': 'encrypted executeable user_readable user_writeable user_executeable guest_readable guest_writeable guest_executeable', 'FgControl': 'eirp_index',
  'Addressee.NOID': 'access_class id_type id nls_method',
  'file.uid': 'uid', 'file.vid': 'vid control', 'file.engineering_mode': 'mode flags timeout channel_id eirp', 'file.dll_config': 'active_access_class lq_filter nf_ctrl rx_nf_method_parameter tx_nf_method_parameter',
  'file.dll_status': 'last_rx_packet_level last_rx_packet_link_budget noise_floor channel_header channel_index scan_timeout_ratio scan_count scan_timeout_count',
  'action.nop': 'group resp operation', 'file.security_key': 'key', 'file.root_key': 'key', 'file.user_key': 'key', 'file.firmware_version': 'application_name git_sha1',
}


def defaults(c, names):
  """One subset of the defaultable arguments is left out: two such objects are independent, and the default never changes."""
  def f(s):
    G = s.G
    e, v = c.gen(G, 'a')
    k = G.choice('which', len(names) + 1)
    out = names if k == len(names) else [names[k]]
    d = list(e); d[3] = {n: x for n, x in e[3].items() if n not in out}
    for n in ('d', 'x', 'y'): s.let(n, d); s.ok(n, 'the defaults are accepted')
    s.let('b0', ["tobytearray", ["var", 'd']])
    change(s, ["var", 'x'], v, e, 'm')
    s.let('z', d); s.ok('z', 'the defaults are accepted later')
    for n, t in (('y', 'built before'), ('z', 'built afterwards'), ('d', 'already serialized')):
      s.let(n + '~b', ["tobytearray", ["var", n]]); s.ok(n + '~b', 'an object with default fields %s serializes' % t)
      s.posts.append(('an object with default fields %s has the same bytes' % t, lambda o, n=n: same_bytes(o.it, o[n + '~b'], bt.byte_items(o.it, o['b0']))))
  return f



def filled(s):
  """The channels a PHY status file completes its list with are different objects, in it and in every other file."""
  G = s.G
  n = 2 + G.choice('n', 3)
  mk = ["call", ["name", PHY_STATUS[0].path], [], {"channel_status_list_length": ["lit", n]}]
  for x in 'ab': s.let(x, mk); s.ok(x, 'a file is built')
  def at(x, i): return ["item", ["attr", ["var", x], "channel_status_identifier"], ["lit", i]]
  k = G.choice('k', n)
  i = G.int('index', 0, 1039)
  s.let('b0', ["tobytearray", ["var", 'b']])
  s.let('m', ["setattr", at('a', k), "channel_index", i], may_fail=True)
  s.let('m2', ["method", ["attr", ["var", 'a'], "channel_noise_floor"], "append", [i]], may_fail=True)
  s.let('c', mk); s.ok('c', 'a file is built later')
  for j in range(n):
    if j != k:
      s.let('i%d' % j, ["attr", at('a', j), "channel_index"]); s.value('i%d' % j, 0, 'another channel of the file is unchanged')
  for x, t in (('b', 'before'), ('c', 'afterwards')):
    s.let(x + '~', ["tobytearray", ["var", x]])
    s.posts.append(('a file built %s is the same' % t, lambda o, x=x: same_bytes(o.it, o[x + '~'], bt.byte_items(o.it, o['b0']))))


def default_interface(s):
  mk = ["call", ["name", IFCONF_FILES['d7asp'].path], []]
  for x in 'ab': s.let(x, mk); s.ok(x, 'a file is built')
  s.let('m', ["setattr", ["attr", ["var", 'a'], "interface_configuration"], "interface_id", ["enum", IFT, 'SERIAL']])
  s.let('c', mk)
  for x, t in (('b', 'before'), ('c', 'afterwards')):
    s.let(x + '~', ["attr", ["attr", ["var", x], "interface_configuration"], "interface_id"]); s.value(x + '~', lambda: s.it.getitem(s.it.get(IFT), 'D7ASP'), 'a file built %s has its own interface' % t)


# ---------------------------------------------------------------- commands
CMDC = 'd7a.alp.command.Command'
RH = ACTIONS['read_header']


def lists(s):
  """A command keeps its own list: adding to it changes neither the list it was built from nor another command built from it."""
  G = s.G
  (e1, v1), (e2, v2) = RH.gen(G, 'one'), RH.gen(G, 'two')
  n = G.choice('n', 3)
  lst = s.let('lst', ["list", [e1] * n])
  for x in ('a', 'b'): s.let(x, ["call", ["name", CMDC], [], {"actions": lst}])
  s.let('d', ["call", ["name", CMDC], []])
  for x in ('a', 'd'):
    s.let(x + '+', ["method", ["var", x], "add_action", [e2]]); s.ok(x + '+', 'an action can be added')
    s.let(x + '-', ["method", ["var", x], "add_indirect_forward_action", [["lit", 1]]])
  look(s, ["var", 'a'], 'l')
  s.let('xa', ["tobytearray", ["var", 'a']])
  s.let('lst~', lst)
  s.posts.append(('the list given to a command is unchanged', lambda o: isinstance(o['lst~'], PList) and len(o['lst~'].items) == n))
  s.let('e', ["call", ["name", CMDC], []])
  s.let('f', ["call", ["name", CMDC], [], {"actions": lst}])
  for x, m, t in (('b', n, 'another command built before from the same list'), ('f', n, 'another command built afterwards from the same list'), ('e', 0, 'a command built afterwards without actions'), ('a', n + 2, 'the command')):
    s.let(x + 'n', ["attr", ["var", x], "actions"])
    s.posts.append((t + ' has its own actions', lambda o, x=x, m=m: isinstance(o[x + 'n'], PList) and len(o[x + 'n'].items) == m and sand(*[RH.same(o.it, y, v1) for y in o[x + 'n'].items[:n]])))


DFLT = None
def forwards(s):
  """The default session configuration of a forward action belongs to that action."""
  G = s.G
  e, v = SessCfg.gen(G, 'cfg')
  for x in 'abc': s.let(x, ["call", ["name", CMDC], []])
  def add(x): s.let(x + '+', ["method", ["var", x], "add_forward_action", [["enum", IFT, "D7ASP"]]]); s.ok(x + '+', 'a forward action can be added')
  def cfg(x): return ["attr", ["attr", ["attr", ["item", ["attr", ["var", x], "actions"], ["lit", 0]], "operation"], "operand"], "interface_configuration"]
  add('a'); add('b')
  s.let('b0', ["tobytearray", cfg('b')])
  change(s, cfg('a'), v, e, 'm')
  add('c')
  for x, t in (('b', 'before'), ('c', 'afterwards')):
    s.let(x + '~', ["tobytearray", cfg(x)]); s.ok(x + '~', 'the default configuration serializes')
    s.posts.append(('the default configuration of a forward action added %s is the same' % t, lambda o, x=x: same_bytes(o.it, o[x + '~'], bt.byte_items(o.it, o['b0']))))


def factory(name, args, filed=False):
  """Changing one built command changes no other built from the same arguments (given separately), and not the file it was built from."""
  def f(s):
    G = s.G; kw = {}
    c, v = args(s, kw)
    if filed: fe = kw['file']; kw['file'] = s.let('file', fe)
    mk = ["call", ["name", CMDC + '.' + name], [], kw]
    for x in 'ab': s.let(x, mk); s.ok(x, 'a command is built')
    last = ["item", ["attr", ["var", 'a'], "actions"], ["lit", -1]]
    e = shape_expr(v)
    change(s, last, v, e, 'm')
    s.let('m!', ["method", ["attr", ["var", 'a'], "actions"], "insert", [["lit", 0], ["lit", 7]]], may_fail=True)
    s.let('c', mk); s.ok('c', 'a command is built later')
    for x, t in (('b', 'before'), ('c', 'afterwards')):
      s.let(x + '~', ["attr", ["var", x], "actions"])
      s.posts.append(('a command built %s has its own action' % t, lambda o, x=x: isinstance(o[x + '~'], PList) and len(o[x + '~'].items) == 1 and c.same(o.it, o[x + '~'].items[0], v)))
    if filed:
      s.let('file~', ["tobytearray", ["var", 'file']])
      s.bytes_eq('file~', lambda: v.operation.operand.data, 'the file is unchanged')
  return f


def shape_expr(v):
  """Other values (literals) for every field of a view."""
  if isinstance(v, V):
    kw = {}
    for f in getattr(v.codec, 'fields', ()):
      kw[f[0]] = shape_expr(getattr(v, f[0]))
    return ["call", None, [], kw]
  if isinstance(v, list): return ["tolist", ["lit", ""]]
  return ["lit", 99]


# ---------------------------------------------------------------- parsers
SERIAL = 'd7a.serial_modem_interface.parser.Parser'


def serial_two(s):
  """Two serial parsers share neither buffer nor counters; the lists a parser returns are not reused."""
  G = s.G
  for x in 'ab': s.let(x, ["call", ["name", SERIAL], []])
  cmd = ["call", ["name", CMDC], [], {"generate_tag_request_action": ["lit", False], "actions": ["list", [RH.gen(G, 'act')[0]]]}]
  s.let('cmd', cmd)
  for x in 'ab': s.let('f' + x, ["method", ["var", x], "build_serial_frame", [["var", 'cmd']]]); s.ok('f' + x, 'a command is framed')
  s.posts.append(('each parser counts its own frames', lambda o: o.it.as_bool(bt.items_eq(o.it, bt.byte_items(o.it, o['fa']), bt.byte_items(o.it, o['fb'])))))
  from libmodels import crc_spec
  crc = crc_spec([0xB4, 7], 0x1021, 0xFFFF); fr = [0xC0, 0, 1, 1, 2, crc >> 8, crc & 255, 0xB4, 7]
  k = G.choice('cut', len(fr) - 1) + 1
  s.let('r0', ["method", ["var", 'a'], "parse", [["list", [["lit", x] for x in fr[:k]]]]])
  s.let('r1', ["method", ["var", 'b'], "parse", [["list", [["lit", x] for x in fr[k:]]]]])
  s.posts.append(('a parser does not complete the frame of another', lambda o: isinstance(o['r1'], tuple) and not o['r1'][1].items))
  s.let('c', ["call", ["name", SERIAL], []])
  s.let('r2', ["method", ["var", 'c'], "parse", [["list", [["lit", x] for x in fr[k:]]]]])
  s.let('r3', ["method", ["var", 'a'], "parse", [["list", [["lit", x] for x in fr[k:]]]]])
  s.posts.append(('a parser completes its own frame', lambda o: isinstance(o['r3'], tuple) and len(o['r3'][1].items) == 1))
  s.posts.append(('a later parser does not complete the frame of another', lambda o: isinstance(o['r2'], tuple) and not o['r2'][1].items))


def dll_two(s):
  """Two DLL parsers share no buffer."""
  G = s.G
  _, va = BgFrames.gen(G, 'a'); _, vb = BgFrames.gen(G, 'b')
  a = list(BgFrames.enc(va)); k = G.choice('cut', len(a))
  t = ["enum", 'd7a.dll.parser.FrameType', 'BACKGROUND']
  for x in 'ab': s.let(x, ["call", ["name", 'd7a.dll.parser.Parser'], [t]])
  s.let('r0', ["method", ["var", 'a'], "parse", [["tolist", G.derive('first', a[:k])]]])
  s.let('r1', ["method", ["var", 'b'], "parse", [["tolist", G.derive('whole', BgFrames.enc(vb))]]]); s.ok('r1', 'a frame is accepted')
  s.let('m', ["method", ["item", ["var", 'r1'], ["lit", 0]], "append", [["lit", 1]]], may_fail=True)
  s.let('r2', ["method", ["var", 'a'], "parse", [["tolist", G.derive('rest', a[k:])]]]); s.ok('r2', 'the rest of a frame is accepted')
  s.posts.append(('the other parser delivers its own frame', lambda o: isinstance(o['r1'], tuple) and BgFrames.same(o.it, o['r1'][0].items[0], vb)))
  s.posts.append(('each parser delivers its own frame', lambda o: isinstance(o['r2'], tuple) and len(o['r2'][0].items) == 1 and BgFrames.same(o.it, o['r2'][0].items[0], va)))


def SHOWN(it):
  """try_parse_system_file, seen by printing and comparing: it leaves no interpretation or some file."""
  def con(it, f, args, kw):
    o = args[0]
    if Ctx.cur.choose(2): it.setattr(o, 'systemfile_type', it.call(it.get('d7a.system_files.uid.UidFile'), [], {})); it.setattr(o, 'file_data_parsed', it.call(it.get('d7a.system_files.uid.UidFile'), [], {'uid': Ctx.cur.fresh_int('uid', 0, 255)}))
    else: it.setattr(o, 'systemfile_type', None); it.setattr(o, 'file_data_parsed', None)
    return None
  it.contracts['d7a.alp.operations.responses.ReturnFileData.try_parse_system_file'] = con


def small(c):
  """Operands with short data (their length classes do not matter here)."""
  if isinstance(c, L._Data): return L._Data(40)
  if isinstance(c, L._Query): return L._Query(40)
  if isinstance(c, L._Op) and isinstance(c.operand, (L._Data, L._Query)): return L._Op(c.path[len('d7a.alp.operations.'):], c.op, small(c.operand))
  if isinstance(c, L._Action) and isinstance(c.o.operand, (L._Data, L._Query)):
    import copy
    d = copy.copy(c); d.o = small(c.o); d.fields = tuple(f if f[0] != 'operation' else ('operation', d.o) for f in c.fields)
    return d
  return c


def make():
  import c06
  obs = []
  for k, x in sorted(NAMED.items()):
    if k == 'file.phy_status.10': continue
    c = small(x.c); kw = dict(timeout=100, uses=x.uses, cases=20)
    if k.endswith('return_data'): kw['uses'] = [SHOWN]
    if isinstance(c, (L._AnpFrame, L._FgFrame)):     # the choices inside the transport frame are those of AtpFrame.*
      pre = 'd7anp_frame.d7atp_frame.' if isinstance(c, L._FgFrame) else 'd7atp_frame.'
      kw['fixed'] = {p + pre + f: f in ('has_tl', 'start') for f in ('has_tl', 'has_te', 'ackreq', 'start', 'has_agc') for p in ('', 'a.', 'b.')}
    F = [c.path + '.__init__']
    obs.append(Ob(k + '.independent', independent(c), F, **kw))
    obs.append(Ob(k + '.pure', pure(c), F + [c.path + '.__iter__'], **kw))
    if k in DEFAULTED: obs.append(Ob(k + '.defaults', defaults(c, DEFAULTED[k].split()), F, **kw))
    p = {'AccessProfile': AccProfileFull, 'file.firmware_version': FirmwareParsed}.get(k, c)
    if k.startswith('action.') and k[7:] in PARSEABLE or c.parse and not isinstance(c, (L._AtpFrame, L._AnpFrame, L._FgFrame, L._Query, L._Action, L._Op)):
      obs.append(Ob(k + '.parsed', parsed(p), F + [c.path + '.parse'], **kw))
  obs.append(Ob('file.phy_status.filled', filled, [PHY_STATUS[0].path + '.__init__']))
  obs.append(Ob('file.interface_configuration.default', default_interface, [IFCONF_FILES['d7asp'].path + '.__init__']))
  obs.append(Ob('command.lists', lists, [CMDC + '.__init__', CMDC + '.add_action', CMDC + '.add_indirect_forward_action']))
  obs.append(Ob('command.forwards', forwards, [CMDC + '.add_forward_action']))
  for n, a in (('create_with_read_file_action', c06.a_read), ('create_with_write_file_action', c06.a_data('write_data')), ('create_with_return_file_data_action', c06.a_data('return_data')),
               ('create_with_read_file_header', c06.a_header), ('create_with_write_file_header', c06.a_headers('write_header')), ('create_with_create_new_file', c06.a_headers('create_file'))):
    obs.append(Ob('command.' + n[12:], factory(n, a), [CMDC + '.' + n], uses=[TRY_PARSE] if 'return' in n else []))
  for k in ('uid', 'vid', 'security_key', 'dll_config'):
    obs.append(Ob('command.write_file_action_system_file.' + k, factory('create_with_write_file_action_system_file', c06.a_file('write_data', FIXED_FILES[k]), True), [CMDC + '.create_with_write_file_action_system_file']))
  obs.append(Ob('serial.two', serial_two, [SERIAL + '.parse', SERIAL + '.build_serial_frame', SERIAL + '.__init__']))
  obs.append(Ob('dll.two', dll_two, ['d7a.dll.parser.Parser.parse', 'd7a.dll.parser.Parser.__init__']))
  return obs
PROP = Property('C23', make)
