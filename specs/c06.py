from codecs_common import *
from codecs_lib import *
from registry import Property

CMD = 'd7a.alp.command.Command'
IF = {'D7ASP': IFCONF[0], 'SERIAL': IFCONF[1], 'LORAWAN_ABP': IFCONF[2], 'LORAWAN_OTAA': IFCONF[3]}
# how the interface is given: nothing at all, the interface alone, the interface and its configuration
HOW = [(None, 0), ('HOST', 0), ('SERIAL', 0), ('D7ASP', 0), ('D7ASP', 1), ('LORAWAN_ABP', 0), ('LORAWAN_ABP', 1), ('LORAWAN_OTAA', 0), ('LORAWAN_OTAA', 1)]


def interface(s, kw):
  """Chooses an interface; adds its arguments; returns the specification of the forward action (None: no forward action)."""
  G = s.G
  name, conf = HOW[G.choice('how', len(HOW))]
  if name is None: return None
  kw['interface_type'] = ["enum", IFT, name]
  if name == 'HOST':
    if G.choice('explicit', 2): kw['interface_configuration'] = ["none"]
    return None
  cfg = None
  if conf:
    kw['interface_configuration'], cfg = IF[name].cfg.gen(G, 'cfg')
  elif name == 'D7ASP': s.let('dflt', ["call", ["name", SessCfg.path], []])
  return name, cfg


def forward_same(o, it, a, name, cfg):
  """A regular action that forwards to this interface with this configuration."""
  if not isinstance(a, Obj) or a.cls is not it.get('d7a.alp.regular_action.RegularAction'): return False
  op = it.getattr(a, 'operation')
  if not isinstance(op, Obj) or op.cls is not it.get('d7a.alp.operations.forward.Forward'): return False
  x = it.getattr(op, 'operand'); i = it.getattr(x, 'interface_id'); c = it.getattr(x, 'interface_configuration')
  if x.cls is not it.get(IFCONF[0].path) or i is not it.getitem(it.get(IFT), name): return False
  r = sand(it.getattr(a, 'group') is False, it.getattr(a, 'resp') is False, same_value(it, it.getattr(a, 'op'), 50))
  if cfg is not None: return sand(r, IF[name].cfg.same(it, c, cfg))
  if name == 'D7ASP':
    d = SessCfg.view_of(it, o['dflt'])
    return sand(r, SessCfg.same(it, c, d))
  return sand(r, c is None)


def action_view(op, **kw):
  o = V(codec=OPS[op], operand=V(codec=OPS[op].operand, **kw))
  return ACTIONS[op], V(codec=ACTIONS[op], group=False, resp=False, operation=o)


def off_view(fid, off): return V(codec=Offsets, id=fid, offset=V(codec=Lengths, value=off))


def factory(name, args, tagged=False):
  """args(s, kw): adds the arguments and returns the specification of the one requested action."""
  def f(s):
    G = s.G; it = s.it; kw = {}
    c, v = args(s, kw)
    fw = interface(s, kw)
    tag = None
    if tagged and G.choice('tagged', 2): kw['tag_id'] = G.int('tag', 0, 255); tag = G.val(kw['tag_id'])
    s.let('r', ["call", ["name", CMD + '.' + name], [], kw]); s.ok('r', 'a command is built')
    def post(o):
      r = o['r']
      if not isinstance(r, Obj) or r.cls is not it.get(CMD): return False
      try: a, st, t, g, done = [it.getattr(r, x) for x in ('actions', 'interface_status', 'tag_id', 'generate_tag_request_action', 'execution_completed')]
      except PyRaise: return False
      if not isinstance(a, PList) or len(a.items) != (2 if fw else 1) or st is not None or g is not True or done is not False: return False
      if isinstance(t, (bool, SBool)) or not is_intlike(t): return False
      ok = scmp('==', t, tag) if tag is not None else sand(scmp('>=', t, 0), scmp('<=', t, 255))
      if fw: ok = sand(ok, forward_same(o, it, a.items[0], *fw))
      if ok is False: return False
      return sand(ok, c.same(it, a.items[-1], v))
    s.posts.append(('an optional forward action with the given configuration, then exactly the requested action, and a tag', post))
  return f


def offset(s, kw):
  if not s.G.choice('from', 2): return 0
  kw['offset'] = s.G.int('offset', 0, LMAX)
  return s.G.val(kw['offset'])


def fid(s, kw):
  kw['file_id'] = s.G.int('file', 0, 255)
  return s.G.val(kw['file_id'])


def a_read(s, kw):
  i = fid(s, kw); o = offset(s, kw); kw['length'] = s.G.int('length', 0, LMAX)
  return action_view('read_data', offset=off_view(i, o), length=s.G.val(kw['length']))


def a_data(op):
  def g(s, kw):
    i = fid(s, kw); o = offset(s, kw); d = s.G.bytes('data', 0, 4096); kw['data'] = ["tolist", d]
    return action_view(op, offset=off_view(i, o), data=s.G.val(d))
  return g


def a_header(s, kw): return action_view('read_header', file_id=fid(s, kw))


def a_headers(op):
  def g(s, kw):
    i = fid(s, kw); kw['file_header'], h = FileHeaders.gen(s.G, 'header')
    return action_view(op, file_id=i, file_header=h)
  return g


def a_file(op, c):
  def g(s, kw):
    kw['file'], v = c.gen(s.G, 'f')
    i = c.ids(v)
    if op == 'read_data': return action_view(op, offset=off_view(i, 0), length=c.length(v))
    return action_view(op, offset=off_view(i, 0), data=list(c.enc(v)))
  return g


def refused(s):
  """A configuration for the host, and an interface that does not exist."""
  G = s.G; it = s.it
  o = s.let('o', ["call", ["name", CMD], []])
  kw = {}
  k = G.choice('what', 5)
  if k < 4:
    c = [IFCONF[0], IFCONF[2], IFCONF[3], IFCONF[0]][k].cfg
    kw['interface_configuration'], _ = c.gen(G, 'cfg')
    if k < 3: kw['interface_type'] = ["enum", IFT, 'HOST']
  else: kw['interface_type'] = G.int('type', 3, 0xD6)
  s.let('r', ["method", o, "add_forward_action", [], kw], may_fail=True)
  s.raises('r', None, 'a configuration for the host interface, or an unknown interface, is refused')
  s.let('a', ["attr", o, "actions"])
  s.posts.append(('nothing is added', lambda o: isinstance(o['a'], PList) and not o['a'].items))


def indirect(s):
  G = s.G; it = s.it
  o = s.let('o', ["call", ["name", CMD], []])
  i = G.int('file', 0, 255); over = G.choice('overload', 3); kw = {'interface_file_id': i}
  v = None
  if over: kw['overload_configuration'], v = AnyAddr.gen(G, 'addr')
  if over != 2: kw['overload'] = ["lit", bool(over)]
  s.let('r', ["method", o, "add_indirect_forward_action", [], kw]); s.ok('r', 'an indirect forward action can be added')
  s.let('a', ["attr", o, "actions"])
  op = 'indirect_over' if over == 1 else 'indirect_plain'
  def post(o):
    a = o['a']
    if not isinstance(a, PList) or len(a.items) != 1: return False
    w = V(codec=OPS[op], operand=V(codec=OPS[op].operand, interface_file_id=G.val(i), interface_configuration_overload=v if over == 1 else None))
    return ACTIONS[op].same(it, a.items[0], V(codec=ACTIONS[op], overload=over == 1, resp=False, operation=w))
  s.posts.append(('the file and, when overloaded, the addressee', post))


def make():
  obs = []
  def add(id, name, args, **kw):
    tagged = kw.pop('tagged', False)
    obs.append(Ob(id, factory(name, args, tagged), [CMD + '.' + name, CMD + '.add_forward_action', CMD + '.add_action', CMD + '.__init__'], **kw))
  add('read', 'create_with_read_file_action', a_read, timeout=120)
  add('write', 'create_with_write_file_action', a_data('write_data'), timeout=120)
  add('return', 'create_with_return_file_data_action', a_data('return_data'), timeout=120, tagged=True, uses=[TRY_PARSE])
  add('read_header', 'create_with_read_file_header', a_header)
  add('write_header', 'create_with_write_file_header', a_headers('write_header'))
  add('create_file', 'create_with_create_new_file', a_headers('create_file'))
  files = dict(FIXED_FILES, phy_status=PHY_STATUS[10])
  files.update({'ifconf_' + k: c for k, c in IFCONF_FILES.items()})
  for k, c in sorted(files.items()):
    add('system_file.read.' + k, 'create_with_read_file_action_system_file', a_file('read_data', c), cases=24)
    add('system_file.write.' + k, 'create_with_write_file_action_system_file', a_file('write_data', c), cases=24)
  obs.append(Ob('refused', refused, [CMD + '.add_forward_action']))
  obs.append(Ob('indirect', indirect, [CMD + '.add_indirect_forward_action']))
  return obs
PROP = Property('C06', make)
