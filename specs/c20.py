"""Malformed ALP input: an independent decoder says what every byte string means; the parser accepts exactly what it accepts."""
from commands import *
from registry import Property


class Refuse(Exception):
  """The bytes are no complete, supported action."""


class Rd(object):
  """Reads the bytes of a stream (symbolic or real) from a position on."""
  def __init__(self, it, items, pos, end=None):
    self.it = it
    if len(items) == 1 and isinstance(items[0], SymSeg): self.seg = items[0]; self.n = self.seg.length
    else: self.seg = None; self.items = list(items); self.n = len(items)
    self.pos = pos
  def need(self, k):
    if not bool(scmp('<=', self.pos + k, self.n)): raise Refuse()
  def u8(self):
    self.need(1); x = self.seg.at(self.pos) if self.seg is not None else self.items[self.pos]
    self.pos = self.pos + 1
    return x
  def uint(self, k):
    self.need(k); x = 0
    for _ in range(k): x = (x << 8) | sinty(self.u8())
    return x
  def bytes(self, k):
    self.need(k)
    p = self.pos; self.pos = p + k
    return [self.seg.slice(p, k)] if self.seg is not None else self.items[p:p + int(k)]
  def member(self, path, value):
    """The member of an enumeration with this value, if there is one."""
    c = self.it.get(path)
    ms = {m.d['value']: m for m in c.members.values()}
    if isinstance(value, int):
      if value not in ms: raise Refuse()
      return ms[value]
    if not bool(sor(*[scmp('==', value, x) for x in sorted(ms)])): raise Refuse()
    return SEnum(c, value)


def bit(x, i): return scmp('==', (sinty(x) >> i) & 1, 1)
def fld(x, i, w): return (sinty(x) >> i) & ((1 << w) - 1)


def d_length(r):
  b = r.u8(); k = fld(b, 6, 2); v = fld(b, 0, 6)
  for i in (1, 2, 3):
    if bool(scmp('==', k, i)): return V(codec=Lengths, value=(v << (8 * i)) | sinty(r.uint(i)))
  return V(codec=Lengths, value=v)
def d_offset(r): return V(codec=Offsets, id=r.u8(), offset=d_length(r))
def d_data(r):
  o = d_offset(r); n = d_length(r).value
  return V(codec=Datas, offset=o, data=r.bytes(n))
def d_request(r): return V(codec=DataRequests, offset=d_offset(r), length=d_length(r).value)
def d_ct(r):
  b = r.u8()
  return V(codec=CTs, exp=fld(b, 5, 3), mant=fld(b, 0, 5))
def d_query(r):
  b = r.u8()
  if not bool(scmp('==', fld(b, 5, 3), 2)): raise Refuse()
  if bool(bit(b, 4)): raise Refuse()
  p = V(codec=ArithParams, signed_data_type=bit(b, 3), comp_type=r.member(Q + 'ArithComparisonType', fld(b, 0, 3)))
  n = d_length(r); x = r.bytes(n.value)
  return V(codec=Queries, type=r.member(Q + 'QueryType', 2), mask_present=False, params=p, compare_length=n, compare_value=x, file_a_offset=d_offset(r))
def d_header(r):
  f = r.u8(); b = r.u8()
  perm = V(codec=Permissions, **{x[0]: bit(b, 7 - i) for i, x in enumerate(Permissions.fields)})
  c = r.u8(); FP = 'd7a.fs.file_properties.'
  prop = V(codec=Properties, act_enabled=bit(c, 7), act_condition=r.member(FP + 'ActionCondition', fld(c, 4, 3)), storage_class=r.member(FP + 'StorageClass', fld(c, 0, 2)))
  h = V(codec=FileHeaders, permissions=perm, properties=prop, alp_command_file_id=r.u8(), interface_file_id=r.u8(), file_size=r.uint(4), allocated_size=r.uint(4))
  return V(codec=HeaderOperands, file_id=f, file_header=h)
def d_addressee(r):
  b = r.u8(); t = fld(b, 4, 2); m = r.member(NLS, fld(b, 0, 4)); cl = r.u8()
  for k, n in sorted(IDTYPES.items()):
    if bool(scmp('==', t, n)):
      i = d_ct(r) if k == 'NBID' else None if k == 'NOID' else r.uint(8) if k == 'UID' else r.uint(2)
      return V(codec=ADDR[k], access_class=cl, nls_method=m, id=i, id_type=r.member(IDT, n))
  raise Refuse()
def d_qos(r):
  b = r.u8()
  return V(codec=QoSs, stop_on_err=bit(b, 7), record=bit(b, 6), retry_mod=r.member('d7a.sp.qos.RetryMode', fld(b, 3, 3)), resp_mod=r.member('d7a.sp.qos.ResponseMode', fld(b, 0, 3)))
def d_session(r): return V(codec=SessCfg, qos=d_qos(r), dorm_to=d_ct(r), addressee=d_addressee(r))
def d_lora(r, abp):
  b = r.u8(); kw = dict(adr_enabled=bit(b, 2), request_ack=bit(b, 1), app_port=r.u8(), data_rate=r.u8())
  if abp: kw.update(dev_addr=r.uint(4), netw_id=r.uint(4))
  return V(codec=LoraABP if abp else LoraOTAA, **kw)
def d_channel(r):
  b = r.u8()
  h = V(codec=ChHeader, channel_band=r.member(CH + 'ChannelBand', fld(b, 4, 3)), channel_class=r.member(CH + 'ChannelClass', fld(b, 2, 2)), channel_coding=r.member(CH + 'ChannelCoding', fld(b, 0, 2)))
  return V(codec=ChID, channel_header=h, channel_index=r.uint(2))
def d_status(r):
  kw = dict(channel_id=d_channel(r), rx_level=r.u8(), link_budget=r.u8(), target_rx_level=r.u8())
  b = r.u8()
  kw.update(nls=bit(b, 7), missed=bit(b, 6), retry=bit(b, 5), unicast=bit(b, 4), fifo_token=r.u8(), seq_nr=r.u8(), response_to=d_ct(r), addressee=d_addressee(r))
  return V(codec=Statuses, **kw)


def act(r, name, operand, **kw):
  a = ACTIONS[name]
  return V(codec=a, operation=V(codec=a.o, operand=operand), **kw)


def d_action(r, op, b7, b6):
  """The action that starts here (after its first byte), or Refuse. NONE: an action status (not supported)."""
  rg = dict(group=b7, resp=b6)
  if op == 1: return act(r, 'read_data', d_request(r), **rg)
  if op == 4: return act(r, 'write_data', d_data(r), **rg)
  if op == 9: return act(r, 'break_query', d_query(r), **rg)
  if op == 17: return act(r, 'create_file', d_header(r), **rg)
  if op == 32: return act(r, 'return_data', d_data(r), **rg)
  if op == 33: return act(r, 'return_header', d_header(r), **rg)
  if op == 34:
    if bool(b7) or not bool(b6): raise Refuse()
    i = r.u8(); n = r.u8()
    if bool(scmp('==', i, 0xD7)):
      if bool(scmp('==', n, 0)): return act(r, 'if_status_d7_none', V(codec=IfStatusD7None, interface_id=0xD7, interface_status=None), status_operand_extension=1)
      return act(r, 'if_status_d7', V(codec=IfStatusD7, interface_id=0xD7, interface_status=d_status(r)), status_operand_extension=1)
    if bool(scmp('==', i, 1)): return act(r, 'if_status_serial', V(codec=IfStatusSerial, interface_id=1, interface_status=None), status_operand_extension=1)
    raise Refuse()
  if op == 35: return act(r, 'tag_response', V(codec=TagIds, tag_id=r.u8()), eop=b7, error=b6)
  if op == 50:
    if bool(b7): raise Refuse()
    i = r.u8()
    for c, d in zip(IFCONF, (d_session, lambda r: None, lambda r: d_lora(r, True), lambda r: d_lora(r, False))):
      if bool(scmp('==', i, c.value)): return act(r, 'forward', V(codec=c, interface_id=r.member(IFT, c.value), interface_configuration=d(r)), resp=b6)
    raise Refuse()
  if op == 51:
    f = r.u8()
    if bool(b7): return act(r, 'indirect_over', V(codec=IndirectOver, interface_file_id=f, interface_configuration_overload=d_addressee(r)), resp=b6, overload=True)
    return act(r, 'indirect_plain', V(codec=IndirectPlain, interface_file_id=f, interface_configuration_overload=None), resp=b6, overload=False)
  if op == 52:
    if bool(b6): raise Refuse()
    return act(r, 'tag_request', V(codec=TagIds, tag_id=r.u8()), respond_when_completed=b7)
  raise Refuse()

SUPPORTED = {1: 'read_data', 4: 'write_data', 9: 'break_query', 17: 'create_file', 32: 'return_data', 33: 'return_header', 34: 'status', 35: 'tag_response', 50: 'forward', 51: 'indirect', 52: 'tag_request'}


def action(op):
  """One action at any byte of any stream: accepted exactly when it is complete and supported, with exactly its fields and its bytes."""
  def f(s):
    G = s.G; it = s.it
    if G.symbolic:
      w = G.bytes('stream', 1, TOP); p = G.int('start', 0, TOP); W = G.val(w); P = G.val(p)
      G.assume(scmp('<', P, seq_len(W)))
      first = W[0].at(P)
      if op is not None: G.assume(scmp('==', fld(first, 0, 6), op))
      else: G.assume(sand(*[scmp('!=', fld(first, 0, 6), x) for x in SUPPORTED]))
    else:
      p, w = sample(G, op); W = [int(x) for x in G.val(w)]; P = int(G.val(p)); first = W[P]
    st = s.let('s', ["stream", w])
    s.let('_p', ["setattr", st, "bytepos", p])
    s.let('a', ["method", ["call", ["name", ALP], []], "parse_alp_action", [st]], may_fail=True)
    s.let('pos', ["attr", st, "pos"])
    def post(o):
      e = o.exc('a')
      r = Rd(it, W, P + 1)
      try: v = d_action(r, op, bit(first, 7), bit(first, 6))
      except Refuse:
        # the parser has no action status: it makes no action of it (and a command refuses what is no action: 'command.refuses')
        if op == 34 and e is None: return sand(o['a'] is None, snot(bit(first, 7)))
        return e is not None and plain_exc(it, e)
      if e is not None: return False
      return sand(v.codec.same(it, o['a'], v, True), scmp('==', o['pos'], r.pos * 8))
    s.posts.append(('accepted exactly when complete and supported; then with exactly its fields and its bytes', post))
  return f


def plain_exc(it, e): return exc_is(it, e, ('Exception',)) and not exc_is(it, e, ('SystemExit', 'KeyboardInterrupt'))


def sample(G, op):
  """Real streams: a valid action, changed somewhere, cut somewhere."""
  rng = random.Random(G.val(G.int('seed', 0, 1 << 30)))
  names = [k for k in PARSEABLE if ACTIONS[k].o.op == op]
  before = [rng.randrange(256) for _ in range(rng.choice([0, 0, 3]))]
  if names:
    c = ACTIONS[rng.choice(names)]
    _, v = c.gen(G, 'v'); b = [int(x) for x in c.wire(v)]
  else:
    o = rng.choice([x for x in range(64) if x not in SUPPORTED]); b = [(rng.randrange(4) << 6) | o] + [rng.randrange(256) for _ in range(rng.randrange(12))]
  if rng.randrange(2):
    for _ in range(rng.choice([1, 1, 2, 4])):
      i = rng.randrange(0, len(b))
      b[i] = (b[i] & 63 | rng.randrange(4) << 6) if i == 0 else rng.choice([b[i] ^ 1 << rng.randrange(8), rng.randrange(256)])
  if rng.randrange(3) == 0: b = b[:rng.randrange(1, len(b) + 1)]
  elif rng.randrange(2): b = b + [rng.randrange(256) for _ in range(rng.randrange(30))]
  return G.derive_int('start', len(before)), G.derive('stream', before + b)


def command(s):
  """Parser.parse on any stream and any number of bytes of it: it ends, and yields a command only when the bytes are a sequence of
  actions, each read where the one before ended, the last one ending exactly with them."""
  G = s.G; it = s.it
  if G.symbolic:
    w = G.bytes('stream', 0, TOP); n = G.int('n', 0, TOP); p = G.int('start', 0, TOP); W = G.val(w)
    G.assume(scmp('<=', G.val(n) + G.val(p), seq_len(W)))
    m = Ctx.cur.memo; m['start'] = G.val(p); m['n'] = G.val(n); m['total'] = seq_len(W)
  else:
    rng = random.Random(G.val(G.int('seed', 0, 1 << 30)))
    es, vs = random_actions(G, 'a', PARSEABLE, 0, 4)
    k = rng.randrange(5)
    parts = [[int(x) for x in v.codec.wire(v)] for v in vs]
    if k == 4: parts.insert(rng.randrange(len(parts) + 1), rng.choice([[34], [0xE2, 1, 0], [0x62, 0, 0], [0x32, 0], [0xB2, 1], [0x74, 5], [0x3F], [2, 9], [6, 9]]))
    b = [x for y in parts for x in y]
    if k == 1 and b: b[rng.randrange(len(b))] = rng.randrange(256)
    if k == 2: b = b + [rng.randrange(256) for _ in range(rng.randrange(1, 4))]
    cut = rng.randrange(len(b) + 1) if k == 3 else len(b)
    before = [rng.randrange(256) for _ in range(rng.choice([0, 0, 3]))]
    after = [rng.randrange(256) for _ in range(rng.choice([0, 2, 20]))]
    w = G.derive('stream', before + b + after); W = [int(x) for x in G.val(w)]
    n = G.derive_int('n', cut); p = G.derive_int('start', len(before))
  st = s.let('s', ["stream", w])
  s.let('_p', ["setattr", st, "bytepos", p])
  s.let('r', ["method", ["call", ["name", ALP], []], "parse", [st, n]], may_fail=True)
  s.let('pos', ["attr", st, "bytepos"])
  def post(o):
    e = o.exc('r')
    if e is not None and not plain_exc(it, e): return False
    if G.symbolic:
      m = Ctx.cur.memo
      if e is not None: return True
      r = o['r']
      if 'thrown' in m or not isinstance(r, Obj) or r.cls is not it.get(CMD) or '#actions' not in r.d: return False
      if 'run' not in m: return sand(len(r.d['#actions']) == 0, scmp('==', G.val(n), 0))
      a = r.d['#actions']
      return sand(m.get('good') is True, len(a) == 1 and a[0] is m['run'], scmp('==', m['q'], G.val(n)), scmp('==', o['pos'], G.val(p) + G.val(n)))
    start, end = int(G.val(p)), int(G.val(p)) + int(G.val(n))
    R = Rd(it, W, start); kinds = []
    try:
      while R.pos < end:
        x = R.u8(); kinds.append(kind_of(d_action(R, x & 63, bool(x & 128), bool(x & 64))))
      if R.pos != end: raise Refuse()
      if sum(k.startswith('tag') for k in kinds) > 1 or kinds.count('status') > 1: raise Refuse()
    except Refuse: return e is not None
    return e is None and o['pos'] == end and len(o['r'].d['actions'].items) == kinds.count('plain')
  s.posts.append(('a command only from a sequence of complete actions that ends exactly with the given bytes', post))


def foreign(s):
  """What is no action makes no command."""
  G = s.G; it = s.it
  if G.symbolic:
    a, b = run_of(it, 'some'), run_of(it, 'more')
    arg = G._add('actions', ('derived',), [a, None, b])
  else:
    es, vs = random_actions(G, 'a', ['read_data', 'forward', 'nop'], 0, 3)
    es.insert(G.choice('at', len(es) + 1), ["none"]); arg = ["list", es]
  s.let('o', ["call", ["name", CMD], [], {"actions": arg, "generate_tag_request_action": G.bool('generate')}], may_fail=True)
  s.raises('o', None, 'a command of something that is no action is refused')


class KeepLoop(object):
  """Loop of Command.__init__ over a run of plain actions: keeps them, in order."""
  def __call__(self, it, n, fr, items=None):
    c = Ctx.cur
    if items is None: return NotImplemented
    xs = items.items if isinstance(items, PList) else items
    if not any(isinstance(x, SymSeg) for x in xs): return NotImplemented
    o = command_of(it, fr); l = o.d.get('actions')
    if not isinstance(l, PList) or l.items: raise Unsupported("the command holds actions already")
    for i, x in enumerate(xs):
      if isinstance(x, SymSeg):
        # any element of the run: kept at the end, nothing else changes
        head = {k: plain(v) for k, v in o.d.items()}; before = list(l.items)
        if not c.choose(2):
          y = raw(it, 'regular'); blind(fr, n)
          it.assign(n.target, y, fr); r = it.exec_block(n.body, fr)
          prove('every action is looked at', r in (None, 'c'))
          prove('a plain action is kept at the end', o.d.get('actions') is l and len(l.items) == len(before) + 1 and l.items[-1] is y and all(p is q for p, q in zip(l.items, before)))
          prove('and changes nothing else', all(plain(v) is head.get(k) or plain(v) == head.get(k) for k, v in o.d.items() if k != 'actions'))
          raise PathDone()
        l.items.append(x)
        continue
      it.assign(n.target, x, fr); r = it.exec_block(n.body, fr)
      if r not in (None, 'c'): return r
    return it.exec_block(n.orelse, fr) if n.orelse else None


def make():
  obs = []
  for op in sorted(SUPPORTED):
    obs.append(Ob('action.%02d.%s' % (op, SUPPORTED[op]), action(op), [ALP + '.parse_alp_action'], uses=[TRY_PARSE] if op == 32 else [], timeout=120, cases=120, max_paths=20000))
  obs.append(Ob('action.unknown', action(None), [ALP + '.parse_alp_action'], timeout=60, cases=120))
  ob = Ob('command', command, [ALP + '.parse'], uses=[ACTION, COMMAND_INIT], timeout=120, cases=300, maxlen=20); ob.loop_rules = {ALP + '.parse': ParseLoop()}; obs.append(ob)
  ob = Ob('command.refuses', foreign, [CMD + '.__init__'], timeout=60, cases=40); ob.loop_rules = {CMD + '.__init__': KeepLoop()}; obs.append(ob)
  return obs
PROP = Property('C20', make)
