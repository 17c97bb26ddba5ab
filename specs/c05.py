from commands import *
from registry import Property


def symbolic_actions(s):
  G = s.G; it = s.it
  n = Ctx.cur.fresh_int('count', 0, TOP)
  seg = run_of(it, 'given', n); Ctx.cur.memo['acts'] = seg
  return G._add('actions', ('derived',), [seg])


def init(s):
  """Command(actions): any number of actions of any kind."""
  G = s.G; it = s.it
  if G.symbolic: a = symbolic_actions(s); vs = None
  else:
    # duplicates of tags and statuses are frequent
    es, vs = random_actions(G, 'a', ['tag_request', 'tag_response', 'if_status_d7_none', 'read_data', 'return_data', 'nop', 'forward', 'indirect_plain', 'if_status_serial', 'read_header', 'write_data', 'forward_regular'], 0, 4)
    a = ["list", es]
  gen = G.bool('generate'); resp = G.bool('respond')
  if G.choice('tagged', 2): t = G.int('tag', 0, 255); tag0 = G.val(t)
  else: t = ["none"]; tag0 = None
  if G.symbolic: Ctx.cur.memo['args'] = (tag0, G.val(resp))
  s.let('o', ["call", ["name", CMD], [], {"actions": a, "generate_tag_request_action": gen, "tag_id": t, "send_tag_response_when_completed": resp}], may_fail=True)
  def post(o):
    e = o.exc('o')
    if G.symbolic:
      m = Ctx.cur.memo
      if e is not None: return bool(m.get('dup')) and exc_is(it, e, ('ParseError',))
      if 'state' not in m: raise Unsupported("the loop over the actions was not met")
      S = m['state']; run = [S['run']]; st, tag, rs, eop, err = S['st'], S['tag'], S['resp'], S['eop'], S.get('err')
      d = o['o'].d
      kept = isinstance(d['actions'], PList) and len(d['actions'].items) == 1 and d['actions'].items[0] is S['run'] and d['interface_status'] is st
    else:
      k = [kind_of(v) for v in vs]
      tags = [v for v in vs if kind_of(v).startswith('tag')]; sts = [v for v in vs if kind_of(v) == 'status']
      if len(tags) + (tag0 is not None) > 1 or len(sts) > 1: return e is not None and exc_is(it, e, ('ParseError',))
      if e is not None: return False
      d = o['o'].d; pl = [v for v in vs if kind_of(v) == 'plain']
      kept = isinstance(d['actions'], PList) and len(d['actions'].items) == len(pl) and all(bool(v.codec.same(it, x, v)) for x, v in zip(d['actions'].items, pl))
      kept = kept and (d['interface_status'] is None if not sts else d['interface_status'] is not None and bool(sts[0].codec.same(it, d['interface_status'], sts[0])))
      tag, rs, eop, err = tag0, G.val(resp), False, None
      if tags:
        tag = int(tags[0].operation.operand.tag_id)
        if kind_of(tags[0]) == 'tag_request': rs = bool(tags[0].respond_when_completed)
        else: eop = bool(tags[0].eop); err = bool(tags[0].error)
    return sand(kept, same_field(it, d.get('send_tag_response_when_completed', 0), rs), same_field(it, d.get('execution_completed', 0), eop),
                True if err is None else same_field(it, d.get('completed_with_error', 0), err), same_field(it, d.get('generate_tag_request_action', 0), G.val(gen)),
                tag_ok(it, d.get('tag_id', 0), tag, G.val(gen)))
  s.posts.append(('the actions in order, the tag, the flags and the interface status set apart; a second tag or status is refused', post))


def tag_ok(it, t, tag, gen):
  if tag is not None: return same_field(it, t, tag)
  if t is None: return snot(gen)
  if isinstance(t, (bool, SBool)) or not is_intlike(t): return False
  return sand(gen, scmp('>=', t, 0), scmp('<=', t, 255))


def serialize(s):
  """bytes(command) = tag request (when it generates one), interface status, actions in order."""
  G = s.G; it = s.it
  gen = G.bool('generate'); resp = G.bool('respond'); t = G.int('tag', 0, 255); stat = G.choice('status', 2)
  if G.symbolic:
    n = Ctx.cur.fresh_int('count', 0, TOP); run = run_of(it, 'given', n); Ctx.cur.memo['run'] = run
    a = G._add('actions', ('derived',), [run])
    s.let('o', ["call", ["name", CMD], [], {"actions": ["list", []], "generate_tag_request_action": gen, "tag_id": t, "send_tag_response_when_completed": resp}])
    s.let('_a', ["setattr", ["var", 'o'], "actions", a])
    if stat:
      x = some_action(it, 'status'); x.d['#enc'] = byte_run('status'); sb = [x.d['#enc']]
      G.leaves['st'] = x; s.let('_s', ["setattr", ["var", 'o'], "interface_status", ["leaf", "st"]])
    else: sb = []
  else:
    es, vs = random_actions(G, 'a', [k for k in NAMES if not k.startswith('tag') and not k.startswith('if_status')], 0, 4)
    sb = []
    if stat: e, v = ACTIONS['if_status_d7_none'].gen(G, 'st'); es.insert(len(es) // 2, e); sb = ACTIONS['if_status_d7_none'].enc(v)
    s.let('o', ["call", ["name", CMD], [], {"actions": ["list", es], "generate_tag_request_action": gen, "tag_id": t, "send_tag_response_when_completed": resp}])
  s.let('b', ["tobytearray", ["var", 'o']]); s.ok('b', 'a command serializes')
  def post(o):
    g = G.val(gen)
    if bool(g): head = bits((1, G.val(resp)), (7, 52)) + [G.val(t)]
    else: head = []
    if G.symbolic:
      if 'E' not in Ctx.cur.memo: raise Unsupported("the loop over the actions was not met")
      tail = [Ctx.cur.memo['E']]
    else:
      tail = []
      for v in vs: tail = tail + v.codec.enc(v)
    return same_bytes(it, o['b'], head + sb + tail)
  s.posts.append(('tag request, interface status and the actions in order, and nothing else', post))


def parse(s):
  """Parser.parse(s, n) on the n bytes of a command, whatever is before and after them."""
  G = s.G; it = s.it
  if G.symbolic:
    w = G.bytes('stream', 0, TOP); n = G.int('n', 0, TOP); p = G.int('start', 0, TOP)
    W = G.val(w)
    G.assume(scmp('<=', G.val(n) + G.val(p), seq_len(W)))
    Ctx.cur.memo['start'] = G.val(p); Ctx.cur.memo['n'] = G.val(n); Ctx.cur.memo['total'] = seq_len(W)
    st = s.let('s', ["stream", w]); vs = None
  else:
    kinds = [k for k in PARSEABLE if k not in ('tag_request', 'tag_response', 'if_status_d7', 'if_status_d7_none', 'if_status_serial')]
    es, vs = random_actions(G, 'a', kinds, 0, 5)
    x = G.choice('extra', 6)
    if x:
      k = ['tag_request', 'tag_response', 'if_status_d7_none', 'if_status_d7', 'if_status_serial'][x - 1]
      _, v = ACTIONS[k].gen(G, 'x'); v.codec = ACTIONS[k]; vs.insert(G.choice('at', len(vs) + 1), v)
    enc = []
    for v in vs: enc = enc + v.codec.wire(v)
    before = G.bytes('before', 0, 5); after = G.bytes('after', 0, 9)
    n = G.derive_int('n', len(enc)); p = G.derive_int('start', len(G.val(before)))
    st = s.let('s', ["stream", ["concat", [before, G.derive('command', enc), after]]])
  s.let('_p', ["setattr", st, "bytepos", p])
  s.let('r', ["method", ["call", ["name", ALP], []], "parse", [st, n]], may_fail=True)
  s.let('pos', ["attr", st, "bytepos"])
  def post(o):
    e = o.exc('r')
    if not G.symbolic:
      if e is not None: return False
      r = o['r']; d = r.d if isinstance(r, Obj) and r.cls is it.get(CMD) else None
      if d is None or o['pos'] != G.val(p) + G.val(n): return False
      pl = [v for v in vs if kind_of(v) == 'plain']; sts = [v for v in vs if kind_of(v) == 'status']; tags = [v for v in vs if kind_of(v).startswith('tag')]
      ok = len(d['actions'].items) == len(pl) and all(bool(v.codec.same(it, a, v.codec.seen(v), True)) for a, v in zip(d['actions'].items, pl)) and d['generate_tag_request_action'] is False
      ok = ok and (bool(sts[0].codec.same(it, d['interface_status'], sts[0].codec.seen(sts[0]), True)) if sts and d['interface_status'] is not None else not sts and d['interface_status'] is None)
      return ok and (d['tag_id'] == int(tags[0].operation.operand.tag_id) if tags else d['tag_id'] is None)
    m = Ctx.cur.memo
    if e is not None: return ('thrown' in m and e.cls is m['thrown']) or bool(m.get('refused')) or ('q' in m and exc_is(it, e, ('Exception',)) and scmp('>', m['q'], G.val(n)))
    r = o['r']
    if 'thrown' in m or not isinstance(r, Obj) or r.cls is not it.get(CMD) or '#actions' not in r.d: return False
    a = r.d['#actions']
    g, tg = r.d['#args']
    if 'run' in m: acts = sand(m['good'], len(a) == 1 and a[0] is m['run'], scmp('==', m['q'], G.val(n)))
    else: acts = sand(len(a) == 0, scmp('==', G.val(n), 0))
    return sand(acts, g is False and tg is None, scmp('==', o['pos'], G.val(p) + G.val(n)))
  s.posts.append(('exactly the actions of the n bytes, in order; a malformed action makes the whole command fail', post))


def add(s):
  """add_action appends."""
  G = s.G; it = s.it
  if G.symbolic:
    run = run_of(it, 'given'); a = G._add('actions', ('derived',), [run])
    s.let('o', ["call", ["name", CMD], [], {"actions": ["list", []]}])
    s.let('_a', ["setattr", ["var", 'o'], "actions", a])
    x = raw(it, 'regular'); G.leaves['x'] = x
    s.let('_x', ["method", ["var", 'o'], "add_action", [["leaf", "x"]]]); s.ok('_x', 'an action can be added')
    s.let('l', ["attr", ["var", 'o'], "actions"])
    s.posts.append(('the action comes last, the others stay', lambda o: isinstance(o['l'], PList) and len(o['l'].items) == 2 and o['l'].items[0] is run and o['l'].items[1] is x))
  else:
    es, vs = random_actions(G, 'a', ['read_data', 'return_data', 'nop', 'forward'], 0, 3)
    e, v = ACTIONS['read_header'].gen(G, 'x')
    s.let('o', ["call", ["name", CMD], [], {"actions": ["list", es]}])
    s.let('_x', ["method", ["var", 'o'], "add_action", [e]]); s.ok('_x', 'an action can be added')
    s.let('l', ["attr", ["var", 'o'], "actions"])
    s.posts.append(('the action comes last, the others stay', lambda o: len(o['l'].items) == len(vs) + 1 and all(bool(w.codec.same(it, y, w)) for y, w in zip(o['l'].items, vs)) and bool(ACTIONS['read_header'].same(it, o['l'].items[-1], v))))


def make():
  obs = []
  ob = Ob('init', init, [CMD + '.__init__'], timeout=120, cases=200); ob.loop_rules = {CMD + '.__init__': InitLoop()}; obs.append(ob)
  ob = Ob('serialize', serialize, [CMD + '.__iter__'], uses=[ENC], timeout=120, cases=120); ob.loop_rules = {CMD + '.__iter__': IterLoop()}; obs.append(ob)
  ob = Ob('parse', parse, [ALP + '.parse'], uses=[ACTION, COMMAND_INIT], timeout=120, cases=240, maxlen=20); ob.loop_rules = {ALP + '.parse': ParseLoop()}; obs.append(ob)
  obs.append(Ob('add', add, [CMD + '.add_action'], cases=40))
  return obs
PROP = Property('C05', make)
