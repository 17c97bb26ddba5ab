"""Connecting: the modem is asked for its UID and its firmware version, and what its answer leads to (modem/modem.py)."""
from commands import *
from registry import Property
from c18 import World, unchanged, MODEM, M, num
from values import POISON, SText
import builtins_py2 as bt
from vc import Restart

RFD = 'd7a.alp.operations.responses.ReturnFileData'
DATA = 'd7a.alp.operands.file.Data'
LENGTH = 'd7a.alp.operands.length.Length'
OFFSET = 'd7a.alp.operands.offset.Offset'
FW = FirmwareParsed
UID, VERSION = 0, 2      # the identifiers of the files


def returned(i, content):
  """The action that returns this content of file i."""
  off = ["call", ["name", OFFSET], [], {"id": i, "offset": ["call", ["name", LENGTH], [num(0)]]}]
  return ["call", ["name", CLASSES['regular']], [], {"operation": ["call", ["name", RFD], [], {"operand": ["call", ["name", DATA], [], {"data": ["tolist", content], "offset": off}]}]}]


# ---------------------------------------------------------------- any number of other actions
def raw_op(it, cls, **fields):
  o = Obj(it.get(cls)); o.d.update(fields); o.epoch = 0
  return o


def other_action(it):
  """Some action that returns neither file."""
  c = Ctx.cur
  k = c.choose(8)
  if k < 4: return raw(it, ('forward', 'indirect', 'status', 'action')[k])
  if k < 7: return raw(it, 'regular', operation=raw_op(it, 'd7a.alp.operations.' + ('requests.ReadFileData', 'nop.NoOperation', 'responses.ReturnFileHeader')[k - 4]))
  i = c.fresh_int('file', 0, 255)
  c.assume(as_z3bool(sand(scmp('!=', i, UID), scmp('!=', i, VERSION))))
  L = lambda v: it.call(it.get(LENGTH), [v], {})
  d = it.call(it.get(DATA), [], {'data': PList([]), 'offset': it.call(it.get(OFFSET), [], {'id': i, 'offset': L(0)})})
  it.setattr(d, 'data', PList([byte_run('data')])); it.setattr(d, 'length', L(c.fresh_int('length', 0, TOP)))
  return raw(it, 'regular', operation=raw_op(it, RFD, op=32, systemfile_type=None, file_data_parsed=None, operand=d), operand=d, op=32)


def reachable(roots):
  seen = {}; todo = list(roots)
  while todo:
    x = todo.pop()
    if id(x) in seen or not isinstance(x, (Obj, PList, PDict)): continue
    seen[id(x)] = x
    todo += x.d.values() if isinstance(x, Obj) else x.items if isinstance(x, PList) else [y for _, y in x.d.values()]
  return seen


class Others(object):
  """The loop over the actions of the answer. An action that returns neither file changes nothing."""
  def __init__(self): self.free = set()

  def __call__(self, it, n, fr, items=None):
    c = Ctx.cur
    if items is None or c is None or 'modem' not in c.memo: return NotImplemented
    xs = list(items.items) if isinstance(items, PList) else list(items) if isinstance(items, tuple) else []
    if not any(isinstance(x, SymSeg) and x.key[0] == 'others' for x in xs): return NotImplemented
    for x in xs:
      if isinstance(x, SymSeg): r = self.others(it, n, fr, x)
      else: it.assign(n.target, x, fr); r = it.exec_block(n.body, fr)
      if r == 'b': return None
      if r not in (None, 'c'): return r
    return it.exec_block(n.orelse, fr) if n.orelse else None

  def others(self, it, n, fr, seg):
    c = Ctx.cur
    for k in sorted(self.free):
      if k in fr.locals: fr.locals[k] = POISON
    if not c.choose(2): return None
    c.assume_feasible(as_z3bool(scmp('>', seg.length, 0)))
    m = c.memo['modem'].modem
    old = dict(m.d); loc = dict(fr.locals); known = reachable([m] + list(fr.locals.values())); writes = []
    x = seg.at(c.fresh_int('i', 0, TOP))
    it.watch = lambda o, name, rw: writes.append(o) if rw == 'w' and id(o) in known and o is not m else None
    it.assign(n.target, x, fr)
    try: r = it.exec_block(n.body, fr)
    except PyRaise: prove('an action that returns neither file does no harm', False); raise PathDone()
    it.watch = None
    prove('an action that returns neither file does not end the search', r in (None, 'c'))
    if writes: raise Unsupported("the loop changes more than the modem")
    for k in sorted(set(old) | set(m.d)):
      a, b = old.get(k), m.d.get(k)
      prove('an action that returns neither file changes nothing', a is b or unchanged(it, a, b))
    tgt = assigned_names([n]) - assigned_names(n.body)
    for k in sorted(assigned_names(n.body)):
      if k in loc and k not in tgt and loc[k] is not POISON and not (loc[k] is fr.locals.get(k) or unchanged(it, loc[k], fr.locals.get(k))) and k not in self.free:
        self.free.add(k); raise Restart()
    raise PathDone()


def other_response(it): return raw_op(it, CMD)


# ---------------------------------------------------------------- scenarios
def modem(s, skip):
  if s.G.symbolic: Ctx.cur.memo['modem'] = World(s, skip, False, False)
  s.let('m', ["call", ["name", "world.start"], [["name", MODEM], num(skip), ["none"], ["none"]], {"parser": num(True)}], quiet=True)


def answered(s, skip=False):
  """An answer: any actions, among them the two files (or not). What it must lead to."""
  G = s.G; it = s.it
  modem(s, skip)
  stale = G.choice('stale', 2)      # an earlier attempt has failed
  have = {}; parts = []
  u = G.choice('uid', 3); f = G.choice('version', 3)      # absent; whole; cut short
  n = G.choice('responses', 3)      # none; one; several
  U = V_ = None
  if u:
    U = G.int('the_uid', 0, (1 << 64) - 1)
    b = G.derive('uid_content', be(G.val(U), 8)) if u == 1 else G.bytes('uid_cut', 0, 7)
    s.let('au', returned(num(UID), b)); s.ok('au', 'a response'); parts.append('au')
  if f:
    _, V_ = FW.gen(G, 'the_version')
    b = G.derive('version_content', list(FW.enc(V_))) if f == 1 else G.bytes('version_cut', 0, 16)
    s.let('af', returned(num(VERSION), b)); s.ok('af', 'a response'); parts.append('af')
  if u and f and G.choice('order', 2): parts = parts[::-1]
  def others(k):
    if G.symbolic: return G._add('others' + k, ('derived',), [SymSeg(Ctx.cur.fresh_int('others' + k, 0, TOP), lambda i: other_action(it), ('others', k), 'obj')])
    es, _ = random_actions(G, 'others' + k, ['read_data', 'nop', 'forward', 'read_header', 'return_header', 'indirect_plain'], 0, 3)
    if G.choice('another' + k, 2): es.insert(0, returned(G.int('file' + k, 3, 255), G.bytes('data' + k, 0, 20)))
    return ["list", es]
  s.let('acts', ["list", []], quiet=True)
  for k, p in enumerate(parts + [None]):
    s.let('_o%d' % k, ["method", ["var", 'acts'], "extend", [others(str(k))]], quiet=True)
    if p: s.let('_p%d' % k, ["method", ["var", 'acts'], "append", [["var", p]]], quiet=True)
  s.let('c', ["call", ["name", CMD], [], {"actions": ["list", []], "generate_tag_request_action": num(False)}], quiet=True)
  s.let('_c', ["setattr", ["var", 'c'], "actions", ["var", 'acts']])
  s.let('rs', ["list", []], quiet=True)
  if n: s.let('_r', ["method", ["var", 'rs'], "append", [["var", 'c']]])
  if n == 2:
    more = G._add('more', ('derived',), [SymSeg(Ctx.cur.fresh_int('more', 1, TOP), lambda i: other_response(it), ('responses',), 'obj')]) if G.symbolic else ["list", [["call", ["name", CMD], [], {"actions": ["list", []]}]]]
    s.let('_rr', ["method", ["var", 'rs'], "extend", [more]])
  if stale:
    s.let('_u', ["setattr", M, "uid", ["bytestr", "b57000009151d"]])
    s.let('_f', ["setattr", M, "firmware_version", ["call", ["name", FW.path], [], {}]])
  s.let('ask', ["call", ["name", "world.Answers"], [M, ["var", 'rs']]], quiet=True)
  return n and u, n and f, stale, U, V_


def result(s):
  s.let('on', ["attr", M, "connected"]); s.let('uid', ["attr", M, "uid"]); s.let('version', ["attr", M, "firmware_version"])
  s.let('asked', ["attr", ["var", 'ask'], "asked"])


def asked(s, n):
  s.posts.append(('the modem is asked once' if n else 'the modem is not asked', lambda o: isinstance(o['asked'], PList) and len(o['asked'].items) == n))
  if not n: return
  q = ["item", ["item", ["var", 'asked'], num(0)], num(0)]
  s.let('query', ["tobytearray", q]); s.ok('query', 'the query is a command')
  s.posts.append(('the query reads exactly the whole UID file and the whole firmware version file',
                  lambda o: same_bytes(s.it, PList(o['query'].items[2:]), [1, UID, 0, 8, 1, VERSION, 0, 17])))
  s.let('tag', ["attr", q, "tag_id"])
  s.posts.append(('the query asks for a response', lambda o: sand(scmp('==', o['query'].items[0], 0xB4), scmp('==', o['query'].items[1], o['tag']))))


def hexadecimal(t):
  """The number that a text of hexadecimal digits stands for, or None."""
  if isinstance(t, SText):
    if len(t.parts) == 1 and t.parts[0][2].lstrip('0123456789') == 'x': return t.parts[0][1]
    cs = bt.text_codes(t)
  else: cs = [ord(c) for c in t] if isinstance(t, str) else list(t.items) if hasattr(t, 'items') else None
  if not cs or len(cs) > 16: return None
  v = 0
  for c in cs:
    low = sand(scmp('>=', c, 48), scmp('<=', c, 57)); high = sand(scmp('>=', c, 97), scmp('<=', c, 102))
    if not bool(sor(low, high)): return None
    v = (v << 4) | ite(low, sinty(c) - 48, sinty(c) - 87)
  return v


def connecting(s):
  """connect() asks for the two files, and succeeds when the answer has them."""
  G = s.G; it = s.it
  u, f, stale, U, F = answered(s)
  s.let('r', ["method", M, "connect", []], may_fail=True)
  result(s)
  asked(s, 1)
  s.let('t', ["item", ["item", ["var", 'asked'], num(0)], num(1)])
  s.posts.append(('time is given to answer', lambda o: scmp('>', o['t'], 0)))
  def on(o): return sand(o['on'] is True, o.ok('r') and o['r'] is True)
  def off(o): return sand(o['on'] is False, not o.ok('r') or o['r'] is False or o['r'] is None)
  if u == 1 and f == 1:
    s.posts.append(('an answer with both files connects', on))
    def uid(o):
      v = hexadecimal(o['uid'])
      return False if v is None else scmp('==', v, G.val(U))
    s.posts.append(('the UID is that of the answer', uid))
    s.same('version', FW, F, True, 'the firmware version is that of the answer')
  elif not stale:
    s.posts.append(('an answer without both files does not connect', off))


def waived(s):
  """What needs no answer: the check is waived, or answers are not parsed."""
  G = s.G
  skip = bool(G.choice('skip', 2)); check = G.choice('check', 2) if skip else 0
  answered(s, skip)
  s.let('r', ["method", M, "connect", [], {"check_alive": num(bool(check))}]); s.ok('r', 'connecting ends')
  result(s)
  asked(s, check)
  s.posts.append(('without a check the modem is connected', lambda o: o['on'] is True and o['r'] is True))


def again(s):
  """Connecting a connected modem changes nothing."""
  G = s.G
  skip = bool(G.choice('skip', 2)); check = bool(G.choice('check', 2))
  answered(s, skip)
  s.let('_on', ["setattr", M, "connected", num(True)])
  s.let('u0', ["attr", M, "uid"]); s.let('v0', ["attr", M, "firmware_version"])
  s.let('r', ["method", M, "connect", [], {"check_alive": num(check)}]); s.ok('r', 'connecting ends')
  result(s)
  asked(s, 0)
  s.posts.append(('a connected modem stays connected', lambda o: o['on'] is True and o['r'] is True))
  s.let('su', ["eq", ["var", 'u0'], ["attr", M, "uid"]]); s.value('su', True, 'its UID stays')


def later(s):
  """execute_command_async sends the command and does not wait."""
  G = s.G
  modem(s, False)
  t = G.int('tag', 0, 255)
  s.let('c', ["call", ["name", CMD], [], {"actions": ["list", []], "tag_id": t}])
  s.let('ask', ["call", ["name", "world.Answers"], [M, ["list", []]]], quiet=True)
  s.let('r', ["method", M, "execute_command_async", [["var", 'c']]]); s.ok('r', 'a command can be sent')
  result(s)
  s.posts.append(('it is sent once, without waiting', lambda o: len(o['asked'].items) == 1 and bool(scmp('==', o['asked'].items[0].items[1], 0))))
  s.let('sent', ["tobytearray", ["item", ["item", ["var", 'asked'], num(0)], num(0)]])
  s.bytes_eq('sent', lambda: [0xB4, G.val(t)], 'it is this command')


def IDLE(it):
  """The read thread waits."""
  for q in ('Thread.begin', 'State.resume', 'State.batons'): it.contracts['world.' + q] = lambda it, f, args, kw: None


SIMPLE = {'uid': 1, 'version': 1, 'responses': 1, 'order': 0}


def make():
  obs = []
  def add(id, fn, **kw):
    R = Others()
    ob = Ob(id, fn, [MODEM + '.Modem.connect'] if id != 'later' else [MODEM + '.Modem.execute_command_async'], uses=[IDLE], timeout=200, max_paths=60000, **kw)
    ob.loop_rules = {'*': R}; obs.append(ob)
  names = ('none', 'whole', 'cut')
  for u in range(3):
    for f in range(3): add('connect.uid_%s.version_%s' % (names[u], names[f]), connecting, cases=24, fixed=dict({'uid': u, 'version': f}, **({} if u == f == 1 else {'stale': 0})))
  add('waived', waived, cases=40, fixed=SIMPLE); add('connected', again, cases=40, fixed=SIMPLE); add('later', later, cases=24)
  return obs
PROP = Property('C21', make, extra_src=[('@repo', 'modem'), ('@stubs', 'world,serial')], load=['serial', 'world', MODEM])
