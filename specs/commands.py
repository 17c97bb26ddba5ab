"""ALP commands: loop invariants over runs of arbitrary actions, and the contracts of Command and of the ALP parser's action loop."""
from codecs_common import *
from codecs_lib import *
from contracts import AnyCommand
from libmodels import BitStream
from interp import Opaque, assigned_names
from vc import PathDone, prove
import random

CMD = 'd7a.alp.command.Command'
ALP = 'd7a.alp.parser.Parser'
TOP = 1 << 20
CLASSES = {'status': 'd7a.alp.status_action.StatusAction', 'action_status': 'd7a.alp.status_action.StatusAction', 'tag_request': 'd7a.alp.tag_request_action.TagRequestAction',
           'tag_response': 'd7a.alp.tag_response_action.TagResponseAction', 'regular': 'd7a.alp.regular_action.RegularAction', 'forward': 'd7a.alp.forward_action.ForwardAction',
           'indirect': 'd7a.alp.indirect_forward_action.IndirectForwardAction', 'action': 'd7a.alp.action.Action'}
KINDS = ['status', 'tag_request', 'tag_response', 'action_status', 'regular', 'forward', 'indirect', 'action']


# ---------------------------------------------------------------- arbitrary actions
def raw(it, kind, **fields):
  """Some action of this kind: only what is given here is known of it."""
  o = Obj(it.get(CLASSES[kind])); o.d.update(fields); o.epoch = 0
  return o


def some_action(it, kind):
  c = Ctx.cur
  if kind == 'status': return raw(it, kind, status_operand_extension=1)
  if kind == 'action_status': return raw(it, kind, status_operand_extension=0)
  if kind in ('tag_request', 'tag_response'):
    t = it.call(it.get('d7a.alp.operands.tag_id.TagId'), [], {'tag_id': c.fresh_int('tag', 0, 255)})
    if kind == 'tag_request':
      return it.call(it.get(CLASSES[kind]), [], {'respond_when_completed': c.fresh_bool('respond'), 'operation': it.call(it.get('d7a.alp.operations.tag_request.TagRequest'), [], {'operand': t})})
    return it.call(it.get(CLASSES[kind]), [], {'eop': c.fresh_bool('eop'), 'error': c.fresh_bool('error'), 'operation': it.call(it.get('d7a.alp.operations.tag_response.TagResponse'), [], {'operand': t})})
  return raw(it, kind)


def run_of(it, name, n=None):
  """Any number of actions (of any kind)."""
  if n is None: n = Ctx.cur.fresh_int(name + '#', 0, TOP)
  return SymSeg(n, lambda i: raw(it, 'regular'), ('actions', name, ekey(n)), 'obj')
from values import ekey


def is_run(items, seg): return isinstance(items, (PList, tuple)) and len(items.items if isinstance(items, PList) else items) == 1 and (items.items if isinstance(items, PList) else items)[0] is seg


def command_of(it, fr):
  ps = [v for v in fr.locals.values() if isinstance(v, Obj) and v.cls.subclass_of(it.get(CMD))]
  if len(ps) != 1: raise Unsupported("no command object in the loop")
  return ps[0]


def blind(fr, n, but=()):
  """Locals that the loop body assigns: their value at the loop head is not known."""
  for x in sorted(assigned_names(n.body)):
    if x not in but: fr.locals[x] = Opaque('value of an earlier iteration')


def plain(x):
  return x if not isinstance(x, PList) else ('list', id(x))


# ---------------------------------------------------------------- Command.__init__
STATE = ('actions', 'interface_status', 'tag_id', 'send_tag_response_when_completed', 'completed_with_error', 'execution_completed')


class InitLoop(object):
  """Loop of Command.__init__ over its actions. Invariant after any prefix of them: self.actions are those that are no tag and no
  interface status, in order; at most one interface status and one tag were met, and they are in their fields."""
  def __call__(self, it, n, fr, items=None):
    c = Ctx.cur; acts = c.memo.get('acts') if c is not None else None
    if acts is None or items is None or not is_run(items, acts): return NotImplemented
    o = command_of(it, fr); tag0, resp0 = c.memo['args']
    if 'state' in c.memo: raise Unsupported("a second loop over the actions")
    d = o.d
    prove('before the first action the command holds none', isinstance(d.get('actions'), PList) and not d['actions'].items and d.get('interface_status', 0) is None)
    prove('before the first action the tag is the given one', same_field(it, d.get('tag_id', 0), tag0))
    prove('before the first action the response flag is the given one', same_field(it, d.get('send_tag_response_when_completed', 0), resp0))
    prove('a command is not completed before a response says so', d.get('execution_completed') is False)
    st = some_action(it, 'status') if c.choose(2) else None
    tg = ('', 'tag_request', 'tag_response')[c.choose(3)] if tag0 is None else ''
    run = run_of(it, 'plain')
    d['actions'].items = [run]; d['interface_status'] = st
    S = {'st': st, 'tg': tg, 'run': run, 'tag': tag0, 'resp': resp0, 'eop': False}
    if tg:
      S['tag'] = d['tag_id'] = c.fresh_int('tag', 0, 255)
      if tg == 'tag_request': S['resp'] = d['send_tag_response_when_completed'] = c.fresh_bool('respond')
      else:
        S['err'] = d['completed_with_error'] = c.fresh_bool('error'); S['eop'] = d['execution_completed'] = c.fresh_bool('eop')
    c.memo['state'] = S
    blind(fr, n)
    if not c.choose(2): return it.exec_block(n.orelse, fr) if n.orelse else None
    kind = KINDS[c.choose(len(KINDS))]; x = some_action(it, kind)
    dup = kind == 'status' and st is not None or kind.startswith('tag') and (tg or tag0 is not None)
    c.memo['dup'] = bool(dup); c.memo['step'] = True
    c.memo['in'] = True
    head = {k: plain(v) for k, v in d.items()}; lst = d['actions']
    it.assign(n.target, x, fr)
    r = it.exec_block(n.body, fr)
    prove('a second tag or interface status is refused', not dup)
    if r not in (None, 'c'): prove('no action ends the loop', False); raise PathDone()
    N = dict(S)
    if kind == 'status': N['st'] = x
    elif kind.startswith('tag'):
      op = it.getattr(x, 'operand'); N['tag'] = it.getattr(op, 'tag_id')
      if kind == 'tag_request': N['resp'] = x.d['respond_when_completed']
      else: N['err'] = x.d['error']; N['eop'] = x.d['eop']
    want = [run] + ([x] if kind not in ('status', 'tag_request', 'tag_response') else [])
    got = d['actions'].items if isinstance(d.get('actions'), PList) else None
    prove('actions that are no tag and no interface status are kept, in order', got is not None and len(got) == len(want) and all(a is b for a, b in zip(got, want)))
    prove('the interface status is set apart', d.get('interface_status', 0) is N['st'])
    prove('the tag is set apart', same_field(it, d.get('tag_id', 0), N['tag']))
    prove('the flags of a tag request are kept', same_field(it, d.get('send_tag_response_when_completed', 0), N['resp']))
    prove('the flags of a tag response are kept', sand(same_field(it, d.get('execution_completed', 0), N['eop']), True if 'err' not in N else same_field(it, d.get('completed_with_error', 0), N['err'])))
    for k in d:
      if k not in STATE and (k not in head or head[k] is not plain(d[k]) and head[k] != plain(d[k])): raise Unsupported("the loop changes " + k)
    raise PathDone()


def same_field(it, a, b):
  if a is None or b is None: return a is b
  if isinstance(b, (bool, SBool)): return isinstance(a, (bool, SBool)) and it.as_bool(it.eq(a, b))
  if isinstance(a, (bool, SBool)) or not is_intlike(a): return False
  return it.as_bool(it.eq(a, b))


# ---------------------------------------------------------------- Command.__iter__
class IterLoop(object):
  """Loop of Command.__iter__ over its actions: what has been produced for a prefix of them is the concatenation of their bytes."""
  def __call__(self, it, n, fr, items=None):
    c = Ctx.cur; run = c.memo.get('run') if c is not None else None
    if run is None or items is None: return NotImplemented
    if not is_run(items, run):
      xs = list(items.items) if isinstance(items, PList) else list(items) if isinstance(items, tuple) else []
      if sum(x is run for x in xs) != 1: return NotImplemented
      if not all(x is run or isinstance(x, Obj) for x in xs) or n.orelse: raise Unsupported("a loop over actions and others")
      for x in xs:       # some items, and the run between them
        if x is run: r = self(it, n, fr, (run,))
        else: it.assign(n.target, x, fr); r = it.exec_block(n.body, fr)
        if r not in (None, 'c'): raise Unsupported("the loop over the actions ends early")
      return None
    if fr.out is None: raise Unsupported("not a generator")
    if c.memo.get('looped'): raise Unsupported("a second loop over the actions")
    c.memo['looped'] = True
    blind(fr, n)
    E = byte_run('encoded'); c.memo['E'] = E; k = len(fr.out)
    fr.out.append(E)
    if not c.choose(2): return it.exec_block(n.orelse, fr) if n.orelse else None
    x = raw(it, 'regular')
    c.memo['elt'] = x; x.d['#enc'] = e = byte_run('action')
    it.assign(n.target, x, fr)
    r = it.exec_block(n.body, fr)
    if r not in (None, 'c'): prove('every action is serialized', False); raise PathDone()
    new = fr.out[k:]
    prove('every action adds exactly its bytes', items_same(it, new, [E, e]) if all(is_bytelike(y) for y in new) else False)
    raise PathDone()


def is_bytelike(y): return isinstance(y, (int, SInt, SymSeg))


def byte_run(name):
  c = Ctx.cur
  f = z3.Function(c.fresh_name(name), z3.BitVecSort(40), z3.BitVecSort(8)); n = c.fresh_int(name + '#', 0, TOP)
  return SymSeg(n, lambda i: SInt(z3.ZeroExt(1, f(to_bv(sinty(i), 40))), 0, 255), ('slice', f.name(), 0), 'int', f.name(), 0)


def ENC(it):
  """Bytes of some action: any byte string, the same every time (what they are: C04)."""
  def con(it, f, args, kw):
    o = args[0]
    if '#enc' not in o.d: return NotImplemented
    return GenV(lambda: [o.d['#enc']])
  for q in sorted(set(CLASSES.values())): it.contracts[q + '.__iter__'] = con


# ---------------------------------------------------------------- Parser.parse
RAISED = [('bitstring', 'ReadError', ()), ('d7a', 'd7a.parse_error.ParseError', ('text',)), ('', 'AssertionError', ()), ('', 'ValueError', ('text',)), ('', 'KeyError', (34,)), ('', 'TypeError', ('text',))]


def throw_any(it):
  m, name, ar = RAISED[Ctx.cur.choose(len(RAISED))]
  if m == 'bitstring': cls = it.import_module('bitstring').dict[name]
  elif m: cls = it.get(name)
  else: cls = it.exc_classes[name]
  Ctx.cur.memo['thrown'] = cls
  it.throw(cls, *ar)


def ACTION(it):
  """parse_alp_action(s) at a byte of the command: takes at least one and at most the remaining bytes of the stream and returns an
  action (or None: an action status), or raises. Discharged by C04 (an action followed by anything is taken exactly) and C20."""
  def con(it, f, args, kw):
    a = list(args) + [kw[k] for k in ('s',) if k in kw]
    c = Ctx.cur
    if len(a) != 2 or not isinstance(a[1], BitStream) or 'start' not in c.memo: return NotImplemented
    s = a[1]; p = s.consumed - c.memo['start']
    if s.bit: raise Unsupported("not at a byte")
    prove('actions are read inside the command', sand(scmp('>=', p, 0), scmp('<', p, c.memo['n'])))
    if not c.choose(2): throw_any(it)
    w = c.fresh_int('width', 1, TOP)
    c.assume_feasible(as_z3bool(scmp('<=', p + w, c.memo['total'] - c.memo['start'])))
    s.seek(it, s.consumed + w, 0)
    x = raw(it, 'regular') if c.choose(2) else None; c.memo['last'] = (x, p, w)
    return x
  it.contracts[ALP + '.parse_alp_action'] = con


def COMMAND_INIT(it):
  """Command(actions, generate, tag, respond): holds them (what that means: C05 init), or refuses two tags or statuses (C05 init)
  and what is no action (C20 command.refuses)."""
  def con(it, f, args, kw):
    loc = it.bind_args(f, args, kw); o = loc['self']
    a = loc['actions']
    if not isinstance(a, PList): return NotImplemented
    if Ctx.cur.memo.get('good') is False or any(x is None for x in a.items) or not Ctx.cur.choose(2): Ctx.cur.memo['refused'] = True; it.throw(it.get('d7a.parse_error.ParseError'), 'text')
    o.d['#actions'] = list(a.items)
    o.d['#args'] = (loc['generate_tag_request_action'], loc['tag_id'])
    return None
  it.contracts[CMD + '.__init__'] = con


class ParseLoop(object):
  """Loop of Parser.parse: after any number of iterations q bytes of the command are taken, and the list holds exactly the actions
  that were parsed from them, in order."""
  def __init__(self): self.unit = {}

  def __call__(self, it, n, fr, items=None):
    c = Ctx.cur
    if items is not None or c is None or 'start' not in c.memo: return NotImplemented
    if 'q' in c.memo: raise Unsupported("a second loop")
    s = [v for v in fr.locals.values() if isinstance(v, BitStream)]
    if len(s) != 1: raise Unsupported("no stream in the loop")
    s = s[0]; start, N = c.memo['start'], c.memo['n']
    prove('the first action is read at the start of the command', sand(scmp('==', s.consumed, start), s.bit == 0))
    body = assigned_names(n.body)
    q = c.fresh_int('q', 0, TOP); c.memo['q'] = q
    c.assume(as_z3bool(scmp('<=', q, c.memo['total'] - start)))
    c.memo['good'] = bool(c.choose(2))     # whether only actions were read so far
    run = run_of(it, 'parsed'); c.memo['run'] = run
    lists = [x for x, v in sorted(fr.locals.items()) if isinstance(v, PList) and not v.items]
    carried = {}
    for x in sorted(body):
      v = fr.locals.get(x)
      if x in fr.locals and is_intlike(v) and not isinstance(v, (bool, SBool)):
        carried[x] = (v, self.unit.get(x, 1)); fr.locals[x] = v + self.unit.get(x, 1) * q
      elif x in lists: pass
      else: fr.locals[x] = Opaque('value of an earlier iteration')
    for x in lists: fr.locals[x].items = [run]
    s.seek(it, start + q, 0)
    if not it.truth(it.ev(n.test, fr)):
      return it.exec_block(n.orelse, fr) if n.orelse else None
    r = it.exec_block(n.body, fr)
    if r == 'b': return None
    if r not in (None, 'c'): return r
    if 'last' not in c.memo: prove('every iteration reads an action (the loop ends)', False); raise PathDone()
    x, p, w = c.memo['last']
    prove('the next action is read where the previous one ended', scmp('==', p, q))
    prove('nothing is skipped', sand(scmp('==', s.consumed, start + q + w), s.bit == 0))
    for k, (v0, u) in sorted(carried.items()):
      v = fr.locals[k]
      ok = scmp('==', v, v0 + u * (q + w)) if is_intlike(v) else False
      if c._check(z3.Not(as_z3bool(ok))) != z3.unsat:
        if k not in self.unit: self.unit[k] = 8; raise Restart()
        raise Unsupported("no invariant for " + k)
      prove('the count of bytes is exact', ok)
    good = [k for k in lists if isinstance(fr.locals[k], PList) and len(fr.locals[k].items) == 2 and fr.locals[k].items[0] is run and fr.locals[k].items[1] is x]
    prove('every action that was read is kept, once and in order', bool(good))
    raise PathDone()
from vc import Restart


# ---------------------------------------------------------------- random commands for real runs
NAMES = sorted(ACTIONS)


def random_actions(G, name, kinds, lo, hi):
  """A few actions of random kinds: (expressions, views)."""
  k = lo + G.choice(name + '#', hi - lo + 1)
  es, vs = [], []
  for i in range(k):
    c = ACTIONS[kinds[G.choice('%s%d' % (name, i), len(kinds))]]
    e, v = c.gen(G, '%s[%d]' % (name, i)); v.codec = c
    es.append(e); vs.append(v)
  return es, vs


def kind_of(v):
  p = v.codec.path
  return 'status' if p.endswith('StatusAction') else 'tag_request' if p.endswith('TagRequestAction') else 'tag_response' if p.endswith('TagResponseAction') else 'plain'
