"""The modem: every message received reaches exactly one recipient (modem/modem.py, run in the scripted surroundings of pyvc/stubs/world)."""
from commands import *
from registry import Property
from libmodels import crc_spec, Null
from vc import Restart
from values import POISON, BoundMethod, FuncV, Builtin, ClassV, ModuleV, Native

MODEM = 'modem.modem'
M = ["var", "m"]


def num(x): return ["lit", x]
def text(bs): return ["bytestr", ''.join(chr(b) for b in bs)]


# ---------------------------------------------------------------- histories on the real code
class Msg(object):
  """A received message and what must be delivered: an ALP command (tag, end of its execution, data), a text or a number."""
  def __init__(self, typ, frame, what): self.typ = typ; self.frame = frame; self.what = what
  def __repr__(self): return 'Msg(%d, %r)' % (self.typ, self.what)


def random_message(rng, skip, tags):
  t = rng.choice([1, 1, 1, 1, 1, 1, 2, 3, 4, 5])
  if t == 4: p = [rng.choice([0xC0, 0, 10, 65, 127, 200]) for _ in range(rng.randrange(0, 6))]; w = ('text', ''.join(map(chr, p)))
  elif t == 5: p = [rng.randrange(256)] + [0] * rng.randrange(2); w = ('int', p[0])
  else:
    tag = rng.choice(tags + [None, rng.randrange(256)]); eop = rng.random() < 0.5
    n = [rng.randrange(256), rng.randrange(256)]
    p = ([] if tag is None else [35 | (eop << 7), tag]) + [32, 0x40, 0, 2] + n
    w = ('text', ''.join(map(chr, p))) if skip else ('cmd', tag, eop and tag is not None, n)
  c = crc_spec(p, 0x1021, 0xFFFF)
  return Msg(t, [0xC0, 0, rng.randrange(256), t, len(p), c >> 8, c & 255] + p, w)


class Reads(object):
  """Some reads: pieces of frames (with garbage between them), reads of nothing, read errors.
  given: for each read the messages that are complete with it."""
  def __init__(self, rng, skip, tags, n):
    self.exprs = []; self.given = []
    stream = []; ends = []; whole = rng.choice([0.7, 0.7, 0.1])
    xs = [random_message(rng, skip, tags) for _ in range(n)]
    while xs:
      k = rng.randrange(1, len(xs) + 1); group = [b for x in xs[:k] for b in x.frame]
      if k > 1 and len(group) < 256 and rng.random() < 0.6:   # a damaged frame around them: they come at once
        crc = crc_spec(group, 0x1021, 0xFFFF) ^ 0x0101; fake = [0xC0, 0, 7, 1, len(group), crc >> 8, crc & 255]
        if 0xC0 not in fake[1:]:
          stream += fake + group; ends += [(len(stream), x) for x in xs[:k]]; xs = xs[k:]
          continue
      for x in xs[:k]:
        stream += ([rng.choice([0, 1, 65])] if rng.random() < 0.05 else []) + x.frame
        ends.append((len(stream), x))
      xs = xs[k:]
    cuts = sorted(set([e for e, _ in ends if rng.random() < whole] + [rng.randrange(1, len(stream)) for _ in range(rng.choice([0, 0, 1, 2])) if len(stream) > 1] + [len(stream)])) if stream else []
    p = 0
    for c in cuts:
      if rng.random() < 0.12: self.add(text([]), [])
      if rng.random() < 0.15: self.add(["call", ["name", "world.Broken"], [num(rng.random() < 0.6)]], [])
      self.add(text(stream[p:c]), [x for e, x in ends if p < e <= c])
      p = c
    if rng.random() < 0.1: self.add(["call", ["name", "world.Broken"], [num(rng.random() < 0.6)]], [])

  def add(self, e, ms): self.exprs.append(e); self.given.append(ms)
  def expr(self): return ["list", self.exprs]
  def messages(self): return [x for g in self.given for x in g]


class Oracle(object):
  """Who must have received what."""
  def __init__(self, skip, ear, boots):
    self.skip = skip; self.connected = False
    self.heard = [] if ear else None; self.boots = [] if boots else None
    self.stored = []; self.rebooted = []; self.waiting = None

  def receive(self, reads):
    for x in reads.messages():
      if x.typ == 4: continue
      if x.typ == 5: (self.rebooted if self.boots is None else self.boots).append(x.what); continue
      if self.waiting is not None and not self.skip and x.what[0] == 'cmd' and x.what[1] == self.waiting:
        self.own.append(x.what); self.done = self.done or x.what[2]
      elif self.heard is not None and self.connected: self.heard.append(x.what)
      else: self.stored.append(x.what)

  def execute(self, tag, timeout, at_write, steps):
    self.own = []; self.done = False
    if timeout == 0 or self.skip:
      self.receive(at_write); return []
    self.waiting = tag
    self.receive(at_write)
    t = 0
    for dt, r in steps:
      if self.done or t >= timeout: break
      t += dt; self.receive(r)
    self.waiting = None
    return self.own if self.done else []


def seen(x):
  """A delivered message, in the oracle's terms."""
  if isinstance(x, Obj):
    d = x.d; a = d['actions'].items
    if len(a) != 1 or not isinstance(a[0], Obj): return ('?',)
    return ('cmd', d['tag_id'], d['execution_completed'], list(a[0].d['operation'].d['operand'].d['data'].items))
  if isinstance(x, bool): return ('?',)
  if isinstance(x, int): return ('int', x)
  if isinstance(x, str): return ('text', x)
  return ('?',)


def delivered(v, want):
  return isinstance(v, PList) and [seen(x) for x in v.items] == want


def modem(s, skip, ear, boots, parser=False):
  for n, has in (('ear', ear), ('boots', boots)):
    s.let(n, ["call", ["name", "world.Ear"], []], quiet=True)
  return s.let('m', ["call", ["name", "world.start"], [["name", MODEM], skip, ["var", 'ear'] if ear else ["none"], ["var", 'boots'] if boots else ["none"]], {"parser": num(parser)}], quiet=True)


def observe(s, k, ear, boots, o):
  """What has been delivered until now."""
  a = s.let('stored' + k, ["method", M, "get_unsolicited_responses_received", []]); b = s.let('rebooted' + k, ["method", M, "get_rebooted_received", []])
  W = {'stored': list(o.stored), 'rebooted': list(o.rebooted)}
  if ear: s.let('heard' + k, ["attr", ["var", 'ear'], "heard"]); W['heard'] = list(o.heard)
  if boots: s.let('boots' + k, ["attr", ["var", 'boots'], "heard"]); W['boots'] = list(o.boots)
  label = {'stored': 'the stored responses are those nobody else got, in order', 'rebooted': 'reboots are noted, and only reboots',
           'heard': 'the callback hears the unsolicited responses, in order, once', 'boots': 'the callback for reboots hears every reboot, and nothing else'}
  for n, w in sorted(W.items()):
    s.posts.append((label[n], lambda out, n=n, w=w: delivered(out[n + k], w)))


def command(tag): return ["call", ["name", CMD], [], {"actions": ["list", []], "tag_id": num(tag)}]


def history(s):
  """A random history on the real code: receptions, executions, read errors, clearing of the stored lists."""
  G = s.G; rng = random.Random(G.choice('seed', 1 << 30))
  skip = rng.random() < 0.2; ear = rng.random() < 0.6; boots = rng.random() < 0.5
  tags = [rng.randrange(256) for _ in range(2)]
  modem(s, num(skip), ear, boots)
  o = Oracle(skip, ear, boots)
  def reads(hi): return Reads(rng, skip, tags, rng.randrange(hi + 1))
  for k in range(rng.randrange(1, 7)):
    what = rng.choice(['event', 'event', 'execute', 'execute', 'execute', 'connect', 'clear', 'async'])
    k = str(k)
    if what == 'event':
      r = reads(5); s.let('e' + k, ["method", ["name", "world.W"], "event", [r.expr()]]); s.ok('e' + k, 'reading goes on'); o.receive(r)
    elif what == 'connect':
      o.connected = rng.random() < 0.7; s.let('c' + k, ["setattr", M, "connected", num(o.connected)])
    elif what == 'clear':
      s.let('x' + k, ["method", M, "clear_unsolicited_responses_received", []]); s.let('y' + k, ["method", M, "clear_rebooted_received", []]); o.stored = []; o.rebooted = []
    else:
      tag = rng.choice(tags); t = rng.choice([1, 2, 5, 30]) if what == 'execute' else 0
      w = reads(2); st = [(rng.choice([0, 0, 1, 1, 3, 40]), reads(2)) for _ in range(rng.randrange(5))]
      s.let('r' + k, ["call", ["name", "world.execute"], [command(tag), num(t), w.expr(), ["list", [["list", [num(d), r.expr()]] for d, r in st]]]])
      s.ok('r' + k, 'a command can be executed')
      want = o.execute(tag, t, w, st)
      s.posts.append(('an execution that is completed returns exactly the responses with its tag, one that is not returns none', lambda out, n='r' + k, want=want: delivered(out[n], want)))
    if rng.random() < 0.2: observe(s, k, ear, boots, o)
  observe(s, '', ear, boots, o)


# ---------------------------------------------------------------- any number of messages, any number of reads (loop invariants)
"""The state of a modem is what is reachable from it and from its callbacks: lists, booleans, numbers. An event is any number of reads,
each with any number of messages. Invariant of the loop over the messages of one read, after any prefix of them: every list is what it
was, followed by those of the messages that are for its recipient, in order; a boolean may say that a response ended the execution that
waits for it. The loop over reads composes these; a read of nothing and a read error change nothing and end nothing."""


def unknown(i): raise Unsupported("what was delivered earlier")


class Pause(Exception):
  """The read thread waits for data: control returns to the other thread."""


class World(object):
  """Ghost state of one path."""
  def __init__(self, s, skip, ear, boots):
    self.it = s.it; self.skip = skip; self.ear = ear; self.boots = boots
    self.tags = {}; self.done = {}; self.events = []; self.run = None; self.thread = None; self.elapsed = {}; self.connected = {}
    self.fired = []       # the events at the points of the main thread, in order
    self.owner = {}       # event -> the execution during which it takes place
    self.executing = None; self.actor = 'main'; self.ghost = 0; self.log = []; self.held = []; self.section = None; self.sections = 0; self.paths = None; self.got = None; self.actor18 = None
  def gets(self, r, e):
    """Whether this recipient can get something from this event."""
    return not (r == 'own' and self.tags.get(e) is None or r == 'rebooted' and self.boots)
  @property
  def W(self): return self.it.get('world.W')
  @property
  def modem(self): return self.W.d['modem']


class Run(object):
  """The messages of one read: any number, of any kind."""
  def __init__(self, it, w):
    c = Ctx.cur; self.it = it; self.w = w
    self.n = c.fresh_int('messages', 0, TOP)
    f = z3.Function(c.fresh_name('type'), z3.BitVecSort(40), z3.BitVecSort(3))
    def typ(i):
      t = SInt(z3.ZeroExt(1, f(to_bv(sinty(i), 40))), 0, 7)
      Ctx.cur.assume(as_z3bool(sand(scmp('>=', t, 1), scmp('<=', t, 5))))
      return t
    self.typ = typ; self.made = []; self.met = False; self.done = False
    self.types = SymSeg(self.n, typ, ('types', f.name()), 'int'); self.cmds = SymSeg(self.n, self.cmd, ('cmds', f.name()), 'obj')

  def cmd(self, i):
    for j, x in self.made:
      if scmp('==', i, j) is True or Ctx.cur._check(as_z3bool(snot(scmp('==', i, j)))) == z3.unsat: return x
    c = Ctx.cur
    if self.w.skip or bool(scmp('>=', self.typ(i), 4)): x = Obj(self.it.get('world.Payload'))
    else:
      x = raw_command(self.it)
    self.made.append((i, x))
    return x


def raw_command(it):
  """Some received command."""
  c = Ctx.cur
  x = it.call(it.get(CMD), [], {'actions': PList([]), 'generate_tag_request_action': False, 'tag_id': c.fresh_int('tag', 0, 255) if c.choose(2) else None})
  it.setattr(x, 'execution_completed', c.fresh_bool('completed')); it.setattr(x, 'completed_with_error', c.fresh_bool('error'))
  return x


class State18(object):
  """What is reachable from the modem and its callbacks."""
  def __init__(self, it, w):
    self.it = it; self.lists = {}; self.scalars = {}; self.owner = {}
    self.seen = {}
    self.walk('modem', w.modem, 0)
    for n, has in (('ear', w.ear), ('boots', w.boots)):
      if has: self.walk(n, w.has[n], 0)

  def walk(self, path, o, depth):
    if id(o) in self.seen: return
    self.seen[id(o)] = path
    if depth > 4: raise Unsupported("the state of the modem is deep")
    for k in sorted(o.d):
      v = o.d[k]; p = path + '.' + k
      self.value(p, v, depth, (o, k))

  def value(self, p, v, depth, owner):
    if isinstance(v, PList):
      if id(v) not in self.seen: self.seen[id(v)] = p; self.lists[p] = v
    elif isinstance(v, (bool, int, SBool, SInt, str)) or v is None: self.scalars[p] = v; self.owner[p] = owner
    elif isinstance(v, Obj):
      if not v.cls.is_enum: self.walk(p, v, depth + 1)
    elif isinstance(v, PDict):
      if id(v) in self.seen: return
      self.seen[id(v)] = p
      for kk, x in v.d.values():
        if not isinstance(x, (str, int, bool, SBool, SInt)) and x is not None: raise Unsupported("state in a dictionary: " + p)
        self.scalars[p + '[%r]' % (kk,)] = x; self.owner[p + '[%r]' % (kk,)] = (v, kk)
    elif isinstance(v, (FuncV, BoundMethod, Builtin, ClassV, ModuleV, Null)): pass
    elif isinstance(v, tuple) and all(isinstance(x, (int, str)) for x in v): self.scalars[p] = v; self.owner[p] = None
    else: raise Unsupported("state of type %s: %s" % (type(v).__name__, p))


def unchanged(it, a, b):
  if a is b: return True
  if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)): return False
  if isinstance(a, (bool, int, SBool, SInt)) and isinstance(b, (bool, int, SBool, SInt)):
    r = it.as_bool(it.eq(a, b))
    return r is True or r is not False and Ctx.cur._check(as_z3bool(snot(r))) == z3.unsat
  return type(a) is type(b) and a == b


def same_items(a, b):
  return len(a) == len(b) and all(x is y or isinstance(x, SymSeg) and isinstance(y, SymSeg) and x.key == y.key for x, y in zip(a, b))


class Loops(object):
  """The rules for every loop met while the modem runs."""
  def __init__(self): self.mode = {}; self.late = False

  def learn(self, p, mode):
    self.mode[p] = mode
    raise Restart()

  # -- havoc: the state after some of what an event brings
  def havoc(self, it, w, what, done):
    """Every list is longer by the messages for its recipient (named by what); done: one of them ended the execution."""
    st = State18(it, w); segs = {}
    for p, l in sorted(st.lists.items()):
      it.seq_mut(l)
      segs[p] = SymSeg(Ctx.cur.fresh_int('delivered', 0, TOP), unknown, what + (p,), 'obj')
      l.items = l.items + [segs[p]]
    known = {}
    for who, m in (('stored', 'get_unsolicited_responses_received'), ('rebooted', 'get_rebooted_received')):
      v = it.call_method(w.modem, m, [])
      last = v.items[-1] if isinstance(v, PList) and v.items else None
      if not isinstance(last, SymSeg) or last.key[:-1] != what: raise Unsupported("which list holds the " + who)
      known[who] = last.key[-1]
    if w.ear: known['heard'] = 'ear.heard'
    if w.boots: known['boots'] = 'boots.heard'
    other = [p for p in st.lists if p not in known.values()]
    if len(other) != 1: raise Unsupported("which list is that of the execution")
    known['own'] = other[0]
    w.known = known
    absent = [r for r in known if not w.gets(r, w.event)]
    for r in absent:
      l = st.lists[known[r]]; l.items = l.items[:-1]
    for p, mode in sorted(self.mode.items()):
      if p not in st.scalars: continue
      o, k = st.owner[p]
      if mode == 'done': v = self.or_(st.scalars[p], done)
      elif isinstance(st.scalars[p], (bool, SBool)): v = Ctx.cur.fresh_bool('some')
      elif is_intlike(st.scalars[p]): v = Ctx.cur.fresh_int('some', -TOP, TOP)
      else: raise Unsupported("the loop changes " + p)
      if isinstance(o, PDict): it.setitem(o, k, v)
      else: it.obj_set(o, k, v)
    return State18(it, w)

  def or_(self, a, b):
    r = sor(a, b)
    return r

  def snapshot(self, st): return {p: list(l.items) for p, l in st.lists.items()}, dict(st.scalars)

  def compare(self, it, w, head, added, done, label):
    """Since head: these messages (recipient -> items) were delivered, and nothing else changed."""
    lists, scalars = head
    now = State18(it, w)
    if set(now.lists) != set(lists): raise Unsupported("the lists of the modem change")
    want = {p: list(x) for p, x in lists.items()}
    for r, items in added.items(): want[w.known[r]] += items
    for p in sorted(lists):
      r = [k for k, q in w.known.items() if q == p][0]
      prove(label[r], same_items(self.taken(w, r, now.lists[p]) + now.lists[p].items, want[p]))
    if set(now.scalars) != set(scalars): raise Unsupported("the attributes of the modem change")
    for p in sorted(scalars):
      a, b = scalars[p], now.scalars[p]
      m = self.mode.get(p)
      if m == 'any': continue
      if m == 'done':
        x = self.or_(a, done)
        if not unchanged(it, b, x): self.learn(p, 'any')
      elif not unchanged(it, a, b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): self.learn(p, 'done')
        if is_intlike(a) and is_intlike(b): self.learn(p, 'any')
        raise Unsupported("the loop changes " + p)

  def taken(self, w, r, l): return []
  def begin_iteration(self, it, w): pass
  def end_iteration(self, it, w): pass
  def end_read(self, it, w): pass

  # -- loops
  def __call__(self, it, n, fr, items=None):
    w = Ctx.cur.memo.get('world') if Ctx.cur is not None else None
    if w is None or fr.func.module in ('world', 'serial') and fr.func.name != 'wait': return NotImplemented
    if items is not None:
      if w.run is not None and isinstance(items, PList) and len(items.items) == 1 and isinstance(items.items[0], SymSeg) and ekey(items.items[0].length) == ekey(w.run.n):
        return self.messages(it, w, n, fr, items.items[0])
      return NotImplemented
    if w.run is not None and not w.run.met and w.actor18 == 'reads' and not w.W.d['incoming'].items: return self.messages(it, w, n, fr, None)
    inc = w.W.d['incoming'].items
    if len(inc) == 1 and isinstance(inc[0], SymSeg) and w.thread is None:
      w.thread = (n, fr); w.prologue = State18(it, w)
      raise Pause()
    st = w.W.d['steps'].items
    if len(st) == 1 and isinstance(st[0], SymSeg): return self.waits(it, w, n, fr, st[0].key[1])
    return NotImplemented

  def counters(self, it, fr, n, entry, i):
    """Locals the body assigns: numbers that may count iterations, others are not known."""
    out = {}
    for x in sorted(assigned_names(n.body)):
      v = fr.locals.get(x)
      if is_intlike(v) and not isinstance(v, (bool, SBool)) and self.mode.get('local ' + x) != 'any': fr.locals[x] = v + i; out[x] = v
      elif x in fr.locals: fr.locals[x] = POISON
    return out

  def messages(self, it, w, n, fr, seg):
    """The loop over the messages of one read."""
    c = Ctx.cur; run = w.run
    if run.met: raise Unsupported("a second loop over the messages")
    run.met = True
    if not c.choose(2):      # after all of them
      done = c.fresh_bool('ended') if w.waiting() is not None else False
      run.done = done
      self.havoc(it, w, ('chunk', w.event), done)
      self.counters(it, fr, n, None, run.n)
      if seg is None and it.truth(it.ev(n.test, fr)): raise Unsupported("the loop over the messages goes on after the last")
      return it.exec_block(n.orelse, fr) if n.orelse else None
    i = c.fresh_int('i', 0, TOP)
    c.assume_feasible(as_z3bool(scmp('<', i, run.n)))
    done0 = c.fresh_bool('ended') if w.waiting() is not None else False
    head = self.snapshot(self.havoc(it, w, ('before', w.event), done0))
    count = self.counters(it, fr, n, None, i)
    names = set(fr.locals)
    x = run.cmd(i); t = run.typ(i)
    self.begin_iteration(it, w)
    if seg is not None: it.assign(n.target, seg.at(i), fr)
    elif not it.truth(it.ev(n.test, fr)): raise Unsupported("the loop over the messages ends before the last")
    try: r = it.exec_block(n.body, fr)
    except PyRaise as e: prove('no message ends the reading', False); raise PathDone()
    if r not in (None, 'c'): prove('no message keeps those after it from being delivered', False); raise PathDone()
    self.end_iteration(it, w)
    who, done = self.recipient(it, w, x, t)
    self.compare(it, w, head, {who: [x]} if who else {}, sand(who == 'own', done),
                 {'own': 'the waiting execution gets the responses with its tag, and only them', 'stored': 'responses nobody waits for are stored, and only them',
                  'heard': 'the callback gets the unsolicited responses, and only them', 'rebooted': 'reboots are noted, and only them', 'boots': 'the callback for reboots gets reboots, and only them'})
    for k, v in count.items():
      if not unchanged(it, fr.locals[k], v + i + 1): self.learn('local ' + k, 'any')
    raise PathDone()

  def recipient(self, it, w, x, t):
    if bool(scmp('==', t, 5)): return ('boots' if w.boots else 'rebooted'), False
    if bool(scmp('==', t, 4)): return None, False
    tag = w.waiting()
    if tag is not None and not w.skip and x.d.get('tag_id') is not None and bool(scmp('==', x.d['tag_id'], tag)): return 'own', x.d['execution_completed']
    if w.ear and bool(w.connected[w.event]): return 'heard', False
    return 'stored', False

  def reads(self, it, w):
    """The loop over reads, from one wait for data to the next."""
    c = Ctx.cur; n, fr = w.thread
    name = w.event
    for x in sorted(assigned_names(n.body)):
      if x in fr.locals: fr.locals[x] = POISON
    done = c.fresh_bool('ended') if w.waiting() is not None else False
    st = self.havoc(it, w, ('reads', name), done)
    self.begin_iteration(it, w)
    if not c.choose(2):
      w.done[name] = done; w.events.append(name)
      it.obj_set(w.W, 'incoming', PList([]))
      return
    head = self.snapshot(st)
    kind = ('chunk', 'empty', 'broken', 'lost')[c.choose(4)]
    if kind == 'chunk':
      w.run = Run(it, w); got = '\0'
      k = it.call(it.get('world.Chunk'), [PList([w.run.types]), PList([w.run.cmds])], {})
      it.obj_set(w.W, 'chunks', PList([k]))
    elif kind == 'empty': got = ''
    else: got = it.call(it.get('world.Broken'), [kind == 'broken'], {})
    it.obj_set(w.W, 'incoming', PList([got]))
    prove('reading goes on', it.truth(it.ev(n.test, fr)))
    w.actor18 = 'reads'
    try: r = it.exec_block(n.body, fr)
    except PyRaise as e: prove('no read ends the reading', False); raise PathDone()
    prove('no read ends the reading', r in (None, 'c') and it.truth(it.ev(n.test, fr)))
    if w.W.d['incoming'].items: raise Unsupported("an iteration that does not read")
    w.actor18 = None
    if kind == 'chunk' and not w.run.met and c._check(as_z3bool(scmp('>', w.run.n, 0))) == z3.unsat: kind = 'nothing'
    if kind == 'chunk' and not w.run.met: raise Unsupported("the loop over the messages was not met")
    self.end_read(it, w)
    add = {}
    if kind == 'chunk':
      for r, p in w.known.items():
        if not w.gets(r, w.event): continue
        add[r] = [SymSeg(0, unknown, ('chunk', name, p), 'obj')]
    l = {r: 'what a read brings is delivered once' if kind == 'chunk' else 'a read without data and a read error deliver nothing' for r in w.known}
    self.compare(it, w, head, add, w.run.done if kind == 'chunk' else False, l)
    raise PathDone()

  def waits(self, it, w, n, fr, name):
    """The loop that waits for the end of the execution."""
    c = Ctx.cur; W = w.W
    d = it.getattr(W, 'steps')
    it.obj_set(W, 'steps', PList([]))
    w.started = W.d['clock']
    it.call_method(W, 'event', [PList([SymSeg(1, unknown, ('reads', name), 'obj')])])
    it.obj_set(W, 'clock', W.d['clock'] + c.fresh_int('passed', 0, TOP))
    for x in sorted(assigned_names(n.body)):
      if x in fr.locals: fr.locals[x] = POISON
    head = self.snapshot(State18(it, w))
    clock = W.d['clock']; ended = w.ended(); fired = len(w.fired)
    it.obj_set(W, 'steps', PList([PList([c.fresh_int('step', 0, TOP), PList([])])]))
    go = it.truth(it.ev(n.test, fr))
    r = it.exec_block(n.body, fr) if go else 'b'
    slept = not W.d['steps'].items
    it.obj_set(W, 'steps', PList([]))
    if slept:
      over = sor(ended, scmp('>=', clock - w.started, w.timeout))
      prove('an execution waits only while it is not completed and its time is not over', snot(over))
    add = {r: [SymSeg(0, unknown, ('reads', e, p), 'obj') for e in w.fired[fired:] if w.gets(r, e)] for r, p in w.known.items()}
    self.compare(it, w, head, add, sor(*[w.done[e] for e in w.fired[fired:]]), {r: 'waiting itself delivers nothing' for r in w.known})
    if r == 'b' or isinstance(r, tuple):
      w.elapsed[name] = W.d['clock'] - w.started
      return None if r == 'b' else r
    if not slept: raise Unsupported("busy waiting")
    raise PathDone()


def WORLD(rules):
  def install(it):
    def event(it, f, args, kw):
      w = Ctx.cur.memo.get('world')
      rec = args[1]
      if w is None or not isinstance(rec, PList): return NotImplemented
      if not rec.items: return None
      if len(rec.items) != 1 or not isinstance(rec.items[0], SymSeg): raise Unsupported("an event")
      if any(isinstance(v, Obj) and v.d.get('held') is True for v in w.modem.d.values()) and rules.late:
        w.late = rec; return None
      w.event = rec.items[0].key[1]; w.run = None
      it.obj_set(args[0], 'incoming', rec); it.obj_set(args[0], 'receiving', True)
      if w.thread is None:
        th = w.W.d['thread']; depth, stack = it.depth, list(it.stack)
        before = rules.snapshot(State18(it, w))
        try: it.call(th.d['target'], list(th.d['args']), {}); raise Unsupported("the read thread ended")
        except Pause: it.depth = depth; it.stack[:] = stack
        after = rules.snapshot(State18(it, w))
        if set(before[1]) != set(after[1]) or any(not unchanged(it, before[1][p], after[1][p]) for p in before[1]): raise Unsupported("the read thread changes the modem before it reads")
      rules.reads(it, w)
      it.obj_set(args[0], 'receiving', False)
      return None
    def released(it, f, args, kw):
      """Who waits for the lock goes on."""
      w = Ctx.cur.memo.get('world')
      if w is None or w.W.d['receiving'] or w.late is None: return NotImplemented
      o = args[0]
      it.obj_set(o, 'held', False)
      rec = w.late; w.late = None
      it.call_method(w.W, 'event', [rec])
      return None
    def blocked(it, f, args, kw):
      if not rules.late: rules.late = True; raise Restart()
      raise Unsupported("the read thread waits for a lock")
    def begin(it, f, args, kw): return None
    it.contracts['world.State.event'] = event
    it.contracts['world.Lock.release'] = released
    it.contracts['world.Lock.wait'] = blocked
    it.contracts['world.Thread.begin'] = begin
    it.contracts['world.State.resume'] = begin
    it.contracts['world.State.batons'] = begin
  return install


def world(s, skip, ear, boots):
  """The modem and its surroundings, symbolically: any reception."""
  G = s.G
  w = Ctx.cur.memo['world'] = World(s, skip, ear, boots)
  w.late = None; w.event = None; w.has = {}; w.known = {}
  w.waiting = lambda: w.tags.get(w.event)
  w.ended = lambda: sor(*[w.done.get(e, False) for e in w.during])
  ctl = Native(); ctl.__class__ = Ctl; ctl.w = w; G.leaves['ctl'] = ctl
  s.let('ear', ["call", ["name", "world.Ear"], []]); s.let('boots', ["call", ["name", "world.Ear"], []])
  s.let('m', ["call", ["name", "world.start"], [["name", MODEM], num(skip), ["var", 'ear'] if ear else ["none"], ["var", 'boots'] if boots else ["none"]], {"parser": num(True)}])
  s.let('_g', ["method", ["leaf", "ctl"], "ears", [["var", 'ear'], ["var", 'boots']]])
  def reads(name, tag=None, steps=False):
    w.tags[name] = tag
    return G._add(name + ('.steps' if steps else ''), ('derived',), [SymSeg(1, unknown, ('steps' if steps else 'reads', name), 'obj')])
  def event(name):
    b = G.bool('connected' + name); w.connected[name] = G.val(b)
    s.let('c' + name, ["setattr", M, "connected", b])
    s.let(name, ["method", ["name", "world.W"], "event", [reads(name)]]); s.ok(name, 'reading goes on')
  w.reads = reads
  return w, event


def scenario(s, concrete=history):
  """Any reception, an execution with any reception during it, any reception, another execution, any reception."""
  G = s.G; it = s.it
  if not G.symbolic: return concrete(s)
  skip = bool(G.choice('skip', 2)); ear = bool(G.choice('ear', 2)); boots = bool(G.choice('boots', 2))
  w, event = world(s, skip, ear, boots); reads = w.reads
  def execute(k):
    b = G.bool('connected' + k); w.connected['at_write' + k] = w.connected['wait' + k] = G.val(b)
    s.let('c' + k, ["setattr", M, "connected", b])
    t = G.int('tag' + k, 0, 255); d = G.int('timeout' + k, 0, TOP)
    s.let('_b' + k, ["method", ["leaf", "ctl"], "begin", [["leaf", "timeout" + k], num(k), ["leaf", "tag" + k]]])
    s.let('r' + k, ["call", ["name", "world.execute"], [["call", ["name", CMD], [], {"actions": ["list", []], "tag_id": t}], d, reads('at_write' + k, G.val(t)), reads('wait' + k, G.val(t), True)]])
    s.ok('r' + k, 'a command can be executed')
    s.let('_e' + k, ["method", ["leaf", "ctl"], "end", []])
    def post(o):
      T = G.val(d); ev = [e for e in w.events if w.owner.get(e) == k and w.tags[e] is not None]
      r = o['r' + k]
      if not isinstance(r, PList) or 'at_write' + k not in w.events: return False
      if skip or bool(scmp('==', T, 0)): return not r.items and not ev
      done = sor(*[w.done[e] for e in ev])
      own = w.known['own']
      if bool(done): return same_items(r.items, [SymSeg(0, unknown, ('reads', e, own), 'obj') for e in ev])
      return sand(not r.items, 'wait' + k in w.elapsed and scmp('>=', w.elapsed['wait' + k], T))
    s.posts.append(('an execution that is completed returns exactly the responses with its tag, and one that is not returns none after its time is over', post))
  event('e0'); execute('1'); event('e1')
  if G.choice('more', 2): execute('2'); event('e2')
  s.let('stored', ["method", M, "get_unsolicited_responses_received", []]); s.let('rebooted', ["method", M, "get_rebooted_received", []])
  s.let('heard', ["attr", ["var", 'ear'], "heard"]); s.let('restarts', ["attr", ["var", 'boots'], "heard"])
  def exact(who, step):
    def post(o):
      if who in ('heard', 'boots') and who not in w.known or who == 'rebooted' and boots: return isinstance(o[step], PList) and not o[step].items
      return isinstance(o[step], PList) and same_items(o[step].items, [SymSeg(0, unknown, ('reads', e, w.known[who]), 'obj') for e in w.events])
    return post
  s.posts.append(('the stored responses are those nobody else got, in order', exact('stored', 'stored')))
  s.posts.append(('reboots are noted, and only reboots', exact('rebooted', 'rebooted')))
  s.posts.append(('the callback hears the unsolicited responses, in order, once', exact('heard', 'heard')))
  s.posts.append(('the callback for reboots hears every reboot, and nothing else', exact('boots', 'restarts')))


class Ctl(Native):
  """Ghost statements of the scenario."""
  cls_name = 'ghost'
  def m_ears(self, it, a, b): self.w.has = {'ear': a, 'boots': b}
  def m_begin(self, it, timeout, k, tag):
    w = self.w; w.timeout = timeout; w.during = ['at_write' + k, 'wait' + k]
    for e in w.during: w.owner[e] = k
    if w.skip or bool(scmp('==', timeout, 0)):
      for e in w.during: w.tags[e] = None
    w.executing = k; w.points = 0; w.phase = 'before'
  def m_end(self, it): self.w.executing = None


# ---------------------------------------------------------------- interleavings
"""Two threads. The accesses of both to what they share (attributes of the modem and what is reachable from it) are observed. Shared
and written by one of them: the conflicting ones. Shown for every read and for every message: the conflicting accesses of the read
thread lie in one critical section, of one lock. So every schedule is equivalent to one in which what the read thread does with a
message takes place at once, between two steps of the main thread, and not while that has the lock: before the main thread takes the
lock, or before one of its conflicting accesses without it. There any number of reads takes place."""


class Interleaved(Loops):
  def __init__(self):
    Loops.__init__(self)
    self.shared = {'main': set(), 'reader': set()}      # (what, 'r' or 'w', lock held by the read thread)
    self.seen = 0; self.conflicts = set(); self.locks = set()

  def learnt(self):
    """A path ends: has anything been observed that the exploration did not know?"""
    n = len(self.shared['main']) + len(self.shared['reader'])
    if n == self.seen: return
    self.seen = n
    a, b = [{rw: set(x[0] for x in s if x[1] == rw) for rw in 'rw'} for s in (self.shared['main'], self.shared['reader'])]
    self.conflicts = (a['w'] & (b['r'] | b['w'])) | (a['r'] & b['w'])
    self.locks = set(x[2] for x in self.shared['reader'] if x[0] in self.conflicts and x[2] is not None)
    raise Restart()

  def key(self, it, w, o, name):
    if isinstance(o, Obj) and o.cls.module in ('world', 'serial') and o.cls.name not in ('Event', 'Condition'): return None
    if isinstance(o, Obj) and o is not w.W.d.get('modem') and not (w.paths and id(o) in w.paths): return None
    if w.paths is None or id(o) not in w.paths:
      if not isinstance(o, (PList, PDict)): return None
      w.paths = State18(it, w).seen
      if id(o) not in w.paths: return None
    return w.paths[id(o)] + ('[]' if name is None else '.' + name)

  def touch(self, it, o, name, rw):
    """An access, before it takes place."""
    w = Ctx.cur.memo.get('world') if Ctx.cur is not None else None
    if w is None or w.ghost or not w.has or w.actor == 'main' and w.executing is None: return
    w.ghost += 1
    try:
      if w.paths is None: w.paths = State18(it, w).seen
      k = self.key(it, w, o, name)
      v = o.d.get(name) if name is not None else None
      if rw == 'w' and name is not None: w.paths = None       # what is reachable may change
      ks = [] if k is None else [k] + ([k + '[]'] if rw == 'r' and isinstance(v, (PList, PDict)) else [])
    finally: w.ghost -= 1
    for k in ks:
      x = (k, rw, w.section[1] if w.section else None) if w.actor == 'reader' else (k, rw)
      self.shared[w.actor].add(x)
      if k in self.conflicts and w.actor == 'reader': w.log.append((k, w.section))
    if w.actor == 'main' and any(k in self.conflicts for k in ks) and not self.locks & set(w.held): self.point(it, w)

  def point(self, it, w):
    """Here the read thread may go on."""
    k = w.executing; w.points += 1; e = 'p%s.%d' % (k, w.points)
    w.tags[e] = w.tags['at_write' + k] if w.phase in ('waits', 'waited') else None
    w.connected[e] = w.connected['at_write' + k]; w.owner[e] = k
    w.fired.append(e); w.during.append(e)
    it.call_method(w.W, 'event', [PList([SymSeg(1, unknown, ('reads', e), 'obj')])])

  def take(self, it, o, args):
    w = Ctx.cur.memo.get('world') if Ctx.cur is not None else None
    if w is None or not w.has or w.actor == 'main' and w.executing is None: return
    if len(args) > 1: raise Unsupported("a lock that may not be taken")
    w.ghost += 1
    try: p = State18(it, w).seen.get(id(o))
    finally: w.ghost -= 1
    if p is None: raise Unsupported("a lock that is not reachable")
    if w.actor == 'reader':
      if w.section is None: w.sections += 1; w.section = [w.sections, p, 1]
      elif w.section[1] != p: raise Unsupported("a critical section in another")
      else: w.section[2] += 1
      return
    if p in self.locks and p not in w.held:
      if self.locks & set(w.held): raise Unsupported("two locks")
      self.point(it, w)
      if w.phase == 'waited': w.phase = 'after'
    w.held.append(p)

  def give(self, it, o):
    w = Ctx.cur.memo.get('world') if Ctx.cur is not None else None
    if w is None or not w.has or w.actor == 'main' and w.executing is None: return
    w.ghost += 1
    try: p = State18(it, w).seen.get(id(o))
    finally: w.ghost -= 1
    if w.actor == 'reader':
      if w.section is None or w.section[1] != p: raise Unsupported("a lock given back that was not taken")
      w.section[2] -= 1
      if w.section[2] == 0: w.section = None
      return
    if p not in w.held: raise Unsupported("a lock given back that was not taken")
    w.held.remove(p)
    if w.phase == 'before' and p in self.locks and p not in w.held: w.phase = 'waits'

  def begin_iteration(self, it, w): w.log = []; w.section = None

  def end_iteration(self, it, w):
    if w.section is not None: raise Unsupported("a lock is held from one message to the next")
    if any(s is None for k, s in w.log): raise Unsupported("the read thread accesses %s without a lock" % [k for k, s in w.log if s is None][0])
    if len(set(s[0] for k, s in w.log)) > 1: raise Unsupported("several critical sections for one message")
    if len(self.locks) > 1: raise Unsupported("several locks")
    self.learnt()

  def end_read(self, it, w):
    if w.section is not None: raise Unsupported("a lock is held from one read to the next")
    if w.log: raise Unsupported("the read thread accesses %s outside the loop over the messages" % w.log[0][0])
    self.learnt()

  def havoc(self, it, w, what, done):
    w.ghost += 1
    try: return Loops.havoc(self, it, w, what, done)
    finally: w.ghost -= 1; w.paths = None

  def reads(self, it, w):
    a, w.actor = w.actor, 'reader'
    Loops.reads(self, it, w)
    w.actor = a

  def waits(self, it, w, n, fr, name):
    w.phase = 'waits'
    r = Loops.waits(self, it, w, n, fr, name)
    w.phase = 'waited'
    return r


def INTERLEAVED(rules):
  def install(it):
    WORLD(rules)(it)
    it.watch = lambda o, name, rw: rules.touch(it, o, name, rw)
    def take(it, f, args, kw):
      if (f.qual == 'world.RLock.acquire') == (args[0].cls.name == 'RLock'): rules.take(it, args[0], args)
      return NotImplemented
    give = it.contracts['world.Lock.release']
    def give1(it, f, args, kw):
      if (f.qual == 'world.RLock.release') == (args[0].cls.name == 'RLock'): rules.give(it, args[0])
      return NotImplemented if f.qual == 'world.RLock.release' else give(it, f, args, kw)
    for c in ('Lock', 'RLock'): it.contracts['world.%s.acquire' % c] = take; it.contracts['world.%s.release' % c] = give1
  return install


def interleaved(rules):
  def f(s):
    scenario(s, schedules)
    if s.G.symbolic:
      def known(o): rules.learnt(); return True
      s.posts.append(('what the threads share is known', known))
  return f


class Clearing(Loops):
  """The user reads and clears what is stored, at any access of the read thread to the modem while it handles a message."""
  def havoc(self, it, w, what, done):
    w.ghost += 1
    try: return Loops.havoc(self, it, w, what, done)
    finally: w.ghost -= 1
  def begin_iteration(self, it, w):
    if w.run is not None: w.got = {}; w.state = State18(it, w).seen
  def touch(self, it, o, name, rw):
    w = Ctx.cur.memo.get('world') if Ctx.cur is not None else None
    if w is None or w.ghost or w.got != {} or id(o) not in w.state or not Ctx.cur.choose(2): return
    w.ghost += 1
    try:
      got = {'stored': 'unsolicited_responses', 'rebooted': 'rebooted'}
      w.got = {r: it.call_method(w.modem, 'get_' + x + '_received', []) for r, x in got.items()}
      for x in got.values(): it.call_method(w.modem, 'clear_' + x + '_received', [])
    finally: w.ghost -= 1
  def taken(self, w, r, l):
    g = (w.got or {}).get(r)
    if g is None: return []
    if g is l or not isinstance(g, PList): raise Unsupported("what is got is cleared")
    return g.items


def CLEARING(rules):
  def install(it):
    WORLD(rules)(it)
    it.watch = lambda o, name, rw: rules.touch(it, o, name, rw)
    wait = it.contracts['world.Lock.wait']
    def blocked(it, f, args, kw):
      if Ctx.cur.memo['world'].ghost: raise PathDone()      # the user waits for the lock
      return wait(it, f, args, kw)
    it.contracts['world.Lock.wait'] = blocked
  return install


def clearing(s):
  """What is stored is read and cleared: between two receptions, and while a message is handled."""
  G = s.G; it = s.it
  if not G.symbolic: return schedules(s, 'clear')
  skip = bool(G.choice('skip', 2)); ear = bool(G.choice('ear', 2)); boots = bool(G.choice('boots', 2))
  w, event = world(s, skip, ear, boots)
  def get(n):
    for x in ('unsolicited_responses', 'rebooted'): s.let(x + n, ["method", M, "get_" + x + "_received", []], snap=True)
  event('e0'); get('0')
  for x in ('unsolicited_responses', 'rebooted'): s.let('clear' + x, ["method", M, "clear_" + x + "_received", []]); s.ok('clear' + x)
  get('1'); event('e1'); get('2')
  def exact(step, who, es):
    return lambda o: isinstance(o[step], PList) and same_items(o[step].items, [SymSeg(0, unknown, ('reads', e, w.known[who]), 'obj') for e in es if w.gets(who, e)])
  for x, who in (('unsolicited_responses', 'stored'), ('rebooted', 'rebooted')):
    for n, es in (('0', ['e0']), ('1', []), ('2', ['e1'])):
      s.posts.append(('what is read was received since the last clearing, in order', exact(x + n, who, es)))


# ---------------------------------------------------------------- the same on the real code with real threads: two executions, one interruption at any access to the modem's attributes
BEGIN, WRITTEN, LATE, END, IDLE = 1000, 2000, 3000, 4000, 5000


def judge(o, msgs, tags, skip, ear, boots, connected):
  """What one schedule may lead to: a description of what is wrong, or None."""
  hist, a, b, stored, boot, heard, restarts, dead = [getattr(x, 'items', x) for x in o]
  if dead: return 'reading goes on'
  k = -1; marks = [{}, {}]; pos = {}
  for i, x in enumerate(hist):
    if x == BEGIN: k += 1
    if BEGIN <= x <= END: marks[k].setdefault(x, i)
    elif x < BEGIN: pos[x] = i
  handled = {n: min([i for i, x in enumerate(hist) if x == IDLE and i > pos[n]] + [len(hist)]) for n in pos}
  arrived = sorted(pos, key=pos.get)
  bad = lambda l: sorted(l, key=pos.get) != l or len(set(l)) != len(l)
  got = [a, b, stored, heard]
  if any(n not in pos for l in got + [boot, restarts] for n in l): return 'only what was received is delivered'
  if any(bad(l) for l in got + [boot, restarts]): return 'in order, once'
  if (restarts if boots else boot) != [n for n in arrived if msgs[n][0] == 5] or (boot if boots else restarts): return 'reboots are noted, and only reboots'
  for n in arrived:
    t, tag, ends = msgs[n]
    where = [l for l in got if n in l]
    if len(where) > 1 or t >= 4 and where: return 'delivered to one recipient'
    if t >= 4: continue
    mine = [j for j in (0, 1) if not skip and tag == tags[j] and marks[j][BEGIN] < handled[n]]
    if not where and not any(pos[n] < marks[j][END] and not got[j] for j in mine): return 'nothing is lost'
    if where and where[0] in (a, b) and not any(where[0] is got[j] for j in mine): return 'an execution returns only the responses with its tag'
    if where and where[0] is heard and not (ear and connected) or where and where[0] is stored and ear and connected: return 'a response nobody waits for goes to the callback, or is stored'
  for j in (0, 1):
    if got[j] and not any(msgs[n][2] for n in got[j]): return 'an execution ends with its completed response'
    own = [n for n in arrived if msgs[n][0] < 4 and not skip and msgs[n][1] == tags[j] and marks[j][WRITTEN] < pos[n] < marks[j].get(LATE, 1 << 30) and pos[n] < marks[j][END]]
    last = [i for i, n in enumerate(own) if msgs[n][2]]
    if last and not set(own[:last[0] + 1]) <= set(got[j]): return 'an execution that is completed returns its responses'
  return None


def schedules(s, how=None):
  G = s.G; rng = random.Random(G.choice('seed', 1 << 30))
  skip = rng.random() < 0.1; ear = rng.random() < 0.5; boots = rng.random() < 0.4; connected = rng.random() < 0.6
  tags = [1, 2] if rng.random() < 0.8 else [1, 1]
  how = how or rng.choice(['end', 'end', 'end', 'go on', 'clear', 'main', 'main'])
  groups = [[[rng.choice([1, 1, 1, 1, 2, 3, 4, 5]), rng.choice(tags + [9, None]), rng.random() < 0.6] for _ in range(rng.choice([0, 1, 1, 2]) if i != 1 else 1)] for i in range(6)]
  msgs = [x for g in groups for x in g]
  lit = lambda x: ["none"] if x is None else num(x)
  s.let('out', ["call", ["name", "world.schedules"], [["name", MODEM], ["name", CMD], num(skip), num(ear), num(boots), num(connected), ["list", [num(t) for t in tags]],
                ["list", [["list", [["list", [num(t), lit(tag), num(e)]] for t, tag, e in g]] for g in groups]], ["lit", how]]])
  s.ok('out', 'reading and executing go on')
  def post(o):
    if not isinstance(o['out'], PList) or not o['out'].items and not skip: return False      # some interruption takes place
    for x in o['out'].items:
      r = judge(x.items, msgs, tags, skip, ear, boots, connected)
      if r is not None:
        import os
        if os.environ.get('DEBUG18'): print(r, msgs, tags, skip, ear, boots, connected, how, [getattr(y, 'items', y) for y in x.items], flush=True)
        return False
    return True
  s.posts.append(('in every schedule every message received reaches exactly one recipient', post))


def make():
  obs = []
  R = Loops()
  ob = Ob('deliveries', scenario, [MODEM + '.Modem._read_async', MODEM + '.Modem.execute_command'], uses=[WORLD(R)], timeout=200, cases=24, max_paths=60000); ob.loop_rules = {'*': R}; obs.append(ob)
  for name, fixed in [('async', {'skip': 1, 'more': 0})] + [('%d%d' % (a, b), {'skip': 0, 'ear': a, 'boots': b}) for a in (0, 1) for b in (0, 1)]:
    I = Interleaved()
    ob = Ob('interleavings.' + name, interleaved(I), [MODEM + '.Modem._read_async', MODEM + '.Modem.execute_command'], uses=[INTERLEAVED(I)], timeout=280, cases=64, max_paths=60000, fixed=fixed)
    ob.loop_rules = {'*': I}; ob.weak = True; obs.append(ob)
  C = Clearing()
  ob = Ob('clearing', clearing, [MODEM + '.Modem._read_async', MODEM + '.Modem.clear_unsolicited_responses_received', MODEM + '.Modem.clear_rebooted_received',
          MODEM + '.Modem.get_unsolicited_responses_received', MODEM + '.Modem.get_rebooted_received'], uses=[CLEARING(C)], timeout=200, cases=32)
  ob.loop_rules = {'*': C}; ob.weak = True; obs.append(ob)
  return obs
PROP = Property('C18', make, extra_src=[('@repo', 'modem'), ('@stubs', 'world,serial')], load=['serial', 'world', MODEM])
