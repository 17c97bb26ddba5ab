"""The serial frame layer: what a received byte stream means (spec predicates), loop invariants and contracts."""
from codecs_common import *
from codecs_lib import *
from contracts import AnyCommand, CMD_ITER
from libmodels import BitStream, crc_value, mod
from vc import PathDone, Restart, prove
from interp import Opaque

SP = 'd7a.serial_modem_interface.parser.Parser'
PARSE = 'd7a.alp.parser.Parser.parse'
CRCNAME = 'crc-ccitt-false'
TOP = 1 << 20


def CALC_CRC(it):
  """calculate_crc(bytes): the two bytes of the CRC of the specification, most significant first (discharged by C14)."""
  def con(it, f, args, kw):
    v = args[0] if args else list(kw.values())[0]
    try: items = bt.byte_items(it, v)
    except PyRaise: return NotImplemented
    c = crc_value(CRCNAME, items)
    return PList([c >> 8, c & 0xFF])
  it.contracts['d7a.support.Crc.calculate_crc'] = con


# ---------------------------------------------------------------- the meaning of a byte stream
class Stream(object):
  """The bytes received so far, and what each position means.

  frame at p: C0 00 counter type length crc1 crc2 payload. A position is bad (can never start a deliverable frame),
  ok (starts a complete and deliverable one) or waiting (more bytes are needed to tell)."""
  def __init__(self, it, items, skip):
    self.it = it; self.skip = skip
    if len(items) == 1 and isinstance(items[0], SymSeg):
      x = items[0]; self.seg = x; self.N = x.length; self.base = x.base
      assert x.base is not None
    else:
      self.seg = None; self.items = list(items); self.N = len(items); self.base = None
    self._alp = {}

  def prefix(self, n):
    """The same stream when only its first n bytes have arrived."""
    o = Stream.__new__(Stream); o.__dict__.update(self.__dict__); o.N = n
    return o

  def at(self, i):
    if self.seg is not None: return self.seg.at(i)
    return self.items[i] if 0 <= i < len(self.items) else 0

  def b(self, p, i): return self.at(p + i)
  def len(self, p): return self.b(p, 4)

  def part(self, p, n):
    if self.seg is not None: return [self.seg.slice(p, n)]
    return self.items[p:p + n]

  def payload(self, p): return self.part(p + 7, self.len(p))

  def full(self, p):
    return sand(scmp('<=', p + 7, self.N), scmp('<=', p + 7 + self.len(p), self.N))

  def crcok(self, p):
    c = crc_value(CRCNAME, self.payload(p))
    return scmp('==', c, (sinty(self.b(p, 5)) << 8) | sinty(self.b(p, 6)))

  def content(self, p):
    """The payload can be delivered: a reboot reason is there, an ALP command is well formed."""
    t, n = self.b(p, 3), self.len(p)
    reboot, log = scmp('==', t, 5), scmp('==', t, 4)
    if reboot is True: return scmp('>=', n, 1)
    alp = True if self.skip else self.alp_ok(p)
    r = sor(log, sand(snot(reboot), alp), sand(reboot, scmp('>=', n, 1)))
    return r

  def alp_ok(self, p):
    if self.seg is not None: return alp_ok_sym(self.seg.slice(p + 7, self.len(p)))
    return alp_ok_real(self.it, self.payload(p))

  def head_bad(self, p):
    return sor(scmp('!=', self.b(p, 0), 0xC0), sand(scmp('<', p + 1, self.N), scmp('!=', self.b(p, 1), 0)))

  def bad(self, p):
    if self.seg is None and not bool(self.head_bad(p)) and not bool(self.full(p)): return False
    return sor(self.head_bad(p), sand(self.full(p), snot(sand(self.crcok(p), self.content(p)))))

  def ok(self, p):
    if self.seg is None and not bool(self.full(p)): return False
    return sand(snot(self.head_bad(p)), self.full(p), self.crcok(p), self.content(p))

  def wait(self, p): return sand(snot(self.bad(p)), snot(self.ok(p)))

  # -- concrete: the deliveries of the whole stream
  def deliveries(self):
    out = []; p = 0
    while p < self.N:
      if bool(self.bad(p)): p += 1; continue
      if not bool(self.ok(p)): break
      out.append((int(self.b(p, 3)), [int(x) for x in self.payload(p)])); p += 7 + int(self.len(p))
    return out, p


def alp_fun(base): return z3.Function('alp_ok!' + base, z3.BitVecSort(40), z3.BitVecSort(40), z3.BoolSort())


def alp_ok_sym(seg):
  v = SBool(alp_fun(seg.base)(to_bv(sinty(seg.off), 40), to_bv(sinty(seg.length), 40)))
  e = simplies(scmp('==', seg.length, 0), v)
  if e is not True: Ctx.cur.assume(as_z3bool(e))
  return v


_ALP = {}
def alp_ok_real(it, items):
  """Whether the ALP parser accepts these bytes (the engine runs the real source)."""
  k = bytes(int(x) for x in items)
  if k not in _ALP:
    try:
      s = it.call(it.import_module('bitstring').dict['ConstBitStream'], [], {'bytes': PBytearray(list(k))})
      it.call_method(it.call(it.get('d7a.alp.parser.Parser'), [], {}), 'parse', [s, len(k)], {})
      _ALP[k] = True
    except PyRaise: _ALP[k] = False
  return _ALP[k]


RAISED = [('bitstring', 'ReadError', ()), ('d7a', 'd7a.parse_error.ParseError', ('text',)), ('', 'AssertionError', ()), ('', 'ValueError', ('text',)),
          ('', 'TypeError', ('text',)), ('', 'AttributeError', ('text',)), ('', 'KeyError', (34,)), ('', 'IndexError', ()), ('', 'NotImplementedError', ())]


def ALP_PARSE(it):
  """AlpParser.parse(s, n) on a stream of exactly n bytes: a command with these bytes when they are well formed (alp_ok, a
  function of the bytes), else some exception; nothing else is touched. Discharged by C05 and C20."""
  def con(it, f, args, kw):
    a = list(args) + [kw[k] for k in ('s', 'cmd_length') if k in kw]
    if len(a) != 3 or not isinstance(a[1], BitStream) or not is_intlike(a[2]): return NotImplemented
    s, n = a[1], sinty(a[2])
    prove('the ALP parser is given a stream of exactly the payload of the frame', sand(scmp('==', s.p_pos(it), 0), scmp('==', seq_len(s.all), n)))
    data = list(s.all)
    segs = [x for x in data if isinstance(x, SymSeg)]
    if data and not (len(data) == 1 and segs and segs[0].base is not None):
      return NotImplemented
    if not data or bool(alp_ok_sym(segs[0])):
      c = it.call(it.get('d7a.alp.command.Command'), [], {'actions': PList([]), 'generate_tag_request_action': False})
      c.d['#bytes'] = data
      return c
    m, name, ar = RAISED[Ctx.cur.choose(len(RAISED))]
    if m == 'bitstring': cls = it.import_module('bitstring').dict[name]
    elif m: cls = it.get(name)
    else: cls = it.exc_classes[name]
    it.throw(cls, *ar)
  it.contracts[PARSE] = con


# ---------------------------------------------------------------- state of a parser object
def parser_of(it, fr):
  ps = [v for v in fr.locals.values() if isinstance(v, Obj) and v.cls is it.get(SP)]
  if not ps: raise Unsupported("no parser object in the loop")
  return ps[0]


def offset_in(st, items):
  """The position at which these bytes continue the stream up to its end; None when they are something else."""
  items = bt.merge_runs([x for x in items if not (isinstance(x, SymSeg) and isinstance(x.length, int) and x.length == 0)])
  if not items: return st.N, True
  if len(items) != 1 or not isinstance(items[0], SymSeg) or items[0].base != st.base: return None, False
  x = items[0]
  return x.off, scmp('==', x.off + x.length, st.N)


def deep_locals(fr): return dict(fr.locals)


def opaque_run(name):
  n = Ctx.cur.fresh_int(name + '#', 0, TOP)
  return SymSeg(n, lambda i: Opaque(name), ('opaque', name), 'obj')


def fresh_counters(it, o, keep=('up_counter',)):
  """Counters of the parser: any value they can have."""
  for k in sorted(o.d):
    v = o.d[k]
    if k in keep or isinstance(v, (bool, SBool)) or not is_intlike(v): continue
    o.d[k] = Ctx.cur.fresh_int(k, 0, 255 if k == 'down_counter' else (1 << 31))


def counters_ok(it, o):
  v = o.d.get('down_counter')
  if v is not None: prove('the down counter stays a byte', sand(scmp('>=', v, 0), scmp('<=', v, 255)))


class OneLoop(object):
  """Loop rule of parse_one_command_from_buffer: at the loop head the buffer is W[k:], every position before k is bad,
  no command has been found, and the errors are any list."""
  portable = True
  def __init__(self): self.stale = set()

  def __call__(self, it, n, fr, items=None):
    c = Ctx.cur
    if items is not None or c is None: return NotImplemented
    st = c.memo.get('stream')
    if st is None or 'k' in c.memo: raise Unsupported("a second loop")
    o = parser_of(it, fr)
    off, ok = offset_in(st, o.d['buffer'].items)
    if off is None or ok is not True and c.feasible(z3.Not(as_z3bool(ok))): raise Unsupported("buffer at the loop head is not the received bytes")
    prove('at the first iteration the buffer is all of what was received', scmp('==', off, 0))
    k = c.fresh_int('k', 0, TOP); j = c.fresh_int('j', 0, TOP)
    c.assume(as_z3bool(scmp('<=', k, st.N)))
    c.memo['k'] = k; c.memo['j'] = j
    c.assume(as_z3bool(simplies(scmp('<', j, k), st.bad(j))))
    o.d['buffer'] = PBytearray([st.seg.slice(k, st.N - k)])
    fresh_counters(it, o)
    for x, v in sorted(fr.locals.items()):
      if isinstance(v, PList) and not v.items: v.items = [opaque_run(x)]
      if x in self.stale: fr.locals[x] = Opaque('value of an earlier iteration')
    head = dict(fr.locals); buf = o.d['buffer']
    if not it.truth(it.ev(n.test, fr)): return None
    r = it.exec_block(n.body, fr)
    if r == 'b': return None
    if r not in ('c', None): return r
    if not it.truth(it.ev(n.test, fr)): return None
    for x in list(fr.locals):
      if x in head and x not in self.stale and not unchanged(head[x], fr.locals[x]):
        self.stale.add(x); raise Restart()
    off, ok = offset_in(st, o.d['buffer'].items)
    if off is None: raise Unsupported("buffer after an iteration is not a rest of what was received")
    bt.instantiate(st.base, j)
    prove('every iteration drops bytes (the loop ends)', sand(ok, scmp('>', off, k), scmp('<=', off, st.N)))
    prove('only bytes that cannot start a frame are dropped', dropped_bad(st, k, j, off))
    counters_ok(it, o)
    raise PathDone()


def dropped_bad(st, k, j, off):
  """Every position before off is bad: those before k by the invariant, k itself, and any j between them because of its first bytes."""
  return sand(simplies(scmp('<', k, off), st.bad(k)), simplies(sand(scmp('<', k, j), scmp('<', j, off)), st.head_bad(j)))


def unchanged(a, b):
  if a is b: return True
  if isinstance(a, (bool, int, str, type(None))) and isinstance(b, (bool, int, str, type(None))): return type(a) is type(b) and a == b
  return False


# ---------------------------------------------------------------- generation of received bytes
def random_stream(it, rng, maxn=90):
  """Valid frames, corrupted and truncated ones, and garbage, one after the other."""
  from libmodels import crc_spec
  def frame(payload, t, ctr=None, bad=0):
    c = crc_spec(payload, 0x1021, 0xFFFF)
    f = [0xC0, 0, rng.randrange(256) if ctr is None else ctr, t, len(payload), c >> 8, c & 255] + payload
    if bad == 1 and len(f) > 7: f[rng.randrange(7, len(f))] ^= 1 << rng.randrange(8)
    elif bad == 2: f[rng.choice([5, 6])] ^= 1 << rng.randrange(8)
    elif bad == 3: f[4] = (f[4] + rng.choice([1, 2, 3, 250, 255])) % 256
    elif bad == 4: f = f[:rng.randrange(1, len(f))]
    elif bad == 5: f[1] = rng.choice([1, 0xC0, 255])
    return f
  def payload(t):
    m = rng.random()
    if t == 4: return [rng.choice([0xC0, 0, 10, 65, 127, 200]) for _ in range(rng.randrange(0, 9))]
    if t == 5: return [rng.randrange(256) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    good = [[1, rng.randrange(256), rng.randrange(64), rng.randrange(64)], [32, rng.randrange(0x40, 256), 0, 2, rng.choice([0xC0, 0, 255]), rng.randrange(256)], [35, rng.randrange(256)],
            [0xA3, rng.randrange(256)], [0xB4, rng.randrange(256)], [], [50, 1], [0x62, 0xD7, 0], [4, 0x40, 0, 7, 0xC0, 0, 0, 1, 0, 255, 255]]
    bads = [[1, 2], [0], [2, 1], [34, 0], [35], [0x62, 0, 0], [52], [32, 0x40, 0, 9, 1], [50, 0xD7], [0x62, 0xD7, 5, 1, 2, 3], [9, 0], [50, 0], [0x23, 1, 0x23, 2], [0x74, 1], [178, 1], [1, 0x40, 0xC0]]
    if m < 0.6: return list(rng.choice(good))
    if m < 0.75: return rng.choice(good[:4]) + rng.choice(good[5:])
    if m < 0.97: return list(rng.choice(bads))
    return [rng.randrange(256) for _ in range(rng.randrange(0, 12))]
  w = []
  while True:
    t = rng.choice([1, 1, 1, 1, 1, 4, 5, rng.choice([2, 3, 0, 6, 255])])
    m = rng.random()
    if m < 0.62: w += frame(payload(t), t)
    elif m < 0.78: w += frame(payload(t), t, bad=rng.randrange(1, 6))
    elif m < 0.9: w += [rng.choice([0xC0, 0, 0xC0, 1, 255, rng.randrange(256)]) for _ in range(rng.randrange(1, 8))]
    else: w += [0xC0] * rng.randrange(1, 4)
    if len(w) > maxn or rng.random() < 0.22: return w


def received(G, name='received', maxn=90):
  return G.bytes_like(name, 0, TOP, lambda rng: random_stream(G.it, rng, maxn))


def make_parser(s, skip, name='P', fresh=False):
  G = s.G
  P = s.let(name, ["call", ["name", SP], [], {"skip_alp_parsing": ["lit", skip]}])
  if not fresh:
    s.let(name + '_d', ["setattr", P, "down_counter", G.int(name + '.down', 0, 255)])
    s.let(name + '_e', ["setattr", P, "error_counter", G.int(name + '.err', 0, 1 << 20)])
  return P


def delivered_ok(it, st, t, cmd, p, want=None):
  """The delivered (type, command) is that of the frame at p (or of the given type and payload)."""
  ty, pay = (st.b(p, 3), st.payload(p)) if want is None else want
  r = scmp('==', t, ty) if is_intlike(t) and not isinstance(t, (bool, SBool)) else False
  if r is False or (r is not True and not bool(r)): return False
  if bool(scmp('==', ty, 5)):
    if not is_intlike(cmd) or isinstance(cmd, (bool, SBool)): return False
    return scmp('==', cmd, st.at(p + 7) if want is None else pay[0])
  if bool(scmp('==', ty, 4)) or st.skip:
    if not is_str(cmd): return False
    return items_same(it, bt.byte_items(it, cmd), pay)
  if not isinstance(cmd, Obj) or cmd.cls is not it.get('d7a.alp.command.Command'): return False
  if '#bytes' in cmd.d: return items_same(it, cmd.d['#bytes'], pay)
  return same_tree(it, cmd, real_command(it, pay))


from interp import is_str
_CMDS = {}
def real_command(it, items):
  s = it.call(it.import_module('bitstring').dict['ConstBitStream'], [], {'bytes': PBytearray([int(x) for x in items])})
  return it.call_method(it.call(it.get('d7a.alp.parser.Parser'), [], {}), 'parse', [s, len(items)], {})


def same_tree(it, a, b, seen=None):
  """Structural equality of concrete objects."""
  seen = seen or set()
  if (id(a), id(b)) in seen: return True
  seen = seen | {(id(a), id(b))}
  if isinstance(a, Obj) or isinstance(b, Obj):
    if not (isinstance(a, Obj) and isinstance(b, Obj)) or a.cls is not b.cls: return False
    if a.cls.is_enum: return a.d['name'] == b.d['name']
    ka, kb = set(a.d), set(b.d)
    return ka == kb and all(same_tree(it, a.d[k], b.d[k], seen) for k in ka)
  if isinstance(a, (PList, PBytearray)) and isinstance(b, (PList, PBytearray)):
    return type(a) is type(b) and len(a.items) == len(b.items) and all(same_tree(it, x, y, seen) for x, y in zip(a.items, b.items))
  if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_tree(it, x, y, seen) for x, y in zip(a, b))
  if isinstance(a, PDict) and isinstance(b, PDict): return len(a.d) == len(b.d)
  if isinstance(a, ClassV) or isinstance(b, ClassV): return a is b
  if isinstance(a, Opaque) or isinstance(b, Opaque): return True
  return type(a) is type(b) and a == b or (is_intlike(a) and is_intlike(b) and a == b) or (is_str(a) and is_str(b) and str(a) == str(b))


# ---------------------------------------------------------------- contract of parse_one_command_from_buffer
def one(skip):
  def f(s):
    G = s.G; it = s.it
    w = received(G)
    P = make_parser(s, skip)
    s.let('_b', ["setattr", P, "buffer", ["tobytearray", w]])
    if G.symbolic:
      st = Stream(it, G.val(w), skip); Ctx.cur.memo['stream'] = st
    s.let('r', ["method", P, "parse_one_command_from_buffer", []]); s.ok('r', 'the parser raises nothing')
    s.let('buf', ["attr", P, "buffer"])
    s.let('cnt', ["attr", P, "down_counter"])
    s.posts.append(('the first deliverable frame is delivered, only bytes that cannot start one are dropped', lambda o: one_post(o, G, w, skip)))
    s.posts.append(('the down counter stays a byte', lambda o: sand(scmp('>=', o['cnt'], 0), scmp('<=', o['cnt'], 255))))
  return f


def info_of(r):
  d = r[2] if isinstance(r, tuple) and len(r) == 3 else None
  if not isinstance(d, PDict): return None
  return {k: v[1] for k, v in d.d.items()}


def one_post(o, G, w, skip):
  it = o.it; r = o['r']; inf = info_of(r)
  if inf is None or not isinstance(o['buf'], PBytearray): return False
  if not G.symbolic:
    st = Stream(it, [int(x) for x in G.val(w)], skip)
    k = 0
    while k < st.N and bool(st.bad(k)): k += 1
    if k < st.N and bool(st.ok(k)):
      L = int(st.len(k))
      return bool(delivered_ok(it, st, r[0], r[1], k)) and o['buf'].items == st.items[k + 7 + L:] and inf['parsed'] == 8 * (7 + L)
    return r[1] is None and o['buf'].items == st.items[k:] and inf['parsed'] == 0
  c = Ctx.cur; st = c.memo['stream']
  if 'k' not in c.memo: raise Unsupported("the receive loop was not met")
  k, j = c.memo['k'], c.memo['j']
  off, end = offset_in(st, o['buf'].items)
  if off is None: return False
  bt.instantiate(st.base, j)
  if r[1] is None:
    c.memo['outcome'] = 'none'
    return sand(end, scmp('>=', off, k), dropped_bad(st, k, j, off), sor(scmp('==', off, st.N), st.wait(off)), scmp('==', inf['parsed'], 0))
  L = st.len(k)
  return sand(end, st.ok(k), scmp('==', off, k + 7 + L), delivered_ok(it, st, r[0], r[1], k),
              scmp('==', inf['parsed'], (7 + L) * 8))


def PARSE_ONE(skip):
  """The contract proved by one(): with the buffer W[a:N], the least position k which is not bad decides."""
  def install(it):
    def con(it, f, args, kw):
      c = Ctx.cur; st = c.memo.get('stream')
      if st is None: return NotImplemented
      o = args[0]
      a, ok = offset_in(st, o.d['buffer'].items)
      if a is None: raise Unsupported("the buffer is not a rest of what was received")
      prove('the buffer is the rest of what was received', ok)
      k = c.fresh_int('at', 0, TOP)
      c.assume(as_z3bool(sand(scmp('<=', a, k), scmp('<=', k, st.N))))
      c.memo.setdefault('ones', []).append((a, k))
      fresh_counters(it, o)
      info = PDict(); c.memo['info'] = info
      def put(x, v): info.d[x] = (x, v)
      put('errors', PList([opaque_run('error records')]))
      if c.choose(2) == 0:
        c.assume_feasible(st.ok(k))
        L = st.len(k); pay = [st.seg.slice(k + 7, L)]
        o.d['buffer'] = PBytearray([st.seg.slice(k + 7 + L, st.N - k - 7 - L)])
        put('parsed', (7 + L) * 8)
        t = st.b(k, 3)
        if bool(scmp('==', t, 5)): cmd = st.at(k + 7)
        elif bool(scmp('==', t, 4)) or skip: cmd = SStr(pay).norm()
        else:
          cmd = it.call(it.get('d7a.alp.command.Command'), [], {'actions': PList([]), 'generate_tag_request_action': False})
          cmd.d['#bytes'] = pay
        res = (t, cmd, info)
      else:
        c.assume_feasible(sor(scmp('==', k, st.N), st.wait(k)))
        o.d['buffer'] = PBytearray([st.seg.slice(k, st.N - k)])
        put('parsed', 0)
        res = (Opaque('type of a message that was not delivered'), None, info)
      put('buffer', seq_len(o.d['buffer'].items) * 8)
      c.memo['last'] = res
      return res
    it.contracts[SP + '.parse_one_command_from_buffer'] = con
  return install


class BufferLoop(object):
  """Loop rule of parse_buffer: at the loop head the messages delivered so far are any run, the buffer is W[a:]."""
  def __init__(self): self.stale = set(); self.got = {}; self.need = {}

  def __call__(self, it, n, fr, items=None):
    c = Ctx.cur
    if items is not None or c is None: return NotImplemented
    st = c.memo.get('stream')
    if st is None or 'a' in c.memo: raise Unsupported("a second loop")
    o = parser_of(it, fr)
    off, ok = offset_in(st, o.d['buffer'].items)
    if off is None: raise Unsupported("buffer at the loop head is not the received bytes")
    prove('at the first iteration the buffer is all of what was received', sand(ok, scmp('==', off, 0)))
    for x, v in fr.locals.items():
      if isinstance(v, PList): prove('nothing has been delivered before the first iteration', len(v.items) == 0)
    a = c.fresh_int('a', 0, TOP); c.memo['a'] = a
    c.assume(as_z3bool(scmp('<=', a, st.N)))
    o.d['buffer'] = PBytearray([st.seg.slice(a, st.N - a)])
    fresh_counters(it, o)
    runs = {}
    for x, v in sorted(fr.locals.items()):
      if isinstance(v, PList): runs[x] = opaque_run(x); v.items = [runs[x]]
      elif is_intlike(v) and not isinstance(v, (bool, SBool)): fr.locals[x] = c.fresh_int(x, 0, 1 << 38)
      elif x in self.stale: fr.locals[x] = Opaque('value of an earlier iteration')
    c.memo['runs'] = runs; c.memo['rule'] = self
    head = dict(fr.locals)
    if not it.truth(it.ev(n.test, fr)): return None
    r = it.exec_block(n.body, fr)
    if r == 'b': return None
    if r not in ('c', None): return r
    if not it.truth(it.ev(n.test, fr)): return None
    for x in list(fr.locals):
      v = fr.locals[x]
      if x in head and x not in self.stale and not unchanged(head[x], v) and not (is_intlike(v) and is_intlike(head[x])):
        self.stale.add(x); raise Restart()
    off, ok = offset_in(st, o.d['buffer'].items)
    if off is None: raise Unsupported("buffer after an iteration")
    prove('every delivered message leaves the buffer (the loop ends)', sand(ok, scmp('>', off, a)))
    last = c.memo['last']
    if last[1] is None: prove('the loop ends when no message is left', False)
    for x, run in runs.items():
      v = fr.locals[x].items
      role = 'other'
      if v and v[0] is run and len(v) == 2:
        if v[1] is last[0]: role = 'types'
        elif v[1] is last[1]: role = 'cmds'
      self.got.setdefault(x, set()).add(role)
      if x in self.need: prove('every delivered message is returned once, in order', role == self.need[x])
    raise PathDone()


def buffer_post(o):
  """(types, commands, info): the lists are those that collect every delivery; what is left is the rest of the stream."""
  c = Ctx.cur; st = c.memo['stream']; r = o['r']
  if 'a' not in c.memo: raise Unsupported("the delivery loop was not met")
  if not isinstance(r, tuple) or len(r) != 3 or not isinstance(r[0], PList) or not isinstance(r[1], PList): return False
  rule = c.memo['rule']
  for v, role in ((r[0], 'types'), (r[1], 'cmds')):
    xs = [x for x, run in c.memo['runs'].items() if len(v.items) == 1 and v.items[0] is run]
    if not xs: return False
    rule.need[xs[0]] = role
    if xs[0] in rule.got and rule.got[xs[0]] != {role}: return False
  last = c.memo['last']
  if last[1] is not None: return False
  off, end = offset_in(st, o['buf'].items)
  if off is None: return False
  return sand(end, sor(scmp('==', off, st.N), st.wait(off)))
