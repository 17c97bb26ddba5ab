from serial import *
from contracts import CMD_PARSE
from libmodels import crc_spec
from registry import Property


def frame_spec(payload, ctr):
  c = crc_value(CRCNAME, payload) if not all(isinstance(x, int) for x in payload) else crc_spec([int(x) for x in payload])
  return [0xC0, 0, ctr, 1, seq_len(payload), c >> 8, c & 0xFF] + list(payload)


def any_command(G, hi):
  e, v = AnyCommand(hi=hi).gen(G, 'cmd')
  return e, v


def build(s):
  """One frame: exact bytes; the counter moves on by one modulo 256; a payload that does not fit is refused."""
  G = s.G; it = s.it
  P = make_parser(s, False, fresh=True)
  c = G.int('up_counter', 0, 255)
  s.let('_u', ["setattr", P, "up_counter", c])
  e, v = any_command(G, 1000)
  codec = AnyCommand(hi=1000)
  pay = list(codec.enc(v))
  o = s.let('o', e)
  s.let('f', ["method", P, "build_serial_frame", [o]], may_fail=True)
  s.let('u', ["attr", P, "up_counter"])
  n = seq_len(pay)
  def layout(o):
    if not o.ok('f'): return scmp('>', n, 255)
    if not isinstance(o['f'], (PBytearray, PList)) and not is_str(o['f']): return False
    return sand(scmp('<=', n, 255), same_bytes(o.it, o['f'], frame_spec(pay, G.val(c))))
  s.posts.append(('the frame is sync byte, version, counter, type, length, checksum and the payload; longer payloads are refused', layout))
  s.posts.append(('the counter increases by one modulo 256 per frame, and only then', lambda o: scmp('==', o['u'], (G.val(c) + 1) & 0xFF) if o.ok('f') else scmp('==', o['u'], G.val(c))))


def first(s):
  s.let('u', ["attr", ["call", ["name", SP], []], "up_counter"])
  s.value('u', 0, 'the first frame has counter 0')


def cmd_payload(G):
  """The bytes of some command."""
  while True:
    _, v = AnyCommand().gen(G, 'cmd'); pay = [int(x) for x in AnyCommand().enc(v)]
    G.assume(len(pay) <= 255)
    return pay


def inverse_whole(skip):
  """An empty parser that is given one frame delivers exactly the framed command."""
  def f(s):
    G = s.G; it = s.it
    P = make_parser(s, skip)
    pay = G.val(G.bytes('payload', 0, 255)) if G.symbolic else cmd_payload(G)
    c = G.val(G.int('counter', 0, 255))
    fr = G.derive('frame', frame_spec(pay, c))
    s.let('r', ["method", P, "parse", [["tobytearray", fr]]])
    s.ok('r', 'a valid frame is accepted')
    s.let('buf', ["attr", P, "buffer"])
    def post(o):
      r = o['r']; inf = info_of(r)
      if inf is None: return False
      ty, cm = (r[0], r[1])
      if not isinstance(ty, PList) or len(ty.items) != 1 or len(cm.items) != 1: return False
      return delivered_frame(o, skip, ty.items[0], cm.items[0], inf, pay, [])
    s.posts.append(('exactly the framed command is delivered, without errors, and nothing stays', post))
  return f


def delivered_frame(o, skip, ty, cm, inf, pay, rest):
  it = o.it; errs = inf.get('errors')
  if not isinstance(errs, PList) or errs.items or not isinstance(o['buf'], PBytearray): return False
  return sand(delivered_ok(it, V(skip=skip), ty, cm, None, (1, pay)), same_bytes(it, o['buf'], rest), scmp('==', inf['parsed'], (seq_len(pay) + 7) * 8))


def inverse(skip):
  """A parser whose buffer begins with a frame (whatever its counters, and whatever follows) delivers exactly the framed command."""
  def f(s):
    G = s.G; it = s.it
    P = make_parser(s, skip)
    if G.symbolic:
      w = G.bytes('received', 7, TOP); st = Stream(it, G.val(w), skip)
      G.assume(sand(st.full(0), *[scmp('==', st.at(i), x) for i, x in ((0, 0xC0), (1, 0), (3, 1))]))
      pay = st.payload(0); n = st.len(0)
      G.assume(st.crcok(0))
      rest = [st.seg.slice(7 + n, st.N - 7 - n)]
    else:
      pay = cmd_payload(G); rest = G.val(G.bytes('tail', 0, 60))
      w = G.derive('received', frame_spec(pay, G.val(G.int('counter', 0, 255))) + list(rest))
    s.let('_b', ["setattr", P, "buffer", ["tobytearray", w]])
    s.let('r', ["method", P, "parse_one_command_from_buffer", []])
    s.ok('r', 'a valid frame is accepted')
    s.let('buf', ["attr", P, "buffer"])
    def post(o):
      r = o['r']; inf = info_of(r)
      return inf is not None and delivered_frame(o, skip, r[0], r[1], inf, pay, rest)
    s.posts.append(('exactly the framed command is delivered, without errors, and what follows stays', post))
  return f


def step(s):
  """received: a frame with the bytes of some command, then anything. The built frame is that frame; the parser delivers that command."""
  G = s.G; it = s.it
  w = G.bytes('received', 7, TOP); st = Stream(it, G.val(w), False)
  B = make_parser(s, False, 'B'); P = make_parser(s, False)
  c = G.int('up_counter', 0, 255)
  s.let('_u', ["setattr", B, "up_counter", c])
  G.assume(sand(st.full(0), *[scmp('==', st.at(i), x) for i, x in ((0, 0xC0), (1, 0), (2, G.val(c)), (3, 1))]))
  G.assume(st.crcok(0))
  pay = st.payload(0); n = st.len(0); rest = [st.seg.slice(7 + n, st.N - 7 - n)]
  it.ghost_command = pay
  s.let('f', ["method", B, "build_serial_frame", [["call", ["name", AnyCommand.path], [], {"actions": ["list", []], "generate_tag_request_action": ["lit", False]}]]])
  s.ok('f', 'a command is framed')
  s.posts.append(('the built frame is the received one', lambda o: same_bytes(o.it, o['f'], [st.at(i) for i in range(7)] + pay)))
  s.let('_b', ["setattr", P, "buffer", ["tobytearray", w]])
  s.let('r', ["method", P, "parse_one_command_from_buffer", []]); s.ok('r', 'the frame is accepted')
  s.let('buf', ["attr", P, "buffer"])
  def post(o):
    r = o['r']; inf = info_of(r)
    return inf is not None and delivered_frame(o, False, r[0], r[1], inf, pay, rest)
  s.posts.append(('the framed command is delivered next, without errors, and what follows stays', post))


def many(s):
  """Framing commands one after the other and parsing them: the step of the induction over the frames is that of a frame built by one
  parser, received by another one before anything else (that parse goes on as long as something is delivered: C13 all). Executed: whole
  sequences."""
  G = s.G; it = s.it
  if G.symbolic: return step(s)
  rng = random.Random(G.val(G.int('seed', 0, 1 << 30)))
  n = rng.choice([1, 2, 3, 5, 8, 20, 40])
  start = rng.choice([0, 0, 250, 255, rng.randrange(256)])
  B = s.let('B', ["call", ["name", SP], []])
  if start: s.let('_u', ["setattr", B, "up_counter", ["lit", start]])
  P = s.let('P', ["call", ["name", SP], []])
  pays = []; parts = []; frames = []
  for i in range(n):
    kind = rng.randrange(3)
    d = [rng.choice([0xC0, 0, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 5, 30, 200]))]
    fid = rng.randrange(0x40, 256)
    ln = [len(d)] if len(d) < 64 else [0x40, len(d)]
    pay = [4, fid, 0] + ln + d if kind else [1, fid, 0] + ln
    arg = ["call", ["name", "d7a.alp.command.Command"], [], {"actions": ["list", [["call", ["name", "d7a.alp.regular_action.RegularAction"], [], {"operation":
          ["call", ["name", "d7a.alp.operations.write_operations.WriteFileData"], [], {"operand": ["call", ["name", "d7a.alp.operands.file.Data"], [], {"data": ["intlist", d],
            "offset": ["call", ["name", "d7a.alp.operands.offset.Offset"], [], {"id": ["lit", fid]}]}]}]
          if kind else ["call", ["name", "d7a.alp.operations.requests.ReadFileData"], [], {"operand": ["call", ["name", "d7a.alp.operands.file.DataRequest"], [], {"length": ["lit", len(d)],
            "offset": ["call", ["name", "d7a.alp.operands.offset.Offset"], [], {"id": ["lit", fid]}]}]}]}]]], "generate_tag_request_action": ["lit", False]}]
    pays.append(pay)
    k = 'f%d' % i
    frames.append(["var", k])
    s.let(k, ["method", B, "build_serial_frame", [arg]]); s.ok(k, 'a command is framed')
    s.bytes_eq(k, frame_spec(pay, (start + i) % 256), 'every frame has the specified bytes')
  s.let('r', ["method", P, "parse", [["tobytearray", ["concat", frames]]]]); s.ok('r', 'the frames are accepted')
  s.let('buf', ["attr", P, "buffer"])
  def post(o):
    r = o['r']; st = V(skip=False)
    return len(r[1].items) == n and len(r[0].items) == n and all(bool(delivered_ok(it, st, t, c, None, (1, p))) for t, c, p in zip(r[0].items, r[1].items, pays)) and not o['buf'].items and not info_of(r)['errors'].items
  s.posts.append(('the parser delivers the framed commands, in order, without errors', post))
import random


def make():
  obs = [Ob('build', build, [SP + '.build_serial_frame'], uses=[CMD_ITER, CALC_CRC], timeout=120, cases=80), Ob('build.first', first, [SP + '.__init__'])]
  F = [SP + '.' + x for x in ('parse_one_command_from_buffer', 'parse_serial_interface_header', 'parse_alp_command', 'shift_buffer')]
  for skip in (False, True):
    m = 'raw' if skip else 'alp'
    obs.append(Ob('inverse.' + m, inverse(skip), F, uses=[CALC_CRC, CMD_PARSE], timeout=120, cases=80))
    obs.append(Ob('inverse.whole.' + m, inverse_whole(skip), F + [SP + '.parse', SP + '.parse_buffer'], uses=[CALC_CRC, CMD_PARSE], timeout=120, cases=80))
  obs.append(Ob('sequences', many, [SP + '.build_serial_frame', SP + '.parse'], uses=[CMD_ITER, CMD_PARSE, CALC_CRC], timeout=120, cases=240, note='step of the induction over the frames; executed for whole sequences'))
  return obs
PROP = Property('C12', make)
