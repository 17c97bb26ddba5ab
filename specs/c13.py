from serial import *
from registry import Property

ONE = ['parse_one_command_from_buffer', 'parse_serial_interface_header', 'parse_alp_command', 'skip_bad_buffer_content', 'shift_buffer']


def received_whole(skip):
  """parse(msg): what was left, then msg, is taken message by message until none can be delivered; each is returned once and in order."""
  def f(s):
    G = s.G; it = s.it
    w = received(G)
    n = G.int('left', 0, TOP)
    W = G.val(w)
    G.assume(scmp('<=', G.val(n), seq_len(W)))
    P = make_parser(s, skip)
    cut = G.val(n)
    a = G.derive('before', bt.slice_items(it, W, SliceV(0, cut, None)))
    b = G.derive('msg', bt.slice_items(it, W, SliceV(cut, None, None)))
    s.let('_b', ["setattr", P, "buffer", ["tobytearray", a]])
    if G.symbolic: Ctx.cur.memo['stream'] = Stream(it, W, skip)
    s.let('r', ["method", P, "parse", [["tobytes", b]]]); s.ok('r', 'the parser raises nothing')
    s.let('buf', ["attr", P, "buffer"])
    s.posts.append(('every delivered message is returned once, in order, and the rest stays in the buffer', lambda o: whole_post(o, G, w, skip)))
  return f


def whole_post(o, G, w, skip):
  if G.symbolic: return buffer_post(o)
  it = o.it; r = o['r']
  st = Stream(it, [int(x) for x in G.val(w)], skip)
  ds, p = st.deliveries()
  if not isinstance(r, tuple) or len(r) != 3 or len(r[0].items) != len(ds) or len(r[1].items) != len(ds): return False
  for t, c, d in zip(r[0].items, r[1].items, ds):
    if not bool(delivered_ok(it, st, t, c, None, d)): return False
  inf = info_of(r)
  return isinstance(o['buf'], PBytearray) and o['buf'].items == st.items[p:] and inf is not None and inf['parsed'] == sum(8 * (7 + len(d[1])) for d in ds)


def chunks(skip):
  """The same bytes in any chunks: the same messages, the same rest. By one and all, a call with the rest W[a:n] delivers the message at
  the first position k in a..n that is not bad, if it is ok, and goes on behind it; else W[k:n] stays. Step of the induction over the
  deliveries, for any n <= N: the first position as of N bytes is the same, with the same message, if a message was delivered as of n
  bytes; else nothing between a and k is ever delivered, and what is decided from k on is what is decided from a on. (Executed: random
  streams, random chunks.)"""
  def f(s):
    G = s.G; it = s.it
    if G.symbolic: return step(s, skip)
    w = received(G, maxn=120)
    W = [int(x) for x in G.val(w)]
    P = make_parser(s, skip)
    mode = G.choice('cuts', 3)
    rng = random.Random(G.val(G.int('cutseed', 0, 1 << 20)))
    pos = 0; names = []
    while pos < len(W) or not names:
      n = 1 if mode == 0 else rng.randrange(0, 9) if mode == 1 else rng.randrange(0, len(W) + 1)
      c = W[pos:pos + n]; pos += n
      k = 'r%d' % len(names); names.append(k)
      s.let(k, ["method", P, "parse", [["tobytes", ["intlist", c]]]])
      s.ok(k, 'the parser raises nothing')
    s.let('buf', ["attr", P, "buffer"])
    def post(o):
      st = Stream(it, W, skip)
      ds, p = st.deliveries()
      ts = [t for k in names for t in o[k][0].items]; cs = [c for k in names for c in o[k][1].items]
      if len(ts) != len(ds) or len(cs) != len(ds): return False
      return all(bool(delivered_ok(it, st, t, c, None, d)) for t, c, d in zip(ts, cs, ds)) and o['buf'].items == W[p:]
    s.posts.append(('delivered messages do not depend on how the stream was cut', post))
  return f


def step(s, skip):
  G = s.G; it = s.it
  st = Stream(it, G.val(G.bytes('received', 0, TOP)), skip)
  a, k, n, K, K2 = [G.val(G.int(x, 0, TOP)) for x in ('a', 'k', 'n', 'K', 'K2')]
  pre = st.prefix(n)
  def first(x, y, stream, at):     # y is the first position from x on that is not bad (its definition, at one position)
    G.assume(sand(scmp('<=', x, y), scmp('<=', y, stream.N), sor(scmp('==', y, stream.N), snot(stream.bad(y)))))
    for j in at: G.assume(simplies(sand(scmp('<=', x, j), scmp('<', j, y)), stream.bad(j)))
  G.assume(scmp('<=', n, st.N))
  first(a, k, pre, (K,)); first(a, K, st, (k, K2)); first(k, K2, st, (K,))
  s.let('x', ["lit", 0])
  delivered = sand(scmp('<', k, n), pre.ok(k))
  s.posts.append(('a message that is delivered is delivered whatever arrives later: the same, next', lambda o: simplies(delivered, sand(scmp('==', K, k), st.ok(k), scmp('<=', k + 7 + st.len(k), n)))))
  s.posts.append(('what was not decided is decided as if it had arrived at once', lambda o: simplies(snot(delivered), scmp('==', K, K2))))


def lemma(what, skip):
  """Lemmas over the contract: positions keep their meaning when more bytes arrive."""
  def f(s):
    G = s.G; it = s.it
    if not G.symbolic: raise Reject()
    w = G.bytes('received', 0, TOP)
    st = Stream(it, G.val(w), skip)
    n = G.val(G.int('n', 0, TOP)); p = G.val(G.int('p', 0, TOP))
    G.assume(scmp('<=', n, st.N)); G.assume(scmp('<', p, n))
    pre = st.prefix(n)
    s.let('x', ["lit", 0])
    s.posts.append((what, lambda o: simplies(pre.bad(p), st.bad(p)) if what.startswith('a byte') else simplies(pre.ok(p), st.ok(p)) if what.startswith('a frame')
                    else sand(snot(sand(st.bad(p), st.ok(p))), simplies(st.ok(p), sand(st.full(p), st.crcok(p))))))
  return f
from vc import Reject
import random

LEMMAS = {'monotone.bad': 'a byte that cannot start a frame never will, whatever arrives later', 'monotone.ok': 'a frame that can be delivered stays the same frame, whatever arrives later',
          'sound.ok': 'no position is both; a deliverable frame is complete and its checksum matches'}


def make():
  obs = []
  for skip in (False, True):
    m = 'raw' if skip else 'alp'
    ob = Ob('one.' + m, one(skip), [SP + '.' + x for x in ONE], timeout=300, max_paths=20000, uses=[CALC_CRC, ALP_PARSE], cases=400)
    ob.loop_rules = {SP + '.parse_one_command_from_buffer': OneLoop()}
    obs.append(ob)
    ob = Ob('all.' + m, received_whole(skip), [SP + '.' + x for x in ('parse', 'parse_buffer')], timeout=120, max_paths=4000, uses=[PARSE_ONE(skip)], cases=400)
    ob.loop_rules = {SP + '.parse_buffer': BufferLoop()}
    obs.append(ob)
    for k, t in sorted(LEMMAS.items()): obs.append(Ob('lemma.%s.%s' % (k, m), lemma(t, skip), [], cases=0))
    obs.append(Ob('chunks.' + m, chunks(skip), [SP + '.parse'], timeout=120, cases=600, note='step of the induction over deliveries, from the contracts proved by one and all; executed for random streams in random chunks'))
  return obs
PROP = Property('C13', make)
