from codecs_common import *
from codecs_lib import *
from codecs_lib import _AnpFrame, _AtpFrame, _FgFrame
from contracts import AnyCommand, CMD
from registry import Property


def stream(c, ftype):
  """A frame cut anywhere stays in the buffer until its remaining bytes arrive; what follows it is kept."""
  def f(s):
    G = s.G
    _, v = c.gen(G)
    enc = c.enc(v)
    k = G.val(G.int('cut', 0, 600))
    G.assume(scmp('<', k, seq_len(enc)))
    a = G.derive('first', bt.slice_items(s.it, enc, SliceV(0, k, None)))
    b = G.derive('second', bt.slice_items(s.it, enc, SliceV(k, None, None)))
    tail = G.bytes('tail', 0, 64)
    P = s.let('P', ["call", ["name", "d7a.dll.parser.Parser"], [["enum", "d7a.dll.parser.FrameType", ftype]]])
    s.let('r1', ["item", ["method", P, "parse", [["tolist", a]]], ["lit", 0]], snap=True); s.ok('r1', 'an incomplete frame is no error')
    s.let('r2', ["method", P, "parse", [["concat", [b, tail]]]]); s.ok('r2', 'the rest of a frame is accepted')
    s.let('buf', ["attr", P, "buffer"])
    s.posts.append(('an incomplete frame yields no frame', lambda o: isinstance(o['r1'], PList) and o['r1'].items == [None]))
    s.posts.append(('the completed frame has the encoded field values', lambda o: isinstance(o['r2'], tuple) and len(o['r2'][0].items) == 1 and c.same(o.it, o['r2'][0].items[0], v)))
    s.posts.append(('what follows the frame stays in the buffer', lambda o: same_bytes(o.it, o['buf'], G.val(tail))))
  return f


def make():
  obs = []
  for c in (FgControls, BgControls, BgFrames): obs += [ob_build(c), ob_parse(c), ob_trunc(c)]
  fg = _FgFrame(_AnpFrame(_AtpFrame(AnyCommand(), False)))
  fs = _FgFrame(_AnpFrame(_AtpFrame(AnyCommand(), False)), True)
  for k, t in enumerate(('broadcast', 'vid', 'uid')):
    kw = dict(uses=CMD, fixed={'target': k}, timeout=150, max_paths=20000)
    obs += [ob_build(fs, 'ForegroundFrame.' + t, **kw), ob_parse(fg, 'ForegroundFrame.' + t, **kw)]
    for agc in (0, 1):
      kw['fixed'] = {'target': k, 'd7anp_frame.d7atp_frame.has_agc': agc}
      obs.append(ob_trunc(fg, 'ForegroundFrame.%s.%s' % (t, ['noagc', 'agc'][agc]), **kw))
  F = ['d7a.dll.parser.Parser.parse', 'd7a.dll.parser.Parser.parse_one_frame_from_buffer']
  obs.append(Ob('parser.background', stream(BgFrames, 'BACKGROUND'), F))
  for o in range(3):
    fx = {'d7anp_frame.d7atp_frame.' + x: 0 for x in ('has_tl', 'has_te', 'ackreq')}
    fx.update({'d7anp_frame.d7atp_frame.start': 1, 'd7anp_frame.d7atp_frame.has_agc': 1, 'd7anp_frame.origin': o, 'target': 2 - o})
    obs.append(Ob('parser.foreground.%d' % o, stream(fg, 'FOREGROUND'), F, uses=CMD, fixed=fx, timeout=150, max_paths=20000))
  return obs
PROP = Property('C15', make)
