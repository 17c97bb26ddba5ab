from codecs_common import *
from codecs_lib import *
from registry import Property

BANDS = ['BAND_433', 'BAND_868', 'BAND_915']
CODINGS = ['PN9', 'FEC_PN9', 'CW']


def name_roundtrip(c, wrap):
  """The text of a channel, read back, is the same channel."""
  def f(s):
    G = s.G
    eh, vh = G_fixed(ChHeader, G, 'h', {}, {'channel_band': BANDS, 'channel_coding': CODINGS}, {})
    if wrap:
      ei, vi = Int(0, 0xFFFF).gen(G, 'index')
      e, v = ["call", ["name", ChID.path], [], {"channel_header": eh, "channel_index": ei}], V(codec=ChID, channel_header=vh, channel_index=vi)
    else: e, v = eh, vh
    o = s.let('o', e); s.ok('o')
    t = s.let('t', ["str", o]); s.ok('t', 'a channel has a text')
    s.let('p', ["method", ["name", c.path], "from_string", [t]]); s.ok('p', 'the text of a channel is read back')
    s.same('p', c, v, label='the text read back gives the same channel')
  return f


def make():
  obs = []
  for c in (ChHeader, ChID, ChStatus, SubBands): obs += [ob_build(c), ob_parse(c), ob_trunc(c)]
  obs.append(Ob('ChannelHeader.name', name_roundtrip(ChHeader, False), [ChHeader.path + '.__str__', ChHeader.path + '.from_string']))
  obs.append(Ob('ChannelID.name', name_roundtrip(ChID, True), [ChID.path + '.__str__', ChID.path + '.from_string']))
  obs += [ob_codes(e) for e in ('phy.channel_header.ChannelCoding', 'phy.channel_header.ChannelClass', 'phy.channel_header.ChannelBand', 'phy.channel_status_identifier.Bandwidth',)]
  return obs
PROP = Property('C09', make)
