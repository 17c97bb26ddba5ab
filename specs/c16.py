from codecs_common import *
from codecs_lib import *
from codecs_lib import _AnpFrame, _AtpFrame
from contracts import AnyCommand, CMD
from registry import Property


def with_length(ob, c):
  """parse() is told how many bytes the frame has."""
  return ob


def make():
  obs = []
  for c in (AnpControls, AtpControls): obs += [ob_build(c, c.path.split('.')[1] + '.Control'), ob_parse(c, c.path.split('.')[1] + '.Control'), ob_trunc(c, c.path.split('.')[1] + '.Control')]
  atp_s, atp_p = _AtpFrame(AnyCommand(), True), _AtpFrame(AnyCommand(), False)
  obs += [ob_build(atp_s, 'd7atp.Frame', uses=CMD), ob_parse(atp_p, 'd7atp.Frame', uses=CMD, sized=True), ob_trunc(atp_p, 'd7atp.Frame', uses=CMD, sized=True)]
  anp_s, anp_p = _AnpFrame(_AtpFrame(AnyCommand(), False), True), _AnpFrame(atp_p)
  obs += [ob_build(anp_s, 'd7anp.Frame', uses=CMD), ob_parse(anp_p, 'd7anp.Frame', uses=CMD, sized=True), ob_trunc(anp_p, 'd7anp.Frame', uses=CMD, sized=True)]
  return obs
PROP = Property('C16', make)
