from codecs_common import *
from codecs_lib import *
from registry import Property
def make():
  obs = [f(c, 'Addressee.' + k) for k, c in sorted(ADDR.items()) for f in (ob_build, ob_parse, ob_trunc)]
  obs += [f(c) for c in (QoSs, SessCfg, ChID, Statuses) for f in (ob_build, ob_parse, ob_trunc)]
  obs += [ob_codes(e) for e in ('d7anp.addressee.IdType', 'd7anp.addressee.NlsMethod', 'sp.qos.ResponseMode', 'sp.qos.RetryMode',)]
  return obs
PROP = Property('C03', make)
