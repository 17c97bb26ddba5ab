from codecs_common import *
from codecs_lib import *
from registry import Property
def make():
  return [f(c) for c in (Lengths, Offsets) for f in (ob_build, ob_parse, ob_trunc)]
PROP = Property('C02', make)
