from codecs_common import *
from codecs_lib import *
from registry import Property
def make():
  obs = []
  for c in (Permissions, Properties, FileHeaders): obs += [ob_build(c), ob_parse(c), ob_trunc(c)]
  obs += [ob_codes(e) for e in ('fs.file_properties.ActionCondition', 'fs.file_properties.StorageClass',)]
  return obs
PROP = Property('C07', make)
