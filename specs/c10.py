from codecs_common import *
from codecs_lib import *
from registry import Property
def make():
  obs = [ob_build(SubProfiles), ob_parse(SubProfiles), ob_trunc(SubProfiles)]
  obs += [ob_build(AccProfile), ob_parse(AccProfileFull), ob_trunc(AccProfileFull)]
  obs += [ob_codes(e) for e in ('dll.access_profile.CsmaCaMode',)]
  return obs
PROP = Property('C10', make)
