from codecs_common import *
from codecs_lib import *
from registry import Property

RFD = 'd7a.alp.operations.responses.ReturnFileData'
FILES = dict(FIXED_FILES, phy_status=None)
IDS = {0: 'uid', 1: 'factory_settings', 2: 'firmware_version', 5: 'engineering_mode', 6: 'vid', 9: 'phy_status', 10: 'dll_config', 11: 'dll_status',
       14: 'security_key', 24: 'root_key', 25: 'user_key'}
IDS.update({0x20 + i: 'access_profile' for i in range(15)})
OFF0 = lambda i: ["call", ["name", "d7a.alp.operands.offset.Offset"], [], {"id": i, "offset": ["call", ["name", "d7a.alp.operands.length.Length"], [["lit", 0]]]}]
TABLE = ["attr", ["name", SF + "system_files.SystemFiles"], "files"]


def valid_content(key, c, spare=0):
  """Returned data that is the content of a file: interpreted, with the encoded field values."""
  def f(s):
    G = s.G
    ids = [i for i in IDS if IDS[i] == key]
    i = ids[G.choice('file', len(ids))] if len(ids) > 1 else ids[0]
    il = G.derive_int('file_id', i)
    _, v = c.gen(G)
    enc = list(c.enc(v))
    if spare: enc = enc + G.val(G.bytes('spare', spare, spare))    # the rest of the space allocated for the file
    d = G.derive('content', enc)
    o = s.let('o', ["call", ["name", RFD], [], {"operand": ["call", ["name", "d7a.alp.operands.file.Data"], [], {"data": ["tolist", d], "offset": OFF0(il)}]}])
    s.ok('o', 'returned data is accepted')
    s.let('p', ["attr", o, "file_data_parsed"])
    s.same('p', c, v, True, 'the interpreted file has the encoded field values')
    s.let('t', ["eq", ["attr", o, "systemfile_type"], ["item", TABLE, ["call", ["name", SF + "system_file_ids.SystemFileIds"], [il]]]])
    s.value('t', True, 'it is said to be the file of this identifier')
    s.let('raw', ["attr", ["attr", o, "operand"], "data"])
    s.bytes_eq('raw', enc, 'the raw data is kept')
  return f


ZERO = lambda *ps: list(ps)
# bits of the content that carry no field: {byte index: mask of the bits that count}
def used(key, n):
  m = {}
  if key == 'dll_config': m = {1: 0, 2: 0}
  elif key == 'engineering_mode': m = {3: 0x7F, 7: 0, 8: 0}
  elif key == 'dll_status': m = {3: 0x7F}
  elif key in ('root_key', 'user_key'): m = {k: 0 for k in range(16, 40)}
  elif key == 'access_profile': m = {0: 0x7F}
  elif key == 'phy_status': m = {15 + 3 * k: 0xF7 for k in range(10)}
  return m


def any_data(key):
  """Whatever data a file returns: no error, data and offset kept; an interpretation is offered only for data it re-encodes to."""
  def f(s):
    G = s.G; it = s.it
    if key is None: i = G.int('id', 0, 255); G.assume(snot(sor(*[scmp('==', G.val(i), k) for k in IDS])))
    else:
      ids = [k for k in IDS if IDS[k] == key]
      i = G.derive_int('id', ids[G.choice('file', len(ids))] if len(ids) > 1 else ids[0])
    off = G.int('offset', 0, LMAX)
    data = G.bytes('data', 0, 4096)
    o = s.let('o', ["call", ["name", RFD], [], {"operand": ["call", ["name", "d7a.alp.operands.file.Data"], [], {"data": ["tolist", data],
         "offset": ["call", ["name", "d7a.alp.operands.offset.Offset"], [], {"id": i, "offset": ["call", ["name", "d7a.alp.operands.length.Length"], [off]]}]}]}])
    s.ok('o', 'no error escapes')
    s.let('raw', ["attr", ["attr", o, "operand"], "data"]); s.bytes_eq('raw', lambda: G.val(data), 'the raw data is kept')
    s.let('rid', ["attr", ["attr", ["attr", o, "operand"], "offset"], "id"]); s.value('rid', lambda: G.val(i), 'the file identifier is kept')
    s.let('roff', ["attr", ["attr", ["attr", ["attr", o, "operand"], "offset"], "offset"], "value"]); s.value('roff', lambda: G.val(off), 'the offset is kept')
    s.let('p', ["attr", o, "file_data_parsed"]); s.let('t', ["attr", o, "systemfile_type"])
    s.posts.append(('a file type is named exactly when there is an interpretation', lambda o: (o['p'] is None) == (o['t'] is None)))
    if key is None:
      s.posts.append(('data of a file which is not implemented is left raw', lambda o: o['p'] is None)); return
    s.posts.append(('data which does not start at the beginning of the file is left raw', lambda o: True if o['p'] is None else scmp('==', G.val(off), 0)))
    if not G.symbolic:
      s.cover('reached')
    s.let('b', ["tobytearray", ["var", 'p']], may_fail=True)
    def faithful(o):
      if o['p'] is None: return True
      if not o.ok('b'): return False
      got = o['b'].items; raw = list(G.val(data)); u = used(key, len(got))
      if any(isinstance(x, SymSeg) for x in got): return False
      r = scmp('<=', seq_len(raw), FILE_TABLE[9 if key == 'phy_status' else {v: k for k, v in IDS.items()}[key]])
      n = len(got) - (2 if key == 'engineering_mode' else 0)
      r = sand(r, scmp('>=', seq_len(raw), n))
      if r is False: return False
      if not bool(r): return False
      for k in range(n):
        m = u.get(k, 255)
        if m: r = sand(r, scmp('==', sinty(got[k]) & m, sinty(item_at(it, raw, k)) & m))
      return r
    s.posts.append(('an interpretation is offered only for data it was read from', faithful))
  return f


def item_at(it, raw, k):
  v = bt.index_item(it, list(raw), k, 'list')[0]
  return v


def make():
  obs = []
  F = [RFD + '.__init__', RFD + '.try_parse_system_file']
  for key, c in sorted(FIXED_FILES.items()):
    if key == 'firmware_version': c = FirmwareParsed
    obs.append(Ob('content.' + key, valid_content(key, c), F + [c.path + '.parse']))
  for n in range(11):
    obs.append(Ob('content.phy_status.%d' % n, valid_content('phy_status', PHY_STATUS[n], 0 if n % 2 else 30 - 3 * n), F + [PHY_STATUS[0].path + '.parse']))
  for key in [None] + sorted(set(IDS.values())):
    obs.append(Ob('any.' + (key or 'other'), any_data(key), F, timeout=150, max_paths=20000, cases=120, maxlen=64))
  return obs
PROP = Property('C17', make)
