"""Contracts of callees, assumed at call sites and discharged elsewhere (named in each)."""
from kit import *
from vc import Opaque
from libmodels import BitStream
from codecs_lib import Cmd1, V


class AnyCommand(object):
  """Any ALP command: proofs see only its bytes (contracts CMD_PARSE and CMD_ITER, discharged by C05); real runs use
  commands with one action."""
  path = 'd7a.alp.command.Command'
  def __init__(self, concrete=Cmd1, hi=4096): self.concrete = concrete; self.hi = hi

  def gen(self, G, n=''):
    if not G.symbolic:
      e, v = self.concrete.gen(G, n)
      return e, v
    l = G.bytes((n + '.' if n else '') + 'bytes', 0, self.hi)
    v = V(codec=self, bytes=G.val(l))
    G.it.ghost_command = v.bytes
    return ["call", ["name", self.path], [], {"actions": ["list", []], "generate_tag_request_action": ["lit", False]}], v

  def enc(self, v): return list(v.bytes) if hasattr(v, 'bytes') else self.concrete.enc(v)
  wire = enc
  def same(self, it, o, v, parsed=False):
    if not isinstance(o, Obj) or o.cls is not it.get(self.path): return False
    if not hasattr(v, 'bytes'): return self.concrete.same(it, o, v, parsed)
    if '#bytes' not in o.d: return len(o.d['actions'].items) == 0     # the one the scenario constructed
    if o.d['#bytes'] is None: return False
    return items_same(it, o.d['#bytes'], v.bytes)


def CMD_ITER(it):
  """bytes of a command: whatever its encoding is."""
  def con(it, f, args, kw):
    o = args[0]
    b = o.d.get('#bytes', getattr(it, 'ghost_command', None))
    if b is None: return NotImplemented
    return GenV(lambda: list(b))
  it.contracts['d7a.alp.command.Command.__iter__'] = con


def CMD_PARSE(it):
  """parse(s, n): reads exactly n bytes and returns the command they encode; ReadError when fewer are available."""
  def con(it, f, args, kw):
    a = list(args) + [kw[k] for k in ('s', 'cmd_length') if k in kw]
    if len(a) != 3 or not isinstance(a[1], BitStream) or not is_intlike(a[2]): return NotImplemented
    s, n = a[1], sinty(a[2])
    data = []
    if bool(scmp('>', n, 0)): data = bt.byte_items(it, s.m_read(it, ('bytes', n)))
    c = it.call(it.get('d7a.alp.command.Command'), [], {'actions': PList([]), 'generate_tag_request_action': False})
    c.d['#bytes'] = data
    return c
  it.contracts['d7a.alp.parser.Parser.parse'] = con


CMD = [CMD_ITER, CMD_PARSE]
