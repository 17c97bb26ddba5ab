from codecs_common import *
from codecs_lib import *
from registry import Property


def roundtrip(s):
  """What an interface status serializes to is accepted back."""
  c = ACTIONS['if_status_d7']
  e, v = c.gen(s.G)
  o = s.let('o', e)
  b = s.let('b', ["tobytearray", o])
  st = s.let('s', ["stream", b])
  p = s.let('p', c.parse_expr(st), may_fail=True)
  s.posts.append(('an interface status is accepted back from what it serializes to', lambda o: c.same(o.it, o['p'], v, True) if o.ok('p') else False))


def make():
  obs = []
  for k, c in sorted(ACTIONS.items()):
    uses = [TRY_PARSE] if k == 'return_data' else []     # its contract is discharged by C17
    obs.append(ob_build(c, 'action.' + k, uses=uses))
    if k in PARSEABLE: obs += [ob_parse(c, 'action.' + k, uses=uses), ob_trunc(c, 'action.' + k, uses=uses)]
  obs.append(Ob('action.if_status.roundtrip', roundtrip, ['d7a.alp.operands.interface_status.InterfaceStatusOperand.__iter__', 'd7a.alp.parser.Parser.parse_alp_return_status_action'], bounded_only=True, cases=60))
  obs += [ob_codes(e) for e in ('alp.operands.query.QueryType', 'alp.operands.query.ArithComparisonType', 'alp.interface.InterfaceType',)]
  return obs
PROP = Property('C04', make)
