"""Property registry: each cNN module defines PROP."""
import importlib

TRUSTED = [
  "PyVC engine (pyvc/): the symbolic semantics of the Python 2.7 subset and its exploration of every path (cross-checked on each run by executing the same obligations on the real code under Jython)",
  "z3 (quantifier-free bit-vector and integer arithmetic)",
  "Jython's own parser, which supplies the syntax tree of the sources",
  "contracts assumed for dependencies (pyvc/libmodels.py): bitstring.ConstBitStream reads, cerberus.Validator rules, enum, struct.pack, math.pow on exact powers, crcmod (CRC of a byte sequence as a pure function), logging (no effect)",
]
ASSUMPTIONS = [
  "integers are mathematical (Python integers are unbounded); floats are exact rationals where they stay exactly representable, otherwise the obligation is undecided",
  "objects are used from one thread at a time",
  "no memory exhaustion, no interpreter limits",
]


class Property(object):
  level = 'proof'
  def __init__(self, pid, make, assumptions=(), trusted=(), level='proof', extra_src=(), load=()):
    self.pid = pid; self.make = make; self.assumptions = list(assumptions); self.trusted = list(trusted); self.level = level; self.extra_src = extra_src; self.load = list(load)
  def obligations(self): return self.make()


def get(pid):
  return importlib.import_module(pid.lower()).PROP
