"""Symbolic interpreter for the Python 2 subset the repository uses. It runs the AST of the real source files."""
import builtins as bltins
import json, math, time
import z3
from sym import *
from values import *


class Node(object):
  __slots__ = ('t', 'l', '__dict__')

  def __repr__(self): return "<%s@%s>" % (self.t, self.l)


def build_ast(j):
  # 't' clashes with the node tag for Num: rename first
  def fix(x):
    if isinstance(x, dict):
      if x.get('_') == 'Num':
        x = dict(x); t = x.pop('t', 'int')
        x['nt'] = t
      return {k: fix(v) for k, v in x.items()}
    if isinstance(x, list): return [fix(v) for v in x]
    return x
  return _build(fix(j))


def _build(j):
  if isinstance(j, dict):
    n = Node(); n.t = j['_']; n.l = j.get('l')
    d = n.__dict__
    for k, v in j.items():
      if k not in ('_', 'l'): d[k] = _build(v)
    if n.t == 'Num':
      t = d['nt']; s = d['n']
      d['v'] = float(s) if t == 'float' else int(s.rstrip('Ll'), 0) if t in ('int', 'long') else complex(s)
    elif n.t == 'Str':
      d['v'] = U(d['s']) if d.get('u') else d['s']
    elif n.t in ('FunctionDef', 'Lambda'):
      d['is_gen'] = has_yield(j)
      d['assigned'] = None
    return n
  if isinstance(j, list): return [_build(x) for x in j]
  return j


def has_yield(j):
  body = j['body'] if isinstance(j['body'], list) else [j['body']]
  def w(x):
    if isinstance(x, dict):
      if x['_'] == 'Yield': return True
      if x['_'] in ('FunctionDef', 'Lambda', 'ClassDef', 'GeneratorExp'): return False
      return any(w(v) for k, v in x.items() if k != '_')
    if isinstance(x, list): return any(w(v) for v in x)
    return False
  return w(body)


def assigned_names(nodes):
  """Names bound by statements (not descending into nested functions)."""
  out = set()
  def tgt(n):
    if n.t == 'Name': out.add(n.id)
    elif n.t in ('Tuple', 'List'):
      for e in n.elts: tgt(e)
  def w(n):
    if isinstance(n, list):
      for x in n: w(x)
      return
    if not isinstance(n, Node): return
    if n.t in ('FunctionDef', 'ClassDef'):
      out.add(n.name); return
    if n.t == 'Lambda': return
    if n.t == 'Assign':
      for x in n.targets: tgt(x)
    elif n.t == 'AugAssign': tgt(n.target)
    elif n.t == 'For': tgt(n.target)
    elif n.t in ('Import', 'ImportFrom'):
      for a in n.names: out.add((a.asname or a.name).split('.')[0])
    elif n.t == 'ExceptHandler':
      if n.name is not None and isinstance(n.name, Node): tgt(n.name)
    elif n.t == 'With':
      if n.optional_vars is not None: tgt(n.optional_vars)
    elif n.t == 'ListComp':
      for g in n.generators: tgt(g.target)
    for k, v in n.__dict__.items():
      if isinstance(v, (Node, list)): w(v)
  w(nodes)
  return out


class Frame(object):
  __slots__ = ('locals', 'glob', 'func', 'parent', 'out', 'assigned', 'globals_decl', 'exc', 'module')

  def __init__(self, func, glob, parent=None):
    self.locals = {}; self.glob = glob; self.func = func; self.parent = parent; self.out = None
    self.assigned = (); self.globals_decl = None; self.exc = None; self.module = None


class Interp(object):
  MAX_STEPS = 4000000

  def __init__(self, asts, libs):
    self.asts = asts
    self.modules = {}
    self.libs = libs
    self.contracts = {}
    self.no_contract = set()
    self.loop_rules = {}
    self.watch = None          # called before every access to an attribute or to the content of a list or dictionary
    self.called = {}
    self.depth = 0
    self.steps = 0
    self.cur_line = None
    self.stack = []
    self.globals_writes = []
    import builtins_py2
    self.bt = builtins_py2
    self.builtins = builtins_py2.make(self)
    self.exc_classes = {k: v for k, v in self.builtins.items() if isinstance(v, ClassV) and v.is_exc}
    self.inline_depth = 0
    self.map_probe = None

  # ---------------------------------------------------------------- modules
  def import_module(self, name):
    if name in self.modules: return self.modules[name]
    if name in self.asts:
      rec = self.asts[name]
      if 'error' in rec: raise Unsupported("syntax error in %s: %s" % (rec['file'], rec['error']))
      m = ModuleV(name, {'__name__': name}, rec['file'])
      self.modules[name] = m
      if '.' in name:
        p, c = name.rsplit('.', 1)
        pm = self.import_module(p)
        pm.dict[c] = m
      fr = Frame(None, m.dict); fr.locals = m.dict; fr.module = name
      if 'node' not in rec: rec['node'] = build_ast(rec['ast'])
      try:
        self.exec_block(rec['node'].body, fr)
      except PyRaise:
        del self.modules[name]
        raise
      return m
    lib = self.libs.get(name)
    if lib is not None:
      m = lib(self); m.native = True
      self.modules[name] = m
      return m
    top = name.split('.')[0]
    if top in self.asts or any(k.startswith(top + '.') for k in self.asts):
      # the repository's root package
      raise self.exc('ImportError', "No module named " + name)
    m = OpaqueModule(name)
    self.modules[name] = m
    return m

  def get(self, path):
    """Resolve 'pkg.mod.Class.attr' in the loaded repository."""
    parts = path.split('.')
    for i in range(len(parts), 0, -1):
      name = '.'.join(parts[:i])
      if name in self.asts:
        v = self.import_module(name)
        for p in parts[i:]: v = self.getattr(v, p)
        return v
    if parts[0] in self.libs:
      v = self.import_module(parts[0])
      for p in parts[1:]: v = self.getattr(v, p)
      return v
    raise Unsupported("no such name in the repository: " + path)

  # ---------------------------------------------------------------- exceptions
  def exc_class(self, name):
    c = self.exc_classes.get(name)
    if c is None: raise Unsupported("unknown exception class " + name)
    return c

  def exc(self, cls, *args):
    if isinstance(cls, str): cls = self.exc_class(cls)
    o = Obj(cls); o.d['args'] = tuple(args); o.d['message'] = args[0] if len(args) == 1 else ''
    return PyRaise(o)

  def throw(self, cls, *args):
    raise self.exc(cls, *args)

  # ---------------------------------------------------------------- heap writes
  def note_write(self, obj, what):
    c = Ctx.cur
    if c is None: return
    if c.nofork: raise MergeFail()
    if obj.epoch < c.epoch:
      c.writes.append((obj, what))
    if self.map_probe is not None and obj.epoch < self.map_probe.epoch:
      self.map_probe.write(obj, what)

  def undo(self, fn):
    if Ctx.cur is not None: Ctx.cur.undo.append(fn)

  def obj_set(self, o, name, v):
    if self.watch is not None: self.watch(o, name, 'w')
    self.note_write(o, name)
    if o.epoch == 0:
      old = o.d.get(name, POISON)
      def u():
        if old is POISON: o.d.pop(name, None)
        else: o.d[name] = old
      self.undo(u)
    o.d[name] = v

  def seq_mut(self, s, what='items'):
    """Call before mutating a sequence in place."""
    if self.watch is not None: self.watch(s, None, 'w')
    self.note_write(s, what)
    if s.epoch == 0:
      old = list(s.items)
      def u(): s.items = old
      self.undo(u)

  def dict_mut(self, d):
    if isinstance(d, PDict) and d.readonly: raise Unsupported("write through __dict__")
    if self.watch is not None: self.watch(d, None, 'w')
    self.note_write(d, 'keys')
    if d.epoch == 0:
      old = dict(d.d)
      def u(): d.d = old
      self.undo(u)

  # ---------------------------------------------------------------- statements
  def exec_block(self, body, fr):
    for s in body:
      r = getattr(self, 'ex_' + s.t)(s, fr)
      if r is not None: return r
    return None

  def tick(self, n):
    self.steps += 1
    self.cur_line = n.l
    if self.steps > self.MAX_STEPS: raise Unsupported("too many interpretation steps")
    c = Ctx.cur
    if c is not None and (self.steps & 0x3fff) == 0 and c.deadline is not None and time.time() > c.deadline:
      raise Budget("deadline")

  def ex_Expr(self, n, fr):
    self.tick(n)
    if n.value.t == 'Str': return None
    self.ev(n.value, fr)

  def ex_Pass(self, n, fr): return None

  def ex_Assign(self, n, fr):
    self.tick(n)
    v = self.ev(n.value, fr)
    for t in n.targets: self.assign(t, v, fr)

  def ex_AugAssign(self, n, fr):
    self.tick(n)
    t = n.target
    if t.t == 'Name':
      old = self.ev_Name(t, fr)
      self.assign(t, self.inplace(opname(n.op), old, self.ev(n.value, fr)), fr)
    elif t.t == 'Attribute':
      o = self.ev(t.value, fr)
      old = self.getattr(o, t.attr)
      self.setattr(o, t.attr, self.inplace(opname(n.op), old, self.ev(n.value, fr)))
    elif t.t == 'Subscript':
      o = self.ev(t.value, fr); i = self.ev_slice(t.slice, fr)
      old = self.getitem(o, i)
      self.setitem(o, i, self.inplace(opname(n.op), old, self.ev(n.value, fr)))
    else: raise Unsupported("augmented assignment")

  def inplace(self, op, a, b):
    if op == 'Add' and isinstance(a, PList):
      self.seq_mut(a); a.items = a.items + list(self.iter_items(b)); return a
    if op == 'Add' and isinstance(a, PBytearray):
      items = self.bt.byte_items(self, b)
      self.seq_mut(a); a.items = a.items + items; return a
    if isinstance(a, Obj):
      m = a.cls.lookup('__i%s__' % {'Add': 'add', 'Sub': 'sub', 'BitOr': 'or'}.get(op, '?'))
      if m is not None: return self.call(BoundMethod(m, a), [b], {})
    return self.binop(op, a, b)

  def ex_Return(self, n, fr):
    self.tick(n)
    return ('r', self.ev(n.value, fr) if n.value is not None else None)

  def ex_If(self, n, fr):
    self.tick(n)
    t = self.ev(n.test, fr)
    if isinstance(t, SInt): t = scmp('!=', t, 0)
    if isinstance(t, SBool) and self.try_merge(n, t, fr): return None
    if self.truth(t): return self.exec_block(n.body, fr)
    return self.exec_block(n.orelse, fr) if n.orelse else None

  # -- joining two branches that only compute: x = ite(c, then, else) instead of two paths
  def speculate(self, f):
    """f() evaluated without forking, assuming, writing or raising; None on failure, else (value,)."""
    c = Ctx.cur
    if c is None: return None
    old = c.nofork
    c.nofork = True
    try: return (f(),)
    except (MergeFail, PyRaise, Unsupported): return None
    finally: c.nofork = old

  def try_merge(self, n, t, fr):
    ok = getattr(n, 'mergeable', None)
    if ok is None:
      ok = n.__dict__['mergeable'] = mergeable_block(n.body) and mergeable_block(n.orelse)
    if not ok: return False
    if z3.is_true(t.b) or z3.is_false(t.b): return False
    if fr.globals_decl is not None: return False
    saved = dict(fr.locals)
    def run(body):
      fr.locals.clear(); fr.locals.update(saved)
      self.exec_block(body, fr)
      return dict(fr.locals)
    try:
      a = self.speculate(lambda: run(n.body))
      b = self.speculate(lambda: run(n.orelse)) if a is not None else None
    finally:
      fr.locals.clear(); fr.locals.update(saved)
    if a is None or b is None: return False
    out = {}
    if set(a[0]) != set(b[0]): return False
    for k in a[0]:
      x, y = a[0][k], b[0][k]
      if x is y: out[k] = x; continue
      m = merge_values(t, x, y)
      if m is None: return False
      out[k] = m[0]
    fr.locals.clear(); fr.locals.update(out)
    return True

  def ex_While(self, n, fr):
    rule = self.loop_rules.get(fr.func.qual, self.loop_rules.get('*')) if fr.func is not None else None
    if rule is not None:
      r = rule(self, n, fr)
      if r is not NotImplemented: return r
    return self.plain_while(n, fr)

  def plain_while(self, n, fr, limit=400):
    k = 0
    while True:
      self.tick(n)
      if not self.truth(self.ev(n.test, fr)): break
      k += 1
      if k > limit: raise Unsupported("loop at line %s not bounded by the path" % n.l)
      r = self.exec_block(n.body, fr)
      if r == 'b': return None
      if r == 'c' or r is None: continue
      return r
    if n.orelse: return self.exec_block(n.orelse, fr)
    return None

  def ex_For(self, n, fr):
    self.tick(n)
    it = self.ev(n.iter, fr)
    rule = self.loop_rules.get(fr.func.qual, self.loop_rules.get('*')) if fr.func is not None else None
    if rule is not None:
      r = rule(self, n, fr, it)
      if r is not NotImplemented: return r
    live = isinstance(it, PList)
    items = it.items if live else self.iter_items(it)
    k = 0
    while True:
      if live: items = it.items
      if k >= len(items): break
      x = items[k]
      k += 1
      if isinstance(x, SymSeg):
        if x.key[0] == 'range' and self.map_probe is None:     # counted loop: one decision per iteration
          j = 0; stop = False
          while bool(scmp('<', j, x.length)):
            if j > 400: raise Unsupported("loop at line %s not bounded by the path" % n.l)
            self.assign(n.target, x.at(j), fr); j += 1
            r = self.exec_block(n.body, fr)
            if r == 'b': return None
            if r != 'c' and r is not None: return r
          continue
        if self.fold_loop(n, fr, x): continue
        self.map_loop(n, fr, x)
        continue
      self.assign(n.target, x, fr)
      r = self.exec_block(n.body, fr)
      if r == 'b': return None
      if r == 'c' or r is None: continue
      return r
    if n.orelse: return self.exec_block(n.orelse, fr)
    return None

  def fold_loop(self, n, fr, seg):
    """Loop that carries one integer through a run of symbolic length: acc = step(acc, element). The invariant is that acc
    stays within k bits (k found); the result is the fold of the step over the run, a function of (start, step, run)."""
    c = Ctx.cur
    if n.orelse: return False
    read = loaded_names(n.body)
    carried = [v for v in (assigned_names(n.body) & read) - tgt_names(n.target) if v in fr.locals and fr.locals[v] is not POISON and is_intlike(fr.locals[v])
               and v in live_in(n.body)]
    if len(carried) != 1: return False
    if self.map_probe is not None: raise Unsupported("nested symbolic loops")
    hi = bounds(seg.length)[1]
    if hi is None: raise Unsupported("run of unbounded length")
    if not (seg.length > 0): return True
    v = carried[0]; init = sinty(fr.locals[v])
    names = assigned_names(n.body) | tgt_names(n.target)
    for k in (8, 16, 32, 64):
      top = (1 << k) - 1
      il, ih = bounds(init)
      if il is None or il < 0 or ih is None: continue
      if ih > top and c._check(z3.Not(as_z3bool(scmp('<=', init, top)))) != z3.unsat: continue
      acc = c.fresh_int('acc', 0, top); x = c.fresh_int('elt', 0, 255)
      el = seg.at(0)
      if bounds(el)[0] < 0 or bounds(el)[1] > 255: raise Unsupported("fold over elements that are no bytes")
      saved = dict(fr.locals); probe = MapProbe(self, fr); self.map_probe = probe
      epoch0 = c.epoch; probe.epoch = c.epoch = c.epoch + 1
      out0 = len(fr.out) if fr.out is not None else 0
      tr0 = len(c.trace); pend0 = len(c.pending); pc0 = len(c.pc)
      try:
        for nm in names: fr.locals[nm] = POISON
        fr.locals[v] = acc
        self.assign(n.target, SStr([x]) if seg.kind == 'char' else x, fr)
        try: r = self.exec_block(n.body, fr)
        except PyRaise: raise Unsupported("exception inside a loop over a symbolic run")
      finally:
        self.map_probe = None; c.epoch = epoch0
      res = fr.locals[v]
      fr.locals.clear(); fr.locals.update(saved)
      if len(c.pending) != pend0 or len(c.trace) != tr0 or len(c.pc) != pc0: raise Unsupported("branch that depends on one element of a symbolic run")
      if r not in (None, 'c') or probe.appended or (fr.out is not None and len(fr.out) != out0): raise Unsupported("a loop over a symbolic run that carries and emits")
      if res is POISON or not is_intlike(res): return False
      res = sinty(res)
      rl, rh = bounds(res)
      if rl is None or (rl < 0 and c._check(z3.Not(as_z3bool(scmp('>=', res, 0)))) != z3.unsat): continue
      if rh > top and c._check(z3.Not(as_z3bool(scmp('<=', res, top)))) != z3.unsat: continue
      for nm in names: fr.locals[nm] = POISON
      fr.locals[v] = fold_value(init, acc, x, res, k, seg)
      return True
    raise Unsupported("a loop over a symbolic run whose carried value has no bound")

  def map_loop(self, n, fr, seg):
    """Loop over a run of symbolic length: the body is executed once on an arbitrary element (index i fresh);
    it may only yield / append values that depend on that element, so the loop is the pointwise map of the body."""
    c = Ctx.cur
    # the body is considered only for a non-empty run
    L = seg.length
    hi = bounds(L)[1]
    if hi is None: raise Unsupported("run of unbounded length")
    if not (L > 0): return
    i = c.fresh_int('idx', 0, max(hi - 1, 1))
    c.assume(as_z3bool(scmp('<', i, L)))
    names = assigned_names(n.body) | assigned_names([n.target]) | tgt_names(n.target)
    for nm in names: fr.locals[nm] = POISON
    probe = MapProbe(self, fr)
    saved = self.map_probe
    if saved is not None: raise Unsupported("nested symbolic loops")
    self.map_probe = probe
    epoch0 = c.epoch
    probe.epoch = c.epoch = c.epoch + 1
    out0 = len(fr.out) if fr.out is not None else 0
    tr0 = len(c.trace); pend0 = len(c.pending)
    try:
      self.assign(n.target, seg.elem(i), fr)
      try: r = self.exec_block(n.body, fr)
      except PyRaise as e:
        if len(c.pending) != pend0 or tr0 != len(c.trace):
          raise Unsupported("exception that depends on one element of a symbolic run")
        raise
      if r == 'c': r = None
      if r is not None: raise Unsupported("early exit from a loop over a symbolic run")
    finally:
      self.map_probe = saved
      c.epoch = epoch0
    if len(c.pending) != pend0: raise Unsupported("branch that depends on one element of a symbolic run")
    for nm in names: fr.locals[nm] = POISON
    if fr.out is not None:
      new = fr.out[out0:]
      del fr.out[out0:]
      fr.out.extend(self.map_result(new, i, seg))
    for lst, new in probe.appended.values():
      lst.items.extend(self.map_result(new, i, seg))

  def map_result(self, new, i, seg):
    if not new: return []
    if len(new) != 1: raise Unsupported("a loop over a symbolic run that emits %d elements per element" % len(new))
    v = new[0]
    kind = 'int'
    if isinstance(v, str) and len(v) == 1: kind, v = 'char', ord(v)
    elif isinstance(v, SStr) and len(v.items) == 1 and not isinstance(v.items[0], SymSeg): kind, v = 'char', v.items[0]
    if is_str(v) and kind == 'int':     # a run of texts: only ever shown
      return [SymSeg(seg.length, lambda j: (_ for _ in ()).throw(Unsupported("text of an element of a run")), ('text', id(v)), 'text')]
    if isinstance(v, SBool): v = v.as_int()
    if isinstance(v, bool) or not isinstance(v, (int, SInt)): raise Unsupported("non-integer element of a symbolic run")
    src = seg.at(i)
    if isinstance(v, SInt) and isinstance(src, SInt) and v.e.eq(src.e):
      return [seg.with_kind(kind)]
    if isinstance(v, SInt) and isinstance(src, SInt) and z3.simplify(v.e - ext(src.e, v.e.size()) if v.kind == 'bv' and src.kind == 'bv' else v.e).eq(z3.BitVecVal(0, v.e.size()) if v.kind == 'bv' else v.e) and v.kind == 'bv' and src.kind == 'bv':
      return [seg.with_kind(kind)]
    iv = i.e.arg(0) if z3.is_app(i.e) and i.e.num_args() == 1 and i.e.decl().kind() == z3.Z3_OP_ZERO_EXT else i.e
    def at(j, v=v, iv=iv):
      if isinstance(v, int): return v
      je = to_bv(sinty(j), iv.size() + 1)
      return SInt(z3.substitute(v.e, (iv, z3.Extract(iv.size() - 1, 0, je))), v.lo, v.hi, v.kind)
    return [SymSeg(seg.length, at, ('map', ekey(v), seg.key), kind)]

  def ex_Break(self, n, fr): return 'b'
  def ex_Continue(self, n, fr): return 'c'

  def ex_FunctionDef(self, n, fr):
    f = self.make_func(n, fr)
    for d in reversed(n.decorator_list):
      dv = self.ev(d, fr)
      f = self.call(dv, [f], {})
    self.assign_name(n.name, f, fr)

  def make_func(self, n, fr):
    defaults = [self.ev(d, fr) for d in n.args.defaults]
    mod = fr.glob.get('__name__', '?')
    if fr.func is None and fr.parent is None and getattr(fr, 'module', None) is None:
      pre = fr.locals.get('__qual__', mod)
    elif fr.func is not None: pre = fr.func.qual
    else: pre = mod
    name = n.name if n.t == 'FunctionDef' else '<lambda>'
    clo = fr if (fr.func is not None) else None
    f = FuncV(name, n, fr.glob, defaults, clo, pre + '.' + name, mod)
    if n.assigned is None:
      n.assigned = assigned_names(n.body if isinstance(n.body, list) else [])
    return f

  def ex_ClassDef(self, n, fr):
    bases = [self.ev(b, fr) for b in n.bases]
    mod = fr.glob.get('__name__', '?')
    cf = Frame(None, fr.glob, fr if fr.func is not None else None)
    cf.module = None
    cf.locals = {'__qual__': mod + '.' + n.name, '__module__': mod}
    self.exec_block(n.body, cf)
    cf.locals.pop('__qual__', None)
    c = self.make_class(n.name, bases, cf.locals, mod)
    for d in reversed(n.decorator_list): c = self.call(self.ev(d, fr), [c], {})
    self.assign_name(n.name, c, fr)

  def make_class(self, name, bases, d, mod):
    for b in bases:
      if not isinstance(b, ClassV): raise Unsupported("base class %r of %s" % (b, name))
    c = ClassV(name, bases, d, mod)
    for v in d.values():
      for f in ([v] if isinstance(v, FuncV) else [v.f] if isinstance(v, (StaticV, ClassMV)) else
                [v.fget, v.fset] if isinstance(v, PropertyV) else []):
        if isinstance(f, FuncV): f.cls = c
    if c.is_enum and not d.get('__native_enum__'):
      c.members = {}
      for b in c.mro[1:]:
        if b.members:
          raise Unsupported("subclassing an enumeration with members")
      for k in list(d):
        v = d[k]
        if k.startswith('__') or isinstance(v, (FuncV, StaticV, ClassMV, PropertyV, Builtin)): continue
        if k.startswith('_'): continue
        alias = None
        for m in c.members.values():
          if m.d['value'] == v: alias = m
        if alias is None:
          o = Obj(c); o.d['name'] = k; o.d['value'] = v; o.d['_name_'] = k; o.d['_value_'] = v
          o.epoch = 0
        else: o = alias
        c.members[k] = o
        d[k] = o
    return c

  def rel(self, name, fr):
    """Python 2 imports look beside the importing module first."""
    here = fr.glob.get('__name__', '')
    rec = self.asts.get(here)
    if rec is None: return name
    pkg = here if rec.get('pkg') else here.rpartition('.')[0]
    return pkg + '.' + name if pkg and pkg + '.' + name in self.asts else name

  def ex_Import(self, n, fr):
    for a in n.names:
      rel = self.rel(a.name, fr)
      if rel != a.name:
        m = self.import_module(rel)
        self.assign_name(a.asname or a.name.split('.')[0], m if a.asname or '.' not in a.name else self.import_module(self.rel(a.name.split('.')[0], fr)), fr)
        continue
      m = self.import_module(a.name)
      if a.asname: self.assign_name(a.asname, m, fr)
      else:
        top = a.name.split('.')[0]
        self.assign_name(top, self.import_module(top), fr)

  def ex_ImportFrom(self, n, fr):
    if n.level: raise Unsupported("relative import")
    modname = self.rel(n.module, fr)
    m = self.import_module(modname)
    for a in n.names:
      if a.name == '*':
        for k, v in list(m.dict.items()):
          if not k.startswith('_'): self.assign_name(k, v, fr)
        continue
      if a.name in m.dict: v = m.dict[a.name]
      elif isinstance(m, OpaqueModule): v = m.attr(a.name)
      elif modname + '.' + a.name in self.asts: v = self.import_module(modname + '.' + a.name)
      elif m.native: raise Unsupported("%s.%s is not modelled" % (n.module, a.name))
      else: raise self.exc('ImportError', "cannot import name " + a.name)
      self.assign_name(a.asname or a.name, v, fr)

  def ex_Raise(self, n, fr):
    self.tick(n)
    if n.type is None:
      f = fr
      if f.exc is None: raise Unsupported("re-raise outside a handler")
      raise PyRaise(f.exc)
    v = self.ev(n.type, fr)
    if n.inst is not None:
      a = self.ev(n.inst, fr)
      if isinstance(v, ClassV):
        v = a if isinstance(a, Obj) and a.cls.is_exc else self.call(v, list(a) if isinstance(a, tuple) else [a], {})
    if isinstance(v, ClassV): v = self.call(v, [], {})
    if not isinstance(v, Obj) or not v.cls.is_exc: raise Unsupported("raise of a non-exception")
    raise PyRaise(v)

  def ex_Assert(self, n, fr):
    self.tick(n)
    if not self.truth(self.ev(n.test, fr)):
      if n.msg is not None: self.throw('AssertionError', self.ev(n.msg, fr))
      self.throw('AssertionError')

  def ex_TryExcept(self, n, fr):
    try:
      r = self.exec_block(n.body, fr)
    except PyRaise as e:
      for h in n.handlers:
        if h.type is None or self.exc_matches(e.exc, self.ev(h.type, fr)):
          if h.name is not None:
            if isinstance(h.name, Node): self.assign(h.name, e.exc, fr)
            else: self.assign_name(h.name, e.exc, fr)
          old = fr.exc
          fr.exc = e.exc
          try: return self.exec_block(h.body, fr)
          finally: fr.exc = old
      raise
    if r is not None: return r
    if n.orelse: return self.exec_block(n.orelse, fr)
    return None

  def exc_matches(self, exc, t):
    if isinstance(t, tuple): return any(self.exc_matches(exc, x) for x in t)
    if isinstance(t, ClassV): return exc.cls.subclass_of(t)
    raise Unsupported("except clause with %r" % (t,))

  def ex_TryFinally(self, n, fr):
    try:
      r = self.exec_block(n.body, fr)
    except PyRaise:
      r2 = self.exec_block(n.finalbody, fr)
      if r2 is not None: return r2
      raise
    r2 = self.exec_block(n.finalbody, fr)
    return r2 if r2 is not None else r

  def ex_With(self, n, fr):
    m = self.ev(n.context_expr, fr)
    v = self.call_method(m, '__enter__', [])
    if n.optional_vars is not None: self.assign(n.optional_vars, v, fr)
    try:
      r = self.exec_block(n.body, fr)
    except PyRaise as e:
      if self.truth(self.call_method(m, '__exit__', [e.exc.cls, e.exc, None])): return None
      raise
    self.call_method(m, '__exit__', [None, None, None])
    return r

  def ex_Print(self, n, fr):
    for v in n.values: self.ev(v, fr)

  def ex_Global(self, n, fr):
    if fr.globals_decl is None: fr.globals_decl = set()
    fr.globals_decl.update(n.names)

  def ex_Delete(self, n, fr):
    for t in n.targets:
      if t.t == 'Name':
        if t.id in fr.locals: del fr.locals[t.id]
        else: self.throw('NameError', t.id)
      elif t.t == 'Subscript':
        o = self.ev(t.value, fr); i = self.ev_slice(t.slice, fr)
        self.bt.delitem(self, o, i)
      elif t.t == 'Attribute':
        o = self.ev(t.value, fr)
        if not isinstance(o, Obj): raise Unsupported("del attribute")
        if t.attr not in o.d: self.throw('AttributeError', t.attr)
        self.note_write(o, t.attr)
        old = o.d[t.attr]
        if o.epoch == 0: self.undo(lambda: o.d.__setitem__(t.attr, old))
        del o.d[t.attr]

  def ex_Exec(self, n, fr): raise Unsupported("exec")

  # ---------------------------------------------------------------- assignment
  def assign_name(self, name, v, fr):
    if fr.globals_decl is not None and name in fr.globals_decl:
      self.set_global(fr, name, v)
      return
    fr.locals[name] = v

  def set_global(self, fr, name, v):
    g = fr.glob
    old = g.get(name, POISON)
    def u():
      if old is POISON: g.pop(name, None)
      else: g[name] = old
    self.undo(u)
    if Ctx.cur is not None: Ctx.cur.writes.append((fr.glob.get('__name__'), name))
    g[name] = v

  def assign(self, t, v, fr):
    k = t.t
    if k == 'Name':
      self.assign_name(t.id, v, fr)
    elif k == 'Attribute':
      self.setattr(self.ev(t.value, fr), t.attr, v)
    elif k == 'Subscript':
      self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
    elif k in ('Tuple', 'List'):
      items = self.iter_items(v)
      if any(isinstance(i, SymSeg) for i in items): raise Unsupported("unpacking a symbolic run")
      if len(items) != len(t.elts):
        self.throw('ValueError', "unpack mismatch")
      for a, b in zip(t.elts, items): self.assign(a, b, fr)
    else: raise Unsupported("assignment target " + k)

  # ---------------------------------------------------------------- expressions
  def ev(self, n, fr):
    return getattr(self, 'ev_' + n.t)(n, fr)

  def ev_Name(self, n, fr):
    name = n.id
    l = fr.locals
    if name in l:
      if fr.globals_decl is None or name not in fr.globals_decl:
        v = l[name]
        if v is POISON: raise Unsupported("value of %s after / inside a loop over a symbolic run (line %s)" % (name, n.l))
        return v
    elif fr.func is not None and name in fr.assigned and (fr.globals_decl is None or name not in fr.globals_decl):
      self.throw('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
    p = fr.parent
    while p is not None:
      if name in p.locals:
        v = p.locals[name]
        if v is POISON: raise Unsupported("value of %s in a closure" % name)
        return v
      p = p.parent
    if name in fr.glob: return fr.glob[name]
    if name in self.builtins: return self.builtins[name]
    self.throw('NameError', "name '%s' is not defined" % name)

  def ev_Num(self, n, fr): return n.v
  def ev_Str(self, n, fr): return n.v

  def ev_Attribute(self, n, fr):
    return self.getattr(self.ev(n.value, fr), n.attr)

  def ev_Call(self, n, fr):
    self.tick(n)
    f = self.ev(n.func, fr)
    args = [self.ev(a, fr) for a in n.args]
    kw = {}
    for k in n.keywords: kw[k.arg] = self.ev(k.value, fr)
    if n.starargs is not None:
      items = self.iter_items(self.ev(n.starargs, fr))
      if any(isinstance(i, SymSeg) for i in items): raise Unsupported("*args of symbolic length")
      args.extend(items)
    if n.kwargs is not None:
      d = self.ev(n.kwargs, fr)
      for k, v in d.d.values(): kw[k] = v
    if isinstance(f, ClassV) and f.name == 'super' and not args: raise Unsupported("super()")
    if f is self.builtins['locals_']:
      raise Unsupported("locals()")
    return self.call(f, args, kw)

  def ev_BinOp(self, n, fr):
    a = self.ev(n.left, fr); b = self.ev(n.right, fr)
    return self.binop(opname(n.op), a, b)

  def ev_UnaryOp(self, n, fr):
    v = self.ev(n.operand, fr)
    op = opname(n.op)
    if op == 'Not': return self.not_(v)
    if op == 'USub':
      if isinstance(v, SRat): return rat_binop('-', 0, v)
      if is_intlike(v) or isinstance(v, float): return -v
    if op == 'UAdd' and (is_intlike(v) or isinstance(v, float)): return v
    if op == 'Invert' and is_intlike(v): return ~sinty(v)
    raise Unsupported("unary %s on %s" % (op, type(v).__name__))

  def not_(self, v):
    if isinstance(v, SBool): return snot(v)
    return not self.truth(v)

  def ev_BoolOp(self, n, fr):
    op = opname(n.op)
    v = None
    last = len(n.values) - 1
    for i, x in enumerate(n.values):
      v = self.ev(x, fr)
      if i == last: return v
      if isinstance(v, SBool) and not z3.is_true(v.b) and not z3.is_false(v.b):
        rest = n.values[i + 1:]
        if all(pure_expr(r) for r in rest):
          rs = self.speculate(lambda: [self.ev(r, fr) for r in rest])
          if rs is not None and all(isinstance(r, (bool, SBool)) for r in rs[0]):
            return sand(v, *rs[0]) if op == 'And' else sor(v, *rs[0])
      t = self.truth(v)
      if op == 'And' and not t: return False if isinstance(v, SBool) else v
      if op == 'Or' and t: return True if isinstance(v, SBool) else v
    return v

  def ev_Compare(self, n, fr):
    left = self.ev(n.left, fr)
    res = True
    for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
      right = self.ev(c, fr)
      r = self.compare(opname(op), left, right)
      if i == len(n.ops) - 1 and res is True: return r
      if not self.truth(r): return False
      left = right
    return res

  def ev_IfExp(self, n, fr):
    t = self.ev(n.test, fr)
    if isinstance(t, SBool) and pure_expr(n.body) and pure_expr(n.orelse):
      a = self.speculate(lambda: self.ev(n.body, fr))
      b = self.speculate(lambda: self.ev(n.orelse, fr)) if a is not None else None
      if b is not None:
        m = merge_values(t, a[0], b[0])
        if m is not None: return m[0]
    return self.ev(n.body if self.truth(t) else n.orelse, fr)


  def ev_List(self, n, fr): return PList([self.ev(e, fr) for e in n.elts])
  def ev_Tuple(self, n, fr): return tuple(self.ev(e, fr) for e in n.elts)

  def ev_Dict(self, n, fr):
    d = PDict()
    for k, v in zip(n.keys, n.values):
      kk = self.ev(k, fr)
      if isinstance(kk, SEnum): kk = self.concretize_enum(kk)
      d.d[hkey(kk)] = (kk, self.ev(v, fr))
    return d

  def ev_Set(self, n, fr):
    s = PSet()
    for e in n.elts:
      v = self.ev(e, fr); s.d[hkey(v)] = v
    return s

  def ev_Subscript(self, n, fr):
    return self.getitem(self.ev(n.value, fr), self.ev_slice(n.slice, fr))

  def ev_slice(self, s, fr):
    if s.t == 'Index': return self.ev(s.value, fr)
    if s.t == 'Slice':
      return SliceV(self.ev(s.lower, fr) if s.lower is not None else None,
                    self.ev(s.upper, fr) if s.upper is not None else None,
                    self.ev(s.step, fr) if s.step is not None else None)
    raise Unsupported("slice kind " + s.t)

  def ev_Lambda(self, n, fr):
    return self.make_func(n, fr)

  def ev_Yield(self, n, fr):
    self.tick(n)
    v = self.ev(n.value, fr) if n.value is not None else None
    fr.out.append(v)
    return None

  def ev_ListComp(self, n, fr):
    out = PList()
    self.comp(n.generators, 0, fr, lambda f: out.items.append(self.ev(n.elt, f)), out, n.elt)
    return out

  def ev_GeneratorExp(self, n, fr):
    def run():
      f2 = Frame(fr.func, fr.glob, fr); f2.locals = {}; f2.assigned = ()
      out = PList()
      self.comp(n.generators, 0, f2, lambda f: out.items.append(self.ev(n.elt, f)), out, n.elt)
      return out.items
    return GenV(run)

  ev_SetComp = None

  def ev_DictComp(self, n, fr):
    d = PDict()
    f2 = Frame(fr.func, fr.glob, fr); f2.assigned = ()
    def add(f):
      k = self.ev(n.key, f)
      d.d[hkey(k)] = (k, self.ev(n.value, f))
    self.comp(n.generators, 0, f2, add, None, None)
    return d

  def comp(self, gens, k, fr, emit, out, elt):
    if k == len(gens):
      emit(fr); return
    g = gens[k]
    for x in list(self.iter_items(self.ev(g.iter, fr))):
      if isinstance(x, SymSeg):
        if len(gens) != 1 or g.ifs or out is None: raise Unsupported("comprehension over a symbolic run")
        def f(v):
          self.assign(g.target, v, fr)
          return self.ev(elt, fr)
        out.items.extend(self.map_seg(x, f))
        continue
      self.assign(g.target, x, fr)
      if all(self.truth(self.ev(c, fr)) for c in g.ifs):
        self.comp(gens, k + 1, fr, emit, out, elt)

  def map_seg(self, seg, f):
    """Pointwise map of f over a symbolic run."""
    c = Ctx.cur
    hi = bounds(seg.length)[1]
    if not (seg.length > 0): return []
    i = c.fresh_int('idx', 0, max(hi - 1, 1))
    c.assume(as_z3bool(scmp('<', i, seg.length)))
    pend0 = len(c.pending)
    v = f(seg.elem(i))
    if len(c.pending) != pend0: raise Unsupported("branch that depends on one element of a symbolic run")
    return self.map_result([v], i, seg)

  def ev_Repr(self, n, fr): return SText([('s', self.ev(n.value, fr), 'r')])

  # ---------------------------------------------------------------- truth, comparison, arithmetic
  def truth(self, v):
    if v is None: return False
    if isinstance(v, bool): return v
    if isinstance(v, (int, float, str)): return bool(v)
    if isinstance(v, SBool): return bool(v)
    if isinstance(v, SInt): return bool(v)
    if isinstance(v, SRat): return bool(scmp('!=', v.num, 0))
    if isinstance(v, Seq):
      n = v.length()
      return bool(scmp('!=', n, 0))
    if isinstance(v, (tuple,)): return len(v) > 0
    if isinstance(v, (PDict, PSet)): return len(v.d) > 0
    if isinstance(v, SText):
      if any(isinstance(p, str) and p for p in v.parts): return True
      if any(isinstance(p, tuple) and isinstance(p[1], (bool, int, SBool, SInt)) for p in v.parts): return True      # digits
      raise Unsupported("truth of symbolic text")
    if isinstance(v, Obj):
      if v.cls.is_intenum: return v.d['value'] != 0
      m = v.cls.lookup('__nonzero__') if v.cls.newstyle or True else None
      if m is not None: return self.truth(self.call(self.bind(m, v), [], {}))
      m = v.cls.lookup('__len__')
      if m is not None: return self.truth(self.call(self.bind(m, v), [], {}))
      return True
    if isinstance(v, Opaque): raise Unsupported("truth of " + v.name)
    if isinstance(v, SEnum):
      if v.cls.is_intenum: return self.truth(v.val)
      return True
    if isinstance(v, Native):
      if hasattr(v, 'truth'): return v.truth(self)
      return True
    return True

  def num(self, v):
    """int-like / float view of a number, or None"""
    if isinstance(v, (bool, int, SInt, SBool)): return v
    if isinstance(v, (float, SRat)): return v
    if isinstance(v, Obj) and v.cls.is_intenum: return v.d['value']
    if isinstance(v, SEnum) and v.cls.is_intenum: return v.val
    return None

  OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'LShift': '<<',
         'RShift': '>>', 'FloorDiv': '//', 'Mod': '%', 'Div': '/'}
  SPECIAL = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor',
             'LShift': 'lshift', 'RShift': 'rshift', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Div': 'div', 'Pow': 'pow'}

  def binop(self, op, a, b):
    x, y = self.num(a), self.num(b)
    if x is not None and y is not None:
      try: return self.arith(op, x, y)
      except ZeroDivisionError: self.throw('ZeroDivisionError', "integer division or modulo by zero")
      except ValueError as e: self.throw('ValueError', str(e))
    if isinstance(a, Obj):
      m = a.cls.lookup('__%s__' % self.SPECIAL[op])
      if m is not None: return self.call(self.bind(m, a), [b], {})
    if isinstance(b, Obj):
      m = b.cls.lookup('__r%s__' % self.SPECIAL[op])
      if m is not None: return self.call(self.bind(m, b), [a], {})
    if op == 'Mod' and isinstance(a, (str, SText)): return self.bt.percent(self, a, b)
    if op == 'Add':
      if is_str(a) and is_str(b): return str_cat(a, b)
      if isinstance(a, PBytearray) or isinstance(b, PBytearray):
        if (isinstance(a, PBytearray) or is_str(a)) and (isinstance(b, PBytearray) or is_str(b)):
          its = self.bt.byte_items(self, a) + self.bt.byte_items(self, b)
          return PBytearray(its) if isinstance(a, PBytearray) else PBytearray(its)
      if isinstance(a, PList) and isinstance(b, PList): return PList(a.items + b.items)
      if isinstance(a, tuple) and isinstance(b, tuple): return a + b
    if op == 'Mult':
      if isinstance(b, (PList, str, tuple, PBytearray, SStr)) and is_intlike(a): a, b = b, a
      if isinstance(a, (PList, str, tuple, PBytearray, SStr)) and is_intlike(b):
        lo, hi = bounds(b)
        if (lo is None or lo < -2 ** 31 or hi is None or hi > 2 ** 31 - 1) and not bool(sand(scmp('>=', b, -2 ** 31), scmp('<=', b, 2 ** 31 - 1))):
          self.throw('OverflowError', "cannot fit 'long' into an index-sized integer")
        if isinstance(b, (SInt, SBool)) and hi is not None and (hi <= 0 or not bool(scmp('>', b, 0))): b = 0
        if isinstance(b, (SInt, SBool)):
          r = self.bt.repeat_sym(self, a, b)
          if r is not None: return r
          b = concretize(b, 300)
        if isinstance(a, (str, tuple)): return a * b
        return type(a)(a.items * max(b, 0))
    if op == 'Sub' and isinstance(a, PSet) and isinstance(b, PSet):
      s = PSet(); s.d = {k: v for k, v in a.d.items() if k not in b.d}; return s
    if op in ('BitOr', 'BitAnd') and isinstance(a, PSet) and isinstance(b, PSet):
      s = PSet()
      s.d = dict(a.d, **{}) if op == 'BitOr' else {k: v for k, v in a.d.items() if k in b.d}
      if op == 'BitOr': s.d.update(b.d)
      return s
    if isinstance(a, (Opaque, Native)) or isinstance(b, (Opaque, Native)):
      raise Unsupported("%s on %s, %s" % (op, a, b))
    if any(isinstance(v, SText) for v in (a, b)) and op == 'Add' and not (is_str(a) and is_str(b)):
      pass
    self.throw('TypeError', "unsupported operand type(s) for %s" % op)

  def arith(self, op, x, y):
    if op == 'Pow':
      if isinstance(x, SInt): raise Unsupported("symbolic base of a power")
      if isinstance(y, SInt) and x == 2 and bounds(y)[0] is not None and bounds(y)[0] >= 0 and bounds(y)[1] is not None and bounds(y)[1] <= 1024:
        lo, hi = bounds(y)
        w = hi + 3
        e = to_bv(y, need(lo, hi))
        e = z3.ZeroExt(w - e.size(), e) if e.size() < w else z3.Extract(w - 1, 0, e)
        return mk(z3.BitVecVal(1, w) << e, 1 << lo, 1 << hi)
      if isinstance(y, (SInt, SBool)): y = concretize(y)
      return x ** y
    o = self.OPS[op]
    if isinstance(x, (float, SRat)) or isinstance(y, (float, SRat)):
      if isinstance(x, (float, int)) and isinstance(y, (float, int)) and not isinstance(x, SRat):
        x, y = float(x), float(y)
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                '//': lambda: x // y, '%': lambda: x % y}[o]()
      return rat_binop(o, x, y)
    if o == '/': o = '//'
    if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)) and o in ('&', '|', '^'):
      if isinstance(x, bool) and isinstance(y, bool): return {'&': x & y, '|': x | y, '^': x ^ y}[o]
      if o == '&': return sand(x, y)
      if o == '|': return sor(x, y)
      return sand(sor(x, y), snot(sand(x, y)))
    return binop(o, x, y)

  CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}

  def compare(self, op, a, b):
    if op == 'Is': return self.is_(a, b)
    if op == 'IsNot': return snot(self.is_(a, b))
    if op == 'In': return self.contains(b, a)
    if op == 'NotIn': return snot(self.contains(b, a))
    if op == 'Eq': return self.eq(a, b)
    if op == 'NotEq': return self.ne(a, b)
    x, y = self.num(a), self.num(b)
    if x is not None and y is not None:
      if isinstance(x, SRat) or isinstance(y, SRat): return rat_cmp(self.CMP[op], x, y)
      if isinstance(x, float) and isinstance(y, (SInt, SBool)):
        return scmp({'<': '>', '<=': '>=', '>': '<', '>=': '<='}[self.CMP[op]], y, x)
      if isinstance(x, float) or (isinstance(y, float) and isinstance(x, (int, bool))):
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[self.CMP[op]]
      return scmp(self.CMP[op], x, y)
    if isinstance(a, Obj):
      m = a.cls.lookup({'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op])
      if m is not None: return self.call(self.bind(m, a), [b], {})
    if isinstance(a, str) and isinstance(b, str):
      return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[self.CMP[op]]
    # Python 2 orders None before everything
    if a is None and b is None: return op in ('LtE', 'GtE')
    if a is None: return op in ('Lt', 'LtE')
    if b is None: return op in ('Gt', 'GtE')
    if y is not None and is_str(a): return op in ('Gt', 'GtE')   # numbers sort before strings
    if x is not None and is_str(b): return op in ('Lt', 'LtE')
    raise Unsupported("ordering of %s and %s" % (type(a).__name__, type(b).__name__))

  def is_(self, a, b):
    if isinstance(a, SEnum) or isinstance(b, SEnum): return self.enum_eq(a, b)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
      if isinstance(a, bool) and isinstance(b, bool): return a == b
      return sb(as_z3bool(a) == as_z3bool(b))
    if isinstance(a, SInt) or isinstance(b, SInt):
      if a is None or b is None: return False
      if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)): return False
      if not (is_intlike(a) and is_intlike(b)): return False
      raise Unsupported("identity of integers")
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, str) and isinstance(b, str): return a == b
    return a is b

  def enum_eq(self, a, b):
    if isinstance(a, Obj) and isinstance(b, Obj): return a is b
    if isinstance(b, SEnum) and not isinstance(a, SEnum): a, b = b, a
    if isinstance(b, SEnum):
      if a.cls is not b.cls: return False
      return scmp('==', a.val, b.val)
    if isinstance(b, Obj) and b.cls is a.cls: return scmp('==', a.val, b.d['value'])
    return False

  def eq(self, a, b):
    if a is b and not isinstance(a, (float, Obj)): return True
    x, y = self.num(a), self.num(b)
    if x is not None and y is not None:
      if isinstance(x, SRat) or isinstance(y, SRat): return rat_cmp('==', x, y)
      if isinstance(x, float) and isinstance(y, (SInt, SBool)): x, y = y, x
      if isinstance(x, float) or (isinstance(y, float) and isinstance(x, (int, bool))): return x == y
      return scmp('==', x, y)
    if isinstance(a, SEnum) or isinstance(b, SEnum): return self.enum_eq(a, b)
    for p, q in ((a, b), (b, a)):
      if isinstance(p, Obj) and not p.cls.is_enum:
        m = p.cls.lookup('__eq__')
        if m is not None:
          r = self.call(self.bind(m, p), [q], {})
          if r is not self.builtins['NotImplemented']: return r
    if isinstance(a, Obj) or isinstance(b, Obj): return a is b
    if is_str(a) and is_str(b): return self.bt.str_eq(self, a, b)
    if isinstance(a, PBytearray) or isinstance(b, PBytearray):
      if (isinstance(a, PBytearray) or is_str(a)) and (isinstance(b, PBytearray) or is_str(b)):
        return self.bt.items_eq(self, self.bt.byte_items(self, a), self.bt.byte_items(self, b))
      return False
    if isinstance(a, PList) and isinstance(b, PList): return self.bt.items_eq(self, a.items, b.items)
    if isinstance(a, tuple) and isinstance(b, tuple): return self.bt.items_eq(self, list(a), list(b))
    if isinstance(a, PDict) and isinstance(b, PDict):
      if set(a.d) != set(b.d): return False
      r = True
      for k in a.d:
        r = sand(r, self.as_bool(self.eq(a.d[k][1], b.d[k][1])))
        if r is False: return False
      return r
    if isinstance(a, PSet) and isinstance(b, PSet): return set(a.d) == set(b.d)
    if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)): raise Unsupported("comparison with " + str(a))
    return a is b

  def as_bool(self, v):
    if isinstance(v, (bool, SBool)): return v
    return self.truth(v)

  def ne(self, a, b):
    for p, q in ((a, b), (b, a)):
      if isinstance(p, Obj) and not p.cls.is_enum:
        m = p.cls.lookup('__ne__')
        if m is not None:
          r = self.call(self.bind(m, p), [q], {})
          if r is not self.builtins['NotImplemented']: return r
    # Python 2: without __ne__ the default is identity, not the negation of __eq__
    for p in (a, b):
      if isinstance(p, Obj) and not p.cls.is_enum and self.num(p) is None:
        return a is not b
    return snot(self.as_bool(self.eq(a, b)))

  def contains(self, c, x):
    if self.watch is not None and isinstance(c, (PList, PDict)): self.watch(c, None, 'r')
    if isinstance(c, (PDict, PSet)):
      if isinstance(x, (SInt, SBool, SEnum)):
        r = False
        for k, v in c.d.items():
          kk = v[0] if isinstance(c, PDict) else v
          r = sor(r, self.as_bool(self.eq(kk, x)))
        return r
      return hkey(x) in c.d
    if is_str(c):
      if isinstance(c, str) and isinstance(x, str): return x in c
      raise Unsupported("substring test on symbolic strings")
    if isinstance(c, ClassV) and c.members is not None:
      if isinstance(x, SEnum): return x.cls is c
      return any(m is x for m in c.members.values())
    if isinstance(c, Obj):
      m = c.cls.lookup('__contains__')
      if m is not None: return self.as_bool(self.call(self.bind(m, c), [x], {}))
    r = False
    for e in self.iter_items(c):
      if isinstance(e, SymSeg): raise Unsupported("membership in a symbolic run")
      r = sor(r, self.is_same_or_eq(e, x))
      if r is True: return True
    return r

  def is_same_or_eq(self, a, b):
    if a is b: return True
    return self.as_bool(self.eq(a, b))

  # ---------------------------------------------------------------- attributes
  def bind(self, m, obj):
    if isinstance(m, (FuncV, Builtin)): return BoundMethod(m, obj)
    if isinstance(m, StaticV): return m.f
    if isinstance(m, ClassMV): return BoundMethod(m.f, obj.cls if isinstance(obj, (Obj, SEnum)) else obj)
    return m

  def getattr(self, o, name):
    if isinstance(o, Obj):
      if name == '__class__': return o.cls
      if name == '__dict__':
        d = PDict(); d.readonly = True
        for k, v in o.d.items(): d.d[k] = (k, v)
        return d
      cls = o.cls
      m = cls.lookup(name)
      if isinstance(m, PropertyV) and (cls.newstyle or name not in o.d):
        if m.fget is None: self.throw('AttributeError', name)
        return self.call(m.fget, [o], {})
      if name in o.d:
        if self.watch is not None: self.watch(o, name, 'r')
        return o.d[name]
      if m is not None or cls.has(name): return self.bind(m, o)
      g = cls.lookup('__getattr__')
      if g is not None: return self.call(self.bind(g, o), [name], {})
      if name == '__doc__': return None
      if name == '__module__': return cls.module
      if name.startswith('__') and hasattr(object(), name): raise Unsupported("attribute %s of an object" % name)
      self.throw('AttributeError', "'%s' object has no attribute '%s'" % (cls.name, name))
    if isinstance(o, SEnum):
      if name in ('value', '_value_'): return o.val
      if name in ('name', '_name_'): return self.concretize_enum(o).d['name']
      if name == '__class__': return o.cls
      m = o.cls.lookup(name)
      if m is None: self.throw('AttributeError', name)
      if isinstance(m, PropertyV): return self.call(m.fget, [o], {})
      return self.bind(m, o)
    if isinstance(o, ClassV):
      if name == '__name__': return o.name
      if name == '__module__': return o.module
      if name == '__mro__': return tuple(o.mro)
      if name == '__bases__': return tuple(o.bases)
      if name == '__members__' and o.members is not None:
        d = PDict()
        for k, v in o.members.items(): d.d[k] = (k, v)
        return d
      if name == '__dict__':
        d = PDict(); d.readonly = True
        for k, v in o.dict.items(): d.d[k] = (k, v)
        return d
      m = o.lookup(name)
      if m is None and not o.has(name):
        if name == '__doc__': return None
        if isinstance(o, self.bt.TypeV):
          host = getattr(bltins, o.name, None) or (int if o.name == 'long' else str)
          self.bt.missing(self, host, name, 'type ' + o.name)
        if name.startswith('__') and hasattr(type, name): raise Unsupported("attribute %s of a class" % name)
        self.throw('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))
      if isinstance(m, StaticV): return m.f
      if isinstance(m, ClassMV): return BoundMethod(m.f, o)
      return m
    if isinstance(o, ModuleV):
      if name in o.dict: return o.dict[name]
      if isinstance(o, OpaqueModule): return o.attr(name)
      if o.name + '.' + name in self.asts: return self.import_module(o.name + '.' + name)
      if name == '__name__': return o.name
      if name == '__doc__': return None
      if o.native: raise Unsupported("%s.%s is not modelled" % (o.name, name))
      self.throw('AttributeError', "module has no attribute " + name)
    if isinstance(o, SuperV):
      start = o.obj.cls if isinstance(o.obj, (Obj, SEnum)) else o.obj
      mro = start.mro
      for c in mro[mro.index(o.cls) + 1:]:
        if name in c.dict:
          m = c.dict[name]
          if isinstance(m, PropertyV): return self.call(m.fget, [o.obj], {})
          return self.bind(m, o.obj)
      self.throw('AttributeError', "super object has no attribute " + name)
    if isinstance(o, FuncV):
      if name in ('__name__', 'func_name'): return o.name
      if name == '__doc__': return None
      if name in o.attrs: return o.attrs[name]
      if name.startswith(('__', 'func_')): raise Unsupported("attribute %s of a function" % name)
      self.throw('AttributeError', name)
    if isinstance(o, BoundMethod):
      if name == '__name__': return o.func.name
      if name in ('im_self', '__self__'): return o.self_
      if name in ('im_func', '__func__'): return o.func
      if name.startswith(('__', 'im_', 'func_')): raise Unsupported("attribute %s of a method" % name)
      self.throw('AttributeError', name)
    if isinstance(o, Native): return o.getattr(self, name)
    if isinstance(o, Opaque): return Opaque(o.name + '.' + name)
    if isinstance(o, PropertyV):
      if name == 'setter':
        return Builtin('setter', lambda it, a, k: PropertyV(o.fget, a[0]))
      if name == 'getter': return Builtin('getter', lambda it, a, k: PropertyV(a[0], o.fset))
    return self.bt.value_attr(self, o, name)

  def concretize_enum(self, e):
    if isinstance(e, Obj): return e
    ms = sorted(e.cls.members.values(), key=lambda m: m.d['value'])
    seen = []
    for m in ms:
      if m in seen: continue
      seen.append(m)
    for m in seen[:-1]:
      if bool(scmp('==', e.val, m.d['value'])): return m
    Ctx.cur.assume_feasible(scmp('==', e.val, seen[-1].d['value']))
    return seen[-1]

  def setattr(self, o, name, v):
    if isinstance(o, Obj):
      if o.cls.newstyle:
        m = o.cls.lookup(name)
        if isinstance(m, PropertyV):
          if m.fset is None: self.throw('AttributeError', "can't set attribute")
          self.call(m.fset, [o, v], {}); return
      s = o.cls.lookup('__setattr__')
      if s is not None and not isinstance(s, Builtin): self.call(self.bind(s, o), [name, v], {}); return
      self.obj_set(o, name, v)
    elif isinstance(o, ClassV):
      old = o.dict.get(name, POISON)
      def u():
        if old is POISON: o.dict.pop(name, None)
        else: o.dict[name] = old
      self.undo(u)
      if Ctx.cur is not None: Ctx.cur.writes.append((o, name))
      o.dict[name] = v
    elif isinstance(o, ModuleV):
      old = o.dict.get(name, POISON)
      def u():
        if old is POISON: o.dict.pop(name, None)
        else: o.dict[name] = old
      self.undo(u)
      if Ctx.cur is not None: Ctx.cur.writes.append((o, name))
      o.dict[name] = v
    elif isinstance(o, Native): o.setattr(self, name, v)
    elif isinstance(o, FuncV): o.attrs[name] = v
    elif isinstance(o, (int, str, SInt, SBool, SStr, SText, PList, PDict, PBytearray, tuple)) or o is None:
      self.throw('AttributeError', "object has no attribute '%s'" % name)
    else: raise Unsupported("setattr on %s" % type(o).__name__)

  def getitem(self, o, i):
    if self.watch is not None and isinstance(o, (PList, PDict)): self.watch(o, None, 'r')
    return self.bt.getitem(self, o, i)
  def setitem(self, o, i, v): self.bt.setitem(self, o, i, v)

  # ---------------------------------------------------------------- iteration
  def iter_items(self, o):
    if self.watch is not None and isinstance(o, (PList, PDict)): self.watch(o, None, 'r')
    if isinstance(o, Seq):
      if isinstance(o, SStr):
        return [x.with_kind('char') if isinstance(x, SymSeg) else chr(x) if isinstance(x, int) else SStr([x])
                for x in o.items]
      return list(o.items)
    if isinstance(o, tuple): return list(o)
    if isinstance(o, str): return list(o)
    if isinstance(o, GenV): return o.force()
    if isinstance(o, PDict): return [k for k, v in o.d.values()]
    if isinstance(o, PSet): return list(o.d.values())
    if isinstance(o, Obj):
      m = o.cls.lookup('__iter__')
      if m is not None:
        r = self.call(self.bind(m, o), [], {})
        return self.iter_items(r)
      m = o.cls.lookup('__getitem__')
      if m is not None: raise Unsupported("iteration through __getitem__")
      self.throw('TypeError', "'%s' object is not iterable" % o.cls.name)
    if isinstance(o, ClassV) and o.members is not None:
      out = []
      for m in o.members.values():
        if m not in out: out.append(m)
      return out
    if isinstance(o, Native) and hasattr(o, 'iter_items'): return o.iter_items(self)
    if o is None or is_intlike(o) or isinstance(o, (float, FuncV, BoundMethod, SEnum)):
      self.throw('TypeError', "object is not iterable")
    raise Unsupported("iteration over %s" % type(o).__name__)

  # ---------------------------------------------------------------- calls
  def call_method(self, o, name, args, kw=None):
    return self.call(self.getattr(o, name), args, kw or {})

  def call(self, f, args, kw):
    if isinstance(f, FuncV): return self.call_func(f, args, kw)
    if isinstance(f, BoundMethod): return self.call(f.func, [f.self_] + list(args), kw)
    if isinstance(f, Builtin):
      return f.fn(self, args, kw)
    if isinstance(f, ClassV): return self.instantiate(f, args, kw)
    if isinstance(f, Native):
      if hasattr(f, 'call'): return f.call(self, args, kw)
    if isinstance(f, Obj):
      m = f.cls.lookup('__call__')
      if m is not None: return self.call(self.bind(m, f), args, kw)
      self.throw('TypeError', "'%s' object is not callable" % f.cls.name)
    if isinstance(f, Opaque): return f.call(self, args, kw)
    if isinstance(f, StaticV): return self.call(f.f, args, kw)
    if f is None or is_intlike(f) or isinstance(f, (str, PList, PDict, tuple)):
      self.throw('TypeError', "object is not callable")
    raise Unsupported("call of %s" % type(f).__name__)

  def instantiate(self, cls, args, kw):
    if cls.native_new is not None:
      return cls.native_new(self, cls, args, kw)
    if cls.is_enum:
      return self.enum_lookup(cls, args, kw)
    if cls.is_exc:
      o = Obj(cls); o.d['args'] = tuple(args); o.d['message'] = args[0] if len(args) == 1 else ''
      init = cls.lookup('__init__')
      if init is not None and (not isinstance(init, Builtin) or init.name == 'native'): self.call(self.bind(init, o), args, kw)
      return o
    nn = cls.lookup('__new__')
    if nn is not None and not isinstance(nn, Builtin): raise Unsupported("__new__ of " + cls.name)
    for b in cls.mro:
      if b.native_new is not None and b.name != 'object': raise Unsupported("subclass of a native class: " + cls.name)
    o = Obj(cls)
    init = cls.lookup('__init__')
    if init is not None and init is not self.builtins['object'].dict['__init__']:
      r = self.call(self.bind(init, o), args, kw)
      if r is not None: self.throw('TypeError', "__init__() should return None")
    elif args or kw:
      self.throw('TypeError', "this constructor takes no arguments")
    return o

  def enum_lookup(self, cls, args, kw):
    if len(args) != 1 or kw: raise Unsupported("functional enum API")
    v = args[0]
    if isinstance(v, Obj) and v.cls is cls: return v
    if isinstance(v, SEnum) and v.cls is cls: return v
    if isinstance(v, (SInt, SBool)):
      vals = sorted(set(m.d['value'] for m in cls.members.values() if isinstance(m.d['value'], int)))
      v = sinty(v)
      # members are distinct integers
      ok = sor(*[scmp('==', v, x) for x in vals])
      if ok is True or (ok is not False and bool(ok)):
        lo, hi = bounds(v)
        feas = [x for x in vals if (lo is None or x >= lo) and (hi is None or x <= hi)]
        if len(feas) == 1: return [m for m in cls.members.values() if m.d['value'] == feas[0]][0]
        return SEnum(cls, v)
      self.throw('ValueError', "not a valid " + cls.name)
    for m in cls.members.values():
      if type(m.d['value']) in (int, bool) and type(v) in (int, bool, float):
        if m.d['value'] == v: return m
      elif type(m.d['value']) == type(v) and m.d['value'] == v: return m
    if isinstance(v, (SStr, SText)):
      if not any(isinstance(m.d['value'], str) for m in cls.members.values()): self.throw('ValueError', "not a valid " + cls.name)
      raise Unsupported("enum lookup by a symbolic string")
    if isinstance(v, SRat): raise Unsupported("enum lookup by a float")
    self.throw('ValueError', "%r is not a valid %s" % (v, cls.name))

  def bind_args(self, f, args, kw):
    a = f.node.args
    names = [x.id if x.t == 'Name' else None for x in a.args]
    loc = {}
    n = len(names)
    if len(args) > n and a.vararg is None:
      self.throw('TypeError', "%s() takes at most %d arguments (%d given)" % (f.name, n, len(args)))
    for nm, x, node in zip(names, args, a.args):
      if nm is None: raise Unsupported("tuple parameter")
      loc[nm] = x
    if a.vararg is not None: loc[a.vararg] = tuple(args[n:])
    extra = PDict() if a.kwarg is not None else None
    for k, v in kw.items():
      if k in names:
        if k in loc: self.throw('TypeError', "multiple values for keyword argument '%s'" % k)
        loc[k] = v
      elif extra is not None: extra.d[k] = (k, v)
      else: self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
    if extra is not None: loc[a.kwarg] = extra
    nd = len(f.defaults)
    for i, nm in enumerate(names):
      if nm not in loc:
        j = i - (n - nd)
        if j < 0: self.throw('TypeError', "%s() missing argument '%s'" % (f.name, nm))
        loc[nm] = f.defaults[j]
    return loc

  def call_func(self, f, args, kw):
    q = f.qual
    con = self.contracts.get(q)
    if con is not None and q not in self.no_contract:
      r = con(self, f, args, kw)
      if r is not NotImplemented: return r
    self.called[q] = self.called.get(q, 0) + 1
    loc = self.bind_args(f, args, kw)
    fr = Frame(f, f.glob, f.closure)
    fr.locals = loc
    fr.assigned = f.node.assigned or ()
    node = f.node
    if node.t == 'Lambda':
      return self.run_frame(f, fr, lambda: self.ev(node.body, fr))
    if node.is_gen:
      fr.out = []
      def run():
        def go():
          self.exec_block(node.body, fr)
          return fr.out
        return self.run_frame(f, fr, go)
      return GenV(run)
    def go():
      r = self.exec_block(node.body, fr)
      if r is None: return None
      if isinstance(r, tuple): return r[1]
      raise Unsupported("break outside loop")
    return self.run_frame(f, fr, go)

  def run_frame(self, f, fr, go):
    self.depth += 1
    self.stack.append(f.qual)
    try:
      if self.depth > 150: raise Unsupported("recursion depth")
      return go()
    finally:
      self.depth -= 1
      self.stack.pop()

  def str_of(self, v):
    return self.bt.str_of(self, v)


PURE = {'Name', 'Num', 'Str', 'Attribute', 'BinOp', 'UnaryOp', 'Compare', 'BoolOp', 'IfExp', 'Subscript', 'Index'}

def pure_expr(n):
  if n is None: return True
  if not isinstance(n, Node): return True
  r = n.__dict__.get('pure')
  if r is None:
    if n.t not in PURE and not n.t in ('Load', 'Add', 'Sub', 'Mult', 'BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift', 'FloorDiv', 'Mod', 'Div', 'Pow', 'Not', 'USub',
                                       'UAdd', 'Invert', 'Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE', 'Is', 'IsNot', 'In', 'NotIn', 'And', 'Or'): r = False
    else:
      r = True
      for k, v in list(n.__dict__.items()):
        if isinstance(v, list): r = r and all(pure_expr(x) for x in v)
        elif isinstance(v, Node): r = r and pure_expr(v)
    n.__dict__['pure'] = r
  return r


def mergeable_block(body):
  if len(body) > 4: return False
  for s in body:
    if s.t == 'Pass': continue
    if s.t == 'Assign' and len(s.targets) == 1 and s.targets[0].t == 'Name' and pure_expr(s.value): continue
    if s.t == 'AugAssign' and s.target.t == 'Name' and pure_expr(s.value): continue
    if s.t == 'If' and pure_expr(s.test) and mergeable_block(s.body) and mergeable_block(s.orelse): continue
    return False
  return True


def merge_values(t, x, y):
  if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
    return (sb(z3.If(t.b, as_z3bool(x), as_z3bool(y))),)
  if isinstance(x, (bool, SBool)) or isinstance(y, (bool, SBool)): return None
  if isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)):
    if isinstance(x, int) and isinstance(y, int) and x == y: return (x,)
    if (isinstance(x, SInt) and x.kind != 'bv') or (isinstance(y, SInt) and y.kind != 'bv'): return None
    (al, ah), (bl, bh) = bounds(x), bounds(y)
    lo, hi = min(al, bl), max(ah, bh)
    w = need(lo, hi)
    return (mk(z3.If(t.b, to_bv(x, w), to_bv(y, w)), lo, hi),)
  if isinstance(x, str) and isinstance(y, str) and x == y and type(x) is type(y): return (x,)
  return None


def loaded_names(nodes):
  out = set()
  def w(n):
    if isinstance(n, list):
      for x in n: w(x)
    elif isinstance(n, Node):
      if n.t == 'Name' and getattr(n.ctx, 't', n.ctx) == 'Load': out.add(n.id)
      if n.t == 'AugAssign' and n.target.t == 'Name': out.add(n.target.id)
      for v in n.__dict__.values():
        if isinstance(v, (Node, list)): w(v)
  w(nodes)
  return out


def live_in(body):
  """Names read before they are surely assigned (straight-line approximation: more names, never fewer)."""
  out, done = set(), set()
  for s in body:
    if s.t == 'Assign':
      out |= loaded_names([s.value] + [t for t in s.targets if t.t != 'Name']) - done
      for t in s.targets: done |= tgt_names(t)
    elif s.t == 'AugAssign':
      out |= loaded_names([s]) - done
    else: out |= loaded_names([s]) - done
  return out


def same_step(a, b):
  """The same function of (accumulator, element)?"""
  (acc1, x1, r1, k1), (acc2, x2, r2, k2) = a, b
  if k1 != k2: return False
  w = k1 + 2
  e1 = to_bv(r1, w); e2 = to_bv(r2, w)
  subs = []
  for p, q in ((acc1, acc2), (x1, x2)): subs.append((p.e.arg(0), q.e.arg(0)))
  e1 = z3.substitute(e1, *subs)
  if e1.eq(e2): return True
  s = z3.Solver(); s.set('timeout', 20000); s.add(e1 != e2)
  return s.check() == z3.unsat


def step_injective(st):
  """(injective in the accumulator, injective in the element)"""
  acc, x, r, k = st
  e = to_bv(r, k + 2)
  a2 = z3.BitVec('acc2', k); x2 = z3.BitVec('elt2', 8)
  out = []
  for v, v2 in ((acc.e.arg(0), a2), (x.e.arg(0), x2)):
    s = z3.Solver(); s.set('timeout', 20000)
    s.add(v != v2, e == z3.substitute(e, (v, v2)))
    out.append(s.check() == z3.unsat)
  return tuple(out)


def fold_value(init, acc, x, res, k, seg):
  """The fold of one step function over one run: a fresh constant per (start, step, run). Facts, each by induction over the
  run: equal starts give equal folds; with an injective step, distinct starts give distinct folds."""
  Ctx.cur.notes.add('fold')
  c = Ctx.cur
  folds = c.memo.setdefault('folds', [])
  st = (acc, x, res, k)
  skey = (seg.key, ekey(seg.length))
  f = c.fresh_int('fold', 0, (1 << k) - 1)
  for (i2, st2, skey2, f2) in folds:
    if skey2 != skey or not same_step(st, st2): continue
    eq = as_z3bool(scmp('==', init, i2)); feq = as_z3bool(scmp('==', f, f2))
    if z3.is_true(z3.simplify(eq)): return f2
    inj = c.memo.get('inj')
    if inj is None or not same_step(inj[0], st): inj = c.memo['inj'] = (st, step_injective(st))
    c.assume(feq == eq if inj[1][0] else z3.Implies(eq, feq))
  folds.append((init, st, skey, f))
  return f


class MapProbe(object):
  def __init__(self, interp, fr):
    self.appended = {}
    self.epoch = 0

  def write(self, obj, what):
    raise Unsupported("a loop over a symbolic run that updates state (%s)" % (what,))

  def append(self, lst, v):
    if lst.epoch >= self.epoch: return False
    a = self.appended.setdefault(id(lst), (lst, []))
    a[1].append(v)
    return True


def tgt_names(n):
  if n.t == 'Name': return {n.id}
  if n.t in ('Tuple', 'List'):
    out = set()
    for e in n.elts: out |= tgt_names(e)
    return out
  return set()


def opname(op):
  return op.t if isinstance(op, Node) else op


class SliceV(object):
  __slots__ = ('lo', 'hi', 'step')

  def __init__(self, lo, hi, step): self.lo = lo; self.hi = hi; self.step = step


class Opaque(object):
  """A value of an unmodelled library: any use that matters makes the obligation undecided."""
  epoch = 0

  def __init__(self, name): self.name = name

  def call(self, interp, args, kw): raise Unsupported("call of unmodelled " + self.name)

  def __repr__(self): return "<opaque %s>" % self.name


class OpaqueModule(ModuleV):
  def __init__(self, name):
    ModuleV.__init__(self, name); self.native = True

  def attr(self, name):
    if name not in self.dict: self.dict[name] = Opaque(self.name + '.' + name)
    return self.dict[name]


def is_str(v): return isinstance(v, (str, SStr, SText))


def str_parts(v):
  if isinstance(v, str): return [v]
  if isinstance(v, SText): return v.parts
  return [('s', v, '')]


def str_cat(a, b):
  if isinstance(a, str) and isinstance(b, str):
    r = str(a) + str(b)
    return U(r) if isinstance(a, U) or isinstance(b, U) else r
  if isinstance(a, SText) or isinstance(b, SText): return SText(str_parts(a) + str_parts(b))
  return SStr(codes(a) + codes(b)).norm()


def codes(s):
  if isinstance(s, str): return [ord(c) for c in s]
  if isinstance(s, SStr): return list(s.items)
  raise Unsupported("characters of symbolic text")
