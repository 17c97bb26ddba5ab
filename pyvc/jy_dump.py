# Runs under Jython 2.7: dumps the abstract syntax of the real source files, parsed by the very parser that runs them.
import sys, os, ast, json
root = sys.argv[1]; tops = sys.argv[2].split(','); out = sys.argv[3]
def enc(n):
  if isinstance(n, ast.AST):
    d = {"_": n.__class__.__name__}
    if hasattr(n, 'lineno'):
      try: d["l"] = n.lineno
      except Exception: pass
    for f in n._fields:
      try: v = getattr(n, f)
      except AttributeError: v = None
      if d["_"] == 'Num' and f == 'n':
        d['n'] = repr(v); d['t'] = type(v).__name__
      elif d["_"] == 'Str' and f == 's':
        d['u'] = isinstance(v, unicode)
        d['s'] = v if isinstance(v, unicode) else v.decode('latin-1')
      else:
        d[f] = enc(v)
    return d
  if isinstance(n, (list, tuple)): return [enc(x) for x in n]
  if n is None or isinstance(n, (bool, int, long, float)): return n
  if isinstance(n, str): return n.decode('latin-1')
  if isinstance(n, unicode): return n
  return str(n)
res = {}
for top in tops:
  for d, dirs, names in os.walk(os.path.join(root, top)):
    dirs.sort()
    for n in sorted(names):
      if not n.endswith('.py'): continue
      p = os.path.join(d, n)
      rel = os.path.relpath(p, root)
      parts = rel[:-3].split(os.sep)
      if 'test' in parts[:-1] or 'tests' in parts[:-1]: continue
      src = open(p, 'rb').read()
      mod = '.'.join(parts)
      pkg = False
      if mod.endswith('.__init__'): mod = mod[:-9]; pkg = True
      try:
        tree = ast.parse(src, p)
        res[mod] = {"file": rel, "pkg": pkg, "ast": enc(tree)}
      except SyntaxError as e:
        res[mod] = {"file": rel, "pkg": pkg, "error": str(e)}
f = open(out, 'w'); json.dump(res, f); f.close()
