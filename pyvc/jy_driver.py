# Runs under Jython 2.7: executes scenario scripts on the real code and dumps what is observable.
import sys, os, json, importlib
req = json.load(open(sys.argv[1]))
for p in reversed(req["path"]): sys.path.insert(0, p)
import logging
logging.basicConfig(stream=open(os.devnull, 'w'))
real_out = sys.stdout
class Sink(object):
  def write(self, s): pass
  def flush(self): pass
import enum
from bitstring import ConstBitStream

def name(path):
  parts = path.split('.')
  for i in range(len(parts), 0, -1):
    try: m = importlib.import_module('.'.join(parts[:i]))
    except ImportError: continue
    for p in parts[i:]: m = getattr(m, p)
    return m
  raise ImportError(path)

def qual(c): return "%s.%s" % (getattr(c, '__module__', '?'), getattr(c, '__name__', '?'))

def dump(v, memo):
  if v is None or v is True or v is False: return v
  if isinstance(v, enum.Enum): return {"e": [qual(v.__class__), v.name]}
  if isinstance(v, (int, long)): return {"i": str(int(v)).rstrip('L')}
  if isinstance(v, float): return {"f": repr(v)}
  if isinstance(v, unicode): return {"u": v}
  if isinstance(v, str): return {"s": v.decode('latin-1')}
  if isinstance(v, bytearray): return {"ba": [int(x) for x in v]}
  if isinstance(v, list):
    if v and all(type(x) is int for x in v): return {"il": list(v)}
    return {"l": [dump(x, memo) for x in v]}
  if isinstance(v, tuple): return {"t": [dump(x, memo) for x in v]}
  if isinstance(v, dict): return {"d": [[dump(a, memo), dump(b, memo)] for a, b in v.items()]}
  if isinstance(v, BaseException): return exc(v)
  if isinstance(v, type): return {"c": qual(v)}
  if isinstance(v, ConstBitStream): return {"stream": int(v.pos)}
  d = getattr(v, '__dict__', None)
  if d is not None and hasattr(v, '__class__') and not callable(v):
    if id(v) in memo: return {"ref": memo[id(v)][0]}
    memo[id(v)] = (len(memo), v)
    k = memo[id(v)][0]
    return {"o": k, "c": qual(v.__class__), "a": dict((n, dump(x, memo)) for n, x in sorted(d.items()))}
  return {"r": repr(v)[:200]}

def exc(e):
  c = e.__class__
  try: t = str(e)[:300]
  except Exception: t = '?'
  try: n = len(e.args)
  except Exception: n = 0
  return {"x": c.__name__, "q": qual(c), "mro": [k.__name__ for k in c.__mro__], "n": n, "text": t.decode('latin-1')}

def ev(e, env):
  k = e[0]
  if k == 'lit':
    v = e[1]
    if isinstance(v, unicode): return v.encode('latin-1')
    return v
  if k == 'bytestr': return e[1].encode('latin-1')
  if k == 'intlist': return list(e[1])
  if k == 'none': return None
  if k == 'var': return env[e[1]]
  if k == 'name': return name(e[1])
  if k == 'enum': return name(e[1])[e[2]]
  if k == 'list': return [ev(x, env) for x in e[1]]
  if k == 'call':
    f = ev(e[1], env); a = [ev(x, env) for x in e[2]]
    kw = dict((str(n), ev(x, env)) for n, x in sorted((e[3] if len(e) > 3 else {}).items()))
    return f(*a, **kw)
  if k == 'attr': return getattr(ev(e[1], env), e[2])
  if k == 'method':
    o = ev(e[1], env); a = [ev(x, env) for x in e[3]]
    kw = dict((str(n), ev(x, env)) for n, x in sorted((e[4] if len(e) > 4 else {}).items()))
    return getattr(o, e[2])(*a, **kw)
  if k == 'setattr': setattr(ev(e[1], env), e[2], ev(e[3], env)); return None
  if k == 'tolist': return list(ev(e[1], env))
  if k == 'tobytearray': return bytearray(ev(e[1], env))
  if k == 'tobytes': return ''.join(map(chr, ev(e[1], env)))
  if k == 'stream':
    v = ev(e[1], env)
    return ConstBitStream(bytes=bytearray(v))
  if k == 'concat':
    out = []
    for x in e[1]: out.extend(list(ev(x, env)))
    return out
  if k == 'eq': return ev(e[1], env) == ev(e[2], env)
  if k == 'ne': return ev(e[1], env) != ev(e[2], env)
  if k == 'str': return str(ev(e[1], env))
  if k == 'len': return len(ev(e[1], env))
  if k == 'item': return ev(e[1], env)[ev(e[2], env)]
  raise Exception("script form " + k)

results = []
import threading
def run_case(case):
  env = {}; out = []
  for st in case:
    r = {"let": st["let"]}
    try:
      v = ev(st["expr"], env)
      if hasattr(v, 'next') and hasattr(v, 'gi_frame'): v = list(v)
      env[st["let"]] = v
      r["val"] = None if st.get("quiet") else dump(v, {})
      out.append(r)
    except Exception as e:
      r["exc"] = exc(e); out.append(r)
      if not st.get("try"): break
    except BaseException as e:
      r["exc"] = exc(e); out.append(r)
      if not st.get("try"): break
  return out
sys.stdout = Sink()
for case in req["cases"]:
  results.append(run_case(case))
sys.stdout = real_out
f = open(sys.argv[2], 'w'); json.dump(results, f); f.close()
