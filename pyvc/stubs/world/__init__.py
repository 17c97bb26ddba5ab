"""The surroundings of a Modem, scripted: what the device delivers, when, and what reaches whom.

Runs under Jython (next to the real modem.py) and inside the symbolic executor (the same source)."""


import threading as real


class Over(BaseException):
  """Ends the read thread of a scenario that is over."""


class State(object):
  """One of the two threads runs at any time: the read thread runs until it waits (for data, or for a lock), then the other."""
  def event(self, received):
    """The read thread receives these, one after the other, and then waits for more."""
    self.incoming = self.incoming + received
    self.resume()

  def batons(self):
    self.to_reader = real.Semaphore(0)
    self.to_main = real.Semaphore(0)

  def resume(self):
    self.preempted = False
    if self.thread is None or self.thread.dead: return
    self.receiving = True
    self.to_reader.release()
    self.to_main.acquire()
    self.receiving = False

  def pause(self):
    """The read thread waits."""
    self.to_main.release()
    self.to_reader.acquire()
    if self.over: raise Over()

W = State()
W.thread = None


class Broken(object):
  """A read that fails; the device can be opened again, or not yet."""
  def __init__(self, reopens): self.reopens = reopens


class Chunk(object):
  """What the parser makes of something received."""
  def __init__(self, types, cmds):
    self.types = types
    self.cmds = cmds


class Parser(object):
  """Stands for the serial parser (its own contract: C12, C13): a received byte stands for its messages."""
  def __init__(self, skip_alp_parsing=False):
    self.skip_alp_parsing = skip_alp_parsing

  def parse(self, data):
    types = []
    cmds = []
    for b in bytearray(data):
      if W.history is not None: W.history.append(b)
      types = types + W.chunks[b].types
      cmds = cmds + W.chunks[b].cmds
    return (types, cmds, {"parsed": 0, "buffer": 0, "errors": []})

  def build_serial_frame(self, command):
    return bytearray([0xC0])


class Lock(object):
  def __init__(self):
    self.held = False
    self.blocked = False
  def acquire(self, blocking=True):
    while self.held:
      if not blocking: return False
      if not W.receiving:
        if not W.preempted: raise RuntimeError("a lock is never released")
        W.resume()      # the read thread holds it
      else: self.wait()
    self.held = True
    return True
  def wait(self):
    """The read thread waits for the lock."""
    self.blocked = True
    W.pause()
  def release(self):
    if not self.held: raise RuntimeError("the lock is not held")
    self.held = False
    if self.blocked and not W.receiving:
      self.blocked = False
      if not W.preempted: W.resume()
  def locked(self): return self.held
  def __enter__(self): return self.acquire()
  def __exit__(self, t, v, b): self.release()


class RLock(Lock):
  def __init__(self):
    self.held = False
    self.blocked = False
    self.count = 0
    self.owner = False
  def acquire(self, blocking=True):
    if self.held and self.owner == W.receiving:
      self.count = self.count + 1
      return True
    if not Lock.acquire(self, blocking): return False
    self.owner = W.receiving
    self.count = 1
    return True
  def release(self):
    self.count = self.count - 1
    if self.count == 0: Lock.release(self)


class Thread(object):
  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None):
    self.target = target
    self.args = args
    self.daemon = False
    self.dead = False
    self.real = None
  def start(self):
    W.thread = self
    self.begin()
  def begin(self):
    self.real = real.Thread(target=self.run)
    self.real.setDaemon(True)
    self.real.start()
    W.resume()
  def run(self):
    W.to_reader.acquire()
    try: self.target(*self.args)
    except Over: pass
    finally:
      self.dead = True
      W.to_main.release()
  def join(self, timeout=None): pass
  def setDaemon(self, d): pass
  def isDaemon(self): return True
  def is_alive(self): return not self.dead
  def isAlive(self): return not self.dead


class Event(object):
  def __init__(self): self.flag = False
  def set(self): self.flag = True
  def clear(self): self.flag = False
  def is_set(self): return self.flag
  def isSet(self): return self.flag
  def wait(self, timeout=None):
    end = None if timeout is None else W.clock + timeout
    while not self.flag and (end is None or W.clock < end): sleep(1)
    return self.flag


class Condition(object):
  def __init__(self, lock=None):
    self.lock = RLock() if lock is None else lock
    self.told = 0
  def acquire(self, blocking=True): return self.lock.acquire()
  def release(self): self.lock.release()
  def __enter__(self): return self.lock.acquire()
  def __exit__(self, t, v, b): self.lock.release()
  def notify(self, n=1): self.told = self.told + 1
  def notifyAll(self): self.told = self.told + 1
  def notify_all(self): self.told = self.told + 1
  def wait(self, timeout=None):
    end = None if timeout is None else W.clock + timeout
    told = self.told
    self.lock.release()
    while self.told == told and (end is None or W.clock < end): sleep(1)
    self.lock.acquire()


class Threading(object):
  def __init__(self):
    self.Lock = Lock
    self.RLock = RLock
    self.Thread = Thread
    self.Event = Event
    self.Condition = Condition


class Span(object):
  def __init__(self, s): self.s = s
  def total_seconds(self): return self.s
  @property
  def seconds(self): return self.s
  def __lt__(self, o): return self.s < o.total_seconds()
  def __le__(self, o): return self.s <= o.total_seconds()
  def __gt__(self, o): return self.s > o.total_seconds()
  def __ge__(self, o): return self.s >= o.total_seconds()


class Instant(object):
  def __init__(self, s): self.s = s
  def __sub__(self, o):
    if isinstance(o, Instant): return Span(self.s - o.s)
    return Instant(self.s - o.total_seconds())
  def __add__(self, o): return Instant(self.s + o.total_seconds())
  def __lt__(self, o): return self.s < o.s
  def __le__(self, o): return self.s <= o.s
  def __gt__(self, o): return self.s > o.s
  def __ge__(self, o): return self.s >= o.s


class Clock(object):
  """The modules datetime and time, and the class datetime."""
  def __init__(self):
    self.datetime = self
    self.timedelta = self.span
  def span(self, days=0, seconds=0): return Span(86400 * days + seconds)
  def now(self, tz=None): return Instant(W.clock)
  def utcnow(self): return Instant(W.clock)
  def today(self): return Instant(W.clock)
  def time(self): return W.clock
  def clock(self): return W.clock
  def sleep(self, seconds): sleep(seconds)
  def __call__(self): return W.clock


def sleep(seconds):
  """Time passes: as much as the next scripted step says, and what it brings is received."""
  if W.receiving: return       # the read thread sleeps
  if len(W.steps) == 0:
    W.clock = W.clock + 1000000
    return
  dt, received = W.steps.pop(0)
  W.clock = W.clock + dt
  if W.deadline is not None and W.clock >= W.deadline and W.history[-1:] != [LATE]: W.history.append(LATE)
  W.event(received)


class Ear(object):
  """A callback that notes what it is given."""
  def __init__(self): self.heard = []
  def hear(self, cmd): self.heard.append(cmd)


class Payload(object):
  """Some message that is no ALP command (a log line, a reboot reason, unparsed bytes)."""
  def __str__(self): return ''


def install(m, parser):
  """Replaces what the modem module sees of the world."""
  clock = Clock()
  for name, v in [('Thread', Thread), ('Lock', Lock), ('RLock', RLock), ('Event', Event), ('Condition', Condition), ('threading', Threading()), ('time', clock),
                  ('datetime', clock), ('sleep', sleep), ('timedelta', clock.span)]:
    if hasattr(m, name): setattr(m, name, v)
  if hasattr(m, 'Parser'):
    if m.Parser is not Parser: W.parser = m.Parser      # the real one
    m.Parser = Parser if parser else W.parser
  W.point = None
  W.preempted = False
  W.history = None
  W.deadline = None
  W.over = True
  if W.thread is not None: W.resume()
  W.over = False
  W.cancelled = False
  W.receiving = False
  W.batons()
  W.incoming = []
  W.chunks = []
  W.written = []
  W.at_write = []
  W.steps = []
  W.clock = 0
  W.reopens = True
  W.thread = None


def start(m, skip, heard, boots, parser=False, cls=None):
  """A modem in this world."""
  install(m, parser)
  W.modem = (m.Modem if cls is None else cls)("/dev/null", 115200, unsolicited_response_received_callback=None if heard is None else heard.hear,
                    rebooted_callback=None if boots is None else boots.hear, skip_alp_parsing=skip)
  return W.modem


def execute(command, timeout, at_write, steps):
  """A command is executed: this is received while it is written, and then at these moments (seconds, received)."""
  W.at_write = at_write
  W.steps = steps
  try: return W.modem.execute_command(command, timeout_seconds=timeout)
  finally:
    W.steps = []
    W.at_write = []


class Answers(object):
  """Stands for execute_command of this modem: notes what is asked, and returns these responses."""
  def __init__(self, modem, responses):
    self.responses = responses
    self.asked = []
    modem.execute_command = self.execute_command
  def execute_command(self, alp_command, timeout_seconds=10):
    self.asked.append([alp_command, timeout_seconds])
    return self.responses


# ---------------------------------------------------------------- schedules (real threads only)
def point(name):
  """An access to the state that the threads share: here one thread may be interrupted, once, by the other."""
  if W.point is None or name.startswith('__') or W.receiving != W.interrupts_reader: return
  W.point = W.point - 1
  if W.point != 0: return
  W.point = None
  if W.receiving:
    W.preempted = True
    W.pause()
  else: W.interrupt()


def watched(m):
  class Watched(m.Modem, object):
    def __getattribute__(self, name):
      point(name)
      v = object.__getattribute__(self, name)
      point(name)
      return v
    def __setattr__(self, name, v):
      point(name)
      object.__setattr__(self, name, v)
  return Watched


def schedules(m, Command, skip, heard, boots, connected, tags, messages, how):
  """Two executions with something received before, during, between and after them; every interruption of one thread by the other, at one point.

  messages: (type, tag, ends the execution) of what comes before both (0), while the first waits (1, 2), after it (3), while the second waits (4), in the end (5).
  how: 'end': the reader is interrupted in (1), while the time of the first is over; 'go on': in (1), while it waits on;
  'clear': in (1), while the stored messages are read and cleared; 'main': the first execution is interrupted by (1).
  Returned for every point: what happened, in order (what arrived: its number; the steps of the executions), and who has got what."""
  W.what = []
  W.received = []
  n = 0
  for group in messages:
    r = []
    for t, tag, ends in group:
      if t == 4 or t == 5 or skip:
        x = n if t == 5 else ('text' + str(n)) if t == 4 else Payload()
        if t != 4 and t != 5: x.n = n
      else:
        x = Command(actions=[], tag_id=tag, generate_tag_request_action=False)
        x.execution_completed = ends
        x.n = n
      W.what.append(Chunk([t], [x]))
      r.append(chr(n))
      n = n + 1
    W.received.append(r)
  commands = [Command(actions=[], tag_id=t) for t in tags]
  out = []
  k = 0
  while True:
    k = k + 1
    if k > 600: raise RuntimeError("too many points")
    o = schedule(m, skip, heard, boots, connected, commands, how, k)
    if o is None: return out
    out.append(o)


def numbers(l): return [x if isinstance(x, int) else getattr(x, 'n', -1) for x in l]


def schedule(m, skip, heard, boots, connected, commands, how, k):
  received = W.received
  ears = [Ear() if heard else None, Ear() if boots else None]
  M = start(m, skip, ears[0], ears[1], True, watched(m))
  W.chunks = W.what
  W.history = []
  M.connected = connected
  def interrupt(): W.event(received[1])
  W.interrupt = interrupt
  W.interrupts_reader = how != 'main'
  W.event(received[0])
  noted = None
  if how == 'main':
    W.point = k
    a = run(commands[0], [[1, []], [1, received[2]], [1, []], [9, []]])
  elif how == 'clear':
    W.point = k
    W.event(received[1])
    if W.point is None:
      noted = [M.get_unsolicited_responses_received(), M.get_rebooted_received()]
      M.clear_unsolicited_responses_received()
      M.clear_rebooted_received()
    a = run(commands[0], [[1, received[2]], [9, []]])
  else:
    W.point = k
    a = run(commands[0], [[9, received[1]], [1, []]] if how == 'end' else [[1, received[1]], [1, []], [1, received[2]], [9, []]])
  if W.point is not None:
    W.point = None
    return None
  if k % 2 == 0: W.event(received[3])
  b = run(commands[1], [[1, received[4]], [1, []], [9, []]])
  W.event(received[5])
  stored = M.get_unsolicited_responses_received()
  boot = M.get_rebooted_received()
  if noted is not None:
    stored = numbers(noted[0]) + numbers(stored) if noted[0] is not stored else numbers(stored)
    boot = numbers(noted[1]) + numbers(boot) if noted[1] is not boot else numbers(boot)
  return [numbers(x) for x in (W.history, a, b, stored, boot, ears[0].heard if heard else [], ears[1].heard if boots else [])] + [bool(W.thread.dead)]


BEGIN, WRITTEN, LATE, END = 1000, 2000, 3000, 4000


def run(command, steps):
  """An execution of 5 seconds."""
  W.history.append(BEGIN)
  t = W.clock
  W.deadline = t + 5
  r = execute(command, 5, [], steps)
  W.deadline = None
  W.history.append(END)
  return r
