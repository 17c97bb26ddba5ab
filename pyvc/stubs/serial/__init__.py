"""Stand-in for pyserial: the device is the scripted one of world."""
from world import W

PARITY_NONE = 'N'
STOPBITS_ONE = 1
EIGHTBITS = 8


class SerialException(IOError):
  pass


class SerialTimeoutException(SerialException):
  pass


class Serial(object):
  def __init__(self, *args, **kwargs):
    self.is_open = True

  def read(self, size=1):
    """At most size bytes of the next thing received."""
    if W.history is not None and len(W.incoming) == 0: W.history.append(5000)
    while len(W.incoming) == 0:
      W.pause()
      if W.cancelled:
        W.cancelled = False
        return b''
    x = W.incoming.pop(0)
    if not isinstance(x, str):
      W.reopens = x.reopens
      raise SerialException("device reports readiness to read but returned no data")
    if len(x) > size:
      W.incoming.insert(0, x[size:])
      x = x[:size]
    return x

  @property
  def in_waiting(self):
    if len(W.incoming) == 0 or not isinstance(W.incoming[0], str): return 0
    return len(W.incoming[0])

  def inWaiting(self): return self.in_waiting

  def open(self):
    if not W.reopens: raise SerialException("could not open port")

  def close(self): pass

  def write(self, data):
    W.written.append(data)
    if W.deadline is not None: W.history.append(2000)
    now = W.at_write
    W.at_write = []
    W.event(now)

  def flush(self): pass
  def cancel_read(self):
    W.cancelled = True
    W.resume()
  def reset_input_buffer(self): pass
