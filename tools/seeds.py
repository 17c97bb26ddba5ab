# Definitions of the planted bugs (see mkseed.py). Demonstrations are Python 2.7 (Jython).
SEEDS = []


def S(id, property, needs, breaks, edits, demo):
  SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S('c01-round-down-one', 'C01', 'a duration that is one tick above a multiple of the step of an exponent above 0 (such as 33)',
  'a remainder of one tick is no longer rounded up: the compressed time is shorter than the duration',
  [('d7a/types/ct.py', "      if(ceil and remainder):", "      if(ceil and remainder > 1):")], '''
from d7a.types.ct import CT
for v in (32, 33, 34, 125, 500000, 507904):
  assert CT.compress(v).decompress() >= v, v
''')
S('c02-four-byte-boundary', 'C02', 'a length of exactly 0x400000',
  'the first value of the four byte class is written in three bytes and loses its top bit into the size field',
  [('d7a/alp/operands/length.py', "    if self.value > 0x3FFFFF:", "    if self.value > 0x400000:")], '''
from bitstring import ConstBitStream
from d7a.alp.operands.length import Length
for v in (0x3FFFFF, 0x400000, 0x400001):
  assert Length.parse(ConstBitStream(bytes=bytearray(Length(v)))).value == v, v
''')
S('c03-status-flags-swapped', 'C03', 'a status whose missed and retry flags differ',
  'missed and retry are written in the right place but read swapped',
  [('d7a/sp/status.py', '''    missed          = s.read("bool")
    retry           = s.read("bool")''', '''    retry           = s.read("bool")
    missed          = s.read("bool")''')], '''
from bitstring import ConstBitStream
from d7a.sp.status import Status
b = bytearray([0x32, 0, 16, 70, 80, 80, 0x40, 200, 1, 0x20, 0x10, 0])
assert Status.parse(ConstBitStream(bytes=b)).missed is True
assert bytearray(Status.parse(ConstBitStream(bytes=b))) == b
''')
S('c04-forward-resp-lost', 'C04', 'a forward action whose resp flag is set, read from bytes',
  'the resp flag of a parsed forward action is taken from the reserved bit and is always false',
  [('d7a/alp/parser.py', "    return ForwardAction(resp=b6, operation", "    return ForwardAction(resp=b7, operation")], '''
from bitstring import ConstBitStream
from d7a.alp.parser import Parser
b = bytearray([0x40 + 50, 0x01])
c = Parser().parse(ConstBitStream(bytes=b), len(b))
assert bytearray(c.actions[0]) == b, c.actions[0].resp
''')
S('c04-create-file-is-return-header', 'C04', 'a create file action with a file header, read from bytes',
  'two parser functions that look alike: a parsed create-new-file action becomes one of another operation when the file id is below the user files',
  [('d7a/alp/parser.py', '''    return RegularAction(group=b7,
                         resp=b6,
                         operation=CreateNewFile(operand=operand))''', '''    return RegularAction(group=b7,
                         resp=b6,
                         operation=CreateNewFile(operand=operand) if operand.file_id >= 0x40 else ReturnFileHeader(operand=operand))''')], '''
from bitstring import ConstBitStream
from d7a.alp.parser import Parser
from d7a.alp.operations.file_management import CreateNewFile
for i in (0, 0x3F, 0x40, 0xFF):
  b = bytearray([17, i, 0xFC, 0x23, 0xFF, 0xFF, 0, 0, 0, 1, 0, 0, 0, 1])
  c = Parser().parse(ConstBitStream(bytes=b), len(b))
  assert type(c.actions[0].operation) is CreateNewFile, i
''')
S('c07-guest-flags-crossed', 'C07', 'a file whose guest write and execute permissions differ, read from bytes',
  'the guest write and execute permissions of a parsed header are exchanged',
  [('d7a/fs/file_permissions.py', "guest_readable=guest_readable, guest_writeable=guest_writeable, guest_executeable=guest_executable)",
    "guest_readable=guest_readable, guest_writeable=guest_executable, guest_executeable=guest_writeable)")], '''
from bitstring import ConstBitStream
from d7a.fs.file_permissions import FilePermissions
for v in range(256):
  assert bytearray(FilePermissions.parse(ConstBitStream(bytes=bytearray([v])))) == bytearray([v]), v
''')
S('c08-key-top-byte', 'C08', 'a security key of 2^120 or more',
  'the most significant byte of the network security key is not serialized',
  [('d7a/system_files/security_key.py', "    for byte in [(self.key & (0xff << pos * 8)) >> pos * 8 for pos in range(16)]:",
    "    for byte in [(self.key & (0xff << pos * 8)) >> pos * 8 for pos in range(15)] + [0]:")], '''
from d7a.system_files.security_key import SecurityKeyFile
for k in (0, 5, 1 << 119, 1 << 120, (1 << 128) - 1):
  b = bytearray(SecurityKeyFile(k))
  assert len(b) == 16 and sum(x << 8 * i for i, x in enumerate(b)) == k, k
''')
S('c08-phy-status-order', 'C08', 'a PHY status with two channels that differ',
  'the channel list of a parsed PHY status is in reverse order, the noise floors are not',
  [('d7a/system_files/phy_status.py', "      channel_status_identifier.append(ChannelStatusIdentifier().parse(s))",
    "      channel_status_identifier.insert(0, ChannelStatusIdentifier().parse(s))")], '''
from bitstring import ConstBitStream
from d7a.system_files.phy_status import PhyStatusFile
b = bytearray([0] * 14 + [2, 0x70, 5, 50, 0x40, 9, 60])
f = PhyStatusFile.parse(ConstBitStream(bytes=b))
assert bytearray(f) == b, list(bytearray(f))
''')
S('c09-index-eleven-bits', 'C09', 'a channel status identifier with a channel index above 1023',
  'the third high bit of the channel index is dropped when serializing',
  [('d7a/phy/channel_status_identifier.py', "    byte += (self.channel_index >> 8) & 0x07", "    byte += (self.channel_index >> 8) & 0x03")], '''
from bitstring import ConstBitStream
from d7a.phy.channel_status_identifier import ChannelStatusIdentifier
for i in (0, 255, 256, 1023, 1024, 1039):
  c = ChannelStatusIdentifier(channel_index=i)
  assert ChannelStatusIdentifier.parse(ConstBitStream(bytes=bytearray(c))).channel_index == i, i
''')
S('c10-subband-power', 'C10', 'a sub-band with a negative power',
  'the signed power of a sub-band is serialized as its magnitude',
  [('d7a/phy/subband.py', '''    for byte in bytearray(struct.pack("b", self.eirp)): yield byte''', '''    for byte in bytearray(struct.pack("B", abs(self.eirp))): yield byte''')], '''
from d7a.phy.subband import SubBand
for v in (-128, -1, 0, 5, 127):
  assert bytearray(SubBand(eirp=v))[4] == v % 256, v
''')
S('c14-trailing-zero', 'C14', 'a payload with a trailing zero byte',
  'trailing zero bytes are not part of the checksum',
  [('d7a/support/Crc.py', "    crc = crc16_func(binascii.hexlify(bytearray(bytes)).decode('hex'))",
    "    crc = crc16_func(binascii.hexlify(bytearray(bytes)).decode('hex').rstrip('\\x00'))")], '''
from d7a.support.Crc import calculate_crc
def ref(d):
  c = 0xFFFF
  for b in bytearray(d):
    c ^= b << 8
    for _ in range(8): c = ((c << 1) ^ 0x1021 if c & 0x8000 else c << 1) & 0xFFFF
  return [c >> 8, c & 255]
for d in ("", "123456789", "a\\x00", "\\x00" * 3):
  assert list(calculate_crc(d)) == ref(d), repr(d)
''')
S('c15-uid-length', 'C15', 'a foreground frame addressed to a UID',
  'the payload of a unicast frame to a UID is taken two bytes too long, into the checksum',
  [('d7a/dll/foreground_frame.py', "        payload_length = payload_length - 8", "        payload_length = payload_length - 6")], '''
from bitstring import ConstBitStream
from d7a.dll.foreground_frame import ForegroundFrame
body = bytearray([0, 0x80]) + bytearray(range(8)) + bytearray([0x90, 0, 0x80, 1, 2, 1, 64, 0, 8]) + bytearray([0x12, 0x34])
b = bytearray([len(body)]) + body
f = ForegroundFrame.parse(ConstBitStream(bytes=b))
assert bytearray(f) == b and f.crc16 == 0x1234
''')
S('c16-agc-with-te', 'C16', 'a transport frame with both a receive level and an execution delay',
  'the receive level byte is not read when the frame also carries Te, so that it is taken for a delay',
  [('d7a/d7atp/frame.py', '''    target_rx_level_i = None
    if control.has_agc:''', '''    target_rx_level_i = None
    if control.has_agc and not control.has_te:''')], '''
from bitstring import ConstBitStream
from d7a.d7atp.frame import Frame
for ctl in (0x80, 0x81, 0xB1, 0x91):
  b = bytearray([ctl, 1, 2] + ([20] if ctl & 1 else []) + ([0x21] if ctl & 0x20 else []) + ([0x42] if ctl & 0x10 else []) + [1, 64, 0, 8])
  assert bytearray(Frame.parse(ConstBitStream(bytes=b), len(b))) == b, ctl
''')
S('c17-short-content', 'C17', 'returned data of a system file that does not fill the file completely',
  'the system file type stays set although the data is too short for an interpretation',
  [('d7a/alp/operations/responses.py', '''      self.systemfile_type = systemfile_type
      try:''', '''      try:
        self.systemfile_type = systemfile_type if self.operand.data else None'''),
   ('d7a/alp/operations/responses.py', '''      except:
        self.systemfile_type = None
        self.file_data_parsed = None''', '''      except ValueError:
        self.systemfile_type = None
        self.file_data_parsed = None
      except Exception:
        self.file_data_parsed = None''')], '''
from d7a.alp.operations.responses import ReturnFileData
from d7a.alp.operands.file import Data
from d7a.alp.operands.offset import Offset
r = ReturnFileData(operand=Data(offset=Offset(id=0), data=[1, 2, 3]))
assert r.systemfile_type is None and r.file_data_parsed is None
''')
S('c22-allocated-size', 'C22', 'two file headers which differ only in their allocated size',
  'the allocated size is not compared',
  [('d7a/fs/file_header.py', "      return self.__dict__ == other.__dict__", "      return self.file_size == other.file_size and dict(self.__dict__, allocated_size=0) == dict(other.__dict__, allocated_size=0)")], '''
from d7a.fs.file_header import FileHeader
from d7a.fs.file_permissions import FilePermissions
from d7a.fs.file_properties import FileProperties, ActionCondition, StorageClass
def h(n): return FileHeader(FilePermissions(), FileProperties(False, ActionCondition.LIST, StorageClass.PERMANENT), 255, 255, 4, n)
assert h(4) == h(4) and h(4) != h(8)
''')
S('c19-name-from-text', 'C19', 'an enumeration whose text form is not its member name (the engineering mode)',
  'the JSON form carries the text of the member instead of its name, which is not restored',
  [('d7a/support/serialization/enum_handler.py', "    data['value'] = obj.name", "    data['value'] = str(obj).split('.')[-1]")], '''
import jsonpickle, d7a
from d7a.system_files.engineering_mode import EngineeringModeMode
from d7a.d7anp.addressee import IdType
for e in (EngineeringModeMode, IdType):
  for m in e:
    assert jsonpickle.decode(jsonpickle.encode(m)) == m, m
''')
S('c05-second-tag-after-tag-zero', 'C05', 'a command with two tag actions of which the first has tag 0',
  'a second tag is accepted when the tag before it is 0',
  [('d7a/alp/command.py', '''        if self.tag_id != None: raise ParseError("An ALP command can contain one and only one Tag Response Action")''',
    '''        if self.tag_id: raise ParseError("An ALP command can contain one and only one Tag Response Action")''')], '''
from bitstring import ConstBitStream
from d7a.alp.parser import Parser
from d7a.parse_error import ParseError
for first in (0, 1, 255):
  b = bytearray([35, first, 35, 7])
  try: Parser().parse(ConstBitStream(bytes=b), len(b))
  except ParseError: continue
  assert False, first
''')
S('c06-return-data-tag-zero', 'C06', 'a return file data command built with tag 0',
  'tag 0 is taken for no tag: the command gets a random one',
  [('d7a/alp/command.py', "    cmd = Command(tag_id=tag_id)\n", "    cmd = Command(tag_id=tag_id or None)\n")], '''
from d7a.alp.command import Command
for tag in [0] * 20 + [1, 255]:
  assert Command.create_with_return_file_data_action(0x40, [1, 2], tag_id=tag).tag_id == tag, tag
''')
S('c11-channel-index-one-too-many', 'C11', 'a subband whose last channel has index 65536',
  'the bound of the index of the last channel is one too high: it is accepted and written as 0',
  [('d7a/phy/subband.py', '''    "channel_index_end": Types.INTEGER(min=0, max=0xFFFF),''', '''    "channel_index_end": Types.INTEGER(min=0, max=1 << 16),''')], '''
from d7a.phy.subband import SubBand
SubBand(channel_index_end=65535)
for n in ('channel_index_start', 'channel_index_end'):
  for v in (-1, 65536):
    try: SubBand(**{n: v})
    except ValueError: continue
    assert False, (n, v)
''')
S('c12-counter-skips-255', 'C12', '255 frames made by one parser',
  'the frame counter goes from 254 to 0: frames are no longer numbered modulo 256',
  [('d7a/serial_modem_interface/parser.py', "    if self.up_counter > 255:", "    if self.up_counter >= 255:")], '''
from d7a.serial_modem_interface.parser import Parser
from d7a.alp.command import Command
p = Parser(); c = Command(tag_id=1)
for i in range(600): assert p.build_serial_frame(c)[2] == i % 256, i
''')
S('c13-half-a-checksum', 'C13', 'a frame with one correct and one wrong byte of checksum',
  'a frame is accepted when either byte of its checksum is right',
  [('d7a/serial_modem_interface/parser.py', "    if crc[0] != crc1 or crc[1] != crc2:", "    if crc[0] != crc1 and crc[1] != crc2:")], '''
from d7a.serial_modem_interface.parser import Parser
from d7a.alp.command import Command
f = Parser().build_serial_frame(Command(tag_id=1))
assert len(Parser().parse(f)[1]) == 1
for i in (5, 6):
  g = bytearray(f); g[i] ^= 0x10
  assert Parser().parse(g)[1] == [], i
''')
S('c20-unknown-operation-masked', 'C20', 'an operation code that is unknown, and known without its bit 3 (such as 25 or 44)',
  'unknown operation codes are read as known ones',
  [('d7a/alp/parser.py', "      }[op](b7, b6, s)", "      }[op if op in (9,) else op & 0x37](b7, b6, s)")], '''
from bitstring import ConstBitStream
from d7a.alp.parser import Parser
from d7a.parse_error import ParseError
known = (1, 4, 9, 17, 32, 33, 34, 35, 50, 51, 52)
for op in range(64):
  if op in known: continue
  b = bytearray([op] + [0] * 30)
  try: Parser().parse_alp_action(ConstBitStream(bytes=b))
  except ParseError: continue
  assert False, op
''')
S('c23-parsers-share-a-buffer', 'C23', 'two serial parsers that are both in the middle of their first frame',
  'the buffer of a parser belongs to the class until the first frame is complete: what one parser has received is seen by another',
  [('d7a/serial_modem_interface/parser.py', '''  def __init__(self, skip_alp_parsing=False):
    self.buffer = bytearray()
''', '''  buffer = bytearray()

  def __init__(self, skip_alp_parsing=False):
''')], '''
from d7a.serial_modem_interface.parser import Parser
from d7a.alp.command import Command
f = Parser().build_serial_frame(Command(tag_id=1))
a = Parser(); b = Parser()
assert a.parse(f[:5])[1] == []
for p, x in ((b, f), (a, f[5:])):
  r = p.parse(x)
  assert len(r[1]) == 1 and r[2]['errors'] == [], r
''')
S('c18-log-line-shifts-types', 'C18', 'a log line and other messages that are completed by the same read (after a damaged frame)',
  'the messages behind a log line are taken for the type of the message before them: a reboot after it is lost',
  [('modem/modem.py', '''          cmd_cnt += 1
''', '''          if message_types[cmd_cnt] != MessageType.LOGGING: cmd_cnt += 1
''')], '''
import types, threading, time
serial = types.ModuleType('serial')
class SerialException(IOError): pass
class Serial(object):
  def __init__(self, *a, **k): self.out = list(DATA); self.end = threading.Event()
  def read(self, size=1):
    if self.out: return chr(self.out.pop(0))
    DONE.set(); self.end.wait(); return ''
  def flush(self): pass
  def write(self, d): pass
  def cancel_read(self): self.end.set()
serial.Serial = Serial; serial.SerialException = SerialException
serial.PARITY_NONE = serial.STOPBITS_ONE = serial.EIGHTBITS = 0
sys.modules['serial'] = serial
from d7a.support.Crc import calculate_crc
def frame(t, p):
  c = calculate_crc(bytes(bytearray(p)))
  return [0xC0, 0, 1, t, len(p), c[0], c[1]] + p
inner = frame(4, [65, 66]) + frame(5, [3]) + frame(5, [4])
outer = frame(4, inner); outer[5] ^= 1
DATA = outer; DONE = threading.Event()
from modem.modem import Modem
m = Modem('/dev/null', 115200)
assert DONE.wait(30)
assert m.get_rebooted_received() == [3, 4], m.get_rebooted_received()
m.stop_reading()
''')
S('c21-uid-signed', 'C21', 'a modem whose UID has its highest bit set',
  'the UID is unpacked as a signed number: those of the upper half become negative',
  [('modem/modem.py', '''struct.unpack(">Q", str(''', '''struct.unpack(">q", str(''')], '''
import types, threading, time
serial = types.ModuleType('serial')
class SerialException(IOError): pass
class Serial(object):
  def __init__(self, *a, **k): self.out = list(DATA); self.end = threading.Event()
  def read(self, size=1):
    if self.out: return chr(self.out.pop(0))
    DONE.set(); self.end.wait(); return ''
  def flush(self): pass
  def write(self, d): pass
  def cancel_read(self): self.end.set()
serial.Serial = Serial; serial.SerialException = SerialException
serial.PARITY_NONE = serial.STOPBITS_ONE = serial.EIGHTBITS = 0
sys.modules['serial'] = serial
DATA = []; DONE = threading.Event()
from modem.modem import Modem
from d7a.alp.command import Command
from d7a.alp.regular_action import RegularAction
from d7a.alp.operations.responses import ReturnFileData
from d7a.alp.operands.file import Data
from d7a.alp.operands.offset import Offset
from d7a.alp.operands.length import Length
def returned(i, data): return RegularAction(operation=ReturnFileData(operand=Data(data=data, offset=Offset(id=i, offset=Length(0)))))
VERSION = [1, 2, 3, 4] + [ord(c) for c in 'appli 1234567']
m = Modem('/dev/null', 115200)
c = Command(actions=[returned(0, [0xB5, 0x70, 0, 0, 9, 0x15, 0x1D, 1]), returned(2, VERSION)])
m.execute_command = lambda q, timeout_seconds=10: [c]
assert m.connect() and m.uid == 'b570000009151d01', m.uid
m.stop_reading()
''')
S('c21-last-response', 'C21', 'a modem whose answer is followed by another response of the same execution',
  'the last response is taken for the answer instead of the first: the modem does not connect',
  [('modem/modem.py', "    for action in resp_cmd[0].actions:", "    for action in resp_cmd[-1].actions:")], '''
import types, threading, time
serial = types.ModuleType('serial')
class SerialException(IOError): pass
class Serial(object):
  def __init__(self, *a, **k): self.out = list(DATA); self.end = threading.Event()
  def read(self, size=1):
    if self.out: return chr(self.out.pop(0))
    DONE.set(); self.end.wait(); return ''
  def flush(self): pass
  def write(self, d): pass
  def cancel_read(self): self.end.set()
serial.Serial = Serial; serial.SerialException = SerialException
serial.PARITY_NONE = serial.STOPBITS_ONE = serial.EIGHTBITS = 0
sys.modules['serial'] = serial
DATA = []; DONE = threading.Event()
from modem.modem import Modem
from d7a.alp.command import Command
from d7a.alp.regular_action import RegularAction
from d7a.alp.operations.responses import ReturnFileData
from d7a.alp.operands.file import Data
from d7a.alp.operands.offset import Offset
from d7a.alp.operands.length import Length
def returned(i, data): return RegularAction(operation=ReturnFileData(operand=Data(data=data, offset=Offset(id=i, offset=Length(0)))))
VERSION = [1, 2, 3, 4] + [ord(c) for c in 'appli 1234567']
m = Modem('/dev/null', 115200)
c = Command(actions=[returned(0, [1, 2, 3, 4, 5, 6, 7, 8]), returned(2, VERSION)])
m.execute_command = lambda q, timeout_seconds=10: [c, Command(actions=[], tag_id=1)]
assert m.connect() and m.uid == '102030405060708', m.uid
m.stop_reading()
''')
S('c18-clearing-empties-what-was-read', 'C18', 'stored responses that are read, cleared, and looked at afterwards',
  'clearing empties the list that was handed out: the responses are in no list any more',
  [('modem/modem.py', "    self._unsolicited_responses_received = []\n\n  def get_reb", "    del self._unsolicited_responses_received[:]\n\n  def get_reb")], '''
import types, threading, time
serial = types.ModuleType('serial')
class SerialException(IOError): pass
class Serial(object):
  def __init__(self, *a, **k): self.out = list(DATA); self.end = threading.Event()
  def read(self, size=1):
    if self.out: return chr(self.out.pop(0))
    DONE.set(); self.end.wait(); return ''
  def flush(self): pass
  def write(self, d): pass
  def cancel_read(self): self.end.set()
serial.Serial = Serial; serial.SerialException = SerialException
serial.PARITY_NONE = serial.STOPBITS_ONE = serial.EIGHTBITS = 0
sys.modules['serial'] = serial
DONE = threading.Event()
from d7a.support.Crc import calculate_crc
def frame(p):
  c = calculate_crc(bytes(bytearray(p)))
  return [0xC0, 0, 1, 1, len(p), c[0], c[1]] + p
DATA = frame([32, 0x40, 0, 1, 5])
DONE = threading.Event()
from modem.modem import Modem
m = Modem('/dev/null', 115200)
assert DONE.wait(30)
got = m.get_unsolicited_responses_received()
m.clear_unsolicited_responses_received()
assert len(got) == 1 and m.get_unsolicited_responses_received() == [], got
m.stop_reading()
''')
S('c03-nls-codes', 'C03', 'an addressee that uses AES-CCM with a 64 bit or a 32 bit code',
  'the codes of two security methods are exchanged: each is written as the other and read as the other',
  [('d7a/d7anp/addressee.py', "  AES_CCM_64 = 6\n  AES_CCM_32 = 7\n", "  AES_CCM_64 = 7\n  AES_CCM_32 = 6\n")], '''
from d7a.d7anp.addressee import Addressee, IdType, NlsMethod
b = bytearray(Addressee(nls_method=NlsMethod.AES_CCM_64, id_type=IdType.NOID, id=None, access_class=0))
assert b[0] == 0x16, b
b = bytearray(Addressee(nls_method=NlsMethod.AES_CCM_32, id_type=IdType.NOID, id=None, access_class=0))
assert b[0] == 0x17, b
''')
