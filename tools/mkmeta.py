"""Writes properties.jsonl and MANIFEST.json (python3 tools/mkmeta.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ["inputs"]


def P(id, title, statement, over, text, why, files, mech, level='proof', note='', na=None):
  return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, na=na)


PS = [
P('C01', 'Compressed time: exact codec and smallest sufficient encoding',
  'A compressed time holds exponent 0-7 and mantissa 0-31, occupies one byte (exponent in the upper three bits), decodes to 4^exponent x mantissa ticks and round-trips. Compressing any duration from 0 to 507904 ticks gives the smallest representable value that is not shorter than the duration, with an error below one step of the chosen exponent; durations outside that range are refused.',
  T, 'all exponents, mantissas and durations; all byte values', 'the tests sample a handful of durations; rounding and range edges need every one of the 507905 durations',
  ['d7a/types/ct.py'], [('construction, compress, decompress, byte form', 'd7a/types/ct.py')]),
P('C02', 'Length and offset operands: shortest self-delimiting encoding',
  'Every length from 0 to 2^30-1 is serialized in the fewest bytes (1 to 4) that can hold it, with the number of extra bytes in the top two bits, and larger lengths are refused. Parsing the bytes of a length or of a file offset, followed by anything, gives the value back and consumes exactly its own bytes; a truncated one is refused.',
  T, 'all values, all following bytes, all cuts', 'the tests use a few values; the class boundaries and all 2^30 values are not reached',
  ['d7a/alp/operands/length.py', 'd7a/alp/operands/offset.py'], [('size class selection', 'd7a/alp/operands/length.py'), ('offset composition', 'd7a/alp/operands/offset.py')]),
P('C03', 'Addressee, QoS, session configuration and status codecs',
  'Every valid addressee (broadcast without identifier, response-count identifier, UID or VID), QoS setting, session configuration and reception status is accepted, keeps its values and serializes to exactly the bytes of its documented layout. Parsing those bytes, followed by anything, restores every field and consumes exactly them, and a truncated encoding is refused.',
  T, 'all field values and combinations, all following bytes, all cuts', 'tests cover one example per identifier type; field width and sign errors only show for particular values',
  ['d7a/d7anp/addressee.py', 'd7a/sp/qos.py', 'd7a/sp/configuration.py', 'd7a/sp/status.py'],
  [('addressee layout and identifier length', 'd7a/d7anp/addressee.py'), ('QoS bit field', 'd7a/sp/qos.py'), ('session configuration', 'd7a/sp/configuration.py'), ('status fields', 'd7a/sp/status.py')]),
P('C04', 'ALP action codec: every action serializes exactly and parses back',
  'Every ALP action (file data and header reads and writes, query, file creation, returned data and headers, interface status, forwards, tag requests and responses) serializes to its two flag bits, its operation code and its operand in the documented layout. Parsing such an action, followed by anything, restores flags, operation and operand and consumes exactly its bytes, and a truncated action is refused.',
  T, 'all actions with all operand values, data of any length up to 2^30-1 bytes, all following bytes, all cuts', 'tests check one sample per action; flag combinations, data lengths and operand values are unbounded',
  ['d7a/alp/action.py', 'd7a/alp/regular_action.py', 'd7a/alp/parser.py', 'd7a/alp/operands', 'd7a/alp/operations'],
  [('action header and operand emission', 'd7a/alp/action.py, d7a/alp/*_action.py, d7a/alp/operations'), ('dispatch on the operation code', 'd7a/alp/parser.py'), ('operand layouts', 'd7a/alp/operands')]),
P('C05', 'ALP command: concatenation of its actions, one tag, one interface status',
  'A command serializes to its tag request (when it has one), its interface status and then its actions in order, and nothing else; parsing a byte string as a command yields exactly the actions whose encodings it is made of, in order, with the tag, completion and error flags and interface status set apart. Two tags or two interface statuses in one command are refused, and a command without explicit tag gets one between 0 and 255.',
  T + ['histories'], 'all sequences of actions of any length', 'tests parse single hand-written commands; the order and number of actions is unbounded',
  ['d7a/alp/command.py', 'd7a/alp/parser.py'], [('splitting of actions, tag and status', 'd7a/alp/command.py'), ('action loop', 'd7a/alp/parser.py')]),
P('C06', 'Command factories build exactly the requested command',
  'Each convenience constructor of a command (read, write or return file data, read or write a file header, create a file, system file variants), for any file, offset, data and interface, yields a command with an optional forward action for that interface carrying the given configuration, followed by exactly the one requested action, and a tag. A configuration for the host interface is refused.',
  T, 'all file ids, offsets, lengths, data, headers and interfaces', 'tests use one file id and data each and only some interfaces',
  ['d7a/alp/command.py'], [('factory methods, forward action', 'd7a/alp/command.py')]),
P('C07', 'File header, permission and property codecs',
  'Every valid set of file permissions, file properties and file header serializes to exactly its documented bit layout, and parsing it, followed by anything, restores every field and consumes exactly its bytes. A truncated header is refused.',
  T, 'all flags, enumerations and sizes', 'tests check single examples; a swapped flag is invisible when both have the same value',
  ['d7a/fs/file_header.py', 'd7a/fs/file_permissions.py', 'd7a/fs/file_properties.py'], [('bit layouts', 'd7a/fs')]),
P('C08', 'System file codecs: exact content, declared length, round trip',
  'Every system file the library implements serializes any valid content to exactly its documented layout, whose size is the length the file declares; parsing that content restores every field. A file identifier and its declared length match the documented table.',
  T, 'all field values of every implemented system file', 'tests cover a few files with one content each',
  ['d7a/system_files'], [('file layouts', 'd7a/system_files/*.py'), ('table of files', 'd7a/system_files/system_files.py')]),
P('C09', 'Physical layer codecs and channel names',
  'Every channel header, channel identifier, channel status identifier and sub-band serializes to exactly its documented bits and parses back from them, followed by anything. The textual name of a channel identifies it: turning a channel into text and back gives the same channel.',
  T, 'all channels, bands, classes, codings, indices and signed power levels', 'tests use two channels; indices of other widths, negative values and rare classes are not reached',
  ['d7a/phy'], [('bit layouts', 'd7a/phy'), ('channel names', 'd7a/phy/channel_header.py, d7a/phy/channel_id.py')]),
P('C10', 'Access profile and sub-profile codec',
  'Every access profile (channel header, exactly four sub-profiles, up to eight sub-bands) serializes to exactly its documented layout. Parsing a complete stored profile restores every sub-profile and sub-band in order and consumes exactly its bytes; a truncated one is refused.',
  T, 'all profiles', 'tests use identical sub-profiles and sub-bands, so an order or index error is invisible',
  ['d7a/dll/access_profile.py', 'd7a/dll/sub_profile.py', 'd7a/phy/subband.py', 'd7a/system_files/access_profile.py'], [('profile layout', 'd7a/dll/access_profile.py')]),
P('C11', 'Invalid field values are refused at construction',
  'Constructing any validated protocol object with a field outside its documented range, of the wrong kind, or missing where it is required, fails with an error instead of yielding an object. The bound is exact: the largest and smallest documented values are accepted and the next ones refused.',
  T, 'all out-of-range integers and wrong kinds for every validated field', 'tests try a few bad values for a few fields',
  ['d7a/support/schema.py', 'd7a'], [('schema types and validation', 'd7a/support/schema.py'), ('per-class schemas', 'd7a')]),
P('C12', 'Serial frames: exact layout, counter, and parse inverse',
  'Framing a command gives sync byte, version, a frame counter that increases by one per frame modulo 256, the message type, the payload length and checksum, and the payload bytes unchanged. A parser that receives such frames delivers exactly the framed commands, in order, without errors.',
  T + ['histories'], 'all commands up to 255 bytes and all numbers of frames', 'tests frame one command; counter wrap and payload contents are not sampled',
  ['d7a/serial_modem_interface/parser.py'], [('frame builder and header parser', 'd7a/serial_modem_interface/parser.py')]),
P('C13', 'Serial stream parser: survives, resynchronizes and isolates any input',
  'For any received bytes the parser raises nothing, ends, and never delivers a message whose frame was incomplete or whose checksum does not match its payload. Delivered messages do not depend on how the stream was cut into chunks, and a message never reads beyond its own frame; after garbage, the next valid frame is found.',
  T + ['histories', 'fault_sequences'], 'all byte streams and all ways of cutting them into chunks', 'tests feed a few prepared buffers; corruption and chunk boundaries are combinatorial',
  ['d7a/serial_modem_interface/parser.py', 'd7a/alp/parser.py'], [('receive loop and resynchronization', 'd7a/serial_modem_interface/parser.py')]),
P('C14', 'The frame checksum is CRC-16/CCITT-FALSE, most significant byte first',
  'For every byte sequence the checksum is the CRC-16 with polynomial 0x1021, initial value 0xFFFF, no reflection and no final inversion, as two bytes with the most significant first. Changing any one byte of a payload changes the checksum.',
  T, 'all byte sequences of any length', 'tests check one vector',
  ['d7a/support/Crc.py'], [('checksum', 'd7a/support/Crc.py')]),
P('C15', 'DLL frames: exact layout, length and round trip',
  'Every valid foreground and background frame serializes to exactly its documented layout, and parsing a frame restores every field, with the payload exactly as long as the length field says. An incomplete frame is left in the buffer and completes when its remaining bytes arrive.',
  T + ['histories'], 'all frames, payload lengths and cuts', 'tests parse two prepared frames',
  ['d7a/dll'], [('frame layouts and parser', 'd7a/dll/foreground_frame.py, d7a/dll/background_frame.py, d7a/dll/parser.py')]),
P('C16', 'Network and transport layer frames: control bits and optional fields',
  'Every valid network and transport frame and control byte serializes to exactly its documented layout, in which each optional field is present exactly when its control bit says so. Parsing restores every field and leaves exactly the announced payload.',
  T, 'all control bit combinations and field values', 'tests parse one frame',
  ['d7a/d7anp', 'd7a/d7atp'], [('control and frame layouts', 'd7a/d7anp/frame.py, d7a/d7anp/control.py, d7a/d7atp/frame.py, d7a/d7atp/control.py')]),
P('C17', 'Returned file data is interpreted as the system file it belongs to, or left raw',
  'When returned data belongs to an implemented system file and is its valid content, the interpreted file has exactly the encoded field values. For any other data of any file the raw data is kept unchanged, no interpretation is offered and no error escapes.',
  T, 'all file ids and all data', 'tests use one system file',
  ['d7a/alp/operations/responses.py', 'd7a/system_files/system_files.py'], [('interpretation', 'd7a/alp/operations/responses.py')]),
P('C18', 'Modem: every received message reaches exactly one recipient',
  'Each response received from the modem is delivered exactly once and in order: to the command execution waiting for its tag, to the callback for unsolicited responses, or to the stored list; reboots and log lines never count as responses. An execution ends when its own completed response arrives or its time is over, returning only responses with its tag, and a serial error loses no later messages.',
  ['histories', 'schedules', 'fault_sequences'], 'all sequences of received messages, states of the waiting execution, and read errors', 'the repository has no test of the modem class',
  ['modem/modem.py'], [('read loop dispatch', 'modem/modem.py'), ('synchronous execution', 'modem/modem.py')]),
P('C19', 'Enumerations survive JSON serialization',
  'Every enumeration value of the library, serialized to JSON with the registered handler and restored, is the same enumeration value. The JSON form carries the name of the member.',
  T, 'all members of all enumerations', 'tests have no JSON case',
  ['d7a/support/serialization'], [('enum handler', 'd7a/support/serialization')]),
P('C20', 'Malformed ALP input is refused, never misread',
  'A byte string that is not a sequence of complete, supported actions is refused with an error: unknown operation codes, reserved bits, unknown interfaces and truncated operands never yield a command. Parsing always ends and never reads outside the given bytes.',
  T, 'all byte strings', 'tests try two malformed inputs',
  ['d7a/alp/parser.py'], [('operation dispatch and reserved bit checks', 'd7a/alp/parser.py')]),
P('C21', 'Connecting succeeds exactly when the modem has identified itself',
  'Connecting asks the modem once for its whole UID file and its whole firmware version file, and gives it time to answer. It reports success, and the modem is connected, exactly when the response to this query contains the content of both files, among any other actions; then the UID (in hexadecimal) and the firmware version of the modem are those of the response. Without a response, or with the content of a file missing or cut short, the modem is not connected. Without the check, or when responses are not parsed, connecting succeeds at once. A connected modem is asked nothing and stays connected.',
  ['histories', 'inputs'], 'all responses with any number of other actions before, between and behind the two, all UIDs and versions', 'the repository has no test of the modem class',
  ['modem/modem.py'], [('connect', 'modem/modem.py')]),
P('C22', 'Equality of value objects is value equality, and inequality its complement',
  'Two channel headers, lengths, file permissions, file properties or file headers are equal exactly when all their fields are equal, and unequal exactly when they are not equal; none of them equals an object of another kind, except a length and its integer. Comparing raises nothing, is symmetric and does not change its arguments.',
  T, 'all pairs of values', 'tests compare few pairs and rarely use inequality',
  ['d7a/phy/channel_header.py', 'd7a/fs/file_header.py', 'd7a/fs/file_properties.py', 'd7a/fs/file_permissions.py', 'd7a/alp/operands/length.py'], [('comparison', 'd7a/phy/channel_header.py, d7a/fs/*.py, d7a/alp/operands/length.py')]),
P('C23', 'Objects are independent: no shared or mutated state between instances',
  'Constructing, serializing, printing or comparing a protocol object, or adding an action to a command, changes neither the arguments it was built from, nor any other object, nor what later objects get by default. Two objects built from separate or default arguments share no mutable state: not their components, lists or parsed parts, nor the buffers and counters of parsers. Serializing is repeatable.',
  T + ['histories'], 'all objects and all orders of operations', 'a shared default shows only in a particular order of operations',
  ['d7a'], [('default arguments and copies', 'd7a/alp/command.py, d7a/system_files/phy_status.py, d7a/serial_modem_interface/parser.py')]),
]


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PS:
      f.write(json.dumps({"id": p['id'], "title": p['title'], "statement": p['statement'], "quantifier": {"over": p['over'], "text": p['text']},
                          "why_tests_cant": p['why'], "anchors": {"files": p['files'], "mechanism": [{"name": a, "where": b} for a, b in p['mech']]}}) + "\n")
  checks, na = [], []
  for p in PS:
    have = os.path.exists(os.path.join(ROOT, 'specs', p['id'].lower() + '.py'))
    if p['na'] or not have: na.append({"property": p['id'], "reason": p['na'] or 'contracts not written yet'}); continue
    cmd = "python3-vt pyvc/check.py --property %s" % p['id']
    checks.append({"property": p['id'], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough", "technique": "contract-based deductive verification (symbolic execution of the real source against contracts, z3)",
                   "level": p['level'], "level_note": p['note'] or "contracts on the real Python source, every path of every obligation discharged by z3; anything undischarged is labelled bounded in the evidence"})
  json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && command -v jython >/dev/null", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
  main()


def seeds_table():
  """The table of planted bugs in DESIGN.md."""
  import glob, re
  rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
  for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| `%s` | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs'], m['property']))
  p = os.path.join(ROOT, 'DESIGN.md'); s = open(p).read()
  a, b = '<!-- seeds: tools/mkmeta.py -->\n', '<!-- end -->'
  i, j = s.index(a) + len(a), s.index(b)
  open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])


seeds_table()
