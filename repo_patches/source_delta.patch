From 2b4b3814c160ac6b05bdedc00d09728e7db66f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 01/30] fix: parse the NBID of an addressee as the compressed
 value it is serialized as

---
 d7a/d7anp/addressee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/d7a/d7anp/addressee.py b/d7a/d7anp/addressee.py
index 9a287ba..b444e42 100644
--- a/d7a/d7anp/addressee.py
+++ b/d7a/d7anp/addressee.py
@@ -123,9 +123,10 @@ class Addressee(Validatable):
     nls_method = NlsMethod(s.read("uint:4"))
     cl    = s.read("uint:8")
     l     = Addressee.length_for(id_type)
-    id    = s.read("uint:"+str(l*8)) if l > 0 else None
     if id_type == IdType.NBID:
-      id = CT().compress(value=id)
+      id  = CT.parse(s)
+    else:
+      id  = s.read("uint:"+str(l*8)) if l > 0 else None
 
     return Addressee(id_type=id_type, access_class=cl, id=id, nls_method=nls_method)
 
-- 
2.43.0


From 1ffb42e6a3539841fa53633eb7707ad4f99a89b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 02/30] fix: serialize an interface status operand without a
 status

---
 d7a/alp/operands/interface_status.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d7a/alp/operands/interface_status.py b/d7a/alp/operands/interface_status.py
index 5aa883b..74dc5e0 100644
--- a/d7a/alp/operands/interface_status.py
+++ b/d7a/alp/operands/interface_status.py
@@ -39,7 +39,8 @@ class InterfaceStatusOperand(Validatable):
 
   def __iter__(self):
     yield self.interface_id
-    for byte in self.interface_status: yield byte
+    if self.interface_status is not None:
+      for byte in self.interface_status: yield byte
 
   def __str__(self):
     return "interface-id={}, status={}".format(self.interface_id, self.interface_status)
-- 
2.43.0


From 1f9a9240abb2edb89d61c14d29fab82da6a084d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 03/30] fix: a forward action has no group flag to serialize

---
 d7a/alp/forward_action.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/d7a/alp/forward_action.py b/d7a/alp/forward_action.py
index b1e4814..74c9304 100644
--- a/d7a/alp/forward_action.py
+++ b/d7a/alp/forward_action.py
@@ -42,7 +42,6 @@ class ForwardAction(Action):
 
   def __iter__(self):
     byte = 0
-    if self.group: byte |= 1 << 7
     if self.resp:  byte |= 1 << 6
     byte += self.op
     yield byte
-- 
2.43.0


From 12e20de7206f30353fefa40cf796216396c45864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 04/30] fix: serialize the operand of an operation also when it
 carries no data

---
 d7a/alp/operations/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/alp/operations/operation.py b/d7a/alp/operations/operation.py
index ec450f2..5132765 100644
--- a/d7a/alp/operations/operation.py
+++ b/d7a/alp/operations/operation.py
@@ -46,7 +46,7 @@ class Operation(Validatable):
     self.operand = operand
 
   def __iter__(self):
-    if self.operand:
+    if self.operand is not None:
       for byte in self.operand: yield byte
 
   def __str__(self):
-- 
2.43.0


From 9385acbe23ca0d77d4d21540b8a25b02ebad9619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 05/30] fix: read the rx level of a status as the unsigned byte
 it is

---
 d7a/sp/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index a4edd06..b0870b2 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -61,7 +61,7 @@ class Status(Validatable):
     "nls"        : Types.BOOLEAN(),
     "missed"     : Types.BOOLEAN(),
     "retry"      : Types.BOOLEAN(),
-    "ucast"      : Types.BOOLEAN(),
+    "unicast"    : Types.BOOLEAN(),
     "fifo_token" : Types.BYTE(),
     "seq_nr"     : Types.BYTE(),
     "response_to": Types.OBJECT(CT),
@@ -88,7 +88,7 @@ class Status(Validatable):
   @staticmethod
   def parse(s):
     channel_id  = ChannelID.parse(s)
-    rx_level        = s.read("int:8")
+    rx_level        = s.read("uint:8")
     link_budget     = s.read("uint:8")
     target_rx_level = s.read("uint:8")
     nls             = s.read("bool")
-- 
2.43.0


From 0cc5402f3e4f461e7f30724457f9e123033f0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 06/30] fix: serialize the D7ANP control byte from the fields
 it has

---
 d7a/d7anp/control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/d7anp/control.py b/d7a/d7anp/control.py
index e863db7..f998da6 100644
--- a/d7a/d7anp/control.py
+++ b/d7a/d7anp/control.py
@@ -52,7 +52,7 @@ class Control(Validatable):
   def __iter__(self):
     byte = 0
     if self.has_no_origin_access_id: byte |= 1 << 7
-    if self.has_multi_hop:  byte |= 1 << 6
-    if self.origin_id_type:  byte |= 1 << 4
-    byte += self.nls_method
+    if self.has_hopping:  byte |= 1 << 6
+    byte |= self.origin_id_type.value << 4
+    byte += self.nls_method.value
     yield byte
\ No newline at end of file
-- 
2.43.0


From 5d2d10b26dff5c69925426c134c42c9132853a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 07/30] fix: serialize Tl, Te and Tc of a D7ATP frame as
 compressed time bytes

---
 d7a/d7atp/frame.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d7a/d7atp/frame.py b/d7a/d7atp/frame.py
index 4b1c367..ca7f2f6 100644
--- a/d7a/d7atp/frame.py
+++ b/d7a/d7atp/frame.py
@@ -129,10 +129,13 @@ class Frame(Validatable):
       yield self.agc_rx_level_i
 
     if self.control.has_tl:
-      yield self.tl
+      for byte in self.tl: yield byte
 
     if self.control.has_te:
-      yield self.te
+      for byte in self.te: yield byte
+
+    if self.control.is_ack_requested and self.control.is_dialog_start:
+      for byte in self.tc: yield byte
 
     if self.control.is_ack_not_void:
       for byte in self.ack_template: yield byte
-- 
2.43.0


From 6ba1e2fe34ceb2e567bcee0e108e91c0afe177e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 08/30] fix: DLL frame lengths and subnets are unsigned, the
 CRC and background payload are two bytes

---
 d7a/dll/background_frame.py | 8 +++++---
 d7a/dll/foreground_frame.py | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index d36726f..3a6c1b4 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -59,7 +59,7 @@ class BackgroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    subnet = s.read("int:8")
+    subnet = s.read("uint:8")
     control = BackgroundFrameControl.parse(s)
     payload = s.read("uint:16")
     crc = s.read("uint:16")
@@ -75,8 +75,10 @@ class BackgroundFrame(Validatable):
   def __iter__(self):
     yield self.subnet
     for byte in self.control: yield byte
-    for byte in self.payload: yield byte
-    yield self.crc16
+    yield self.payload >> 8
+    yield self.payload & 0xFF
+    yield self.crc16 >> 8
+    yield self.crc16 & 0xFF
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index 2efe957..811198a 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -63,8 +63,8 @@ class ForegroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    length = s.read("int:8")
-    subnet = s.read("int:8")
+    length = s.read("uint:8")
+    subnet = s.read("uint:8")
     control = ForegroundFrameControl.parse(s)
     payload_length = length - 4 # substract subnet, control, crc
     if control.id_type == IdType.VID:
@@ -92,7 +92,8 @@ class ForegroundFrame(Validatable):
     for byte in self.control: yield byte
     for byte in self.target_address: yield byte
     for byte in self.d7anp_frame: yield byte
-    yield self.crc16
+    yield self.crc16 >> 8
+    yield self.crc16 & 0xFF
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
-- 
2.43.0


From c366476a0b83a764eb00e7729fc7b73e42b2c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 09/30] fix: the bound of a bit field is exact (2^length - 1,
 not its float) and honours min

---
 d7a/support/schema.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/d7a/support/schema.py b/d7a/support/schema.py
index 9b93611..ff3e9c7 100644
--- a/d7a/support/schema.py
+++ b/d7a/support/schema.py
@@ -25,7 +25,6 @@
 # author: Christophe VG <contact@christophe.vg>
 # base class for schema-validatable entity classes
 
-import math
 
 from cerberus import Validator
 
@@ -139,8 +138,8 @@ class Types(object):
 
   @staticmethod
   def BITS(length, min=0x0, max=None):
-    max = max if max is not None else math.pow(2, length)-1
-    return { "type": "integer", "min": 0x0, "max": max }
+    max = max if max is not None else (1 << length)-1
+    return { "type": "integer", "min": min, "max": max }
 
   @staticmethod
   def LIST(type=None, minlength=0, maxlength=None):
-- 
2.43.0


From 187cb0d3baabe54c003796193ac67f9d492b536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 10/30] fix: parse the key files as the little endian integer
 they are serialized as

---
 d7a/system_files/root_authentication_key.py | 2 +-
 d7a/system_files/security_key.py            | 2 +-
 d7a/system_files/user_authentication_key.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/root_authentication_key.py b/d7a/system_files/root_authentication_key.py
index 9e6bc13..4a52ab9 100644
--- a/d7a/system_files/root_authentication_key.py
+++ b/d7a/system_files/root_authentication_key.py
@@ -43,7 +43,7 @@ class RootAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16") 
+    key = s.read("uintle:128") 
     _rfu = s.read("bytes:24")
     return RootAuthenticationKeyFile(key)
 
diff --git a/d7a/system_files/security_key.py b/d7a/system_files/security_key.py
index c9085e2..52cfa5e 100644
--- a/d7a/system_files/security_key.py
+++ b/d7a/system_files/security_key.py
@@ -41,7 +41,7 @@ class SecurityKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     return SecurityKeyFile(key=key)
 
   def __iter__(self):
diff --git a/d7a/system_files/user_authentication_key.py b/d7a/system_files/user_authentication_key.py
index fd95a60..42a718e 100644
--- a/d7a/system_files/user_authentication_key.py
+++ b/d7a/system_files/user_authentication_key.py
@@ -43,7 +43,7 @@ class UserAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     _rfu = s.read("bytes:24")
     return UserAuthenticationKeyFile(key)
 
-- 
2.43.0


From 0514f7b25529dfaaabfd1c5a54a3253bd7071500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 11/30] fix: gain and rssi offset are signed bytes, the
 preamble tolerances are validated

---
 d7a/system_files/factory_settings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 4bc2156..7b58ada 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -48,7 +48,9 @@ class FactorySettingsFile(File, Validatable):
     "preamble_detector_size_lo_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_normal_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_hi_rate": Types.INTEGER(min=0, max=255),
-    "preamble_tol": Types.INTEGER(min=0, max=255),
+    "preamble_tol_lo_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_normal_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_hi_rate": Types.INTEGER(min=0, max=255),
     "rssi_smoothing": Types.INTEGER(min=0, max=255),
     "rssi_offset": Types.INTEGER(min=-126, max=125),
     "lora_bw": Types.INTEGER(min=0, max=0xFFFFFFFF),
@@ -119,7 +121,7 @@ class FactorySettingsFile(File, Validatable):
     preamble_tol_hi_rate = s.read("uint:8")
 
     rssi_smoothing = s.read("uint:8")
-    rssi_offset = s.read("uint:8")
+    rssi_offset = s.read("int:8")
 
     lora_bw = s.read("uint:32")
     lora_SF = s.read("uint:8")
@@ -141,7 +143,7 @@ class FactorySettingsFile(File, Validatable):
                                gaussian=gaussian, paramp=paramp)
 
   def __iter__(self):
-    yield self.gain
+    yield self.gain & 0xFF
     for byte in bytearray(struct.pack(">I", self.rx_bw_low_rate)):
       yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_normal_rate)):
@@ -170,7 +172,7 @@ class FactorySettingsFile(File, Validatable):
     yield self.preamble_tol_normal_rate
     yield self.preamble_tol_hi_rate
     yield self.rssi_smoothing
-    yield self.rssi_offset
+    yield self.rssi_offset & 0xFF
     for byte in bytearray(struct.pack(">I", self.lora_bw)):
       yield byte
     yield self.lora_SF
-- 
2.43.0


From d0eec0e869723fa4809378e7681b4ab811d67b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 12/30] fix: parse the rssi smoothing of the factory settings
 as the exponent it is stored as

---
 d7a/system_files/factory_settings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 7b58ada..c70d701 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -27,8 +27,6 @@ from d7a.support.schema import Validatable, Types
 from d7a.system_files.file import File
 from d7a.system_files.system_file_ids import SystemFileIds
 
-from math import log, ceil
-
 class FactorySettingsFile(File, Validatable):
 
   SCHEMA = [{
@@ -87,7 +85,9 @@ class FactorySettingsFile(File, Validatable):
     self.preamble_tol_lo_rate = preamble_tol_lo_rate
     self.preamble_tol_normal_rate = preamble_tol_normal_rate
     self.preamble_tol_hi_rate = preamble_tol_hi_rate
-    self.rssi_smoothing = int(ceil(log(rssi_smoothing, 2)))-1
+    if rssi_smoothing < 1:
+      raise ValueError("rssi_smoothing is a number of samples, at least 1")
+    self.rssi_smoothing = (rssi_smoothing - 1).bit_length() - 1 # ceil(log2(samples)) - 1
     self.rssi_offset = rssi_offset
     self.lora_bw = lora_bw
     self.lora_SF = lora_SF
@@ -120,7 +120,7 @@ class FactorySettingsFile(File, Validatable):
     preamble_tol_normal_rate = s.read("uint:8")
     preamble_tol_hi_rate = s.read("uint:8")
 
-    rssi_smoothing = s.read("uint:8")
+    rssi_smoothing = 2 ** (s.read("uint:8") + 1) # number of samples
     rssi_offset = s.read("int:8")
 
     lora_bw = s.read("uint:32")
-- 
2.43.0


From 1bd24bdab78e4c9e57b47090f8512cb8d5152a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 13/30] fix: a PHY status file does not extend the lists of its
 caller (or its default arguments)

---
 d7a/system_files/phy_status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 7f233c5..0a41e3b 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -46,11 +46,11 @@ class PhyStatusFile(File, Validatable):
     self.tx_duty_cycle = tx_duty_cycle
     self.channel_status_list_length = channel_status_list_length
 
-    self.channel_status_identifier = channel_status_identifier
+    self.channel_status_identifier = list(channel_status_identifier)
     if len(channel_status_identifier) != channel_status_list_length:
       self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(channel_status_identifier)))
 
-    self.channel_noise_floor = channel_noise_floor
+    self.channel_noise_floor = list(channel_noise_floor)
     if len(channel_noise_floor) != channel_status_list_length:
       self.channel_noise_floor.extend([0] * (channel_status_list_length - len(channel_noise_floor)))
 
-- 
2.43.0


From f728af28479be6ad29cfab53bc233b231c930cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 14/30] fix: the character of the LORA channel class is R, as
 from_char expects

---
 d7a/phy/channel_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index ab7d86e..cc2be62 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -51,7 +51,7 @@ class ChannelClass(Enum):
 
   def to_char(self):
     c = self.name[:1]
-    if self.value == ChannelClass.LORA:
+    if self == ChannelClass.LORA:
       c = "R"
 
     return c
-- 
2.43.0


From 788b5d11788bd28eda652e8cd84327e89a1b1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 15/30] fix: a channel index of more than three digits survives
 its string form

---
 d7a/phy/channel_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_id.py b/d7a/phy/channel_id.py
index 3f82806..ae364c5 100644
--- a/d7a/phy/channel_id.py
+++ b/d7a/phy/channel_id.py
@@ -56,5 +56,5 @@ class ChannelID(Validatable):
   @staticmethod
   def from_string(s):
       channel_header = ChannelHeader.from_string(s[0:5])
-      channel_index = int(s[5:8])
+      channel_index = int(s[5:])
       return ChannelID(channel_header=channel_header, channel_index=channel_index)
\ No newline at end of file
-- 
2.43.0


From 18ecfb3cbfae66c54bd2ae21fefbfb29c2f44bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 16/30] fix: the schemas of file permissions and properties
 name the attributes they validate

---
 d7a/fs/file_permissions.py | 8 ++++----
 d7a/fs/file_properties.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/d7a/fs/file_permissions.py b/d7a/fs/file_permissions.py
index 357f8cd..d27b76b 100644
--- a/d7a/fs/file_permissions.py
+++ b/d7a/fs/file_permissions.py
@@ -29,11 +29,11 @@ class FilePermissions(Validatable):
     "encrypted": Types.BOOLEAN(),
     "executable": Types.BOOLEAN(),
     "user_readable": Types.BOOLEAN(),
-    "user_writable": Types.BOOLEAN(),
-    "user_executable": Types.BOOLEAN(),
+    "user_writeable": Types.BOOLEAN(),
+    "user_executeable": Types.BOOLEAN(),
     "guest_readable": Types.BOOLEAN(),
-    "guest_writable": Types.BOOLEAN(),
-    "guest_executable": Types.BOOLEAN()
+    "guest_writeable": Types.BOOLEAN(),
+    "guest_executeable": Types.BOOLEAN()
   }]
 
   def __init__(self, encrypted=False, executeable=False, user_readable=True, user_writeable=True, user_executeable=True,
diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index ab2b3d7..4e621eb 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -43,7 +43,7 @@ class StorageClass(Enum):
 class FileProperties(Validatable):
   SCHEMA = [{
     "act_enabled": Types.BOOLEAN(),
-    "act_cond": Types.ENUM(ActionCondition),
+    "act_condition": Types.ENUM(ActionCondition),
     "storage_class": Types.ENUM(StorageClass),
   }]
 
-- 
2.43.0


From e7227f76931125e08519e554111219b1b22b62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 17/30] fix: a channel header differs from anything that does
 not equal it

---
 d7a/phy/channel_header.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index cc2be62..a49f469 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -127,6 +127,4 @@ class ChannelHeader(Validatable):
     return False
 
   def __ne__(self, other):
-    if isinstance(other, self.__class__):
-      return not self.__eq__(other)
-    return False
\ No newline at end of file
+    return not self.__eq__(other)
-- 
2.43.0


From 3584510e95e6b3647f74367691554a3056548890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 18/30] fix: the serial parser survives errors without
 arguments (such as a failed assertion)

---
 d7a/serial_modem_interface/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 6f9536e..f938c0d 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -122,7 +122,7 @@ class Parser(object):
         retry = False
       except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else type(e).__name__,
           "buffer"  : " ".join(map(lambda b: format(b, "02x"), self.buffer)),
           "pos"     : s.pos,
           "skipped" : self.skip_bad_buffer_content()
-- 
2.43.0


From 40f2f5853b0c8f648f75f72418be15e670bff33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 19/30] fix: a reboot message ends where its frame ends

---
 d7a/serial_modem_interface/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index f938c0d..e841cd4 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -103,7 +103,10 @@ class Parser(object):
         s           = ConstBitStream(bytes=self.buffer)
         cmd_length, message_type = self.parse_serial_interface_header(s)
         if message_type == MessageType.REBOOTED.value:
+          if cmd_length == 0:
+            raise ParseError("reboot message without a reason")
           cmd = s.read("uint:8")
+          s.read("pad:" + str((cmd_length - 1) * 8))
         elif message_type == MessageType.LOGGING.value:
           cmd = (s.readlist('bytes:b', b=cmd_length)[0])
         else:
-- 
2.43.0


From 978611abff08c66afa9d449421df5ef6d383f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 20/30] fix: an ALP command cannot read beyond the serial frame
 which contains it

---
 d7a/serial_modem_interface/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index e841cd4..068edfb 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -116,7 +116,7 @@ class Parser(object):
 
             cmd = s.read("bytes:" + str(cmd_length))
           else:
-            cmd = AlpParser().parse(s, cmd_length)
+            cmd = self.parse_alp_command(s.read("bytes:" + str(cmd_length)))
 
         bits_parsed = s.pos
         self.shift_buffer(bits_parsed/8)
@@ -138,6 +138,13 @@ class Parser(object):
     }
     return (message_type, cmd, info)
 
+  def parse_alp_command(self, payload):
+    # the command cannot read beyond the frame which contains it
+    try:
+      return AlpParser().parse(ConstBitStream(bytes=payload), len(payload))
+    except ReadError:
+      raise ParseError("ALP command is not complete in its frame")
+
   def skip_bad_buffer_content(self):
     # skip until we find 0xc0, which might be a valid starting point
     try:
-- 
2.43.0


From cf503eea85a2b66bba7abf81c736b5665e98abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 21/30] fix: the modem read thread reconnects after a serial
 error, and does not parse the previous byte again

---
 modem/modem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 32b2f5c..d753d2b 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -208,7 +208,11 @@ class Modem:
         self.log.warning("SerialException received, trying to reconnect")
         self.dev.close()
         time.sleep(5)
-        self._connect_serial_modem()
+        try:
+          self.dev.open()
+        except serial.SerialException:
+          self.log.warning("Could not reconnect")
+        continue # nothing was received
 
       if len(data_received) > 0:
         # self.log.debug("< " + " ".join(map(lambda b: format(b, "02x"), bytearray(data_received))))
-- 
2.43.0


From 6175945f97cafe2ff97e3165860e0cc4d8d1096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 22/30] fix: a response without a tag is not the response of a
 command which is not executing

---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index d753d2b..634c51c 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -222,7 +222,7 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id is not None and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
             self.log.info("Received response for sync execution")
             self._sync_execution_response_cmds.append(cmd)
             if cmd.execution_completed:
-- 
2.43.0


From 7f1c9ff06877f5de548965be81abde99109f6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 23/30] fix: a response which arrives after the execution of
 its command ended is delivered as unsolicited

---
 modem/modem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modem/modem.py b/modem/modem.py
index 634c51c..d597901 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -168,6 +168,7 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
+    self._sync_execution_tag_id = None # a response which is received from now on is unsolicited
     if not self._sync_execution_completed:
       self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
       return []
-- 
2.43.0


From 9ee1b5ee6edc2f5825423e43f33c92fb68951911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 24/30] fix: data returned from the middle of a system file is
 not interpreted as the beginning of that file

---
 d7a/alp/operations/responses.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d7a/alp/operations/responses.py b/d7a/alp/operations/responses.py
index d09d806..428f790 100644
--- a/d7a/alp/operations/responses.py
+++ b/d7a/alp/operations/responses.py
@@ -46,6 +46,10 @@ class ReturnFileData(Operation):
 
   def try_parse_system_file(self):
     # when reading a known system files we store the parsed data and filename
+    # (data which does not start at the beginning of the file can not be interpreted)
+    if self.operand.offset.offset.value != 0:
+      return
+
     try:
       systemfile_type = SystemFiles().files[SystemFileIds(self.operand.offset.id)]
     except:
-- 
2.43.0


From 8f228818d10350e0764806546a8b221ad1b9ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 25/30] fix: comparing two different channel headers or file
 properties raised TypeError under Jython (dictionaries of enumerations)

---
 d7a/fs/file_properties.py | 3 ++-
 d7a/phy/channel_header.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index 4e621eb..07baa4c 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -78,7 +78,8 @@ class FileProperties(Validatable):
 
   def __eq__(self, other):
     if isinstance(other, FileProperties):
-      return self.__dict__ == other.__dict__
+      return self.act_enabled == other.act_enabled and self.act_condition == other.act_condition \
+             and self.storage_class == other.storage_class
 
     return False
 
diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index a49f469..3fdf026 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -123,7 +123,8 @@ class ChannelHeader(Validatable):
 
   def __eq__(self, other):
     if type(other) is type(self):
-      return self.__dict__ == other.__dict__
+      return self.channel_coding == other.channel_coding and self.channel_class == other.channel_class \
+             and self.channel_band == other.channel_band
     return False
 
   def __ne__(self, other):
-- 
2.43.0


From ff0e33c86902b575b5bce0a2088bbc7b83479963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 26/30] fix: refuse an ALP command whose last action does not
 end within the given number of bytes

---
 d7a/alp/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d7a/alp/parser.py b/d7a/alp/parser.py
index 1c0ab3a..8f08aee 100644
--- a/d7a/alp/parser.py
+++ b/d7a/alp/parser.py
@@ -75,6 +75,9 @@ class Parser(object):
         actions.append(action)
         alp_bytes_parsed = alp_bytes_parsed + (s.bytepos - startpos)
 
+      if alp_bytes_parsed != cmd_length:
+        raise ParseError("the last ALP action does not end within the command")
+
     cmd = Command(actions = actions, generate_tag_request_action=False)
     return cmd
 
-- 
2.43.0


From 6af0788efb694cd2a18f0408d8040835238f9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 27/30] fix: DLL configuration file fields were not validated
 (schema names did not match the attributes)

---
 d7a/system_files/dll_config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 2c1dc99..013ab7e 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -31,10 +31,10 @@ from d7a.system_files.system_file_ids import SystemFileIds
 class DllConfigFile(File, Validatable):
   SCHEMA = [{
     "active_access_class": Types.INTEGER(min=0, max=0xFF),
-    "LQ_filter": Types.INTEGER(min=0, max=0xFF),
-    "NF_CTRL": Types.INTEGER(min=0, max=0xFF),
-    "RX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF),
-    "TX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF)
+    "lq_filter": Types.INTEGER(min=0, max=0xFF),
+    "nf_ctrl": Types.INTEGER(min=0, max=0xFF),
+    "rx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF),
+    "tx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF)
   }]
 
   def __init__(self, active_access_class=0, lq_filter=0x00, nf_ctrl=0x00, rx_nf_method_parameter=0x00
-- 
2.43.0


From a23fc68af83f9822e58cd97177773394a5a86270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 28/30] fix: objects built from default arguments shared their
 default components

---
 d7a/alp/action.py                           |  6 +++---
 d7a/alp/forward_action.py                   |  4 ++--
 d7a/alp/indirect_forward_action.py          |  4 ++--
 d7a/alp/operands/file.py                    | 11 ++++++-----
 d7a/alp/operands/offset.py                  |  6 +++---
 d7a/alp/regular_action.py                   |  4 ++--
 d7a/alp/tag_request_action.py               |  4 ++--
 d7a/alp/tag_response_action.py              |  4 ++--
 d7a/dll/sub_profile.py                      |  6 +++---
 d7a/sp/configuration.py                     | 10 +++++-----
 d7a/support/schema.py                       |  3 +++
 d7a/system_files/dll_status.py              |  6 ++++--
 d7a/system_files/engineering_mode.py        |  9 +++++----
 d7a/system_files/interface_configuration.py |  6 ++++--
 d7a/system_files/phy_status.py              |  2 +-
 15 files changed, 47 insertions(+), 38 deletions(-)

diff --git a/d7a/alp/action.py b/d7a/alp/action.py
index af81e29..b36a854 100644
--- a/d7a/alp/action.py
+++ b/d7a/alp/action.py
@@ -29,7 +29,7 @@
 from d7a.alp.operations.requests import ReadFileData
 from d7a.alp.operations.responses import ReturnFileData
 from d7a.alp.operations.write_operations import WriteFileData
-from d7a.support.schema           import Validatable, Types
+from d7a.support.schema           import Validatable, Types, DEFAULT
 
 from d7a.alp.operations.operation import Operation
 from d7a.alp.operations.nop       import NoOperation
@@ -42,8 +42,8 @@ class Action(Validatable):
     "operand"  : Types.OBJECT(nullable=True)  # there is no Operand base-class
   }]
 
-  def __init__(self, operation=NoOperation()):
-    self.operation = operation
+  def __init__(self, operation=DEFAULT):
+    self.operation = NoOperation() if operation is DEFAULT else operation
     super(Action, self).__init__()
 
   @property
diff --git a/d7a/alp/forward_action.py b/d7a/alp/forward_action.py
index 74c9304..5772625 100644
--- a/d7a/alp/forward_action.py
+++ b/d7a/alp/forward_action.py
@@ -25,7 +25,7 @@ from d7a.alp.action import Action
 from d7a.alp.operands.interface_configuration import InterfaceConfiguration
 from d7a.alp.operations.forward import Forward
 from d7a.alp.operations.nop import NoOperation
-from d7a.support.schema import Types
+from d7a.support.schema import Types, DEFAULT
 
 
 class ForwardAction(Action):
@@ -36,7 +36,7 @@ class ForwardAction(Action):
     "operand"  : Types.OBJECT(InterfaceConfiguration)  # TODO for now only D7 interface is supported
   }]
 
-  def __init__(self, resp=False, operation=NoOperation()):
+  def __init__(self, resp=False, operation=DEFAULT):
     self.resp      = resp
     super(ForwardAction, self).__init__(operation)
 
diff --git a/d7a/alp/indirect_forward_action.py b/d7a/alp/indirect_forward_action.py
index 112c80b..c5f6ed3 100644
--- a/d7a/alp/indirect_forward_action.py
+++ b/d7a/alp/indirect_forward_action.py
@@ -25,7 +25,7 @@ from d7a.alp.action import Action
 from d7a.alp.operands.indirect_interface_operand import IndirectInterfaceOperand
 from d7a.alp.operations.indirect_forward import IndirectForward
 from d7a.alp.operations.nop import NoOperation
-from d7a.support.schema import Types
+from d7a.support.schema import Types, DEFAULT
 
 
 class IndirectForwardAction(Action):
@@ -37,7 +37,7 @@ class IndirectForwardAction(Action):
     "operand"  : Types.OBJECT(IndirectInterfaceOperand)  # TODO for now only D7 interface is supported
   }]
 
-  def __init__(self, overload=False, resp=False, operation=NoOperation()):
+  def __init__(self, overload=False, resp=False, operation=DEFAULT):
     self.overload = overload
     self.resp = resp
     super(IndirectForwardAction, self).__init__(operation)
diff --git a/d7a/alp/operands/file.py b/d7a/alp/operands/file.py
index 1dee69c..e884124 100644
--- a/d7a/alp/operands/file.py
+++ b/d7a/alp/operands/file.py
@@ -26,7 +26,7 @@
 # class implementations of File {*} Operands
 from d7a.alp.operands.length import Length
 from d7a.alp.operands.offset import Offset
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 
 
 class Data(Validatable):
@@ -37,8 +37,9 @@ class Data(Validatable):
     "data"   : Types.BYTES()
   }]
   
-  def __init__(self, data=[], offset=Offset()):
-    self.offset = offset
+  def __init__(self, data=DEFAULT, offset=DEFAULT):
+    if data is DEFAULT: data = []
+    self.offset = Offset() if offset is DEFAULT else offset
     self.data   = data
     self.length = Length(len(data))
     super(Data, self).__init__()
@@ -68,8 +69,8 @@ class DataRequest(Validatable):
     "length" : Types.OBJECT(Length)
   }]
 
-  def __init__(self, length, offset=Offset()):
-    self.offset = offset
+  def __init__(self, length, offset=DEFAULT):
+    self.offset = Offset() if offset is DEFAULT else offset
     self.length = Length(length)
     super(DataRequest, self).__init__()
 
diff --git a/d7a/alp/operands/offset.py b/d7a/alp/operands/offset.py
index b96f4ee..bda6308 100644
--- a/d7a/alp/operands/offset.py
+++ b/d7a/alp/operands/offset.py
@@ -24,7 +24,7 @@
 import struct
 
 from d7a.alp.operands.length import Length
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 
 
 class Offset(Validatable):
@@ -36,9 +36,9 @@ class Offset(Validatable):
     }
   ]
 
-  def __init__(self, id=0, offset=Length()):
+  def __init__(self, id=0, offset=DEFAULT):
     self.id     = id
-    self.offset = offset
+    self.offset = Length() if offset is DEFAULT else offset
     super(Offset, self).__init__()
 
   @staticmethod
diff --git a/d7a/alp/regular_action.py b/d7a/alp/regular_action.py
index 98c6b03..ce4e85c 100644
--- a/d7a/alp/regular_action.py
+++ b/d7a/alp/regular_action.py
@@ -24,7 +24,7 @@
 from d7a.alp.action import Action
 from d7a.alp.operations.nop import NoOperation
 from d7a.alp.operations.operation import Operation
-from d7a.support.schema import Types
+from d7a.support.schema import Types, DEFAULT
 
 __author__ = 'glenn'
 
@@ -38,7 +38,7 @@ class RegularAction(Action):
     "operand"  : Types.OBJECT(nullable=True)  # there is no Operand base-class
   }]
 
-  def __init__(self, group=False, resp=False, operation=NoOperation()):
+  def __init__(self, group=False, resp=False, operation=DEFAULT):
     self.group     = group
     self.resp      = resp
     super(RegularAction, self).__init__(operation)
diff --git a/d7a/alp/tag_request_action.py b/d7a/alp/tag_request_action.py
index 92b2287..d964893 100644
--- a/d7a/alp/tag_request_action.py
+++ b/d7a/alp/tag_request_action.py
@@ -24,7 +24,7 @@
 from d7a.alp.action import Action
 from d7a.alp.operations.nop import NoOperation
 from d7a.alp.operations.operation import Operation
-from d7a.support.schema import Types
+from d7a.support.schema import Types, DEFAULT
 
 class TagRequestAction(Action):
   SCHEMA = [{
@@ -34,7 +34,7 @@ class TagRequestAction(Action):
     "operand"  : Types.OBJECT(nullable=True)  # there is no Operand base-class
   }]
 
-  def __init__(self, respond_when_completed=True, operation=NoOperation()):
+  def __init__(self, respond_when_completed=True, operation=DEFAULT):
     self.respond_when_completed = respond_when_completed
     super(TagRequestAction, self).__init__(operation)
 
diff --git a/d7a/alp/tag_response_action.py b/d7a/alp/tag_response_action.py
index 1f0d86c..f7daec7 100644
--- a/d7a/alp/tag_response_action.py
+++ b/d7a/alp/tag_response_action.py
@@ -24,7 +24,7 @@
 from d7a.alp.action import Action
 from d7a.alp.operations.nop import NoOperation
 from d7a.alp.operations.operation import Operation
-from d7a.support.schema import Types
+from d7a.support.schema import Types, DEFAULT
 
 class TagResponseAction(Action):
   SCHEMA = [{
@@ -35,7 +35,7 @@ class TagResponseAction(Action):
     "operand"  : Types.OBJECT(nullable=True)  # there is no Operand base-class
   }]
 
-  def __init__(self, eop, error, operation=NoOperation()):
+  def __init__(self, eop, error, operation=DEFAULT):
     self.eop = eop
     self.error = error
     super(TagResponseAction, self).__init__(operation)
diff --git a/d7a/dll/sub_profile.py b/d7a/dll/sub_profile.py
index 26da2fb..c9694fe 100644
--- a/d7a/dll/sub_profile.py
+++ b/d7a/dll/sub_profile.py
@@ -23,7 +23,7 @@
 #
 import pprint
 
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 from d7a.types.ct import CT
 
 
@@ -34,9 +34,9 @@ class SubProfile(Validatable):
     "scan_automation_period": Types.OBJECT(CT)
   }]
 
-  def __init__(self, subband_bitmap=0, scan_automation_period=CT()):
+  def __init__(self, subband_bitmap=0, scan_automation_period=DEFAULT):
     self.subband_bitmap = subband_bitmap
-    self.scan_automation_period = scan_automation_period
+    self.scan_automation_period = CT() if scan_automation_period is DEFAULT else scan_automation_period
     super(SubProfile, self).__init__()
 
   @staticmethod
diff --git a/d7a/sp/configuration.py b/d7a/sp/configuration.py
index d8a4976..42c2135 100644
--- a/d7a/sp/configuration.py
+++ b/d7a/sp/configuration.py
@@ -25,7 +25,7 @@
 # author: Christophe VG <contact@christophe.vg>
 # class implementation of (FIFO) configuration
 
-from d7a.support.schema   import Validatable, Types
+from d7a.support.schema   import Validatable, Types, DEFAULT
 
 from d7a.types.ct         import CT
 
@@ -42,10 +42,10 @@ class Configuration(Validatable):
     "addressee"  : Types.OBJECT(Addressee)
   }]
 
-  def __init__(self, qos=QoS(), dorm_to=CT(), addressee=Addressee()):
-    self.qos         = qos
-    self.dorm_to     = dorm_to
-    self.addressee   = addressee
+  def __init__(self, qos=DEFAULT, dorm_to=DEFAULT, addressee=DEFAULT):
+    self.qos         = QoS() if qos is DEFAULT else qos
+    self.dorm_to     = CT() if dorm_to is DEFAULT else dorm_to
+    self.addressee   = Addressee() if addressee is DEFAULT else addressee
     super(Configuration, self).__init__()
 
   def __iter__(self):
diff --git a/d7a/support/schema.py b/d7a/support/schema.py
index ff3e9c7..5cf787b 100644
--- a/d7a/support/schema.py
+++ b/d7a/support/schema.py
@@ -30,6 +30,9 @@ from cerberus import Validator
 
 import inspect
 
+# default of arguments for which every instance needs an object of its own (None is refused where it is no valid value)
+DEFAULT = object()
+
 class ObjectValidator(Validator):
   def _validate_isinstance(self, clazz, field, value):
     """ {'nullable': True } """ # dummy validation schema to avoid warning ;-)
diff --git a/d7a/system_files/dll_status.py b/d7a/system_files/dll_status.py
index 26b0def..9950785 100644
--- a/d7a/system_files/dll_status.py
+++ b/d7a/system_files/dll_status.py
@@ -24,7 +24,7 @@
 import struct
 
 from d7a.phy.channel_header import ChannelHeader, ChannelCoding, ChannelBand, ChannelClass
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 from d7a.system_files.file import File
 from d7a.system_files.system_file_ids import SystemFileIds
 
@@ -42,8 +42,10 @@ class DllStatusFile(File, Validatable):
   }]
 
   def __init__(self, last_rx_packet_level=0, last_rx_packet_link_budget=0, noise_floor=0,
-               channel_header=ChannelHeader(channel_coding=ChannelCoding.FEC_PN9, channel_band=ChannelBand.BAND_868, channel_class=ChannelClass.LO_RATE),
+               channel_header=DEFAULT,
                channel_index=0, scan_timeout_ratio=0, scan_count=0, scan_timeout_count=0):
+    if channel_header is DEFAULT:
+      channel_header = ChannelHeader(channel_coding=ChannelCoding.FEC_PN9, channel_band=ChannelBand.BAND_868, channel_class=ChannelClass.LO_RATE)
     self.last_rx_packet_level=last_rx_packet_level
     self.last_rx_packet_link_budget=last_rx_packet_link_budget
     self.noise_floor=noise_floor
diff --git a/d7a/system_files/engineering_mode.py b/d7a/system_files/engineering_mode.py
index 18af4b8..f6f3d9f 100644
--- a/d7a/system_files/engineering_mode.py
+++ b/d7a/system_files/engineering_mode.py
@@ -26,7 +26,7 @@ import struct
 from enum import Enum
 
 from d7a.phy.channel_id import ChannelID
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 from d7a.system_files.file import File
 from d7a.system_files.system_file_ids import SystemFileIds
 from d7a.phy.channel_header import ChannelHeader,ChannelCoding,ChannelClass,ChannelBand
@@ -66,9 +66,10 @@ class EngineeringModeFile(File, Validatable):
   }]
 
   def __init__(self, mode=EngineeringModeMode.ENGINEERING_MODE_MODE_OFF, flags=0, timeout=0,
-               channel_id=ChannelID(channel_header=ChannelHeader(ChannelCoding.PN9,ChannelClass.LO_RATE,ChannelBand.BAND_868),
-                                    channel_index=0),
-               eirp=0):
+               channel_id=DEFAULT, eirp=0):
+    if channel_id is DEFAULT:
+      channel_id = ChannelID(channel_header=ChannelHeader(ChannelCoding.PN9,ChannelClass.LO_RATE,ChannelBand.BAND_868),
+                             channel_index=0)
     self.mode = mode
     self.flags = flags
     self.timeout = timeout
diff --git a/d7a/system_files/interface_configuration.py b/d7a/system_files/interface_configuration.py
index dfbea83..7dfbb3f 100644
--- a/d7a/system_files/interface_configuration.py
+++ b/d7a/system_files/interface_configuration.py
@@ -23,7 +23,7 @@
 #
 import struct
 
-from d7a.support.schema import Validatable, Types
+from d7a.support.schema import Validatable, Types, DEFAULT
 from d7a.system_files.file import File
 from d7a.system_files.system_file_ids import SystemFileIds
 from d7a.alp.interface import InterfaceType
@@ -36,7 +36,9 @@ class InterfaceConfigurationFile(File, Validatable):
     "interface_configuration": Types.OBJECT(InterfaceConfiguration)
   }]
 
-  def __init__(self, interface_configuration=InterfaceConfiguration(interface_id=InterfaceType.D7ASP, interface_configuration=None), file_id=0x1D):
+  def __init__(self, interface_configuration=DEFAULT, file_id=0x1D):
+    if interface_configuration is DEFAULT:
+      interface_configuration = InterfaceConfiguration(interface_id=InterfaceType.D7ASP, interface_configuration=None)
     self.interface_configuration = interface_configuration
     if interface_configuration.interface_id == InterfaceType.D7ASP:
       File.__init__(self, file_id, 13)
diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 0a41e3b..ed93456 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -48,7 +48,7 @@ class PhyStatusFile(File, Validatable):
 
     self.channel_status_identifier = list(channel_status_identifier)
     if len(channel_status_identifier) != channel_status_list_length:
-      self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(channel_status_identifier)))
+      self.channel_status_identifier.extend([ChannelStatusIdentifier() for _ in range(channel_status_list_length - len(channel_status_identifier))])
 
     self.channel_noise_floor = list(channel_noise_floor)
     if len(channel_noise_floor) != channel_status_list_length:
-- 
2.43.0


From d7369d95777dc7860522955a1a94eda930825fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 29/30] fix: a response could be delivered to the next command
 execution, or to none, when one ended while it was handled

---
 modem/modem.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index d597901..97dd768 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -57,6 +57,7 @@ class Modem:
       "baudrate" : baudrate
     }
     self.lock=threading.Lock()
+    self._sync_execution_lock = threading.Lock() # no execution begins or ends while a response is delivered to it
     self.uid = None
     self.firmware_version = None
     self.skip_alp_parsing = skip_alp_parsing
@@ -149,12 +150,13 @@ class Modem:
       timeout_seconds = 0
 
     data = self.parser.build_serial_frame(alp_command)
-    self._sync_execution_response_cmds = []
-    self._sync_execution_tag_id = None
-    self._sync_execution_completed = False
-    if(timeout_seconds > 0):
-      assert self._sync_execution_tag_id is None
-      self._sync_execution_tag_id = alp_command.tag_id
+    with self._sync_execution_lock:
+      self._sync_execution_response_cmds = []
+      self._sync_execution_tag_id = None
+      self._sync_execution_completed = False
+      if(timeout_seconds > 0):
+        assert self._sync_execution_tag_id is None
+        self._sync_execution_tag_id = alp_command.tag_id
     with self.lock:
       self.dev.write(data)
       self.dev.flush()
@@ -168,7 +170,8 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
-    self._sync_execution_tag_id = None # a response which is received from now on is unsolicited
+    with self._sync_execution_lock:
+      self._sync_execution_tag_id = None # a response which is received from now on is unsolicited
     if not self._sync_execution_completed:
       self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
       return []
@@ -223,15 +226,19 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id is not None and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
-            self.log.info("Received response for sync execution")
-            self._sync_execution_response_cmds.append(cmd)
-            if cmd.execution_completed:
-              self.log.info("cmd with tag {} done".format(cmd.tag_id))
-              self._sync_execution_completed = True
-            else:
-              self.log.info("cmd with tag {} not done yet, expecting more responses".format(cmd.tag_id))
-
+          with self._sync_execution_lock:
+            is_sync_response = not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id is not None and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE
+            if is_sync_response:
+              self.log.info("Received response for sync execution")
+              self._sync_execution_response_cmds.append(cmd)
+              if cmd.execution_completed:
+                self.log.info("cmd with tag {} done".format(cmd.tag_id))
+                self._sync_execution_completed = True
+              else:
+                self.log.info("cmd with tag {} not done yet, expecting more responses".format(cmd.tag_id))
+
+          if is_sync_response:
+            pass
           elif self.unsolicited_response_received_callback != None and self.connected and message_types[cmd_cnt] <= MessageType.PING_RESPONSE: # skip responses until connected
             self.unsolicited_response_received_callback(cmd)
           elif message_types[cmd_cnt] == MessageType.REBOOTED:
-- 
2.43.0


From dc49599d5856273bb18e61aeee874af2a96e48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 30/30] fix: connecting a modem that is connected reports
 success

---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 97dd768..d865d0a 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -89,7 +89,7 @@ class Modem:
 
   def connect(self, check_alive=True):
     if self.connected:
-      return
+      return True
 
     if not check_alive:
       self.connected = True
-- 
2.43.0

