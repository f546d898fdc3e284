From 4ca36a7aca5e027a1d84bcc4e6eafb1e579f1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 001/118] fix: decode UEFI variable names as UTF-16LE so that a
 leading U+FEFF/U+FFFE is kept

---
 edk2toollib/uefi/edk2/variable_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 1b4ecb7..2da1858 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -151,7 +151,7 @@ class VariableHeader(object):
 
         # Finally, load the data.
         data_offset = self.StructSize
-        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16")
+        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16-le")
         self.Name = self.Name[:-1]  # Strip the terminating char.
         data_offset += self.NameSize
         self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
@@ -180,7 +180,7 @@ class VariableHeader(object):
             raise EOFError("No variable data!")
 
         # Finally, load the data.
-        self.Name = file.read(self.NameSize).decode("utf-16")[:-1]  # Strip the terminating char.
+        self.Name = file.read(self.NameSize).decode("utf-16-le")[:-1]  # Strip the terminating char.
         self.Data = file.read(self.DataSize)
 
         file.seek(orig_seek)
-- 
2.43.0


From a2ff42d00c87c0ce16c1bc7c5ce508add3daebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 002/118] fix: account for the store header when checking that
 variables fit in the VarStore

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 82aaab4..6d6f841 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -108,6 +108,8 @@ class VariableStore(object):
         # Add the terminating var header.
         dummy_var = self.get_new_var_class()
         var_size += dummy_var.StructSize
+        # The size of the VarStore includes its own header.
+        var_size += self.var_store_header.StructSize
         if var_size > self.var_store_header.Size:
             raise Exception(
                 "Total variable size %d is too large to fit in VarStore %d!" % (var_size, self.var_store_header.Size)
-- 
2.43.0


From a6d154c956b9a251f324a67323b639116ac58ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 003/118] fix: stop reading variables at the end of the
 VarStore

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 6d6f841..2ab9419 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -61,9 +61,11 @@ class VariableStore(object):
 
         # Now we're finally ready to read some variables.
         self.variables = []
+        store_end = self.rom_file.tell() + self.var_store_header.Size
         self.rom_file.seek(self.var_store_header.StructSize, os.SEEK_CUR)
         try:
-            while True:
+            # A store that is filled up to its end has no terminating header.
+            while self.rom_file.tell() + self.get_new_var_class().StructSize <= store_end:
                 new_var = self.get_new_var_class().load_from_file(self.rom_file)
 
                 # Seek past the current variable in the store.
-- 
2.43.0


From 9386eda3516f43bed4b0a5f3ca07f98628938ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 004/118] fix: treat the FTW write record RelativeOffset as the
 signed field it is

---
 edk2toollib/uefi/edk2/ftw_working_block_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/ftw_working_block_format.py b/edk2toollib/uefi/edk2/ftw_working_block_format.py
index 0c5655d..0113015 100644
--- a/edk2toollib/uefi/edk2/ftw_working_block_format.py
+++ b/edk2toollib/uefi/edk2/ftw_working_block_format.py
@@ -201,7 +201,7 @@ class EfiFtwWriteRecord(object):
 
     def __init__(self) -> "EfiFtwWriteRecord":
         """Initializes an empty object."""
-        self.StructString = "=BBBBLQQQQ"  # spell-checker: disable-line
+        self.StructString = "=BBBBLQQQq"  # spell-checker: disable-line
         self.StatusBits = None
         self.ReservedByte1 = None
         self.ReservedByte2 = None
-- 
2.43.0


From 0a4dd4ed701073a1bc56a9c9be21b09b2b967410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 005/118] fix: keep the extended header bytes between
 capsule/FMP payload headers and their payload

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 6 +++++-
 edk2toollib/uefi/uefi_capsule_header.py     | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index c384857..0fea9b6 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -49,6 +49,7 @@ class FmpPayloadHeaderClass(object):
         self.FwVersion = 0x00000000
         self.LowestSupportedVersion = 0x00000000
         self.Payload = b""
+        self._ExtendedHeader = b""
 
     def Encode(self) -> bytes:
         r"""Serializes the Header + payload.
@@ -59,7 +60,9 @@ class FmpPayloadHeaderClass(object):
         FmpPayloadHeader = struct.pack(
             self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
         )
-        return FmpPayloadHeader + self.Payload
+        # HeaderSize may be larger than the struct: the payload starts at HeaderSize.
+        FmpPayloadHeader = FmpPayloadHeader + self._ExtendedHeader[: self.HeaderSize - self._StructSize]
+        return FmpPayloadHeader + b"\x00" * (self.HeaderSize - len(FmpPayloadHeader)) + self.Payload
 
     def Decode(self, Buffer: bytes) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -88,6 +91,7 @@ class FmpPayloadHeaderClass(object):
         self.HeaderSize = HeaderSize
         self.FwVersion = FwVersion
         self.LowestSupportedVersion = LowestSupportedVersion
+        self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
 
         return self.Payload
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4699798..baf7ce1 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -62,6 +62,7 @@ class UefiCapsuleHeaderClass(object):
         self.InitiateReset = False
         self.CapsuleImageSize = self.HeaderSize
         self.Payload = b""
+        self._ExtendedHeader = b""
         self.FmpCapsuleHeader = None
 
     def Encode(self) -> bytes:
@@ -88,7 +89,10 @@ class UefiCapsuleHeaderClass(object):
             self._StructFormat, self.CapsuleGuid.bytes_le, self.HeaderSize, Flags, self.CapsuleImageSize, 0
         )
 
-        return UefiCapsuleHeader + self.Payload
+        # HeaderSize may be larger than the struct: the extended header entries sit between the struct and the payload.
+        ExtendedHeader = self._ExtendedHeader[: self.HeaderSize - self._StructSize]
+        UefiCapsuleHeader = UefiCapsuleHeader + ExtendedHeader
+        return UefiCapsuleHeader + b"\x00" * (self.HeaderSize - len(UefiCapsuleHeader)) + self.Payload
 
     def Decode(self, Buffer: BytesIO) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -120,6 +124,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
+        self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
-- 
2.43.0


From adbaf73c70370d8f624100964ccde1e10d854fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 006/118] fix: forget nested headers of an earlier Decode when
 decoding into a used object

---
 edk2toollib/uefi/fmp_auth_header.py     | 1 +
 edk2toollib/uefi/fmp_capsule_header.py  | 1 +
 edk2toollib/uefi/uefi_capsule_header.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index baf271e..c8eb3ba 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -77,6 +77,7 @@ class FmpAuthHeaderClass(object):
         self.MonotonicCount = MonotonicCount
 
         self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
             self.FmpPayloadHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 31ceee8..721e715 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -132,6 +132,7 @@ class FmpCapsuleImageHeaderClass(object):
         self.UpdateVendorCodeSize = UpdateVendorCodeSize
         self.UpdateHardwareInstance = UpdateHardwareInstance
         self.Payload = Buffer[self._StructSize : self._StructSize + UpdateImageSize]
+        self.FmpAuthHeader = None
         if len(self.Payload) > 0:
             self.FmpAuthHeader = FmpAuthHeaderClass()
             self.FmpAuthHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index baf7ce1..dcee59d 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -126,6 +126,7 @@ class UefiCapsuleHeaderClass(object):
         self.CapsuleImageSize = CapsuleImageSize
         self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
+        self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
             self.FmpCapsuleHeader.Decode(self.Payload)
-- 
2.43.0


From ec87fbdfdb1131e7b222e26f41b724a90104d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 007/118] fix: refuse capsule and FMP payload headers that
 extend past the end of the buffer

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 2 +-
 edk2toollib/uefi/uefi_capsule_header.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index 0fea9b6..ead721f 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -85,7 +85,7 @@ class FmpPayloadHeaderClass(object):
         )
         if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
             raise ValueError
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         self.Signature = Signature
         self.HeaderSize = HeaderSize
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index dcee59d..91a96b2 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -117,6 +117,8 @@ class UefiCapsuleHeaderClass(object):
             raise ValueError
         if CapsuleImageSize != len(Buffer):
             raise ValueError
+        if HeaderSize > CapsuleImageSize:
+            raise ValueError
         self.CapsuleGuid = uuid.UUID(bytes_le=CapsuleGuid)
         self.HeaderSize = HeaderSize
         self.OemFlags = Flags & 0xFFFF
-- 
2.43.0


From 6ce0acbb4cef3b256e24f6453975edcb9784bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 008/118] fix: FmpAuthHeaderClass.IsSigned compared a UUID with
 bytes and was never true

---
 edk2toollib/uefi/fmp_auth_header.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index c8eb3ba..cd5b0f7 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -94,10 +94,11 @@ class FmpAuthHeaderClass(object):
         if len(Buffer) < self._MonotonicCountSize:
             return False
 
-        auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
-        if auth_info.CertType != WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
+        try:
+            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
+        except ValueError:
             return False
-        return True
+        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
 
     def DumpInfo(self) -> None:
         """Prints object to console."""
-- 
2.43.0


From 04b1ff4e0b1cc2c3aa2c6237fb6c1a0d819810fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 009/118] fix: refuse certificates whose dwLength is smaller
 than the header or larger than the buffer

---
 edk2toollib/uefi/wincert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 791275e..c4b91c2 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -161,6 +161,9 @@ class WinCertPkcs1(object):
         if (end - fs.tell()) < 1:
             raise ValueError("Invalid File stream. No data for signature cert data")
 
+        if self.Hdr_dwLength < WinCertPkcs1.STATIC_STRUCT_SIZE:
+            raise ValueError("Invalid dwLength")
+
         if (end - fs.tell()) < (self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE):
             raise ValueError("Invalid file stream size")
 
@@ -408,7 +411,7 @@ class WinCertUefiGuid(object):
         (dwLength, wRevision, wCertificateType, cert_type) = struct.unpack(
             self._StructFormat, buffer[0 : self._StructSize]
         )
-        if dwLength < self._StructSize:
+        if dwLength < self._StructSize or dwLength > len(buffer):
             raise ValueError
         if wRevision != WinCert.REVISION:
             raise ValueError
-- 
2.43.0


From 9feb511a9a14857ca5b2a776e081d9fcbb3f2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 010/118] fix: decode variable policy names as UTF-16LE so that
 a leading U+FEFF/U+FFFE is kept

---
 edk2toollib/uefi/edk2/variable_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 5843a93..9a97058 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -63,7 +63,7 @@ class VariableLockOnVarStatePolicy(object):
         if string_end is None:
             raise ValueError("String end not detected!")
 
-        self.Name = buffer[:string_end].decode("utf-16").strip("\x00")
+        self.Name = buffer[:string_end].decode("utf-16-le").strip("\x00")
 
         return buffer[string_end:]
 
@@ -228,7 +228,7 @@ class VariablePolicyEntry(object):
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
         if self.OffsetToName != self.Size:
-            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
+            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16-le").strip("\x00")
 
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
             self.LockPolicy = VariableLockOnVarStatePolicy()
-- 
2.43.0


From ac05197fce4c50beb62bfcec76a50eeb1238fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 011/118] fix: validate variable policy sizes and do not keep
 the name or lock policy of an earlier decode

---
 edk2toollib/uefi/edk2/variable_policy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 9a97058..f69d864 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -55,7 +55,7 @@ class VariableLockOnVarStatePolicy(object):
             raise ValueError("Buffer too short!")
 
         string_end = None
-        for i in range(0, len(buffer), 2):
+        for i in range(0, len(buffer) - 1, 2):
             if buffer[i] == 0 and buffer[i + 1] == 0:
                 string_end = i + 2
                 break
@@ -224,12 +224,16 @@ class VariablePolicyEntry(object):
             raise ValueError("Unknown structure version!")
         if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
             raise ValueError("Unknown LockPolicyType!")
+        if not self._HdrStructSize <= self.OffsetToName <= self.Size <= len(buffer):
+            raise ValueError("Invalid Size or OffsetToName!")
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
+        self.Name = None
         if self.OffsetToName != self.Size:
             self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16-le").strip("\x00")
 
+        self.LockPolicy = None
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
             self.LockPolicy = VariableLockOnVarStatePolicy()
             self.LockPolicy.decode(buffer[self._HdrStructSize : self.OffsetToName])
-- 
2.43.0


From d09342ed5d437a0c61359be27fc8993cf023aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 012/118] fix: parse the empty attribute string that
 EfiVariableAttributes(0) renders

---
 edk2toollib/uefi/uefi_multi_phase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/uefi_multi_phase.py b/edk2toollib/uefi/uefi_multi_phase.py
index 9d613ff..56183d7 100644
--- a/edk2toollib/uefi/uefi_multi_phase.py
+++ b/edk2toollib/uefi/uefi_multi_phase.py
@@ -108,6 +108,10 @@ class EfiVariableAttributes(object):
         # Handle spaces
         attributes_str = attributes_str.replace(" ", "")
 
+        # No attributes at all is how an attribute value of zero is rendered
+        if attributes_str == "":
+            return attributes
+
         # Loop over all the attributes
         for attr in attributes_str.split(","):
             attr = attr.upper()  # convert to upper for consistency
-- 
2.43.0


From a435c15878a7b13764ebbe0d3a1d67e47d9620f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 013/118] fix: decode and merge the empty signature lists that
 encode produces

---
 .../uefi/authenticated_variables_structure_support.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 43a5cc0..63661fd 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -659,7 +659,8 @@ class EfiSignatureList(CommonUefiStructure):
         if self.signature_header_size > 0:
             self.signature_header = EfiSignatureHeader(fs, self.signature_header_size)
 
-        if ((self.signature_list_size - (fs.tell() - start)) % self.signature_size) != 0:
+        data_size = self.signature_list_size - (fs.tell() - start)
+        if data_size != 0 and (self.signature_size == 0 or data_size % self.signature_size != 0):
             raise Exception("Invalid Sig List.  Signature Data Array is not a valid size")
 
         self.signature_data_list = []
@@ -833,7 +834,7 @@ class EfiSignatureList(CommonUefiStructure):
         if not FixedSizeData:
             raise Exception("Can only merge EfiSignatureLists with fixed-size data elements")
 
-        if self.signature_data_list is None:
+        if not self.signature_data_list:
             self.signature_data_list = []
             self.signature_size = esl.signature_size
 
-- 
2.43.0


From 94f5850cf5eca75c0f8d458836e1e69337fe8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 014/118] fix: refuse X509 signature data smaller than its
 owner GUID instead of reading the whole stream

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 63661fd..56b646c 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -195,6 +195,9 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
         if (end - offset) < EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE:  # size of the  guid
             raise ValueError("Invalid file stream size")
 
+        if decodesize < EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE:  # no room for the guid
+            raise ValueError("Invalid Decode Size")
+
         if (end - offset) < decodesize:  # size requested is too big
             raise ValueError("Invalid file stream size vs decodesize")
 
-- 
2.43.0


From 810ea544543db3475fd646380194864ed63718bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 015/118] fix: get_canonical_and_dupes modified the database it
 was called on

---
 .../uefi/authenticated_variables_structure_support.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 56b646c..a33f6fb 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1017,7 +1017,13 @@ class EfiSignatureDatabase(CommonUefiStructure):
                 continue
             if Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
                 if sha256esl is None:
-                    sha256esl = Esl  # initialize it
+                    # initialize it; merging and sorting must not change the lists of this database
+                    sha256esl = EfiSignatureList(typeguid=Esl.signature_type)
+                    sha256esl.signature_header = Esl.signature_header
+                    sha256esl.signature_header_size = Esl.signature_header_size
+                    sha256esl.signature_list_size = Esl.signature_list_size
+                    sha256esl.signature_size = Esl.signature_size
+                    sha256esl.signature_data_list = list(Esl.signature_data_list)
                 else:
                     sha256esl.MergeSignatureList(Esl)
             elif Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
-- 
2.43.0


From 7bfe1ebb68a6b0b9dd4baac1aec0095b23c77d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 016/118] fix: detect duplicate X509 signature lists by content

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index a33f6fb..6d594e8 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1052,7 +1052,9 @@ class EfiSignatureDatabase(CommonUefiStructure):
             for esl in x509eslList:
                 if not canonicalDb.esl_list:
                     canonicalDb.esl_list.append(esl)
-                elif esl == canonicalDb.esl_list[-1]:
+                elif esl.signature_type == canonicalDb.esl_list[-1].signature_type and [
+                    data.signature_data for data in esl.signature_data_list
+                ] == [data.signature_data for data in canonicalDb.esl_list[-1].signature_data_list]:
                     duplicatesDb.esl_list.append(esl)
                 else:
                     canonicalDb.esl_list.append(esl)
-- 
2.43.0


From 89dc148ccee7b43ea052fcf4691216fcf25dd565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 017/118] fix: replacing the payload of an authenticated
 variable with an empty one kept the old payload

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 6d594e8..9857b7e 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1414,6 +1414,8 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         end = fs.tell()
         fs.seek(start)
         self.payload_size = end - start
+        self.payload = None
+        self.sig_list_payload = None
         if self.payload_size == 0:
             logging.debug("No Payload for this EfiVariableAuthenticated2 Object")
             return
@@ -1504,7 +1506,7 @@ class EfiVariableAuthentication2Builder(object):
         # if provided with a payload, the serialized payload must be added to the Digest to be signed
         if not payload:
             logging.info("Empty payload")
-            return
+            payload = b""
 
         # convert the payload to a file stream for SetPayload
         if not hasattr(payload, "seek"):
-- 
2.43.0


From 8dd68c904948875062f09f8743cfa56009dbce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 018/118] fix: TPM simulator transport failed on Python 3 and
 assumed whole messages per send and recv

---
 edk2toollib/tpm/tpm2_simulator.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 3f494e5..f0aa53d 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -63,18 +63,23 @@ class TpmSimulator(object):
         # Enable the NV space.
         self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
 
-    def send_raw_data(self, data: str) -> None:
+    def send_raw_data(self, data: bytes) -> None:
         """Send raw data to the TPM simulator."""
-        print("RAW -->: " + str(data).encode("hex"))
-        self.tpmSock.send(data)
+        print("RAW -->: " + data.hex())
+        self.tpmSock.sendall(data)
 
     def read_raw_data(self, count: int) -> bytes:
-        """Read raw data from the TPM simulator."""
-        data = self.tpmSock.recv(count)
-        print("RAW <--: " + str(data).encode("hex"))
+        """Read exactly count bytes of raw data from the TPM simulator."""
+        data = b""
+        while len(data) < count:
+            chunk = self.tpmSock.recv(count - len(data))
+            if not chunk:
+                raise ConnectionError("TPM simulator closed the connection.")
+            data += chunk
+        print("RAW <--: " + data.hex())
         return data
 
-    def send_data(self, data: str) -> bytes:
+    def send_data(self, data: bytes) -> bytes:
         """Send data to the TPM simulator."""
         # Send the "I'm about to send data" command.
         self.send_raw_data(struct.pack(">L", PLAT_COMMANDS["TPM_SEND_COMMAND"]))
-- 
2.43.0


From 3465f9b2fc797ebf0ea60e1a1bf034623398366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 019/118] fix: decoding a PC Card device path raised
 AttributeError

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 508b54d..e69982f 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -312,7 +312,7 @@ class PccardDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "PccardDevicePath":
-        function_number = struct.unpack("<B", header.data[:1])[0]
+        function_number = struct.unpack("<B", header.dev_data[:1])[0]
         return cls(header, function_number)
 
 
-- 
2.43.0


From 9983747102ff87938a9d4738c1104c4451cea827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 020/118] fix: device paths of an unknown type raised KeyError

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index e69982f..9e499f1 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -963,7 +963,7 @@ DEVICE_PATH_TYPES = defaultdict(
 # Change function to DevicePath Implementation to begin decoding.
 # __dict__() will be called to add the device path to the parent dictionary
 DEVICE_PATH_SUBTYPES = defaultdict(
-    lambda: {NOT_FOUND: ("NOT_FOUND!", UnimplementedDevicePath)},
+    lambda: defaultdict(lambda: ("NOT_FOUND!", UnimplementedDevicePath)),
     {
         HARDWARE_DEVICE_PATH: defaultdict(
             lambda: ("Unimplemented!", UnimplementedDevicePath),
-- 
2.43.0


From 76663f9cf061a1261bcce0bb6e28e50dc2c51a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 021/118] fix: refuse device path nodes shorter than their
 header or longer than the data

---
 edk2toollib/uefi/device_path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 9e499f1..834d733 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -1082,14 +1082,14 @@ class DevicePathFactory(object):
 
         while offset < len(binary):
             header = EfiDevicePathProtocol.decode(binary[offset:])
-            device_path_class = DevicePathFactory._find_implementation(header)
-            device_path = device_path_class.from_binary(header)
-            device_paths.append(device_path)
 
-            if header.dev_length == 0:
+            if header.dev_length < EfiDevicePathProtocol._dp_struct_size or header.dev_length > len(binary) - offset:
                 # dev_length is user controlled after all..
                 raise ValueError(f"Invalid Header Length: {header}")
 
+            device_path_class = DevicePathFactory._find_implementation(header)
+            device_path = device_path_class.from_binary(header)
+            device_paths.append(device_path)
             offset += header.dev_length
 
         return device_paths
-- 
2.43.0


From e71cdcc72940cfc7e36b0684be0f88bb33be9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 022/118] fix: messaging device path subtypes 0x1B-0x1F had
 numbers other than the UEFI specification's

---
 edk2toollib/uefi/device_path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 834d733..daa66e0 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -79,11 +79,11 @@ MSG_NVME_NAMESPACE_DP = 0x17
 MSG_URI_DP = 0x18
 MSG_UFS_DP = 0x19
 MSG_SD_DP = 0x1A
-MSG_EMMC_DP = 0x1B
-MSG_BLUEFIELD_DP = 0x1C
-MSG_BLUETOOTH_DP = 0x1D
-MSG_WIFI_DP = 0x1E
-MSG_EFI_DP = 0x1F
+MSG_BLUETOOTH_DP = 0x1B
+MSG_WIFI_DP = 0x1C
+MSG_EMMC_DP = 0x1D
+MSG_BLUETOOTH_LE_DP = 0x1E
+MSG_DNS_DP = 0x1F
 
 # Media Device Path
 MEDIA_DEVICE_PATH = 0x04
@@ -1010,11 +1010,11 @@ DEVICE_PATH_SUBTYPES = defaultdict(
                 MSG_URI_DP: ("URI", UnimplementedDevicePath),
                 MSG_UFS_DP: ("UFS", UnimplementedDevicePath),
                 MSG_SD_DP: ("SD", UnimplementedDevicePath),
-                MSG_EMMC_DP: ("eMMC", UnimplementedDevicePath),
-                MSG_BLUEFIELD_DP: ("BlueField", UnimplementedDevicePath),
                 MSG_BLUETOOTH_DP: ("Bluetooth", UnimplementedDevicePath),
                 MSG_WIFI_DP: ("WiFi", UnimplementedDevicePath),
-                MSG_EFI_DP: ("EFI", UnimplementedDevicePath),
+                MSG_EMMC_DP: ("eMMC", UnimplementedDevicePath),
+                MSG_BLUETOOTH_LE_DP: ("Bluetooth LE", UnimplementedDevicePath),
+                MSG_DNS_DP: ("DNS", UnimplementedDevicePath),
             },
         ),
         MEDIA_DEVICE_PATH: defaultdict(
-- 
2.43.0


From b3e582ddb5c9d95a3e6785f4fb1e6ee43497ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 023/118] fix: DMAR structures with invalid lengths hung the
 parser or were read from their neighbours

---
 edk2toollib/acpi/dmar_parser.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8633978..7cd6655 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -27,6 +27,10 @@ class DMARTable(object):
     ASTRHeaderLength = 8
     ANDDHeaderLength = 8
     DeviceScopeHeaderLength = 6
+    RHSALength = 20
+
+    # Smallest valid length of each remapping struct, by type
+    MinimumLengths = (DRDHHeaderLength, RMRRHeaderLength, ASTRHeaderLength, RHSALength, ANDDHeaderLength)
 
     def __init__(self, data: bytes) -> "DMARTable":
         """Inits the object."""
@@ -36,19 +40,22 @@ class DMARTable(object):
             # Get type and length of remapping struct
             remapping_header = self.RemappingStructHeader(self.data)
             assert remapping_header.Type < 5, "Reserved remapping struct found in DMAR table"
+            if not self.MinimumLengths[remapping_header.Type] <= remapping_header.Length <= len(self.data):
+                raise ValueError("Invalid remapping struct length %d in DMAR table" % remapping_header.Length)
+            struct_data = self.data[: remapping_header.Length]
 
             # Parse remapping struct
             if remapping_header.Type == 0:
-                remapping_header = self.DRHDStruct(self.data, remapping_header.Length)
+                remapping_header = self.DRHDStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 1:
-                remapping_header = self.RMRRStruct(self.data, remapping_header.Length)
+                remapping_header = self.RMRRStruct(struct_data, remapping_header.Length)
                 self.dmar_table.RMRRlist.append(remapping_header)
             elif remapping_header.Type == 2:
-                remapping_header = self.ATSRStruct(self.data, remapping_header.Length)
+                remapping_header = self.ATSRStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 3:
-                remapping_header = self.RHSAStruct(self.data, remapping_header.Length)
+                remapping_header = self.RHSAStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 4:
-                remapping_header = self.ANDDStruct(self.data, remapping_header.Length)
+                remapping_header = self.ANDDStruct(struct_data, remapping_header.Length)
                 self.dmar_table.ANDDCount += 1
             else:
                 print("Reserved remapping struct found in DMAR table")
@@ -478,6 +485,11 @@ class DMARTable(object):
             )
 
             assert self.Type < 6, "Reserved Device Scope Type Found"
+            if (
+                not DMARTable.DeviceScopeHeaderLength <= self.Length <= len(header_byte_array)
+                or (self.Length - DMARTable.DeviceScopeHeaderLength) % 2
+            ):
+                raise ValueError("Invalid device scope length %d in DMAR table" % self.Length)
 
             if self.Type == 1:
                 self.TypeString = "PCI Endpoint Device"
-- 
2.43.0


From 7d160547fa2b96f0e7cdd86339ecc8ba380113ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 024/118] fix: decoding into a used IVRS table or IVHD kept the
 entries of the earlier decode

---
 edk2toollib/acpi/ivrs_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index d6fa813..bb573d1 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -31,6 +31,8 @@ class IVRS_TABLE(object):
 
     def Decode(self, data: bytes) -> None:
         """Loads data into the object from the header_byte_array."""
+        self.SubStructs = list()
+        self.IVMD_list = list()
         self.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(data[: IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size])
 
         # Start from the end of ACPI header, but store the parsed length for verification
@@ -304,6 +306,9 @@ class IVRS_TABLE(object):
             )
 
             self.Length = 0
+            self.IOMMUEFRImage = None
+            self.Reserved = 0
+            self.DeviceTableEntries = list()
 
             if (self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_11H) or (
                 self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_40H
-- 
2.43.0


From caef24ae7c60574428355758c4fc73e58e20266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:06 +0000
Subject: [PATCH 025/118] fix: the IVMD dump printed the block type as the
 memory block length

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index bb573d1..e7d8e45 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -513,7 +513,7 @@ class IVRS_TABLE(object):
             )
             print(
                 "\tIVMD Memory Block Length             : 0x{IVMDMemoryBlockLength:016X}".format(
-                    IVMDMemoryBlockLength=self.Type
+                    IVMDMemoryBlockLength=self.IVMDMemoryBlockLength
                 )
             )
 
-- 
2.43.0


From 83367070e23f137c1cda9a44399d59777c720f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 026/118] fix: the !else of an !ifdef or !ifndef was active
 even when the condition was met

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c4a8a48..a5529d6 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -441,14 +441,16 @@ class BaseParser(object):
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] != self._MacroNotDefinedValue))
+            result = tokens[1] != self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!ifndef":
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] == self._MacroNotDefinedValue))
+            result = tokens[1] == self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!else":
-- 
2.43.0


From fef7d94933522b310d75e7290c315628d4d025d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 027/118] fix: relational operators and NOT IN did not bind
 tighter than AND and OR in conditionals

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a5529d6..c56c0b6 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -717,6 +717,10 @@ class BaseParser(object):
             return 100
         if token == "NOT":  # not is the lowest
             return -2
+        if token.startswith("!+"):
+            token = token[2:]
+        if token in ["<", "<=", ">", ">="]:
+            return 2
         if token == "IN" or token == "==" or token == "!=":
             return 1
         return 0
-- 
2.43.0


From 2f601809618a01dd3456af11e8bdb0818d2a1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 028/118] fix: conditionals with NOT after another operator
 were refused

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c56c0b6..3991db5 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -674,7 +674,8 @@ class BaseParser(object):
             elif not cls._IsOperator(token):
                 expression.append(token)
             # If the stack is empty or contains a left parenthesis on top, push the incoming operator onto the stack.
-            elif len(stack) == 0 or stack[-1] == "(":
+            # NOT is a prefix operator: the operators before it are still waiting for what it produces.
+            elif len(stack) == 0 or stack[-1] == "(" or token == "NOT":
                 stack.append(token)
             # If the incoming symbol has higher precedence than the top of the stack, push it on the stack.
             elif len(stack) == 0 or cls._GetOperatorPrecedence(token) > cls._GetOperatorPrecedence(stack[-1]):
-- 
2.43.0


From 458fa3cc141695c3c0f3a97c10b0f64a0440490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 029/118] fix: comparing a number with the result of a
 sub-expression raised AttributeError

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 3991db5..93730da 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -245,7 +245,7 @@ class BaseParser(object):
 
         # check to make sure we only have digits from here on out
         if (isinstance(value, str) and value.upper() in ["TRUE", "FALSE"]) or (
-            isinstance(value, str) and value2.upper() in ["TRUE", "FALSE"]
+            isinstance(value2, str) and value2.upper() in ["TRUE", "FALSE"]
         ):
             self.Logger.error(f"Invalid comparison: {value} {cond} {value2}")
             self.Logger.debug(f"Invalid comparison: {value} {cond} {value2}")
-- 
2.43.0


From 4e85115a7f11f314694ce24060523b787e99dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:51 +0000
Subject: [PATCH 030/118] fix: a macro value containing another macro reference
 moved the replacement of later macros

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 93730da..57508ba 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -359,8 +359,7 @@ class BaseParser(object):
         # first tokenize and look for tokens require special macro
         # handling without $.  This must be done first otherwise
         # both syntax options can not be supported.
-        result = line
-        tokens = result.split()
+        tokens = line.split()
 
         # Special handling for !ifdef and !ifndef. We don't want to truly replace the value, we just want
         # to know if it is defined or not. If we replace the value, that replacement could be an empty
@@ -381,26 +380,27 @@ class BaseParser(object):
             return " ".join(tokens)
 
         replace = len(tokens) > 1 and tokens[0].lower() in ["!if", "!elseif"]
-        # use line to avoid change by handling above
-        rep = line.count("$")
+        # The replaced text is not scanned again: a value may itself contain $(...).
+        result = ""
         index = 0
-        while rep > 0:
+        while True:
             start = line.find("$(", index)
             end = line.find(")", start)
+            if start == -1 or end == -1:
+                break
 
             token = line[start + 2 : end]
-            replacement_token = line[start : end + 1]
             self.Logger.debug("Token is %s" % token)
             v = self._FindReplacementForToken(token, replace)
-            if v is not None:
+            if v is None:
+                v = line[start : end + 1]
+            elif f"$({token})" in v:
                 # prevent circular variable replacement
-                if f"$({token})" in v:
-                    v = ""
-                result = result.replace(replacement_token, v, 1)
-
+                v = ""
+            result += line[index:start] + v
             index = end + 1
-            rep = rep - 1
 
+        result += line[index:]
         return result
 
     def ProcessConditional(self, text: str) -> bool:
-- 
2.43.0


From 0babfc675ed6ee6b75d34e7b315022184aa79793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:11 +0000
Subject: [PATCH 031/118] fix: text after a GUID was ignored or raised
 ValueError instead of being refused

---
 edk2toollib/uefi/edk2/parsers/guid_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/guid_parser.py b/edk2toollib/uefi/edk2/parsers/guid_parser.py
index 6e05729..e2299c1 100644
--- a/edk2toollib/uefi/edk2/parsers/guid_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/guid_parser.py
@@ -54,8 +54,8 @@ class GuidParser:
           (bool): True if in C format. Otherwise False
 
         """
-        guidstring = guidstring.strip()
-        return cls.GuidCFormatRegEx.match(guidstring)
+        guidstring = guidstring.strip().rstrip("; ")
+        return cls.GuidCFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def is_guid_in_reg_format(cls: "GuidParser", guidstring: str) -> bool:
@@ -68,7 +68,7 @@ class GuidParser:
           (bool): True if in Registry format. Otherwise False
         """
         guidstring = guidstring.strip().strip("} {")
-        return cls.GuidRegFormatRegEx.match(guidstring)
+        return cls.GuidRegFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def reg_guid_from_c_format(cls: "GuidParser", guidstring: str) -> str:
-- 
2.43.0


From 45f13d97b4e604e015cf6651e01489150bbb5fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:11 +0000
Subject: [PATCH 032/118] fix: ParseGuid refused numbers with an upper-case 0X
 prefix

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 57508ba..5b46f8d 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -774,58 +774,58 @@ class BaseParser(object):
             raise RuntimeError(
                 f"Invalid GUID found {line}. We are missing some parts since we only found: {len(entries)}"
             )
-        gu = entries[0].lstrip(" 0").lstrip("x").strip()
+        gu = entries[0].lstrip(" 0").lstrip("xX").strip()
         # pad front until 8 chars
         while len(gu) < 8:
             gu = "0" + gu
 
-        gut = entries[1].lstrip(" 0").lstrip("x").strip()
+        gut = entries[1].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 4:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[2].lstrip(" 0").lstrip("x").strip()
+        gut = entries[2].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 4:
             gut = "0" + gut
         gu = gu + "-" + gut
 
         # strip off extra {
-        gut = entries[3].lstrip(" { 0").lstrip("x").strip()
+        gut = entries[3].lstrip(" { 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[4].lstrip(" 0").lstrip("x").strip()
+        gut = entries[4].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[5].lstrip(" 0").lstrip("x").strip()
+        gut = entries[5].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[6].lstrip(" 0").lstrip("x").strip()
+        gut = entries[6].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[7].lstrip(" 0").lstrip("x").strip()
+        gut = entries[7].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[8].lstrip(" 0").lstrip("x").strip()
+        gut = entries[8].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[9].lstrip(" 0").lstrip("x").strip()
+        gut = entries[9].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[10].split()[0].lstrip(" 0").lstrip("x").rstrip(" } ").strip()
+        gut = entries[10].split()[0].lstrip(" 0").lstrip("xX").rstrip(" } ").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
-- 
2.43.0


From f9181176bba56ee7971d493596e6521c2a4139e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 033/118] fix: policy strings with characters outside the BMP
 could not be read back

---
 edk2toollib/windows/policy/firmware_policy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4f1b473..1bb5a7d 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -368,9 +368,10 @@ class PolicyString:
         if fsOffset:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
-        LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = fs.read(StringLength)
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     @classmethod
@@ -386,9 +387,10 @@ class PolicyString:
         """
         StringLength = struct.unpack_from(cls.StringLengthFormat, b, bOffset)[0]
         bOffset += struct.calcsize(cls.StringLengthFormat)
-        LocalString = bytes.decode(b[bOffset : bOffset + StringLength], encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = b[bOffset : bOffset + StringLength]
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     def Print(self, prefix: str = "") -> None:
-- 
2.43.0


From 58a18b6d7e8a1121c7bc5f93ebba3be5953c1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 034/118] fix: an explicit stream offset of 0 was ignored when
 reading policy values

---
 edk2toollib/windows/policy/firmware_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 1bb5a7d..b3cbbc8 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -285,7 +285,7 @@ class PolicyValueType:
             fs (BinaryIO): filestream to read
             fsOffset (`int`, optional): offset to start reading from
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         valueType = struct.unpack(cls.StructFormat, fs.read(cls.StructSize))[0]
         return cls(valueType)
@@ -365,7 +365,7 @@ class PolicyString:
         Raises:
             (Exception): string length mismatch
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
         StringBytes = fs.read(StringLength)
@@ -447,7 +447,7 @@ class PolicyValue:
         Raises:
             (Exception): if STRICT is True, unsupported PolicyValueType
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         else:
             fsOffset = fs.tell()
-- 
2.43.0


From 93a2ac06c43175a19827b592d659596bc1513fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:38 +0000
Subject: [PATCH 035/118] fix: equal policy rules compared unequal, so AddRule
 added them again

---
 edk2toollib/windows/policy/firmware_policy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index b3cbbc8..cdfa0f6 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -301,6 +301,10 @@ class PolicyValueType:
         valueType = struct.unpack_from(cls.StructFormat, b, bOffset)[0]
         return cls(valueType)
 
+    def __eq__(self, other: "PolicyValueType") -> bool:
+        """Types are equal when their values are."""
+        return isinstance(other, PolicyValueType) and self.vt == other.vt
+
     def Print(self, prefix: str = "") -> None:
         """Prints the contents of the Policy String Type.
 
@@ -393,6 +397,10 @@ class PolicyString:
         LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
+    def __eq__(self, other: "PolicyString") -> bool:
+        """Policy strings are equal when their text is."""
+        return isinstance(other, PolicyString) and self.String == other.String
+
     def Print(self, prefix: str = "") -> None:
         """Prints the contents of the Policy String.
 
@@ -493,6 +501,10 @@ class PolicyValue:
         """Returns the value type."""
         return self.valueType
 
+    def __eq__(self, other: "PolicyValue") -> bool:
+        """Policy values are equal when their type and value are."""
+        return isinstance(other, PolicyValue) and self.valueType == other.valueType and self.value == other.value
+
     def Print(self, prefix: str = "") -> None:
         """Prints the contents of the object.
 
-- 
2.43.0


From 8eb804e188299a4baaf6a5ebcbe31522f94d3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 036/118] fix: writing a BMP image with padding before its
 pixel data raised TypeError

---
 edk2toollib/uefi/bmp_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 70bdae1..565d2f8 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -142,7 +142,7 @@ class BmpObject(object):
             self.ColorMapList = []
         else:
             self.ImageData = None
-            self.Padding = None
+            self._Padding = None
             self._PaddingLength = 0
             self.ColorMapList = []
             self.PopulateFromFileStream(filestream)
@@ -331,7 +331,7 @@ class BmpObject(object):
 
         # padding
         if self._PaddingLength > 0:
-            fs.write(self.Padding)
+            fs.write(self._Padding)
 
         # Pixel data
         if self.ImageData:
-- 
2.43.0


From 48201a17e4ed1a3decd8a2b0dcbed17c5ee24af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:46 +0000
Subject: [PATCH 037/118] fix: printing a BMP color map raised AttributeError

---
 edk2toollib/uefi/bmp_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 565d2f8..6b0b98f 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -71,7 +71,7 @@ class BmpColorMap(object):
 
     def Print(self) -> None:
         """Logs the object."""
-        logger = logging.get(__name__)
+        logger = logging.getLogger(__name__)
         logger.info("BMP Color Map")
         logger.info("  Blue:           0x%X" % self.Blue)
         logger.info("  Green:          0x%X" % self.Green)
-- 
2.43.0


From ce49a45e859556b36e146cbfa217a64cb2da9f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 038/118] fix: a new BmpObject could neither be created nor
 written

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 6b0b98f..910b588 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -118,13 +118,13 @@ class BmpObject(object):
         """Inits an empty object or loads from filestream."""
         self.logger = logging.getLogger(__name__)
         if filestream is None:
-            self.CharB = "B"
-            self.CharM = "M"
-            self.Size = BmpObject.STATIC_STRUCT_SIZE
+            self.CharB = b"B"
+            self.CharM = b"M"
+            self.Size = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.Rsvd16_1 = 0
             self.Rsvd16_2 = 0
-            self.ImageOffset = BmpObject.STATIC_STRUCT_SIZE
-            self.HeaderSize = BmpObject.STATIC_STRUCT_SIZE
+            self.ImageOffset = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
+            self.HeaderSize = BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.PixelWidth = 0
             self.PixelHeight = 0
             self.Planes = 1
-- 
2.43.0


From e75b52200c038f76b7559e548e25886f57357684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 039/118] fix: loading a BMP image into a used object kept the
 earlier colors and padding

---
 edk2toollib/uefi/bmp_object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 910b588..0a27c56 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -184,6 +184,10 @@ class BmpObject(object):
         if (end - offset) < BmpObject.STATIC_FILE_HEADER_SIZE:  # size of the static file header data
             raise Exception("Invalid file stream size.  %d < File Header Size" % (end - offset))
 
+        self.ColorMapList = []
+        self._Padding = None
+        self._PaddingLength = 0
+
         # read the BMP File header
         self.CharB = struct.unpack("=c", fs.read(1))[0]
         self.CharM = struct.unpack("=c", fs.read(1))[0]
-- 
2.43.0


From 98e161893e45556e6e249c5afc55d22306229755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:01 +0000
Subject: [PATCH 040/118] fix: BMP files whose Size or ImageOffset does not fit
 the file were accepted

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 0a27c56..b3bde87 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -215,13 +215,13 @@ class BmpObject(object):
         if self.Size < self.HeaderSize:
             raise Exception("Size can't be smaller than HeaderSize")
 
-        if (end - fs.tell()) < (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE):
-            raise Exception(
-                "Invalid file stream size (Size) 0x%X Less Than 0x%X"
-                % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
-            )
+        if (end - offset) < self.Size:
+            raise Exception("Invalid file stream size (Size) 0x%X Less Than 0x%X" % ((end - offset), self.Size))
 
         StartOfImageData = offset + self.ImageOffset
+        if StartOfImageData < fs.tell() or self.ImageOffset > self.Size:
+            raise Exception("ImageOffset 0x%X is not between the headers and the end of the image" % self.ImageOffset)
+
         if fs.tell() < StartOfImageData:
             # Handle any color maps
             if self.ExpectedColorMapEntires() > 0:
-- 
2.43.0


From 58ade53a0465601ff502d1bce61c3674a1b3d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:51 +0000
Subject: [PATCH 041/118] fix: INF lines that only contain the word DEFINE were
 taken for definitions

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 6adf8e7..b01259e 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -51,6 +51,7 @@ class InfParser(HashFileParser):
     NOTE: Key / Value pairs determined by lines that contain a single =
     """
 
+    DEFINE_REGEX = re.compile(r"\s*DEFINE\s+([^=]*)=(.*)")
     SECTION_REGEX = re.compile(r"\[(.*)\]")
     SECTION_LIBRARY = re.compile(r"libraryclasses(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
     SECTION_SOURCE = re.compile(r"sources(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
@@ -120,8 +121,9 @@ class InfParser(HashFileParser):
 
             sline = self.ReplaceVariables(sline)
 
-            if sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            define = self.DEFINE_REGEX.match(sline)
+            if define:
+                tokens = define.groups()
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
@@ -254,8 +256,9 @@ class InfParser(HashFileParser):
             if line.strip().startswith("#"):
                 continue
 
-            if line.strip().startswith("DEFINE"):
-                tokens = line.strip().replace("DEFINE", "").split("=", 1)
+            define = self.DEFINE_REGEX.match(line)
+            if define:
+                tokens = define.groups()
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From 7b0ae5d559760e7d5ea47832e3514585fcd821e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 042/118] fix: the | of an INF library or source line was kept
 in its scoped name

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index b01259e..4fd609c 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -287,15 +287,15 @@ class InfParser(HashFileParser):
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
                     if arch in self.ScopedLibraryDict:
-                        self.ScopedLibraryDict[arch].append(line.split()[0].strip())
+                        self.ScopedLibraryDict[arch].append(line.partition("|")[0].strip())
                     else:
-                        self.ScopedLibraryDict[arch] = [line.split()[0].strip()]
+                        self.ScopedLibraryDict[arch] = [line.partition("|")[0].strip()]
 
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
-                    src = line.split()[0].strip().rstrip("|")
+                    src = line.partition("|")[0].strip()
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
                     else:
-- 
2.43.0


From ad9deebb00d1fbeb14b4be3fe57ae012df81e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 043/118] fix: INF file names that look like section headers,
 and indented headers, changed the scope of entries

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 36 +++++++++++----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 4fd609c..af0b25f 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -263,24 +263,26 @@ class InfParser(HashFileParser):
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
 
-            line = self.ReplaceVariables(line)
-
-            match = self.SECTION_LIBRARY.findall(line)
-            if match:
-                current_section = "LibraryClasses"
-                arch_list = match
-                continue
-            match = self.SECTION_SOURCE.findall(line)
-            if match:
-                current_section = "Sources"
-                arch_list = match
-                continue
+            line = self.ReplaceVariables(line).strip()
+
+            # Only lines that start a section are headers; file names may look like one
+            if line.startswith("["):
+                match = self.SECTION_LIBRARY.findall(line)
+                if match:
+                    current_section = "LibraryClasses"
+                    arch_list = match
+                    continue
+                match = self.SECTION_SOURCE.findall(line)
+                if match:
+                    current_section = "Sources"
+                    arch_list = match
+                    continue
 
-            # Catch all others
-            match = self.SECTION_REGEX.match(line)
-            if match:
-                current_section = match.group(1)
-                arch_list = []
+                # Catch all others
+                match = self.SECTION_REGEX.match(line)
+                if match:
+                    current_section = match.group(1)
+                    arch_list = []
 
             # Handle lines when we are in a library section
             if current_section == "LibraryClasses":
-- 
2.43.0


From 44552bfe4bea91abc5f21537f6ae274d9bfb73ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 044/118] fix: a repeated library instance in a DSC dropped the
 other instances of its class

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ff6102d..57e4d76 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -354,10 +354,10 @@ class DscParser(HashFileParser):
                 value = instance.strip()
                 if os.path.isabs(value):
                     value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value)
-                if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
-                    self.ScopedLibraryDict[key].insert(0, value)
-                else:
-                    self.ScopedLibraryDict[key] = [value]
+                values = self.ScopedLibraryDict.setdefault(key, [])
+                if value in values:
+                    values.remove(value)
+                values.insert(0, value)
 
         return
 
-- 
2.43.0


From 4712e8b2cdd39e802d17688bbdb2c83bc9f5e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 045/118] fix: DSC PCDs were listed twice and PCDs of inactive
 lines were listed

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 57e4d76..dfadc56 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -484,6 +484,7 @@ class DscParser(HashFileParser):
         # expand all the lines and include other files
         file_lines = f.readlines()
         self.__ProcessDefines(file_lines)
+        self.Pcds = []
         self.PcdValueDict = {}
         # reset the parser state before processing more
         self.ResetParserState()
-- 
2.43.0


From 36a09d3f425ce7fdc460e5d93ef406ebdc645b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:20 +0000
Subject: [PATCH 046/118] fix: a DSC definition line without = raised TypeError

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index dfadc56..a47c1a8 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -251,9 +251,7 @@ class DscParser(HashFileParser):
                 # iterate through the existed LocalVars and try to resolve the symbols
                 for var in self.LocalVars:
                     self.LocalVars[var] = self.ReplaceVariables(self.LocalVars[var])
-                return (line_resolved, [])
-        else:
-            return (line_resolved, [])
+        return (line_resolved, [])
 
     def ParseInfPathLib(self, line: str) -> str:
         """Parses a line with an INF path Lib."""
-- 
2.43.0


From 5aaca870a62af44a39c92c162af289b90044f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 047/118] fix: a PCD in a DSC condition also replaced the start
 of longer PCD names

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index a47c1a8..6bac17e 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -64,9 +64,7 @@ class DscParser(HashFileParser):
     def ReplacePcds(self, line: str) -> str:
         """Attempts to replace a token if it is a PCD token."""
         if line.startswith("!if"):
-            for token in re.split(r"[^\w\.]", line):
-                if token in self.PcdValueDict:
-                    line = line.replace(token, self.PcdValueDict[token])
+            line = re.sub(r"[\w\.]+", lambda token: self.PcdValueDict.get(token.group(), token.group()), line)
         return line
 
     def __ParseLine(self, Line: str, file_name: Optional[str] = None, lineno: int = None) -> tuple:
-- 
2.43.0


From f62b8af4741c26afd7fe58cf6282cf9b4e75c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:27 +0000
Subject: [PATCH 048/118] fix: after a DSC !include, later includes were looked
 up next to the included file

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 6bac17e..7f85792 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -277,7 +277,10 @@ class DscParser(HashFileParser):
         """
         if len(lines) == 0:
             return
+        target_file = self.TargetFilePath
         for index in range(len(lines)):
+            # an include changes the target file while its lines are processed
+            self.TargetFilePath = target_file
             # we try here so that we can catch exceptions from individual lines
             try:
                 raw_line = lines[index]
@@ -304,7 +307,10 @@ class DscParser(HashFileParser):
         """
         if len(lines) == 0:
             return
+        target_file = self.TargetFilePath
         for raw_line in lines:
+            # an include changes the target file while its lines are processed
+            self.TargetFilePath = target_file
             # we want to catch exceptions here since we are doing includes as we potentially might blow up
             # we want to catch on a line by line basis
             try:
-- 
2.43.0


From 057afaea9d692cf9dc8146b2f95a90b22b5648ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 049/118] fix: an FDF with a long run of comments or inactive
 lines raised RecursionError

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 32 ++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 90075fa..c725b6c 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -44,27 +44,27 @@ class FdfParser(HashFileParser):
         Performs manipulation on the line like replacing variables,
         processing conditionals, etc.
         """
-        if len(self.Lines) == 0:
-            return None
+        while len(self.Lines) > 0:
+            line = self.Lines.pop()
+            self.CurrentLine += 1
+            sline = self.StripComment(line)
 
-        line = self.Lines.pop()
-        self.CurrentLine += 1
-        sline = self.StripComment(line)
+            if sline is None or len(sline) < 1:
+                continue
 
-        if sline is None or len(sline) < 1:
-            return self.GetNextLine()
+            sline = self.ReplaceVariables(sline)
+            if self.ProcessConditional(sline):
+                # was a conditional so skip
+                continue
+            if not self.InActiveCode():
+                continue
 
-        sline = self.ReplaceVariables(sline)
-        if self.ProcessConditional(sline):
-            # was a conditional so skip
-            return self.GetNextLine()
-        if not self.InActiveCode():
-            return self.GetNextLine()
+            self._BracketCount += sline.count("{")
+            self._BracketCount -= sline.count("}")
 
-        self._BracketCount += sline.count("{")
-        self._BracketCount -= sline.count("}")
+            return sline
 
-        return sline
+        return None
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
-- 
2.43.0


From 7973224c7fe9b6c56467eceba3236efe7dacfdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 050/118] fix: the word DEFINE was removed from inside FDF
 definitions, and one without = raised IndexError

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index c725b6c..ac610e0 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -8,6 +8,7 @@
 """Code to help parse EDK2 Fdf files."""
 
 import os
+import re
 
 from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
 
@@ -129,14 +130,14 @@ class FdfParser(HashFileParser):
 
             if InDefinesSection:
                 if sline.count("=") == 1:
-                    tokens = sline.replace("DEFINE", "").split("=", 1)
+                    tokens = re.sub(r"^DEFINE\s+", "", sline).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
             # defining a local variable that is removed when entering a new section
-            elif sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            elif re.match(r"DEFINE\s+[^=\s]+\s*=", sline.strip()):
+                tokens = re.sub(r"^DEFINE\s+", "", sline.strip()).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From 06561f0ffb10fbdf301114766fec1a94eef5c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 051/118] fix: an FDF FmpPayload section was not recognized

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index ac610e0..8b19e8f 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -221,7 +221,7 @@ class FdfParser(HashFileParser):
             elif sline.strip().lower().startswith("[capsule."):
                 InCapsuleSection = True
 
-            elif sline.strip().lower().startswith("[fmpPayload."):
+            elif sline.strip().lower().startswith("[fmppayload."):
                 InFmpPayloadSection = True
 
             elif sline.strip().lower().startswith("[rule."):
-- 
2.43.0


From 924c1b8ed976854dd97ba303eb5708812c662a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 052/118] fix: an FD with the name of an earlier FV was not
 recorded

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 8b19e8f..d4e5dfc 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -144,7 +144,7 @@ class FdfParser(HashFileParser):
 
             elif InFdSection:
                 for section in self.CurrentSection:
-                    if section not in self.FVs:
+                    if section not in self.FDs:
                         self.FDs[section] = {"Dict": {}}
                         # TODO finish the FD section
                 continue
-- 
2.43.0


From d4ea44d44d02e755265b1bc1772642304e09d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 053/118] fix: a line with a trailing comment kept its leading
 blanks, so indented FDF statements were skipped

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 5b46f8d..ad3218e 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -884,7 +884,7 @@ class HashFileParser(BaseParser):
 
             result.append(char)
 
-        return "".join(result).rstrip()
+        return "".join(result).strip()
 
     def ParseNewSection(self, line: str) -> tuple[bool, str]:
         """Parses a new section line.
-- 
2.43.0


From dfbb0ffdc4dbd838c9ef053c2876302356a89809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 054/118] fix: GetContainingModules raised ValueError when a
 package path lies below two other roots

---
 edk2toollib/uefi/edk2/path_utilities.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index c31c385..b536c53 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -344,16 +344,11 @@ class Edk2Path(object):
         all_root_paths = self._package_path_list + [self._workspace_path]
 
         # For each root path, find the maximum allowed root in its hierarchy.
-        maximum_root_paths = all_root_paths
-        for root_path in maximum_root_paths:
-            for other_root_path in maximum_root_paths[:]:
-                if root_path == other_root_path:
-                    continue
-                if root_path.is_relative_to(other_root_path):
-                    if len(root_path.parts) > len(other_root_path.parts):
-                        maximum_root_paths.remove(root_path)
-                    else:
-                        maximum_root_paths.remove(other_root_path)
+        maximum_root_paths = [
+            root_path
+            for root_path in all_root_paths
+            if not any(root_path != other and root_path.is_relative_to(other) for other in all_root_paths)
+        ]
 
         # Verify the file path is within a valid workspace or package path
         # directory.
-- 
2.43.0


From 965cc35bf35af16d216f0ef869d0a8232d5cbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 055/118] fix: GetContainingModules never returned when given
 the workspace or a package path itself

---
 edk2toollib/uefi/edk2/path_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index b536c53..ccccb19 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -385,7 +385,7 @@ class Edk2Path(object):
             # neither of which are a module directory, once that point is
             # reached, all possible module candidates are exhausted.
             current_dir = input_path.parent
-            while current_dir not in maximum_root_paths:
+            while current_dir != path and current_dir.is_relative_to(path):
                 if current_dir.is_dir():
                     current_dir_inf_files = [
                         str(f) for f in current_dir.iterdir() if f.is_file() and f.suffix.lower() == ".inf"
-- 
2.43.0


From 93844a725cbfce6905c2d4dddacca99f79db79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 056/118] fix: setting a UEFI variable whose name has shell
 characters ran another command

---
 edk2toollib/os/uefivariablesupport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index eb4e194..fc09d01 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -21,6 +21,7 @@ This module provides:
 
 import logging
 import os
+import shlex
 import struct
 import uuid
 from ctypes import create_string_buffer
@@ -301,7 +302,7 @@ class UefiVariable(object):
 
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
-                os.system("sudo chattr -i " + path)
+                os.system("sudo chattr -i " + shlex.quote(path))
 
             with open(path, "wb") as fd:
                 # var data is attribute (UINT32) followed by data
-- 
2.43.0


From 568b7bce8c9af15960442dde544113254a82914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 057/118] fix: a JUnit report with control characters (such as
 colors) in a message was not valid XML

---
 edk2toollib/log/junit_report_format.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 26b1a95..bbfc2a7 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -15,9 +15,18 @@ Used to support CI/CD and exporting test results for other tools.
 This does test report generation without being a test runner.
 """
 
+import re
 import time
-from typing import IO
-from xml.sax.saxutils import escape
+from typing import IO, Optional
+from xml.sax import saxutils
+
+# Characters that XML 1.0 cannot hold, not even escaped.
+INVALID_XML = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
+def escape(text: str, entities: Optional[dict] = None) -> str:
+    """Escapes text for XML and replaces the characters that XML cannot hold."""
+    return saxutils.escape(INVALID_XML.sub("\ufffd", text), entities or {})
 
 
 class JunitReportError(object):
-- 
2.43.0


From 5170d2efa411085a644f40cf65e2ad35be97792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 058/118] fix: the ASCII column of a partial hexdump line was
 misplaced without offset or separator

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 6d72ca0..c44364d 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -543,7 +543,7 @@ def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.st
             while index % 16 != 15:
                 outfs.write("     ")
                 if index % 16 == 7:  # account for the - symbol in the hex dump
-                    if include_offset:
+                    if include_hex_sep:
                         outfs.write("  ")
                 index += 1
             # print the ascii partial line
-- 
2.43.0


From becbcf29d55b979d7c9347a0217897755e15f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 059/118] fix: PrintByteList raised TypeError when given an
 output stream

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index c44364d..fbbe67d 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -474,7 +474,7 @@ def PrintByteList(
     **kwargs: Any,  #
 ) -> None:
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer."""
-    outfs = kwargs.get("outfs", sys.stdout)
+    outfs = kwargs.pop("outfs", sys.stdout)
     kwargs["include_ascii"] = IncludeAscii
     kwargs["include_hex_sep"] = IncludeHexSep
     kwargs["include_offset"] = IncludeOffset
-- 
2.43.0


From 0d9556eef834edef1413f58aef28d2337bcc3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 060/118] fix: Windows SDK versions that differ in the last
 part were taken for equal

---
 edk2toollib/windows/locate_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0e05159..b0e5355 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -317,9 +317,10 @@ def _CompareWindowVersions(a: str, b: str) -> int:
         return -1
     if a_periods != 3 and b_periods != 3:
         return 0
-    a_parts = str(a).split(".")
-    b_parts = str(b).split(".")
-    for i in range(3):
+    # WindowsSDKVersion ends with a backslash
+    a_parts = str(a).rstrip("\\").split(".")
+    b_parts = str(b).rstrip("\\").split(".")
+    for i in range(4):
         a_p = int(a_parts[i])
         b_p = int(b_parts[i])
         if a_p > b_p:
-- 
2.43.0


From b25bce4d2afb743618a9bf5497151fb47f64d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 061/118] fix: a newer SDK found after the configured one
 replaced it in FindToolInWinSdk

---
 edk2toollib/windows/locate_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index b0e5355..c08f2a1 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -400,6 +400,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     windows_ver_regex = re.compile(r"\d+\.\d+\.\d+\.\d+")
     top_version_so_far = -1
     top_match = None
+    top_is_current = False
     # Look at in match in the tree
     for match in glob.iglob(search_pattern, recursive=True):
         match_file = match[match_offset:]  # strip off the root
@@ -416,9 +417,11 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
                 top_ver_match = version
         # if we have a highest version or one that matches our current from environment variables?
         is_current_sdk_version = _CompareWindowVersions(top_ver_match, sdk_ver) == 0
-        if _CompareWindowVersions(top_ver_match, top_version_so_far) > 0 or is_current_sdk_version:
+        is_newer = _CompareWindowVersions(top_ver_match, top_version_so_far) > 0
+        if is_current_sdk_version or (is_newer and not top_is_current):
             top_version_so_far = top_ver_match
             top_match = match
+            top_is_current = is_current_sdk_version
     if top_match is None:
         logging.critical("We weren't able to find {}".format(tool))
     return top_match
-- 
2.43.0


From 62d485f82cbd3093cb6922ba3f3485a3299fa80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 062/118] fix: the gitignore patterns **, /**, **/ and a lone !
 raised IndexError

---
 edk2toollib/gitignore_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 513e407..9c6de55 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -111,9 +111,13 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     pattern = re.sub(r"\*{2,}([^/])", r"*\1", pattern)
 
     # Special-casing '/', which doesn't match any files or directories
-    if pattern.rstrip() == "/":
+    if pattern.rstrip() in ("", "/"):
         return
 
+    # Double asterisks with nothing else match everything
+    if pattern.strip("/") == "**":
+        pattern = "*/" if pattern[-1] == "/" else "*"
+
     directory_only = pattern[-1] == "/"
     # A slash is a sign that we're tied to the base_path of our rule
     # set.
-- 
2.43.0


From 569249dd21558a73dfcd43fc4adfe0f49ba35b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 063/118] fix: a gitignore pattern with trailing spaces after
 its slash, or one character long, was taken literally

---
 edk2toollib/gitignore_parser.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 9c6de55..c14824b 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -110,6 +110,19 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     pattern = re.sub(r"([^/])\*{2,}", r"\1*", pattern)
     pattern = re.sub(r"\*{2,}([^/])", r"*\1", pattern)
 
+    # trailing spaces are ignored unless they are escaped with a backslash
+    i = len(pattern) - 1
+    striptrailingspaces = True
+    while i > 0 and pattern[i] == " ":
+        if pattern[i - 1] == "\\":
+            pattern = pattern[: i - 1] + pattern[i:]
+            i = i - 1
+            striptrailingspaces = False
+        else:
+            if striptrailingspaces:
+                pattern = pattern[:i]
+        i = i - 1
+
     # Special-casing '/', which doesn't match any files or directories
     if pattern.rstrip() in ("", "/"):
         return
@@ -135,18 +148,6 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     # backslash in front, unescape it
     if pattern[0] == "\\" and pattern[1] in ("#", "!"):
         pattern = pattern[1:]
-    # trailing spaces are ignored unless they are escaped with a backslash
-    i = len(pattern) - 1
-    striptrailingspaces = True
-    while i > 1 and pattern[i] == " ":
-        if pattern[i - 1] == "\\":
-            pattern = pattern[: i - 1] + pattern[i:]
-            i = i - 1
-            striptrailingspaces = False
-        else:
-            if striptrailingspaces:
-                pattern = pattern[:i]
-        i = i - 1
     regex = fnmatch_pathname_to_regex(pattern, directory_only, negation, anchored=bool(anchored))
     return IgnoreRule(
         pattern=orig_pattern,
-- 
2.43.0


From e373e8f217928df3ac758ba3609002eefba05311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 064/118] fix: a backslash in a gitignore pattern did not
 escape the character after it

---
 edk2toollib/gitignore_parser.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index c14824b..f248457 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -105,26 +105,16 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
         pattern = pattern[1:]
     else:
         negation = False
+    # trailing spaces are ignored unless they are escaped with a backslash
+    while len(pattern) > 1 and pattern[-1] == " " and pattern[-2] != "\\":
+        pattern = pattern[:-1]
     # Multi-asterisks not surrounded by slashes (or at the start/end) should
     # be treated like single-asterisks.
     pattern = re.sub(r"([^/])\*{2,}", r"\1*", pattern)
     pattern = re.sub(r"\*{2,}([^/])", r"*\1", pattern)
 
-    # trailing spaces are ignored unless they are escaped with a backslash
-    i = len(pattern) - 1
-    striptrailingspaces = True
-    while i > 0 and pattern[i] == " ":
-        if pattern[i - 1] == "\\":
-            pattern = pattern[: i - 1] + pattern[i:]
-            i = i - 1
-            striptrailingspaces = False
-        else:
-            if striptrailingspaces:
-                pattern = pattern[:i]
-        i = i - 1
-
     # Special-casing '/', which doesn't match any files or directories
-    if pattern.rstrip() in ("", "/"):
+    if not pattern.strip(" /"):
         return
 
     # Double asterisks with nothing else match everything
@@ -144,10 +134,6 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
         pattern = pattern[1:]
     if pattern[-1] == "/":
         pattern = pattern[:-1]
-    # patterns with leading hashes or exclamation marks are escaped with a
-    # backslash in front, unescape it
-    if pattern[0] == "\\" and pattern[1] in ("#", "!"):
-        pattern = pattern[1:]
     regex = fnmatch_pathname_to_regex(pattern, directory_only, negation, anchored=bool(anchored))
     return IgnoreRule(
         pattern=orig_pattern,
@@ -265,6 +251,9 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
                 elif stuff[0] == "^":
                     stuff = "".join("\\" + stuff)
                 res.append("[{}]".format(stuff))
+        elif c == "\\" and i < n:
+            res.append(re.escape(pattern[i]))
+            i += 1
         else:
             res.append(re.escape(c))
     if anchored:
-- 
2.43.0


From 398526abc9df90efd9870b3f36d74dccf3d3e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 065/118] fix: gitignore character classes matched the path
 separator and raised on [/], [!/] and reversed ranges

---
 edk2toollib/gitignore_parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index f248457..1ccf391 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -246,11 +246,20 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
             else:
                 stuff = pattern[i:j].replace("\\", "\\\\").replace("/", "")
                 i = j + 1
-                if stuff[0] == "!":
+                if stuff == "!":
+                    res.append(nonsep)
+                    continue
+                if stuff.startswith("!"):
                     stuff = "".join(["^", stuff[1:]])
-                elif stuff[0] == "^":
+                elif stuff.startswith("^"):
                     stuff = "".join("\\" + stuff)
-                res.append("[{}]".format(stuff))
+                # a class never matches the path separator
+                cls = "(?!{})[{}]".format(seps_group, stuff)
+                try:
+                    re.compile(cls)
+                except re.error:
+                    cls = "(?!)"  # an empty class or range matches nothing
+                res.append(cls)
         elif c == "\\" and i < n:
             res.append(re.escape(pattern[i]))
             i += 1
-- 
2.43.0


From b23e4290a61040270c9a2f555804bda7cda9d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 066/118] fix: a negated gitignore file pattern did not apply
 to a folder given with a trailing slash

---
 edk2toollib/gitignore_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 1ccf391..15abbab 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -188,7 +188,7 @@ class IgnoreRule(collections.namedtuple("IgnoreRule_", IGNORE_RULE_FIELDS)):
             rel_path += "." * _count_trailing_symbol(".", abs_path)
         # Path() strips the trailing slash, so we need to preserve it
         # in case of directory-only negation
-        if self.negation and isinstance(abs_path, str) and abs_path[-1] == "/":
+        if self.negation and self.directory_only and isinstance(abs_path, str) and abs_path[-1:] == "/":
             rel_path += "/"
         if rel_path.startswith("./"):
             rel_path = rel_path[2:]
-- 
2.43.0


From 8053652f67a1218bd5ff2b6bbaae1cf6ade7b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 067/118] fix: gitignore rules did not apply below a base
 directory given through a symbolic link

---
 edk2toollib/gitignore_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 15abbab..dfcf006 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -70,7 +70,7 @@ def parse_gitignore_lines(lines: list, full_path: str, base_dir: str) -> Callabl
     for line in lines:
         counter += 1
         line = line.rstrip("\n")
-        rule = rule_from_pattern(line, base_path=Path(base_dir).resolve(), source=(full_path, counter))
+        rule = rule_from_pattern(line, base_path=_normalize_path(base_dir), source=(full_path, counter))
         if rule:
             rules.append(rule)
     if not any(r.negation for r in rules):
@@ -91,7 +91,7 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     Because git allows for nested .gitignore files, a base_path value
     is required for correct behavior. The base path should be absolute.
     """
-    if base_path and base_path != Path(base_path).resolve():
+    if base_path and base_path != _normalize_path(base_path):
         raise ValueError("base_path must be absolute")
     # Store the exact pattern for our repr and string functions
     orig_pattern = pattern
-- 
2.43.0


From 4ed7869127053a0bedb351b737ec64470ce451ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 068/118] fix: a record whose message could not be formatted
 was left colored for the other handlers

---
 edk2toollib/log/ansi_handler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 93c7b3d..c365ff0 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -231,11 +231,11 @@ class ColoredFormatter(logging.Formatter):
             levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
             record.levelname = levelname_color
 
-        result = logging.Formatter.format(self, record)
-
-        record.levelname = levelname
-        record.msg = org_message
-        return result
+        try:
+            return logging.Formatter.format(self, record)
+        finally:
+            record.levelname = levelname
+            record.msg = org_message
 
 
 def get_ansi_string(color: AnsiColor = AnsiColor.RESET) -> str:
-- 
2.43.0


From 9fedb523687838755df86cad6c9e0fb3dfbe9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 069/118] fix: the log handlers ignored the record a filter put
 in place of another

---
 edk2toollib/log/ansi_handler.py   | 2 ++
 edk2toollib/log/file_handler.py   | 2 ++
 edk2toollib/log/string_handler.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index c365ff0..14b2720 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -297,6 +297,8 @@ class ColoredStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/file_handler.py b/edk2toollib/log/file_handler.py
index e09d9ca..1a4bdc2 100644
--- a/edk2toollib/log/file_handler.py
+++ b/edk2toollib/log/file_handler.py
@@ -26,6 +26,8 @@ class FileHandler(logging.FileHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index a4f3941..367e008 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -31,6 +31,8 @@ class StringStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
-- 
2.43.0


From 4c533723828049abe2860d3b83418e5b4a69dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 070/118] fix: a section added to a DSC model was not seen when
 iterating over the sections

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f9114e5..10b3607 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -90,7 +90,7 @@ class dsc_dict(collections.OrderedDict):
         if key in self:
             # NEXTVER merge these together?
             raise ValueError(f"Cannot add section {key} since it already exists")
-        dict.__setitem__(self, key, val)
+        super().__setitem__(key, val)
 
 
 class dsc:
-- 
2.43.0


From c2010960e7f5273ff34f16bfb854821a69470054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 071/118] fix: DSC section types that share only architecture
 or module type compared equal

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 10b3607..f77e414 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -209,7 +209,7 @@ class dsc_section_type:
             return False
         arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
         arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
-        return self.module_type == other.module_type or arch == arch2
+        return self.module_type == other.module_type and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -268,9 +268,9 @@ class dsc_buildoption_section_type(dsc_section_type):
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_buildoption_section_type:
             return False
-        if not (other.module_type == self.module_type and other.codebase == self.codebase):
-            return False
-        return other.module_type == self.module_type
+        arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
+        arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
+        return arch == arch2 and other.module_type == self.module_type and other.codebase == self.codebase
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From fb9556e5874d104ebb874b532c249fee8e16a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 072/118] fix: library classes that differ only in case
 compared equal but had different hashes

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f77e414..e4c83e4 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -524,7 +524,7 @@ class library_class:
         if self.libraryclass.lower() == "null":
             return hash(self.inf)
         else:
-            return hash(self.libraryclass)
+            return hash(self.libraryclass.lower())
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From 9eb666093c7d7286dc9fc49e7fb1f11fa90208a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 073/118] fix: a SKU that took the name of one SKU and the id
 of another was not added

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index e4c83e4..fb021bc 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -31,7 +31,7 @@ class dsc_set(set):
         """
         if len(self._allowed_classes) > 0 and type(item) not in self._allowed_classes:
             raise ValueError(f"Cannot add {type(item)} to restricted set: {self._allowed_classes}")
-        if item in self:
+        while item in self:  # a SKU may collide with one on its id and another on its name
             super().discard(item)
             # NEXTVER: get add the old_item to item
         super().add(item)
-- 
2.43.0


From 7d80df8b269df8c6ff8584483da73a619af073e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 074/118] fix: comparing DSC models ignored the libraries and
 the default stores

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index fb021bc..d216f63 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -155,6 +155,8 @@ class dsc:
             return False
         if other.components != self.components:
             return False
+        if other.libraries != self.libraries:
+            return False
         if other.library_classes != self.library_classes:
             return False
         if other.build_options != self.build_options:
@@ -163,6 +165,8 @@ class dsc:
             return False
         if other.defines != self.defines:
             return False
+        if other.default_stores != self.default_stores:
+            return False
         return True
 
 
-- 
2.43.0


From f739f1d0a78ac44f07e1dd71f9239ab3f7e2bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 075/118] fix: the representation of a component showed a class
 instead of its source

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index d216f63..b567038 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -419,7 +419,7 @@ class component:
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-        source = str(self.source_info) if source_info is not None else ""
+        source = str(self.source_info) if self.source_info is not None else ""
         return f"{self.inf} @ {source}"
 
 
-- 
2.43.0


From 03507eaa7a3a0647e78338098706782bba510cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 076/118] fix: DSC build option sections were written with a
 header that cannot be read back

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 72b7ad3..4a17b9a 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -71,9 +71,8 @@ class DscTranslator:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Then Build Options
-            print(obj.build_options.items())
             for header, x in obj.build_options.items():
-                lines.append(f"{depth_pad}[BuildOptions{header}]")
+                lines.append(f"{depth_pad}[BuildOptions.{header}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
         elif type(obj) is sku_id:
-- 
2.43.0


From 44f04453bcaa68c60e90e11b5da31871f9be2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 077/118] fix: a DSC build option that replaces the tool flags
 was written as one that appends

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 4a17b9a..94026f4 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -110,7 +110,7 @@ class DscTranslator:
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
             rep += "_".join((obj.target, obj.tagname, obj.arch, obj.tool_code, obj.attribute))
-            rep += f"= {obj.data}"
+            rep += f" == {obj.data}" if obj.replace else f" = {obj.data}"
             lines.append(rep)
         else:
             logging.warning(f"UNKNOWN OBJECT {obj}")
-- 
2.43.0


From 68a6051d8ee37e032caa6525e4f521e1703e1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 078/118] fix: the attributes of a variable PCD without a
 default were not written

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 94026f4..36f35a9 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -99,13 +99,14 @@ class DscTranslator:
 
         elif type(obj) is pcd_variable:
             pcd_name = f"{depth_pad}{obj.namespace}.{obj.name}|{obj.var_name}"
-            if obj.default is None:
+            if obj.default is None and len(obj.attributes) == 0:
                 lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}")
             elif len(obj.attributes) == 0:
                 lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{obj.default}")
             else:
                 attr = ", ".join(obj.attributes)
-                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{obj.default}|{attr}")
+                default = "" if obj.default is None else obj.default
+                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{default}|{attr}")
 
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
-- 
2.43.0


From 7ad58a0dcb9a5ba799e6fcf389e9fd96d65deb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 079/118] fix: the libraries and default stores of a DSC model
 were not written

---
 .../uefi/edk2/build_objects/dsc_translator.py    | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 36f35a9..bb2e500 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -11,9 +11,11 @@ import os
 from edk2toollib.uefi.edk2.build_objects.dsc import (
     build_option,
     component,
+    default_store,
     definition,
     dsc,
     dsc_set,
+    library,
     library_class,
     pcd,
     pcd_typed,
@@ -55,7 +57,15 @@ class DscTranslator:
             for x in obj.skus:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
-            # Third, library classes
+            # Then the default stores
+            if len(obj.default_stores) > 0:
+                lines.append(f"{depth_pad}[DefaultStores]")
+                lines += cls._GetDscLinesFromDscObj(obj.default_stores, depth)
+
+            # Third, libraries and library classes
+            for header, x in obj.libraries.items():
+                lines.append(f"{depth_pad}[Libraries{header}]")
+                lines += cls._GetDscLinesFromDscObj(x, depth)
             for header, x in obj.library_classes.items():
                 lines.append(f"{depth_pad}[LibraryClasses{header}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
@@ -77,6 +87,10 @@ class DscTranslator:
 
         elif type(obj) is sku_id:
             lines.append(f"{depth_pad}{obj.id}|{obj.name}|{obj.parent}")
+        elif type(obj) is default_store:
+            lines.append(f"{depth_pad}{obj.index}|{obj.value}")
+        elif type(obj) is library:
+            lines.append(f"{depth_pad}{obj.inf}")
         elif type(obj) is library_class:
             lines.append(f"{depth_pad}{obj.libraryclass}|{obj.inf}")
         elif type(obj) is definition:
-- 
2.43.0


From de9375ce2e3c6aa59a752311d1d964d0f390c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 080/118] fix: a name with a line break at its end was accepted
 for an INF file

---
 edk2toollib/windows/capsule/inf_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 9f1d198..d02b9bb 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -149,7 +149,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): Invalid Characters in name
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*\Z")).match(value):
             logging.critical("Name invalid: '%s'", value)
             raise ValueError("Name has invalid chars.")
         self._name = value
-- 
2.43.0


From 88d629423d5522b51cd8bd05d284e3878729ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 081/118] fix: names, tags, file names and keys with a line
 break at their end were accepted for an INF file

---
 edk2toollib/windows/capsule/inf_generator2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 323577d..5b126eb 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -80,7 +80,7 @@ class InfHeader(object):
             (ValueError): Invalid chars in string
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*\Z")).match(value):
             raise ValueError("Name has invalid chars.")
         self._name = value
 
@@ -204,7 +204,7 @@ class InfFirmware(object):
             (ValueError): Invalid character for a tag
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*\Z")).match(value):
             raise ValueError("Tag has invalid chars.")
         self._tag = value
 
@@ -357,7 +357,7 @@ class InfSourceFiles(object):
             Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
-        if not (re.compile(r"[\.\w-]*$")).match(Filename):
+        if not (re.compile(r"[\.\w-]*\Z")).match(Filename):
             raise ValueError("Filename has invalid chars.")
 
         if Filename not in self.Files:
@@ -403,7 +403,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+\Z")).match(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -418,7 +418,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+\Z")).match(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From 55b3d736b0780cd6afa3c3599bb3709d5d9f1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 082/118] fix: a negative version was accepted for an INF file

---
 edk2toollib/windows/capsule/inf_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index d02b9bb..5d5d205 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -237,7 +237,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): hex does not fit in a 32but uint
         """
         a = int(value, 0)
-        if a > 0xFFFFFFFF:
+        if a < 0 or a > 0xFFFFFFFF:
             logging.critical("VersionHex invalid: '%s'", value)
             raise ValueError("VersionHex must fit within 32bit value range for unsigned integer")
         self._versionhex = a
-- 
2.43.0


From d6f9b7992951b61c19f7bffc4607f17952b659f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 083/118] fix: a firmware version that does not fit a REG_DWORD
 was accepted for an INF file

---
 edk2toollib/windows/capsule/inf_generator2.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 5b126eb..3d80803 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -226,8 +226,15 @@ class InfFirmware(object):
 
     @VersionInt.setter
     def VersionInt(self, value: int) -> None:
-        """Sets the VersionInt value from a string."""
-        self._version_int = int(value, base=0)
+        """Sets the VersionInt value from a string.
+
+        Raises:
+            (ValueError): value does not fit in a 32bit uint
+        """
+        version = int(value, base=0)
+        if version < 0 or version > 0xFFFFFFFF:
+            raise ValueError("VersionInt must fit within 32bit value range for unsigned integer")
+        self._version_int = version
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmware object."""
-- 
2.43.0


From c176e4a713f9da81610017337f1a5c8a7d78fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 084/118] fix: an ESRT GUID given with braces or without dashes
 was written as given in an INF file

---
 edk2toollib/windows/capsule/inf_generator2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 3d80803..f80d336 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -216,8 +216,7 @@ class InfFirmware(object):
     @EsrtGuid.setter
     def EsrtGuid(self, value: uuid.UUID) -> None:
         """Transforms string into actual guid object before setting."""
-        uuid.UUID(value)
-        self._esrt_guid = value
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionInt(self) -> int:
-- 
2.43.0


From 511745ff285427e6397ff526e199744430ac3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 085/118] fix: an ESRT GUID given with braces or without dashes
 was written as given by InfGenerator

---
 edk2toollib/windows/capsule/inf_generator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 5d5d205..0085e3f 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -202,9 +202,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (Exception): Invalid value
         """
-        uuid.UUID(value)  # if this works it is valid...otherwise throws exception
-        # todo - make sure it is formatted exactly right
-        self._esrt_guid = value
+        self._esrt_guid = str(uuid.UUID(value))  # if this works it is valid...otherwise throws exception
 
     @property
     def VersionString(self) -> str:
-- 
2.43.0


From 40eecf6d874dbf40c05b571d3542772b972b0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 086/118] fix: a firmware tag with a dash was accepted but
 could not be added to an INF file

---
 edk2toollib/windows/capsule/inf_generator2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index f80d336..f7831f1 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -408,8 +408,8 @@ class InfStrings(object):
             Value (str): the value of the localizable string as a string (e.g. "Firmware Manufacturer")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+\Z")).match(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+
+        if not (re.compile(r"[\w-]+\Z")).match(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -423,8 +423,8 @@ class InfStrings(object):
             Value (str): the value of the non-localizable string as a string (e.g. "0x00010001")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+\Z")).match(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+
+        if not (re.compile(r"[\w-]+\Z")).match(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From a902ff4f5d2ba399f8afd9954d89568cc49211aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 087/118] fix: spaces around the target OS version were written
 to the INF file

---
 edk2toollib/windows/capsule/inf_generator2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index f7831f1..0d39f82 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -65,7 +65,7 @@ class InfHeader(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Name(self) -> str:
@@ -304,7 +304,7 @@ class InfFirmwareSections(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Arch(self) -> str:
-- 
2.43.0


From 0c5d7061d364332c04675358fb8084ffdc3dec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 088/118] fix: INF strings without entries of a kind could not
 be written

---
 edk2toollib/windows/capsule/inf_generator2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 0d39f82..b3e5002 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -431,12 +431,12 @@ class InfStrings(object):
     def __str__(self) -> str:
         """Return the string representation of this InfStrings object."""
         LocalizedStrings = ""
-        LongestKey = max(len(Key) for Key in self.LocalizableStrings.keys())
+        LongestKey = max((len(Key) for Key in self.LocalizableStrings.keys()), default=0)
         for Key, Value in self.LocalizableStrings.items():
             LocalizedStrings += '{0:{width}} = "{1}"\n'.format(Key, Value, width=LongestKey)
 
         NonLocalizedStrings = ""
-        LongestKey = max(len(Key) for Key in self.NonLocalizableStrings.keys())
+        LongestKey = max((len(Key) for Key in self.NonLocalizableStrings.keys()), default=0)
         for Key, Value in self.NonLocalizableStrings.items():
             NonLocalizedStrings += "{0:{width}} = {1}\n".format(Key, Value, width=LongestKey)
 
-- 
2.43.0


From 2faf8e5ec04b3d08ea0085a32b4295c305d19e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 089/118] fix: quotes in the strings of an INF file ended the
 string

---
 edk2toollib/windows/capsule/inf_generator2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index b3e5002..2e69b4f 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -433,7 +433,9 @@ class InfStrings(object):
         LocalizedStrings = ""
         LongestKey = max((len(Key) for Key in self.LocalizableStrings.keys()), default=0)
         for Key, Value in self.LocalizableStrings.items():
-            LocalizedStrings += '{0:{width}} = "{1}"\n'.format(Key, Value, width=LongestKey)
+            LocalizedStrings += '{0:{width}} = "{1}"\n'.format(
+                Key, Value.replace('"', '""'), width=LongestKey
+            )
 
         NonLocalizedStrings = ""
         LongestKey = max((len(Key) for Key in self.NonLocalizableStrings.keys()), default=0)
-- 
2.43.0


From 56d822e00b3b0de58e3799a8c2cf333c13a7852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 090/118] fix: quotes in the strings of an INF file written by
 InfGenerator ended the string

---
 edk2toollib/windows/capsule/inf_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 0085e3f..8d03932 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -328,10 +328,10 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             Arch=self.Arch,
             DriverVersion=self.VersionString,
             EsrtGuid=self.EsrtGuid,
-            Provider=self.Provider,
-            MfgName=self.Manufacturer,
+            Provider=self.Provider.replace('"', '""'),
+            MfgName=self.Manufacturer.replace('"', '""'),
             OsBuildVersion=OS_BUILD_VERSION_DIRID13_SUPPORT,
-            Description=self.Description,
+            Description=self.Description.replace('"', '""'),
             Rollback=RollbackString,
             FirmwareCopyFilesSection=copy_files,
             FirmwareAddRegSection=add_reg,
-- 
2.43.0


From 2789cb66e7c2442ce920f7dd788314eab4f7c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 091/118] fix: a CAT file could not be made in the current
 folder by its name alone

---
 edk2toollib/windows/capsule/cat_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/cat_generator.py b/edk2toollib/windows/capsule/cat_generator.py
index 698c364..9e18440 100644
--- a/edk2toollib/windows/capsule/cat_generator.py
+++ b/edk2toollib/windows/capsule/cat_generator.py
@@ -119,7 +119,7 @@ class CatGenerator(object):
                 "https://developer.microsoft.com/en-us/windows/hardware/windows-driver-kit"
             )
 
-        OutputFolder = os.path.dirname(OutputCatFile)
+        OutputFolder = os.path.dirname(OutputCatFile) or "."
         # Make Cat file
         cmd = "/driver:. /os:" + self.OperatingSystem + "_" + self.Arch + " /verbose /uselocaltime"
         ret = RunCmd(PathToInf2CatTool, cmd, workingdir=OutputFolder)
-- 
2.43.0


From 8ce5ade1d803981d2582b9c20b0cdf2c91dfae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 092/118] fix: an OVERRIDE line without a colon failed with an
 IndexError instead of a parse error

---
 edk2toollib/uefi/edk2/parsers/override_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/override_parser.py b/edk2toollib/uefi/edk2/parsers/override_parser.py
index 3202b71..e24d073 100644
--- a/edk2toollib/uefi/edk2/parsers/override_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/override_parser.py
@@ -138,8 +138,8 @@ class OverrideParser(object):
         # Split the override string into pieces.
         # First the #OVERRIDE, which is separated by a :.
         # Then everything else by |.
-        line_parts = line_contents.split(":")
-        line_parts = [part.strip() for part in line_parts[1].split("|")]
+        line_parts = line_contents.partition(":")
+        line_parts = [part.strip() for part in line_parts[2].split("|")]
 
         # Step 1: Check version and number of blocks in this entry
         try:
-- 
2.43.0


From f4893beb4f1eb8a4c8fe8fc6b4f1f5cfc1a67b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 093/118] fix: settings of target.txt whose value has an equals
 sign were dropped

---
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 607496d..46091a8 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -48,7 +48,7 @@ class TargetTxtParser(HashFileParser):
             if sline is None or len(sline) < 1:
                 continue
 
-            if sline.count("=") == 1:
+            if "=" in sline:
                 tokens = sline.split("=", 1)
                 self.Dict[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
-- 
2.43.0


From e73940be59d0531f0637ac770d3b34eab3c7d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 094/118] fix: the last line of a region of the build report
 was left out

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f138bd3..4f140c7 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -400,7 +400,7 @@ class BuildReport(object):
                 self._ReportContents[lineNumber]
                 == "<======================================================================================================================>"
             ):  # noqa: E501
-                return lineNumber - 1
+                return lineNumber
             lineNumber += 1
 
         logging.debug("Failed to find a End Region after lineNumber: %d" % number)
-- 
2.43.0


From 60c7869a9d52380ba99e2176591aa3b4d84957f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 095/118] fix: a build report without regions could not be read

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 4f140c7..bcb4290 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -283,7 +283,8 @@ class BuildReport(object):
         # we do it after parsing region because we
         # can limit scope to 0 - first start
         #
-        for n in range(self._Regions[0][1]):  # loop thru from 0 to start of first region
+        header_end = self._Regions[0][1] if self._Regions else len(self._ReportContents)
+        for n in range(header_end):  # loop thru from 0 to start of first region
             line = self._ReportContents[n].strip()
             line_partitioned = line.partition(":")
             if line_partitioned[2] == "":
-- 
2.43.0


From 5e23b11a9172f1f36d5a8b31395c22fce20ba8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 096/118] fix: PCDs of a build report whose value has a colon
 or an equals sign were dropped

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index bcb4290..2b9e9bf 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -138,7 +138,7 @@ class ModuleSummary(object):
                             tokenspace = line
 
                         # this is the main line of the PCD value
-                        elif line.count("=") == 1 and line.count(":") == 1:
+                        elif "=" in line and ":" in line.partition("=")[0]:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
@@ -154,7 +154,7 @@ class ModuleSummary(object):
                             self.PCDs[tokenspace + "." + token2] = token.strip()
 
                         # this is the secondary lines of PCD values showing Defaults
-                        elif line.count(":") == 0 and line.count("=") == 1:
+                        elif "=" in line:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += self._RawContent[i].rstrip()
-- 
2.43.0


From 4cf0ce4efcebdf05707c5a797432f8a66fe6e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 097/118] fix: a brace in a quoted PCD value or a multi-line
 default value broke the PCDs that follow in a build report

---
 .../uefi/edk2/parsers/buildreport_parser.py      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 2b9e9bf..f0a41ca 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -47,6 +47,13 @@ class ModuleSummary(object):
         self.FvName = None
         self.pathConverter = pathconverter
 
+    @staticmethod
+    def _IsValueComplete(line: str) -> bool:
+        """Checks if every quote and every brace outside of quotes of a value is closed."""
+        parts = line.split('"')
+        outside = "".join(parts[::2])
+        return len(parts) % 2 == 1 and outside.count("{") == outside.count("}")
+
     def Parse(self) -> None:
         """Parses the Module summary object."""
         inPcdSection = False
@@ -139,10 +146,7 @@ class ModuleSummary(object):
 
                         # this is the main line of the PCD value
                         elif "=" in line and ":" in line.partition("=")[0]:
-                            while (line.count('"') % 2) != 0:
-                                i += 1
-                                line += " " + self._RawContent[i].rstrip()
-                            while line.count("{") != line.count("}"):
+                            while not self._IsValueComplete(line):
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
 
@@ -155,9 +159,9 @@ class ModuleSummary(object):
 
                         # this is the secondary lines of PCD values showing Defaults
                         elif "=" in line:
-                            while (line.count('"') % 2) != 0:
+                            while not self._IsValueComplete(line):
                                 i += 1
-                                line += self._RawContent[i].rstrip()
+                                line += " " + self._RawContent[i].rstrip()
 
                     elif inDepSection:
                         if line == "Dependency Expression (DEPEX) from INF":
-- 
2.43.0


From eb9542e67623a994bfc506edb83eb45c34e70ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 098/118] fix: looking for a module by its INF failed if the
 INF of another module is outside of the workspace

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f0a41ca..4f92bfb 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -333,7 +333,9 @@ class BuildReport(object):
         """
         for k, v in self.Modules.items():
             if os.path.isabs(v.InfPath):
-                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath)
+                relative_path = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath)
+                if relative_path is not None:
+                    v.InfPath = relative_path
             if v.InfPath.lower() == InfPath.lower():
                 logging.debug("Found Module by InfPath: %s" % InfPath)
                 return v
-- 
2.43.0


From 30585baa593a4bce19e6605ab4ef1f86fa220ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 099/118] fix: architecture specific libraries were not used
 for components of a common section in the database

---
 edk2toollib/database/tables/instanced_inf_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4e0a81b..6653c26 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -182,7 +182,8 @@ class InstancedInfTable(TableGenerator):
 
             # scope for libraries need to contain the MODULE_TYPE also, so we will append it, if it exists
             if "MODULE_TYPE" in infp.Dict:
-                scope += f".{infp.Dict['MODULE_TYPE']}".lower()
+                scope += f".{infp.Dict['MODULE_TYPE']}"
+            scope = scope.lower()
 
             inf_entries += self._parse_inf_recursively(inf, None, inf, dscp.ScopedLibraryDict, overrides, scope, [])
 
-- 
2.43.0


From 9d64e4c2d8f65d9561f551e13b530185ec1bbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 100/118] fix: library overrides and NULL libraries were
 recorded by a path not relative to the closest package path

---
 .../database/tables/instanced_inf_table.py     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 6653c26..071d54a 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -169,8 +169,7 @@ class InstancedInfTable(TableGenerator):
 
             # Developers can set an inf path to be relative to any package path. Convert it to be the closest
             # package path relative path to the INF, which is done by `GetEdk2RelativePathFromAbsolutePath`
-            inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
-            inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(inf)
+            inf = self._to_closest_path(inf)
 
             logging.debug(f"Parsing Component: [{arch}][{inf}]")
             infp = InfP().SetEdk2Path(self.pathobj)
@@ -232,11 +231,11 @@ class InstancedInfTable(TableGenerator):
         #
         if inf == component:
             for null_lib in override_dict["NULL"]:
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._to_closest_path(null_lib))
                 library_class_list.append("NULL")
 
             for null_lib in self._get_null_lib_instances(scope, library_dict):
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._to_closest_path(null_lib))
                 library_class_list.append("NULL")
 
         #
@@ -305,7 +304,7 @@ class InstancedInfTable(TableGenerator):
         # 1. If a Library class instance (INF) is specified in the Edk2 II [Components] section (an override),
         #    and the library supports the module, then it will be used.
         if library_class_name in override_dict:
-            return override_dict[library_class_name]
+            return self._to_closest_path(override_dict[library_class_name])
 
         # 2/3. If the Library Class instance (INF) is defined in the [LibraryClasses.$(ARCH).$(MODULE_TYPE)] section,
         #      and the library supports the module, then it will be used.
@@ -360,11 +359,14 @@ class InstancedInfTable(TableGenerator):
             infp = self.inf(library_instance)
             if module.lower() in [phase.lower() for phase in infp.SupportedPhases]:
                 # Ensure the returned path is relative to the closest package path
-                library_instance = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(library_instance)
-                library_instance = self.pathobj.GetEdk2RelativePathFromAbsolutePath(library_instance)
-                return library_instance
+                return self._to_closest_path(library_instance)
         return None
 
+    def _to_closest_path(self, inf: str) -> str:
+        """Converts the path of an INF, relative to any package path, to be relative to the closest package path."""
+        full_path = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+        return self.pathobj.GetEdk2RelativePathFromAbsolutePath(full_path) or inf
+
     def _get_null_lib_instances(
         self,
         scope: str,
-- 
2.43.0


From 7bf1633cba46bdff4006af5fdad9b946c35ac2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 101/118] fix: a library INF used for several library classes
 was linked for one of them only

---
 edk2toollib/database/tables/instanced_inf_table.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 071d54a..ee69d4b 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -137,14 +137,17 @@ class InstancedInfTable(TableGenerator):
         session.add_all(rows)
         session.commit()
 
+        # A library INF has a single row per component, even if it is used for multiple library classes
         all_libraries = {
-            (library.path, library.arch, library.cls, library.component): library
+            (library.path, library.arch, library.component): library
             for library in session.query(InstancedInf).filter_by(env=env_id).all()
         }
         # Link all instanced INF rows to their used libraries
         for row, inf in zip(rows, filtered_inf_entries):
-            libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
-            row.libraries.extend([lib for lib in libraries if lib is not None])
+            for _, path in inf["LIBRARIES_USED"]:
+                library = all_libraries.get((path, row.arch, row.component))
+                if library is not None and library not in row.libraries:
+                    row.libraries.append(library)
 
         session.commit()
 
-- 
2.43.0


From 63c5deead1d17386cc25db7a4038b69afb0562e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 102/118] fix: an INF was assigned to a repository whose path
 is only a prefix of the name of its folder

---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index ee69d4b..990b00f 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -112,7 +112,7 @@ class InstancedInfTable(TableGenerator):
                     """Return the Repository that contains the INF file."""
                     if repo.path is None:
                         return False
-                    return Path(self.pathobj.WorkspacePath, repo.path).as_posix() in Path(e["FULL_PATH"]).as_posix()
+                    return Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, repo.path))
 
                 repo = next(
                     filter(filter_search, all_repos.values()),
-- 
2.43.0


From 367f28a3627cf616749536225283debd69acfbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 103/118] fix: a package was assigned to a submodule whose path
 is only a prefix of the name of its folder

---
 edk2toollib/database/tables/package_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8d461e1..8354130 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -57,7 +57,7 @@ class PackageTable(TableGenerator):
             repo_path = None
 
             for submodule in repo.submodules:
-                if submodule.abspath in str(file):
+                if file.is_relative_to(submodule.abspath):
                     containing_repo = submodule.name
                     repo_path = submodule.path
                     break
-- 
2.43.0


From 15e8db6f222a8e214e0809c1e621b33ce759aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 104/118] fix: the name of a repository was cut at the first
 .git in its url

---
 edk2toollib/database/tables/package_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8354130..1ebdada 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -35,9 +35,9 @@ class PackageTable(TableGenerator):
     def get_repo_name(repo: git.Repo) -> str:
         """Get the name of the repository."""
         if "origin" in repo.remotes:
-            return repo.remotes.origin.url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes.origin.url.split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         elif len(repo.remotes) > 0:
-            return repo.remotes[0].url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes[0].url.split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         return "BASE"
 
     def parse(self, session: Session, pathobj: Edk2Path, id: str, env: dict) -> None:
-- 
2.43.0


From 71fd0bf516fedd803535ed683fb8e533090a49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 105/118] fix: the license and the number of lines of a source
 that is already in the database were not recorded

---
 edk2toollib/database/tables/source_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index cb59b53..444594e 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -62,6 +62,8 @@ class SourceTable(TableGenerator):
                 to_add.append(source)
             else:
                 to_add.append(existing_source[source.path])
+                to_add[-1].license = source.license
+                to_add[-1].total_lines = source.total_lines
                 to_add[-1].code_lines = source.code_lines
                 to_add[-1].comment_lines = source.comment_lines
                 to_add[-1].blank_lines = source.blank_lines
-- 
2.43.0


From 6a706a422f23814d0d7fc847b097c6c59c119817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 106/118] fix: a command run by RunCmd with capture=False hung
 once its output filled the pipe

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index fbbe67d..0ca316f 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -195,7 +195,7 @@ def RunCmd(
     logging.log(logging_level, "------------------------------------------------")
     c = subprocess.Popen(
         cmd,
-        stdout=subprocess.PIPE,
+        stdout=subprocess.PIPE if capture else subprocess.DEVNULL,
         stderr=subprocess.STDOUT,
         cwd=workingdir,
         shell=True,
-- 
2.43.0


From 7a30a34620afaf11d911a73e573ce27ace15f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 107/118] fix: RunCmd hung if the output of a command could not
 be decoded and did not fit the pipe

---
 edk2toollib/utility_functions.py | 37 +++++++++++++++++---------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 0ca316f..83444a7 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -66,24 +66,27 @@ def reader(filepath, outstream, stream, logging_level=logging.INFO, encodingErro
     part of the threading pattern.
     """
     f = None
-    # open file if caller provided path
-    if filepath:
-        f = open(filepath, "w")
-
-    while True:
-        s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
-        if not s:
-            break
+    try:
+        # open file if caller provided path
+        if filepath:
+            f = open(filepath, "w")
+
+        while True:
+            s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
+            if not s:
+                break
+            if f is not None:
+                # write to file if caller provided file
+                f.write(s)
+            if outstream is not None:
+                # write to stream object if caller provided object
+                outstream.write(s)
+            logging.log(logging_level, s.rstrip())
+    finally:
+        # close the stream on failure as well: the command must not wait for someone to read its output
+        stream.close()
         if f is not None:
-            # write to file if caller provided file
-            f.write(s)
-        if outstream is not None:
-            # write to stream object if caller provided object
-            outstream.write(s)
-        logging.log(logging_level, s.rstrip())
-    stream.close()
-    if f is not None:
-        f.close()
+            f.close()
 
 
 def GetHostInfo() -> namedtuple:
-- 
2.43.0


From 2ad7974166ddec89e0eb64f68ae8a64a6eeb0c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 108/118] fix: RunPythonScript did not find scripts with quotes
 or spaces in their name or folder

---
 edk2toollib/utility_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 83444a7..16f69f4 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -259,10 +259,8 @@ def RunPythonScript(
         (int): returncode of called cmd
     """
     # locate python file on path
-    pythonfile.strip("\"'")
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params.strip()
+    pythonfile = pythonfile.strip("\"'")
+    params = params.strip()
     logging.debug("RunPythonScript: {0} {1}".format(pythonfile, params))
     if os.path.isabs(pythonfile):
         logging.debug("Python Script was given as absolute path: %s" % pythonfile)
@@ -277,6 +275,8 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
+    if " " in pythonfile:
+        pythonfile = '"' + pythonfile + '"'
     params = pythonfile + " " + params
     return RunCmd(
         sys.executable,
-- 
2.43.0


From 8c102c80d792385e5ef972610b76e6308f714e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 109/118] fix: a PFX path with spaces broke the command line of
 CatalogSignWithSignTool

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 16f69f4..dd96441 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -367,7 +367,7 @@ def CatalogSignWithSignTool(
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = "sign /a /fd SHA256 /f " + PfxFilePath
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath + '"'
     if PfxPass is not None:
         # add password if set
         params = params + " /p " + PfxPass
-- 
2.43.0


From e1fa8c6e3863106db0dd270869a87c6b9d78a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 110/118] fix: FindToolInWinSdk handed its product to
 QueryVcVariables as architecture and the other way round

---
 edk2toollib/windows/locate_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index c08f2a1..e4ac134 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -385,7 +385,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     variables = ["WindowsSdkDir", "WindowsSDKVersion"]
     # get the value with QueryVcVariables
     try:
-        results = QueryVcVariables(variables, product, arch)
+        results = QueryVcVariables(variables, arch=arch, product=product)
         # Get the variables we care about
         sdk_dir = results["WindowsSdkDir"]
         sdk_ver = results["WindowsSDKVersion"]
-- 
2.43.0


From a5ef2465e0371a7897055fa292ca546dd1a1d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 111/118] fix: a vswhere.exe whose download broke off was left
 behind and used

---
 edk2toollib/windows/locate_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index e4ac134..a9756cf 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -72,9 +72,11 @@ def _DownloadVsWhere(unpack_folder: os.PathLike = None) -> None:
     # check if we have the vswhere file already downloaded
     if not os.path.isfile(out_file_name):
         try:
-            # Download the file and save it locally under `temp_file_name`
-            with urllib.request.urlopen(__URL) as response, open(out_file_name, "wb") as out_file:
-                out_file.write(response.read())
+            # Download all of the file before it is saved locally under `out_file_name`
+            with urllib.request.urlopen(__URL) as response:
+                content = response.read()
+            with open(out_file_name, "wb") as out_file:
+                out_file.write(content)
         except urllib.error.HTTPError as e:
             logging.error("We ran into an issue when getting VsWhere")
             raise e
-- 
2.43.0


From 76b23dae1dcee39bec94924ef41a839eaa0fb2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 112/118] fix: whether locate_class_in_module found the most
 specific of several classes depended on their names

---
 edk2toollib/utility_functions.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index dd96441..1046605 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -418,24 +418,24 @@ def locate_class_in_module(Module: Any, DesiredClass: Any) -> Any:  # noqa: ANN4
     |DesiredClass|  ->  |ChildClass|  ->  |GrandChildClass|
     --------------      ------------      -----------------
     """
-    DesiredClassInstance = None
     # Pull out the contents of the module that was provided
     module_contents = dir(Module)
     # Filter through the Module, we're only looking for classes.
     classList = [getattr(Module, obj) for obj in module_contents if inspect.isclass(getattr(Module, obj))]
 
-    for _class in classList:
-        # Classes that the module import show up in this list too so we need
-        # to make sure it's an INSTANCE of DesiredClass, not DesiredClass itself!
-        # if multiple instances are found in the same class hierarchy, pick the
-        # most specific one. If multiple instances are found belonging to different
-        # class hierarchies, raise an error.
-        if _class is not DesiredClass and issubclass(_class, DesiredClass):
-            if (DesiredClassInstance is None) or issubclass(_class, DesiredClassInstance):
-                DesiredClassInstance = _class
-            elif not issubclass(DesiredClassInstance, _class):
-                raise RuntimeError(f"Multiple instances were found:\n\t{DesiredClassInstance}\n\t{_class}")
-    return DesiredClassInstance
+    # Classes that the module import show up in this list too so we need
+    # to make sure it's an INSTANCE of DesiredClass, not DesiredClass itself!
+    instances = [_class for _class in classList if _class is not DesiredClass and issubclass(_class, DesiredClass)]
+    if not instances:
+        return None
+
+    # if multiple instances are found in the same class hierarchy, pick the
+    # most specific one. If multiple instances are found belonging to different
+    # class hierarchies, raise an error.
+    for _class in instances:
+        if all(issubclass(_class, other) for other in instances):
+            return _class
+    raise RuntimeError("Multiple instances were found:\n\t" + "\n\t".join(str(_class) for _class in instances))
 
 
 def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
-- 
2.43.0


From 4cce90946a8c7a2fd21f384b4f782e9cc2e2342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 113/118] fix: WriteLinesToFile wrote an empty line after each
 line of the parsers that keep line ends

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index ad3218e..7ac0384 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -188,7 +188,7 @@ class BaseParser(object):
         self.Logger.debug("Writing all lines to file: %s" % filepath)
         file_handle = open(filepath, "w")
         for line in self.Lines:
-            file_handle.write(line + "\n")
+            file_handle.write(line if line.endswith("\n") else line + "\n")
         file_handle.close()
 
     def ComputeResult(self, value: Union[str, int], cond: str, value2: Union[str, int]) -> bool:
-- 
2.43.0


From 4d41bd134d3e3e2ff9547ac1361239a35ffc96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 114/118] fix: truncated or unterminated variable records were
 misread instead of refused

---
 edk2toollib/uefi/edk2/variable_format.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 2da1858..bc87a36 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -151,13 +151,22 @@ class VariableHeader(object):
 
         # Finally, load the data.
         data_offset = self.StructSize
-        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16-le")
-        self.Name = self.Name[:-1]  # Strip the terminating char.
+        name_bytes = in_bytes[data_offset : (data_offset + self.NameSize)]
         data_offset += self.NameSize
-        self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
+        self._set_content(name_bytes, in_bytes[data_offset : (data_offset + self.DataSize)])
 
         return self
 
+    def _set_content(self, name_bytes: bytes, data: bytes) -> None:
+        """Take the name and data of a record, which must be as long as its header says."""
+        if len(name_bytes) != self.NameSize or len(data) != self.DataSize:
+            raise ValueError("Variable record is truncated!")
+        name = name_bytes.decode("utf-16-le")
+        if name[-1:] != "\0":
+            raise ValueError("Variable name is not terminated!")
+        self.Name = name[:-1]  # Strip the terminating char.
+        self.Data = data
+
     def load_from_file(self, file: str) -> "VariableHeader":
         """Load the struct from a file."""
         # This function assumes that the file has been seeked
@@ -180,10 +189,10 @@ class VariableHeader(object):
             raise EOFError("No variable data!")
 
         # Finally, load the data.
-        self.Name = file.read(self.NameSize).decode("utf-16-le")[:-1]  # Strip the terminating char.
-        self.Data = file.read(self.DataSize)
-
+        name_bytes = file.read(self.NameSize)
+        data = file.read(self.DataSize)
         file.seek(orig_seek)
+        self._set_content(name_bytes, data)
         return self
 
     def get_buffer_data_size(self) -> int:
-- 
2.43.0


From 3f6f8cbc306d6b8866b0892b4e01bbfdef7f89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 115/118] fix: a variable that reaches past the end of its
 store was read from whatever follows

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 2ab9419..25cd508 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -68,6 +68,9 @@ class VariableStore(object):
             while self.rom_file.tell() + self.get_new_var_class().StructSize <= store_end:
                 new_var = self.get_new_var_class().load_from_file(self.rom_file)
 
+                if self.rom_file.tell() + new_var.get_buffer_data_size() > store_end:
+                    raise Exception("Variable at %d reaches past the end of its VarStore!" % self.rom_file.tell())
+
                 # Seek past the current variable in the store.
                 self.rom_file.seek(new_var.get_buffer_size(), os.SEEK_CUR)
 
-- 
2.43.0


From 8c8e1b668ac43254c1239a435321d8e4aff5aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 116/118] fix: FMP capsules with item offsets out of order or
 inside the header were misread

---
 edk2toollib/uefi/fmp_capsule_header.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 721e715..233341d 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -306,10 +306,14 @@ class FmpCapsuleHeaderClass(object):
         # Parse the ItemOffsetList values
         #
         Offset = self._StructSize
+        DataOffset = Offset + (EmbeddedDriverCount + PayloadItemCount) * self._ItemOffsetSize
         for Index in range(EmbeddedDriverCount + PayloadItemCount):
             ItemOffset = struct.unpack(self._ItemOffsetFormat, Buffer[Offset : Offset + self._ItemOffsetSize])[0]
             if ItemOffset >= len(Buffer):
                 raise ValueError
+            # Each item ends where the next one starts.
+            if ItemOffset < (offset_list[-1] if offset_list else DataOffset):
+                raise ValueError
             offset_list.append(ItemOffset)
             Offset = Offset + self._ItemOffsetSize
         Result = Buffer[Offset:]
-- 
2.43.0


From dc6651cc56b88f98893d2d1656576020a4b93791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 117/118] fix: a payload replaced after signing was sent with
 the signature of the old one

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 9857b7e..2998033 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1515,6 +1515,9 @@ class EfiVariableAuthentication2Builder(object):
         # Get the starting position and the length
         start = payload.tell()
 
+        # Whatever was signed so far was the old payload
+        self.signature_builder = pkcs7.PKCS7SignatureBuilder()
+
         self.digest = self.digest_without_payload + payload.read()
 
         # before we pass it to SetPayload lets make sure we put the position back
-- 
2.43.0


From e3f78c5222ab6f97519554b6c5afc6ed88f90e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 118/118] fix: a TPM command had a wrong size field when a
 buffer was updated after it was added

---
 edk2toollib/tpm/tpm2_stream.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_stream.py b/edk2toollib/tpm/tpm2_stream.py
index 002171e..364a82a 100644
--- a/edk2toollib/tpm/tpm2_stream.py
+++ b/edk2toollib/tpm/tpm2_stream.py
@@ -116,19 +116,17 @@ class Tpm2CommandStream(object):
         """Inits a Tpm2 Command stream object."""
         super(Tpm2CommandStream, self).__init__()
         self.header = TPM2_COMMAND_HEADER(tag, size, code)
-        self.stream_size = self.header.get_size()
-        self.header.update_size(self.stream_size)
         self.stream_elements = []
+        self.header.update_size(self.get_size())
 
     def get_size(self) -> int:
         """Returns the stream size."""
-        return self.stream_size
+        return self.header.get_size() + sum(element.get_size() for element in self.stream_elements)
 
     def add_element(self, element: "Tpm2StreamElement") -> None:
         """Adds an element to the stream list."""
         self.stream_elements.append(element)
-        self.stream_size += element.get_size()
-        self.header.update_size(self.stream_size)
+        self.header.update_size(self.get_size())
 
     def get_stream(self) -> str:
         r"""Serializes the Header + elements.
@@ -136,4 +134,6 @@ class Tpm2CommandStream(object):
         Returns:
             (str): string representing packed data as bytes (i.e. b'\x01\x00\x03')
         """
+        # Elements may have been updated since they were added.
+        self.header.update_size(self.get_size())
         return self.header.marshal() + b"".join(element.marshal() for element in self.stream_elements)
-- 
2.43.0

