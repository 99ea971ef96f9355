From fe781b634391e2060ef7c57055e02315d6d7e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:20 +0000
Subject: [PATCH 01/91] fix: close command output stream and log file when the
 reader fails

---
 edk2toollib/utility_functions.py | 37 +++++++++++++++++---------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 6d72ca0..e8ea7b6 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -66,24 +66,27 @@ def reader(filepath, outstream, stream, logging_level=logging.INFO, encodingErro
     part of the threading pattern.
     """
     f = None
-    # open file if caller provided path
-    if filepath:
-        f = open(filepath, "w")
-
-    while True:
-        s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
-        if not s:
-            break
+    try:
+        # open file if caller provided path
+        if filepath:
+            f = open(filepath, "w")
+
+        while True:
+            s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
+            if not s:
+                break
+            if f is not None:
+                # write to file if caller provided file
+                f.write(s)
+            if outstream is not None:
+                # write to stream object if caller provided object
+                outstream.write(s)
+            logging.log(logging_level, s.rstrip())
+    finally:
+        # also on error: an open but unread pipe would block the command forever
+        stream.close()
         if f is not None:
-            # write to file if caller provided file
-            f.write(s)
-        if outstream is not None:
-            # write to stream object if caller provided object
-            outstream.write(s)
-        logging.log(logging_level, s.rstrip())
-    stream.close()
-    if f is not None:
-        f.close()
+            f.close()
 
 
 def GetHostInfo() -> namedtuple:
-- 
2.43.0


From 8bbe803628474bb85c6af3e716d73b439ee64e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 02/91] fix: drain command output in RunCmd when it is not
 captured

---
 edk2toollib/utility_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index e8ea7b6..c1b6a09 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -211,7 +211,8 @@ def RunCmd(
         c.wait()
         thread.join()
     else:
-        c.wait()
+        # drain the output: a command blocked on a full pipe would never exit
+        c.communicate()
 
     endtime = datetime.datetime.now()
     delta = endtime - starttime
-- 
2.43.0


From ce7575e96e4f76283f308d8ddad967b7b8cd4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 03/91] fix: honour the timeout of PropagatingThread.join

---
 edk2toollib/utility_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index c1b6a09..0537aee 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -49,7 +49,9 @@ class PropagatingThread(threading.Thread):  # noqa
             self.exc = e
 
     def join(self, timeout=None):  # noqa
-        super(PropagatingThread, self).join()
+        super(PropagatingThread, self).join(timeout)
+        if self.is_alive():
+            return None
         if self.exc:
             raise self.exc
         return self.ret
-- 
2.43.0


From a2921750f96f35a67f0b9e6c15e2c020517994ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 04/91] fix: locate scripts with spaces in their path in
 RunPythonScript

---
 edk2toollib/utility_functions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 0537aee..61242df 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -262,10 +262,8 @@ def RunPythonScript(
         (int): returncode of called cmd
     """
     # locate python file on path
-    pythonfile.strip("\"'")
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params.strip()
+    pythonfile = pythonfile.strip("\"'")
+    params = params.strip()
     logging.debug("RunPythonScript: {0} {1}".format(pythonfile, params))
     if os.path.isabs(pythonfile):
         logging.debug("Python Script was given as absolute path: %s" % pythonfile)
@@ -280,7 +278,8 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
-    params = pythonfile + " " + params
+    # quoted only once located: a quoted name matches no file
+    params = '"' + pythonfile + '" ' + params
     return RunCmd(
         sys.executable,
         params,
-- 
2.43.0


From 3fe63290298671e3dd3ec641e29a2767870219b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 05/91] fix: quote the pfx path, password and oids given to
 signtool

---
 edk2toollib/utility_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 61242df..3db23d5 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -325,13 +325,13 @@ def DetachedSignWithSignTool(
     #   https://docs.microsoft.com/en-us/windows-hardware/manufacture/desktop/secure-boot-key-generation-and-signing-using-hsm--example  # noqa: E501
     # Search for "Secure Boot Key Generation and Signing Using HSM"
     params = (
-        "sign /fd sha256 /p7ce DetachedSignedData /p7co " + Oid + ' /p7 "' + OutputDir + '" /f "' + PfxFilePath + '"'
+        'sign /fd sha256 /p7ce DetachedSignedData /p7co "' + Oid + '" /p7 "' + OutputDir + '" /f "' + PfxFilePath + '"'
     )
     if Eku is not None:
-        params += " /u " + Eku
+        params += ' /u "' + Eku + '"'
     if PfxPass is not None:
         # add password if set
-        params = params + " /p " + PfxPass
+        params = params + ' /p "' + PfxPass + '"'
     params = params + ' /debug /v "' + ToSignFilePath + '" '
     ret = RunCmd(SignToolPath, params)
     if ret != 0:
@@ -369,10 +369,10 @@ def CatalogSignWithSignTool(
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = "sign /a /fd SHA256 /f " + PfxFilePath
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath + '"'
     if PfxPass is not None:
         # add password if set
-        params = params + " /p " + PfxPass
+        params = params + ' /p "' + PfxPass + '"'
     params = params + ' /debug /v "' + ToSignFilePath + '" '
     ret = RunCmd(SignToolPath, params, workingdir=OutputDir)
     if ret != 0:
-- 
2.43.0


From 64a41877014206cf5d0805226cbcdd60774193bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 06/91] fix: PrintByteList passed outfs twice when it was given

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 3db23d5..63dd92d 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -479,7 +479,7 @@ def PrintByteList(
     **kwargs: Any,  #
 ) -> None:
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer."""
-    outfs = kwargs.get("outfs", sys.stdout)
+    outfs = kwargs.pop("outfs", sys.stdout)
     kwargs["include_ascii"] = IncludeAscii
     kwargs["include_hex_sep"] = IncludeHexSep
     kwargs["include_offset"] = IncludeOffset
-- 
2.43.0


From 1bacb8cd515af546b6898da847985f7253185745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 07/91] fix: format the messages of type and length errors

---
 edk2toollib/acpi/ivrs_parser.py               | 50 ++++++++-----------
 ...thenticated_variables_structure_support.py |  5 +-
 2 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index d6fa813..1605281 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -588,9 +588,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RESERVED:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RESERVED,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RESERVED)
                 )
 
             self.TypeString = "Reserved"
@@ -641,9 +640,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALL:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALL,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALL)
                 )
 
             self.TypeString = "All"
@@ -694,9 +692,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.SELECT:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.SELECT,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.SELECT)
                 )
 
             self.TypeString = "Reserved"
@@ -747,9 +744,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RANGE_START:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RANGE_START,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RANGE_START)
                 )
 
             self.TypeString = "Range"
@@ -820,9 +816,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALIAS_SELECT:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALIAS_SELECT,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALIAS_SELECT)
                 )
 
             self.TypeString = "Alias Select"
@@ -888,9 +883,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALIAS_RANGE_START:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALIAS_RANGE_START,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ALIAS_RANGE_START)
                 )
 
             self.TypeString = "Alias Range"
@@ -971,9 +965,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.EX_SELECT:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.EX_SELECT,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.EX_SELECT)
                 )
 
             self.TypeString = "Extended Select"
@@ -1044,9 +1037,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.EX_RANGE_START:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.EX_RANGE_START,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.EX_RANGE_START)
                 )
 
             self.TypeString = "Extended Range"
@@ -1129,9 +1121,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.SPECIAL:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.SPECIAL,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.SPECIAL)
                 )
 
             self.TypeString = "Special Device"
@@ -1216,9 +1207,8 @@ class IVRS_TABLE(object):
             )
             if self.Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ACPI:
                 raise Exception(
-                    "Input device type (%d) does not match expectation (%d)",
-                    IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ACPI,
-                    self.Type,
+                    "Input device type (%d) does not match expectation (%d)"
+                    % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ACPI)
                 )
 
             self.TypeString = "Variable Length ACPI HID Device"
diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 43a5cc0..25a7cf5 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -314,7 +314,8 @@ class EfiSignatureDataEfiCertSha256(CommonUefiStructure):
             digest_length = len(digest)
             if digest_length != hashlib.sha256().digest_size:
                 raise Exception(
-                    "Invalid digest length (found / expected): (%d / %d)", digest_length, hashlib.sha256().digest_size
+                    "Invalid digest length (found / expected): (%d / %d)"
+                    % (digest_length, hashlib.sha256().digest_size)
                 )
             self.signature_owner = sigowner
             self.signature_data = digest
@@ -1022,7 +1023,7 @@ class EfiSignatureDatabase(CommonUefiStructure):
                 else:
                     x509eslList.append(Esl)
             else:
-                raise Exception("Unsupported signature type %s", Esl.signature_type)
+                raise Exception("Unsupported signature type %s" % Esl.signature_type)
 
         # for each type, sort and de-duplicate, and then populate the respective databases
         # note the ordering of this section is the prescribed canonical order
-- 
2.43.0


From ae99750b5b110f5e26e18468515d3ecfe5fbcd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 08/91] fix: WinCertPkcs1.print ignored its output stream

---
 edk2toollib/uefi/wincert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 791275e..01e383d 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -187,8 +187,8 @@ class WinCertPkcs1(object):
         out_fs.write(f"  Hdr_wCertificateType: 0x{self.Hdr_wCertificateType:0X}\n")
         out_fs.write(f"  Hash Guid:            {str(self.hash_algorithm)}\n")
         out_fs.write("  cert_data:             \n")
-        cdl = self.cert_data.tolist()
-        hexdump(cdl, out_fs=out_fs)
+        if self.cert_data is not None:
+            hexdump(self.cert_data, outfs=out_fs)
 
     def Print(self, out_fs: Optional[BytesIO] = sys.stdout) -> None:
         """Prints the struct to the console."""
-- 
2.43.0


From f6cbff966660a96c2427895c4828eaff44266d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 09/91] fix: reject certificates whose dwLength contradicts the
 header or the buffer

---
 edk2toollib/uefi/wincert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 01e383d..56af57d 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -161,6 +161,9 @@ class WinCertPkcs1(object):
         if (end - fs.tell()) < 1:
             raise ValueError("Invalid File stream. No data for signature cert data")
 
+        if self.Hdr_dwLength < WinCertPkcs1.STATIC_STRUCT_SIZE:
+            raise ValueError("Invalid dwLength")
+
         if (end - fs.tell()) < (self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE):
             raise ValueError("Invalid file stream size")
 
@@ -408,7 +411,7 @@ class WinCertUefiGuid(object):
         (dwLength, wRevision, wCertificateType, cert_type) = struct.unpack(
             self._StructFormat, buffer[0 : self._StructSize]
         )
-        if dwLength < self._StructSize:
+        if dwLength < self._StructSize or dwLength > len(buffer):
             raise ValueError
         if wRevision != WinCert.REVISION:
             raise ValueError
-- 
2.43.0


From e5c2d6fdd042ec722baa6246a820778dfc958769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 10/91] fix: print raw simulator traffic as hex

---
 edk2toollib/tpm/tpm2_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 3f494e5..d3a1a20 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -65,13 +65,13 @@ class TpmSimulator(object):
 
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
-        print("RAW -->: " + str(data).encode("hex"))
+        print("RAW -->: " + bytes(data).hex())
         self.tpmSock.send(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
         data = self.tpmSock.recv(count)
-        print("RAW <--: " + str(data).encode("hex"))
+        print("RAW <--: " + bytes(data).hex())
         return data
 
     def send_data(self, data: str) -> bytes:
-- 
2.43.0


From df4023240e578fd8a9dd69a2eb02fbe11422adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 11/91] fix: close the TPM simulator connections

---
 edk2toollib/tpm/tpm2_simulator.py | 33 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index d3a1a20..55bcc63 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -48,20 +48,29 @@ class TpmSimulator(object):
         """Initialize the simulator on the requested host (ip) and port."""
         super(TpmSimulator, self).__init__()
 
-        # Connect to the control socket.
         self.platSock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-        self.platSock.connect((host, port + 1))
-
-        # Connect to the simulator socket.
         self.tpmSock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-        self.tpmSock.connect((host, port))
-
-        # Power cycle the TPM.
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_OFF"]))
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_ON"]))
-
-        # Enable the NV space.
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
+        try:
+            # Connect to the control socket.
+            self.platSock.connect((host, port + 1))
+
+            # Connect to the simulator socket.
+            self.tpmSock.connect((host, port))
+
+            # Power cycle the TPM.
+            self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_OFF"]))
+            self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_ON"]))
+
+            # Enable the NV space.
+            self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
+        except BaseException:
+            self.close()
+            raise
+
+    def close(self) -> None:
+        """Closes the connections to the simulator."""
+        self.tpmSock.close()
+        self.platSock.close()
 
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
-- 
2.43.0


From 830faa2fdc1d30b61b4b3d02470215129b29335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 12/91] fix: restore the shared log record when formatting it
 fails

---
 edk2toollib/log/ansi_handler.py | 41 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 93c7b3d..8fc7d6b 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -217,25 +217,28 @@ class ColoredFormatter(logging.Formatter):
         levelname = record.levelname
         org_message = record.msg
 
-        if not self.use_azure and levelname in ColoredFormatter.COLORS:
-            # just color the level name
-            if record.levelno < logging.WARNING:
-                levelname_color = get_ansi_string(ColoredFormatter.COLORS[levelname]) + levelname + get_ansi_string()
-            # otherwise color the wholes message
-            else:
-                levelname_color = get_ansi_string(ColoredFormatter.COLORS[levelname]) + levelname
-                record.msg = str(org_message) + get_ansi_string()
-            record.levelname = levelname_color
-
-        if self.use_azure and levelname in ColoredFormatter.AZURE_COLORS:
-            levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
-            record.levelname = levelname_color
-
-        result = logging.Formatter.format(self, record)
-
-        record.levelname = levelname
-        record.msg = org_message
-        return result
+        try:
+            if not self.use_azure and levelname in ColoredFormatter.COLORS:
+                # just color the level name
+                if record.levelno < logging.WARNING:
+                    levelname_color = (
+                        get_ansi_string(ColoredFormatter.COLORS[levelname]) + levelname + get_ansi_string()
+                    )
+                # otherwise color the wholes message
+                else:
+                    levelname_color = get_ansi_string(ColoredFormatter.COLORS[levelname]) + levelname
+                    record.msg = str(org_message) + get_ansi_string()
+                record.levelname = levelname_color
+
+            if self.use_azure and levelname in ColoredFormatter.AZURE_COLORS:
+                levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
+                record.levelname = levelname_color
+
+            return logging.Formatter.format(self, record)
+        finally:
+            # the record is shared with the other handlers
+            record.levelname = levelname
+            record.msg = org_message
 
 
 def get_ansi_string(color: AnsiColor = AnsiColor.RESET) -> str:
-- 
2.43.0


From 6f260dad80ec9ce56b3e262c9daa033ba9b8c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:53 +0000
Subject: [PATCH 13/91] fix: close files when reading, writing or parsing them
 fails

---
 edk2toollib/log/junit_report_format.py            | 15 +++++++--------
 .../uefi/edk2/build_objects/dsc_translator.py     |  9 ++++-----
 edk2toollib/uefi/edk2/parsers/base_parser.py      |  7 +++----
 .../uefi/edk2/parsers/buildreport_parser.py       |  5 ++---
 edk2toollib/uefi/edk2/parsers/dec_parser.py       |  5 ++---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py       | 15 ++++++---------
 edk2toollib/uefi/edk2/parsers/fdf_parser.py       |  5 ++---
 edk2toollib/uefi/edk2/parsers/inf_parser.py       |  5 ++---
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py |  5 ++---
 9 files changed, 30 insertions(+), 41 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 26b1a95..1dd5c77 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -197,11 +197,10 @@ class JunitTestReport(object):
 
     def Output(self, filepath: str) -> None:
         """Write report to file."""
-        f = open(filepath, "w", encoding="utf-8")
-        f.write("")
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
-        f.write("<testsuites>")
-        for a in self.TestSuites:
-            a.Output(f)
-        f.write("</testsuites>")
-        f.close()
+        with open(filepath, "w", encoding="utf-8") as f:
+            f.write("")
+            f.write('<?xml version="1.0" encoding="UTF-8"?>')
+            f.write("<testsuites>")
+            for a in self.TestSuites:
+                a.Output(f)
+            f.write("</testsuites>")
diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 72b7ad3..a62beb6 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -29,11 +29,10 @@ class DscTranslator:
     def dsc_to_file(cls: "DscTranslator", dsc_obj: dsc, filepath: str) -> None:
         """Transforms the DSC object to a file."""
         file_path = os.path.abspath(filepath)
-        f = open(file_path, "w")
-        lines = cls._GetDscLinesFromDscObj(dsc_obj)
-        for line in lines:
-            f.write(line + "\n")
-        f.close()
+        with open(file_path, "w") as f:
+            lines = cls._GetDscLinesFromDscObj(dsc_obj)
+            for line in lines:
+                f.write(line + "\n")
 
     @classmethod
     def _GetDscLinesFromDscObj(cls: "DscTranslator", obj: dsc, depth: int = 0) -> list:
diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c4a8a48..11328e2 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -186,10 +186,9 @@ class BaseParser(object):
           filepath (str): path to an unopened file
         """
         self.Logger.debug("Writing all lines to file: %s" % filepath)
-        file_handle = open(filepath, "w")
-        for line in self.Lines:
-            file_handle.write(line + "\n")
-        file_handle.close()
+        with open(filepath, "w") as file_handle:
+            for line in self.Lines:
+                file_handle.write(line + "\n")
 
     def ComputeResult(self, value: Union[str, int], cond: str, value2: Union[str, int]) -> bool:
         """Compute a logical comaprison.
diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f138bd3..1a3e7d5 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -252,9 +252,8 @@ class BuildReport(object):
             raise Exception("Report File path invalid!")
 
         # read report
-        f = open(self.ReportFile, "r")
-        self._ReportContents = [x.strip() for x in f.readlines()]
-        f.close()
+        with open(self.ReportFile, "r") as f:
+            self._ReportContents = [x.strip() for x in f.readlines()]
         #
         # replace protected words
         #
diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 5ad2fcb..53accb5 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -317,7 +317,6 @@ class DecParser(HashFileParser):
             fp = filepath
         self.Path = fp
 
-        f = open(fp, "r")
-        self.Lines = f.readlines()
-        f.close()
+        with open(fp, "r") as f:
+            self.Lines = f.readlines()
         self._Parse()
diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ff6102d..b94cda2 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -96,9 +96,8 @@ class DscParser(HashFileParser):
                 raise FileNotFoundError(include_file)
             self.Logger.debug("Opening Include File %s" % sp)
             self._PushTargetFile(sp)
-            lf = open(sp, "r")
-            loc = lf.readlines()
-            lf.close()
+            with open(sp, "r") as lf:
+                loc = lf.readlines()
             return ("", loc, sp)
 
         # check for new section
@@ -221,9 +220,8 @@ class DscParser(HashFileParser):
             if sp is None:
                 raise FileNotFoundError(include_file)
             self._PushTargetFile(sp)
-            lf = open(sp, "r")
-            loc = lf.readlines()
-            lf.close()
+            with open(sp, "r") as lf:
+                loc = lf.readlines()
             return ("", loc)
 
         # check for new section
@@ -480,16 +478,15 @@ class DscParser(HashFileParser):
         if sp is None:
             raise FileNotFoundError(filepath)
         self._PushTargetFile(sp)
-        f = open(sp, "r")
         # expand all the lines and include other files
-        file_lines = f.readlines()
+        with open(sp, "r") as f:
+            file_lines = f.readlines()
         self.__ProcessDefines(file_lines)
         self.PcdValueDict = {}
         # reset the parser state before processing more
         self.ResetParserState()
         self._PushTargetFile(sp)
         self.__ProcessMore(file_lines, file_name=sp)
-        f.close()
 
         self._parse_libraries()
         self._parse_components()
diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 90075fa..f19afc6 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -83,10 +83,9 @@ class FdfParser(HashFileParser):
         self.Path = fp
         self.TargetFilePath = os.path.abspath(fp)
         self.CurrentLine = 0
-        self._f = open(fp, "r")
-        self.Lines = self._f.readlines()
+        with open(fp, "r") as self._f:
+            self.Lines = self._f.readlines()
         self.Lines.reverse()
-        self._f.close()
         self._BracketCount = 0
         InDefinesSection = False
         InFdSection = False
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 6adf8e7..22fd06e 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -99,9 +99,8 @@ class InfParser(HashFileParser):
         else:
             fp = filepath
         self.Path = fp
-        f = open(fp, "r")
-        self.Lines = f.readlines()
-        f.close()
+        with open(fp, "r") as f:
+            self.Lines = f.readlines()
         InDefinesSection = False
         InPackagesSection = False
         InLibraryClassSection = False
diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 607496d..726fd27 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -38,9 +38,8 @@ class TargetTxtParser(HashFileParser):
         else:
             fp = filepath
         self.Path = fp
-        f = open(fp, "r")
-        self.Lines = f.readlines()
-        f.close()
+        with open(fp, "r") as f:
+            self.Lines = f.readlines()
 
         for line in self.Lines:
             sline = self.StripComment(line)
-- 
2.43.0


From 9ec8a1a30557a7cca00fd88efddb7b8fc384377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 14/91] fix: report the missing file when a parser cannot find
 it

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py       | 2 ++
 edk2toollib/uefi/edk2/parsers/fdf_parser.py       | 2 ++
 edk2toollib/uefi/edk2/parsers/inf_parser.py       | 2 ++
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 53accb5..4954376 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -315,6 +315,8 @@ class DecParser(HashFileParser):
             fp = self.FindPath(filepath)
         else:
             fp = filepath
+        if fp is None:
+            raise FileNotFoundError(filepath)
         self.Path = fp
 
         with open(fp, "r") as f:
diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index f19afc6..39f6e5f 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -80,6 +80,8 @@ class FdfParser(HashFileParser):
             fp = self.FindPath(filepath)
         else:
             fp = filepath
+        if fp is None:
+            raise FileNotFoundError(filepath)
         self.Path = fp
         self.TargetFilePath = os.path.abspath(fp)
         self.CurrentLine = 0
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 22fd06e..0c495b0 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -98,6 +98,8 @@ class InfParser(HashFileParser):
             fp = self.FindPath(filepath)
         else:
             fp = filepath
+        if fp is None:
+            raise FileNotFoundError(filepath)
         self.Path = fp
         with open(fp, "r") as f:
             self.Lines = f.readlines()
diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 726fd27..1f2f9a0 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -37,6 +37,8 @@ class TargetTxtParser(HashFileParser):
             fp = self.FindPath(filepath)
         else:
             fp = filepath
+        if fp is None:
+            raise FileNotFoundError(filepath)
         self.Path = fp
         with open(fp, "r") as f:
             self.Lines = f.readlines()
-- 
2.43.0


From 4de2c1a1a6f3b06452ce1f7a6836ec5060e55b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 15/91] fix: run chattr without a shell and report its failure

---
 edk2toollib/os/uefivariablesupport.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index eb4e194..b0965b4 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -22,6 +22,7 @@ This module provides:
 import logging
 import os
 import struct
+import subprocess
 import uuid
 from ctypes import create_string_buffer
 
@@ -301,7 +302,12 @@ class UefiVariable(object):
 
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
-                os.system("sudo chattr -i " + path)
+                try:
+                    ret = subprocess.run(["sudo", "chattr", "-i", path]).returncode
+                except OSError as err:
+                    ret = err
+                if ret != 0:
+                    logging.error("Failed to remove the immutable flag of %s: %s" % (path, ret))
 
             with open(path, "wb") as fd:
                 # var data is attribute (UINT32) followed by data
-- 
2.43.0


From 6d35c1af5ae9551548c07e9edf6b8a4c38abeaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 16/91] fix: leave committing a parse to the session owner

---
 edk2toollib/database/tables/instanced_fv_table.py  | 2 +-
 edk2toollib/database/tables/instanced_inf_table.py | 4 +---
 edk2toollib/database/tables/source_table.py        | 1 -
 3 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_fv_table.py b/edk2toollib/database/tables/instanced_fv_table.py
index da758ef..b0475af 100644
--- a/edk2toollib/database/tables/instanced_fv_table.py
+++ b/edk2toollib/database/tables/instanced_fv_table.py
@@ -78,4 +78,4 @@ class InstancedFvTable(TableGenerator):
 
             fv = Fv(env=env_id, name=fv, fdf=self.fdf, infs=[all_components.get(inf) for inf in filtered])
             session.add(fv)
-            session.commit()
+            session.flush()
diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4e0a81b..c0df7c1 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -135,7 +135,7 @@ class InstancedInfTable(TableGenerator):
                 )
             )
         session.add_all(rows)
-        session.commit()
+        session.flush()
 
         all_libraries = {
             (library.path, library.arch, library.cls, library.component): library
@@ -146,8 +146,6 @@ class InstancedInfTable(TableGenerator):
             libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
-        session.commit()
-
     def _build_inf_table(self, dscp: DscP) -> list:
         """Create the instanced inf entries, including components and libraries.
 
diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index cb59b53..a8cbc8a 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -67,7 +67,6 @@ class SourceTable(TableGenerator):
                 to_add[-1].blank_lines = source.blank_lines
 
         session.add_all(to_add)
-        session.commit()
 
         logging.debug(
             f"{self.__class__.__name__}: Parsed {len(src_entries)} files; took {round(time.time() - start, 2)} seconds."
-- 
2.43.0


From 5a94c9138fb2128020dc676911bbddf2333999f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 17/91] fix: reject guid strings followed by other text

---
 edk2toollib/uefi/edk2/parsers/guid_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/guid_parser.py b/edk2toollib/uefi/edk2/parsers/guid_parser.py
index 6e05729..95badcc 100644
--- a/edk2toollib/uefi/edk2/parsers/guid_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/guid_parser.py
@@ -54,8 +54,8 @@ class GuidParser:
           (bool): True if in C format. Otherwise False
 
         """
-        guidstring = guidstring.strip()
-        return cls.GuidCFormatRegEx.match(guidstring)
+        guidstring = guidstring.strip().rstrip("; ")
+        return cls.GuidCFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def is_guid_in_reg_format(cls: "GuidParser", guidstring: str) -> bool:
@@ -68,7 +68,7 @@ class GuidParser:
           (bool): True if in Registry format. Otherwise False
         """
         guidstring = guidstring.strip().strip("} {")
-        return cls.GuidRegFormatRegEx.match(guidstring)
+        return cls.GuidRegFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def reg_guid_from_c_format(cls: "GuidParser", guidstring: str) -> str:
@@ -103,7 +103,7 @@ class GuidParser:
                 int(guidValueList[9], 16),
                 int(guidValueList[10], 16),
             )
-        except Exception:
+        except ValueError:
             return ""
 
     @classmethod
-- 
2.43.0


From e44c3e92ac3d1a7878df94a99e6a49c2ec4aa4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 18/91] fix: warn about PYTOOL_IGNORE_KNOWN_BAD_NESTED_PACKAGES
 when it is set

---
 edk2toollib/uefi/edk2/path_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index c31c385..50e12a5 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -119,7 +119,7 @@ class Edk2Path(object):
                 "detected in your environment. Please remove this environment variable."
             )
             self.logger.log(logging.WARNING, warning)
-        if "PYTOOL_IGNORE_KNOWN_BAD_NESTED_PACKAGES" == os.environ:
+        if "PYTOOL_IGNORE_KNOWN_BAD_NESTED_PACKAGES" in os.environ:
             warning = (
                 "PYTOOL_IGNORE_KNOWN_BAD_NESTED_PACKAGES is no longer used by edk2-pytool-library, but is "
                 "detected in your environment. Please remove this environment variable."
-- 
2.43.0


From e58b2ae6bc53060792ec9c8cc75767f4826b674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 19/91] fix: stop the search for a containing module or package
 at the root

---
 edk2toollib/uefi/edk2/path_utilities.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index 50e12a5..ca2e518 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -302,7 +302,7 @@ class Edk2Path(object):
         else:
             dirpath = InputPath.parent
 
-        while path_root != dirpath:
+        while path_root != dirpath and dirpath != dirpath.parent:
             if dirpath.exists():
                 for f in dirpath.iterdir():
                     if f.suffix.lower() == ".dec":
@@ -344,16 +344,14 @@ class Edk2Path(object):
         all_root_paths = self._package_path_list + [self._workspace_path]
 
         # For each root path, find the maximum allowed root in its hierarchy.
-        maximum_root_paths = all_root_paths
-        for root_path in maximum_root_paths:
-            for other_root_path in maximum_root_paths[:]:
-                if root_path == other_root_path:
-                    continue
-                if root_path.is_relative_to(other_root_path):
-                    if len(root_path.parts) > len(other_root_path.parts):
-                        maximum_root_paths.remove(root_path)
-                    else:
-                        maximum_root_paths.remove(other_root_path)
+        maximum_root_paths = [
+            root_path
+            for root_path in all_root_paths
+            if not any(
+                root_path != other_root_path and root_path.is_relative_to(other_root_path)
+                for other_root_path in all_root_paths
+            )
+        ]
 
         # Verify the file path is within a valid workspace or package path
         # directory.
@@ -389,8 +387,8 @@ class Edk2Path(object):
             # Given a root path is either the workspace or a package path,
             # neither of which are a module directory, once that point is
             # reached, all possible module candidates are exhausted.
-            current_dir = input_path.parent
-            while current_dir not in maximum_root_paths:
+            current_dir = input_path if input_path in maximum_root_paths else input_path.parent
+            while current_dir not in maximum_root_paths and current_dir != current_dir.parent:
                 if current_dir.is_dir():
                     current_dir_inf_files = [
                         str(f) for f in current_dir.iterdir() if f.is_file() and f.suffix.lower() == ".inf"
-- 
2.43.0


From a7d162a9c4f320cbd5b04118286590c61b427895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 20/91] fix: handle paths outside of the workspace and packages
 path

---
 edk2toollib/database/tables/inf_table.py            |  5 +++--
 edk2toollib/database/tables/instanced_fv_table.py   |  6 +++---
 edk2toollib/database/tables/instanced_inf_table.py  | 13 +++++++++----
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py |  2 +-
 edk2toollib/uefi/edk2/parsers/dsc_parser.py         |  6 +++---
 5 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/edk2toollib/database/tables/inf_table.py b/edk2toollib/database/tables/inf_table.py
index 2747ac8..853f268 100644
--- a/edk2toollib/database/tables/inf_table.py
+++ b/edk2toollib/database/tables/inf_table.py
@@ -88,8 +88,9 @@ class InfTable(TableGenerator):
         source_list = []
         for source in inf_parser.Sources:
             source = (Path(filename).parent / source).resolve()
-            source = Path(pathobj.GetEdk2RelativePathFromAbsolutePath(str(source))).as_posix()
-            source_list.append(source)
+            # A source outside of the workspace and packages path keeps its absolute path
+            relative_source = pathobj.GetEdk2RelativePathFromAbsolutePath(str(source))
+            source_list.append(source.as_posix() if relative_source is None else relative_source)
 
         return (
             Inf(
diff --git a/edk2toollib/database/tables/instanced_fv_table.py b/edk2toollib/database/tables/instanced_fv_table.py
index b0475af..003c0b4 100644
--- a/edk2toollib/database/tables/instanced_fv_table.py
+++ b/edk2toollib/database/tables/instanced_fv_table.py
@@ -65,9 +65,9 @@ class InstancedFvTable(TableGenerator):
                 # However in the database, we want the closest match, i.e. "MyPkg/../MyPkg.inf", even if
                 # they are providing ("Subfolder/MyPkg/../MyPkg.inf"). "GetEdk2RelativePathFromAbsolutePath"
                 # always returns the relative path from the closest package path.
-                inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
-                inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(inf)
-                inf_list.append(Path(inf).as_posix())
+                full_inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+                relative_inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(full_inf)
+                inf_list.append(Path(inf if relative_inf is None else relative_inf).as_posix())
 
             filtered = []
             for inf in inf_list:
diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index c0df7c1..8ab901e 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -167,8 +167,10 @@ class InstancedInfTable(TableGenerator):
 
             # Developers can set an inf path to be relative to any package path. Convert it to be the closest
             # package path relative path to the INF, which is done by `GetEdk2RelativePathFromAbsolutePath`
-            inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
-            inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(inf)
+            full_inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+            if full_inf is None:
+                raise FileNotFoundError(inf)
+            inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(full_inf)
 
             logging.debug(f"Parsing Component: [{arch}][{inf}]")
             infp = InfP().SetEdk2Path(self.pathobj)
@@ -257,11 +259,14 @@ class InstancedInfTable(TableGenerator):
 
         source_list = []
         full_inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+        if full_inf is None:
+            raise FileNotFoundError(inf)
         pkg = self.pathobj.GetContainingPackage(full_inf)
         for source in infp.get_sources([arch]):
             source = (Path(full_inf).parent / source).resolve()
-            source = Path(self.pathobj.GetEdk2RelativePathFromAbsolutePath(str(source))).as_posix()
-            source_list.append(source)
+            # A source outside of the workspace and packages path keeps its absolute path
+            relative_source = self.pathobj.GetEdk2RelativePathFromAbsolutePath(str(source))
+            source_list.append(source.as_posix() if relative_source is None else relative_source)
 
         # Return Paths as posix paths, which is Edk2 standard.
         to_return.append(
diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 1a3e7d5..10f86c2 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -327,7 +327,7 @@ class BuildReport(object):
         """
         for k, v in self.Modules.items():
             if os.path.isabs(v.InfPath):
-                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath)
+                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath) or v.InfPath
             if v.InfPath.lower() == InfPath.lower():
                 logging.debug("Found Module by InfPath: %s" % InfPath)
                 return v
diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index b94cda2..d8a83a7 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -351,7 +351,7 @@ class DscParser(HashFileParser):
                 key = f"{scope.strip()}.{lib.strip()}".lower()
                 value = instance.strip()
                 if os.path.isabs(value):
-                    value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value)
+                    value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value) or value
                 if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
                     self.ScopedLibraryDict[key].insert(0, value)
                 else:
@@ -387,7 +387,7 @@ class DscParser(HashFileParser):
                 for scope in current_scopes:
                     # Components without a specific scope (common or empty) are added to all current scopes
                     if os.path.isabs(line.strip(" {")):
-                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {"))
+                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {")) or line
                     if scope == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
                             self.Components.append((line.strip(" {"), arch, library_override_dict))
@@ -448,7 +448,7 @@ class DscParser(HashFileParser):
                 lib, instance = map(str.strip, line.split("|"))
 
                 if os.path.isabs(instance):
-                    instance = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(instance)
+                    instance = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(instance) or instance
 
                 lib = lib.lower()
                 if lib == "null":
-- 
2.43.0


From 1a22816bc9d1fff304bee0ac22a84d85cebbe219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:08 +0000
Subject: [PATCH 21/91] fix: attribute files to the repository that contains
 them

---
 edk2toollib/database/tables/instanced_inf_table.py | 4 ++--
 edk2toollib/database/tables/package_table.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 8ab901e..7dc74ab 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -81,7 +81,7 @@ class InstancedInfTable(TableGenerator):
         all_sources = {source.path: source for source in session.query(Source).all()}
         all_packages = {package.name: package for package in session.query(Package).all()}
         all_repos = {
-            (repo.name, repo.path): repo for repo in session.query(Repository).filter(Repository.path is not None).all()
+            (repo.name, repo.path): repo for repo in session.query(Repository).filter(Repository.path.isnot(None)).all()
         }
         local_repo = session.query(Repository).filter_by(path=None).first()
 
@@ -112,7 +112,7 @@ class InstancedInfTable(TableGenerator):
                     """Return the Repository that contains the INF file."""
                     if repo.path is None:
                         return False
-                    return Path(self.pathobj.WorkspacePath, repo.path).as_posix() in Path(e["FULL_PATH"]).as_posix()
+                    return Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, repo.path))
 
                 repo = next(
                     filter(filter_search, all_repos.values()),
diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8d461e1..8354130 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -57,7 +57,7 @@ class PackageTable(TableGenerator):
             repo_path = None
 
             for submodule in repo.submodules:
-                if submodule.abspath in str(file):
+                if file.is_relative_to(submodule.abspath):
                     containing_repo = submodule.name
                     repo_path = submodule.path
                     break
-- 
2.43.0


From 9ff7a278ff18c53a1c4bd1b88b035d36375baa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 22/91] fix: do not register PCDs of inactive DSC lines

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index d8a83a7..7f03220 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -195,8 +195,7 @@ class DscParser(HashFileParser):
         if len(line_stripped) < 1:
             return ("", [])
 
-        # this line needs to be here to resolve any symbols inside the !include lines, if any
-        self.RegisterPcds(line_stripped)
+        raw_line = line_stripped
         line_stripped = self.ReplacePcds(line_stripped)
         line_resolved = self.ReplaceVariables(line_stripped)
         if self.ProcessConditional(line_resolved):
@@ -210,6 +209,9 @@ class DscParser(HashFileParser):
         if not self.InActiveCode():
             return ("", [])
 
+        # this line needs to be here to resolve any symbols inside the !include lines, if any
+        self.RegisterPcds(raw_line)
+
         # check for include file and import lines from file
         if line_resolved.strip().lower().startswith("!include"):
             # include line.
-- 
2.43.0


From c5c124d676a151f57bb054d30876fb12cc158049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:42 +0000
Subject: [PATCH 23/91] fix: accept DSC define lines without an assignment

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 7f03220..7148c2e 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -251,9 +251,7 @@ class DscParser(HashFileParser):
                 # iterate through the existed LocalVars and try to resolve the symbols
                 for var in self.LocalVars:
                     self.LocalVars[var] = self.ReplaceVariables(self.LocalVars[var])
-                return (line_resolved, [])
-        else:
-            return (line_resolved, [])
+        return (line_resolved, [])
 
     def ParseInfPathLib(self, line: str) -> str:
         """Parses a line with an INF path Lib."""
-- 
2.43.0


From 4a20390ba44124861141ff6bb6397a66510b2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:56 +0000
Subject: [PATCH 24/91] fix: keep all library instances when one is listed
 twice

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 7148c2e..e9a9c26 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -352,10 +352,10 @@ class DscParser(HashFileParser):
                 value = instance.strip()
                 if os.path.isabs(value):
                     value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value) or value
-                if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
-                    self.ScopedLibraryDict[key].insert(0, value)
-                else:
-                    self.ScopedLibraryDict[key] = [value]
+                instances = self.ScopedLibraryDict.setdefault(key, [])
+                if value in instances:
+                    instances.remove(value)
+                instances.insert(0, value)
 
         return
 
-- 
2.43.0


From 5ace652eaec58164431b0636782bf0e5d9b5f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 25/91] fix: reset the component override depth with the DSC
 parser state

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index e9a9c26..a60019b 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -470,6 +470,7 @@ class DscParser(HashFileParser):
         # add more DSC parser based state reset here, if necessary
         #
         super(DscParser, self).ResetParserState()
+        self.ParsingInBuildOption = 0
 
     def ParseFile(self, filepath: str) -> None:
         """Parses the DSC file at the provided path."""
-- 
2.43.0


From fe669cb0d74bac26ad6964a0c01e63b7ab286f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 26/91] fix: resolve nested DSC includes from the including
 file and reject cycles

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index a60019b..8b87e28 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -59,6 +59,7 @@ class DscParser(HashFileParser):
         self.Pcds = []
         self.PcdValueDict = {}
         self._no_fail_mode = False
+        self._target_file_stack = []  # The file being parsed and the files including it
         self._dsc_file_paths = set()  # This includes the full paths for every DSC that makes up the file
 
     def ReplacePcds(self, line: str) -> str:
@@ -280,6 +281,7 @@ class DscParser(HashFileParser):
         if len(lines) == 0:
             return
         for index in range(len(lines)):
+            depth = len(self._target_file_stack)
             # we try here so that we can catch exceptions from individual lines
             try:
                 raw_line = lines[index]
@@ -295,6 +297,8 @@ class DscParser(HashFileParser):
                     # otherwise, let the user know that we failed in the DSC
                     self.Logger.warning(f"DSC Parser (No-Fail Mode): {raw_line}")
                     self.Logger.warning(e)
+            finally:
+                self._PopTargetFiles(depth)
 
     def __ProcessDefines(self, lines: list) -> None:
         """Goes through a file once to look for [Define] sections.
@@ -309,6 +313,7 @@ class DscParser(HashFileParser):
         for raw_line in lines:
             # we want to catch exceptions here since we are doing includes as we potentially might blow up
             # we want to catch on a line by line basis
+            depth = len(self._target_file_stack)
             try:
                 (line, add) = self.__ParseDefineLine(raw_line)
                 self.__ProcessDefines(add)
@@ -317,6 +322,8 @@ class DscParser(HashFileParser):
                 # otherwise, raise the exception and act normally
                 if not self._no_fail_mode:
                     raise
+            finally:
+                self._PopTargetFiles(depth)
 
     def _parse_libraries(self) -> None:
         """Builds a lookup table of all possible library instances depending on scope.
@@ -478,6 +485,7 @@ class DscParser(HashFileParser):
         sp = self.FindPath(filepath)
         if sp is None:
             raise FileNotFoundError(filepath)
+        self._target_file_stack = []
         self._PushTargetFile(sp)
         # expand all the lines and include other files
         with open(sp, "r") as f:
@@ -486,6 +494,7 @@ class DscParser(HashFileParser):
         self.PcdValueDict = {}
         # reset the parser state before processing more
         self.ResetParserState()
+        self._target_file_stack = []
         self._PushTargetFile(sp)
         self.__ProcessMore(file_lines, file_name=sp)
 
@@ -494,9 +503,18 @@ class DscParser(HashFileParser):
         self.Parsed = True
 
     def _PushTargetFile(self, targetFile: str) -> None:
-        self.TargetFilePath = os.path.abspath(targetFile)
+        target = os.path.abspath(targetFile)
+        if target in self._target_file_stack:
+            raise ValueError(f"{target} includes itself")
+        self._target_file_stack.append(target)
+        self.TargetFilePath = target
         self._dsc_file_paths.add(self.TargetFilePath)
 
+    def _PopTargetFiles(self, depth: int) -> None:
+        del self._target_file_stack[depth:]
+        if self._target_file_stack:
+            self.TargetFilePath = self._target_file_stack[-1]
+
     def GetMods(self) -> list:
         """Returns a list with all Mods."""
         return self.ThreeMods + self.SixMods + self.OtherMods
-- 
2.43.0


From 5cd8b6da3b8529bd4939c05bcc4543bc32b5772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 27/91] fix: read any number of skipped FDF lines without
 recursion

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 32 ++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 39f6e5f..49254e0 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -44,27 +44,27 @@ class FdfParser(HashFileParser):
         Performs manipulation on the line like replacing variables,
         processing conditionals, etc.
         """
-        if len(self.Lines) == 0:
-            return None
+        while len(self.Lines) > 0:
+            line = self.Lines.pop()
+            self.CurrentLine += 1
+            sline = self.StripComment(line)
 
-        line = self.Lines.pop()
-        self.CurrentLine += 1
-        sline = self.StripComment(line)
+            if sline is None or len(sline) < 1:
+                continue
 
-        if sline is None or len(sline) < 1:
-            return self.GetNextLine()
+            sline = self.ReplaceVariables(sline)
+            if self.ProcessConditional(sline):
+                # was a conditional so skip
+                continue
+            if not self.InActiveCode():
+                continue
 
-        sline = self.ReplaceVariables(sline)
-        if self.ProcessConditional(sline):
-            # was a conditional so skip
-            return self.GetNextLine()
-        if not self.InActiveCode():
-            return self.GetNextLine()
+            self._BracketCount += sline.count("{")
+            self._BracketCount -= sline.count("}")
 
-        self._BracketCount += sline.count("{")
-        self._BracketCount -= sline.count("}")
+            return sline
 
-        return sline
+        return None
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
-- 
2.43.0


From 727da23d6c6deb4dc28fcb6b9c36d8aadb961084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:27 +0000
Subject: [PATCH 28/91] fix: reject FDF files that include themselves

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 49254e0..532fc3d 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -37,6 +37,7 @@ class FdfParser(HashFileParser):
         self.FDs = {}
         self.CurrentSection = []
         self.Path = ""
+        self._OpenFiles = []  # (file, lines left after it) of the file being parsed and the files including it
 
     def GetNextLine(self) -> str:
         """Returns the next line to parse.
@@ -68,6 +69,12 @@ class FdfParser(HashFileParser):
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
+        target = os.path.abspath(file_path)
+        remaining = len(self.Lines)
+        self._OpenFiles = [(path, left) for (path, left) in self._OpenFiles if left <= remaining]
+        if target in [path for (path, _) in self._OpenFiles]:
+            raise ValueError(f"{target} includes itself")
+        self._OpenFiles.append((target, remaining))
         with open(file_path, "r") as lines_file:
             self.Lines += reversed(lines_file.readlines())
             # Back off the line count to ignore the include line itself.
@@ -84,6 +91,7 @@ class FdfParser(HashFileParser):
             raise FileNotFoundError(filepath)
         self.Path = fp
         self.TargetFilePath = os.path.abspath(fp)
+        self._OpenFiles = [(self.TargetFilePath, 0)]
         self.CurrentLine = 0
         with open(fp, "r") as self._f:
             self.Lines = self._f.readlines()
-- 
2.43.0


From 47d6973d18ea3728fca1371563880b24062fdc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 29/91] fix: report the unterminated FILE section of an FDF

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 532fc3d..f16284c 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -179,7 +179,10 @@ class FdfParser(HashFileParser):
                         self.FVs[section]["Files"][currentName]["type"] = currentType
 
                         while self._BracketCount > 0:  # go until we get our bracket back
-                            sline = self.GetNextLine().strip("}{ ")
+                            sline = self.GetNextLine()
+                            if sline is None:
+                                raise RuntimeError("Missing closing bracket of FILE " + currentName)
+                            sline = sline.strip("}{ ")
                             # SECTION GUIDED EE4E5898-3914-4259-9D6E-DC7BD79403CF
                             if sline.upper().startswith("SECTION GUIDED"):  # get the guided section
                                 section_def = sline[14:].strip().split("=", 1)
-- 
2.43.0


From 166fecc6a19925f7ca1e34d9a9aa539a6d17d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:51 +0000
Subject: [PATCH 30/91] fix: recognise FDF FD and FmpPayload sections
 independently of others

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index f16284c..c00987a 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -152,7 +152,7 @@ class FdfParser(HashFileParser):
 
             elif InFdSection:
                 for section in self.CurrentSection:
-                    if section not in self.FVs:
+                    if section not in self.FDs:
                         self.FDs[section] = {"Dict": {}}
                         # TODO finish the FD section
                 continue
@@ -232,7 +232,7 @@ class FdfParser(HashFileParser):
             elif sline.strip().lower().startswith("[capsule."):
                 InCapsuleSection = True
 
-            elif sline.strip().lower().startswith("[fmpPayload."):
+            elif sline.strip().lower().startswith("[fmppayload."):
                 InFmpPayloadSection = True
 
             elif sline.strip().lower().startswith("[rule."):
-- 
2.43.0


From a15d612465c50113f022cbd7515ef89c2581a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 31/91] fix: check the type of the second operand of a
 comparison

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 11328e2..9aeec49 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -244,7 +244,7 @@ class BaseParser(object):
 
         # check to make sure we only have digits from here on out
         if (isinstance(value, str) and value.upper() in ["TRUE", "FALSE"]) or (
-            isinstance(value, str) and value2.upper() in ["TRUE", "FALSE"]
+            isinstance(value2, str) and value2.upper() in ["TRUE", "FALSE"]
         ):
             self.Logger.error(f"Invalid comparison: {value} {cond} {value2}")
             self.Logger.debug(f"Invalid comparison: {value} {cond} {value2}")
-- 
2.43.0


From d211374fe7a0eb7704b455a8d0035004e6b61a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 32/91] fix: do not activate the else branch of a true ifdef or
 ifndef

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 9aeec49..70158cf 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -440,14 +440,16 @@ class BaseParser(object):
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] != self._MacroNotDefinedValue))
+            result = tokens[1] != self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!ifndef":
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] == self._MacroNotDefinedValue))
+            result = tokens[1] == self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!else":
-- 
2.43.0


From bdbafd989db75ea1ce61fe96d0f5a2f719494b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 33/91] fix: do not evaluate conditionals nested in an inactive
 block

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 70158cf..930b633 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -416,7 +416,12 @@ class BaseParser(object):
             tokens = tokens[0].split() + [tokens[1]] + tokens[2].split()
         else:
             tokens = text.split()
-        if tokens[0].lower() == "!if":
+        if tokens[0].lower() in ["!if", "!ifdef", "!ifndef"] and not self.InActiveCode():
+            # nested in an inactive block: no branch of it can become active
+            self.PushConditional(False, True)
+            return True
+
+        elif tokens[0].lower() == "!if":
             result = self.EvaluateConditional(text)
             self.PushConditional(result, result)
             return True
-- 
2.43.0


From 2362f01d760bcb3bb22ab2e8146ba8304be3fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 34/91] fix: accept lines that become empty or hold a stray
 quote or dollar sign

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 930b633..05ec9e9 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -386,6 +386,8 @@ class BaseParser(object):
         while rep > 0:
             start = line.find("$(", index)
             end = line.find(")", start)
+            if start == -1 or end == -1:
+                break
 
             token = line[start + 2 : end]
             replacement_token = line[start : end + 1]
@@ -411,11 +413,14 @@ class BaseParser(object):
         Returns:
             (bool): true if a line is a conditiona otherwise false
         """
-        if '"' in text:
+        if text.count('"') > 1:
             tokens = text.split('"')
             tokens = tokens[0].split() + [tokens[1]] + tokens[2].split()
         else:
             tokens = text.split()
+        if len(tokens) == 0:
+            # nothing left after replacing variables
+            return False
         if tokens[0].lower() in ["!if", "!ifdef", "!ifndef"] and not self.InActiveCode():
             # nested in an inactive block: no branch of it can become active
             self.PushConditional(False, True)
-- 
2.43.0


From 2f0dd13b62919b338e64d1965e719d783098dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:17 +0000
Subject: [PATCH 35/91] fix: parse ignore patterns made of wildcards and
 separators only

---
 edk2toollib/gitignore_parser.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 513e407..a1ee630 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -110,8 +110,8 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     pattern = re.sub(r"([^/])\*{2,}", r"\1*", pattern)
     pattern = re.sub(r"\*{2,}([^/])", r"*\1", pattern)
 
-    # Special-casing '/', which doesn't match any files or directories
-    if pattern.rstrip() == "/":
+    # Special-casing '/' and '//', an empty pattern and a lone escape, which don't match any files or directories
+    if pattern.rstrip() in ("", "/", "//", "\\"):
         return
 
     directory_only = pattern[-1] == "/"
@@ -123,13 +123,16 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     if pattern[0] == "*" and len(pattern) >= 2 and pattern[1] == "*":
         pattern = pattern[2:]
         anchored = False
-    if pattern[0] == "/":
+    if pattern.startswith("/"):
         pattern = pattern[1:]
-    if pattern[-1] == "/":
+    if pattern.endswith("/"):
         pattern = pattern[:-1]
+    if pattern == "":
+        # only asterisks and slashes: any name matches
+        pattern = "*"
     # patterns with leading hashes or exclamation marks are escaped with a
     # backslash in front, unescape it
-    if pattern[0] == "\\" and pattern[1] in ("#", "!"):
+    if pattern.startswith(("\\#", "\\!")):
         pattern = pattern[1:]
     # trailing spaces are ignored unless they are escaped with a backslash
     i = len(pattern) - 1
@@ -255,6 +258,13 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
             else:
                 stuff = pattern[i:j].replace("\\", "\\\\").replace("/", "")
                 i = j + 1
+                if stuff == "":
+                    # only separators, which a set never matches
+                    res.append("(?!)")
+                    continue
+                if stuff in ("!", "^"):
+                    res.append(nonsep)
+                    continue
                 if stuff[0] == "!":
                     stuff = "".join(["^", stuff[1:]])
                 elif stuff[0] == "^":
-- 
2.43.0


From b17045cfecce5613d2254ba93a7b0159b50cb85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 36/91] fix: give each INF its own list of supported phases

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 0c495b0..f8a4722 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -141,9 +141,9 @@ class InfParser(HashFileParser):
                             self.LibraryClass = tokens[1].partition("|")[0].strip()
                             self.Logger.debug("Library class found")
                             if len(tokens[1].partition("|")[2].strip()) < 1:
-                                self.SupportedPhases = AllPhases
+                                self.SupportedPhases = AllPhases.copy()
                             elif tokens[1].partition("|")[2].strip().lower() == "base":
-                                self.SupportedPhases = AllPhases
+                                self.SupportedPhases = AllPhases.copy()
                             else:
                                 self.SupportedPhases = tokens[1].partition("|")[2].strip().split()
 
-- 
2.43.0


From 771f7a07fa3b02e6aefbbea334435ebe269ab3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:16 +0000
Subject: [PATCH 37/91] fix: do not take INF sources named like a section for a
 section header

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index f8a4722..7be8753 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -263,13 +263,15 @@ class InfParser(HashFileParser):
 
             line = self.ReplaceVariables(line)
 
+            # a file or library may be named like a section, i.e. Resources.c
+            is_section = line.startswith("[")
             match = self.SECTION_LIBRARY.findall(line)
-            if match:
+            if is_section and match:
                 current_section = "LibraryClasses"
                 arch_list = match
                 continue
             match = self.SECTION_SOURCE.findall(line)
-            if match:
+            if is_section and match:
                 current_section = "Sources"
                 arch_list = match
                 continue
-- 
2.43.0


From 8c567edec259343c3f80151fdc0049efc7103616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 38/91] fix: report truncated override lines and build reports

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 6 ++++++
 edk2toollib/uefi/edk2/parsers/override_parser.py    | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 10f86c2..525228a 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -191,6 +191,8 @@ class ModuleSummary(object):
                                 self.Type = value[value.index("(") + 1 : -1]
 
                 i += 1
+        except IndexError as exc:
+            raise ValueError("Module summary ends within an entry") from exc
         except Exception:
             logging.debug("Exception in Parsing: %d" % i)
             raise
@@ -272,6 +274,8 @@ class BuildReport(object):
         while linenum is not None:
             start = linenum
             end = self._GetEndOfRegion(start)
+            if end is None:
+                raise ValueError("Report ends within the region starting at line %d" % start)
             type = self._GetRegionType(start)
             self._Regions.append((type, start, end))
             linenum = self._GetNextRegionStart(linenum)
@@ -282,6 +286,8 @@ class BuildReport(object):
         # we do it after parsing region because we
         # can limit scope to 0 - first start
         #
+        if not self._Regions:
+            raise ValueError("No region found in report %s" % self.ReportFile)
         for n in range(self._Regions[0][1]):  # loop thru from 0 to start of first region
             line = self._ReportContents[n].strip()
             line_partitioned = line.partition(":")
diff --git a/edk2toollib/uefi/edk2/parsers/override_parser.py b/edk2toollib/uefi/edk2/parsers/override_parser.py
index 3202b71..53fd7a1 100644
--- a/edk2toollib/uefi/edk2/parsers/override_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/override_parser.py
@@ -139,6 +139,8 @@ class OverrideParser(object):
         # First the #OVERRIDE, which is separated by a :.
         # Then everything else by |.
         line_parts = line_contents.split(":")
+        if len(line_parts) < 2:
+            raise OpParseError(OpParseError.PE_VER)
         line_parts = [part.strip() for part in line_parts[1].split("|")]
 
         # Step 1: Check version and number of blocks in this entry
-- 
2.43.0


From 130841af884f871b0e7f91fa71730a063f56b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 39/91] fix: recognise indented INF section headers followed by
 a comment

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 7be8753..28d67a9 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -264,7 +264,7 @@ class InfParser(HashFileParser):
             line = self.ReplaceVariables(line)
 
             # a file or library may be named like a section, i.e. Resources.c
-            is_section = line.startswith("[")
+            is_section = line.lstrip().startswith("[")
             match = self.SECTION_LIBRARY.findall(line)
             if is_section and match:
                 current_section = "LibraryClasses"
-- 
2.43.0


From 1ea79fec8a2f4e1e13274d3a01793b752509f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 40/91] fix: reject DMAR structures and device scopes with an
 invalid length

---
 edk2toollib/acpi/dmar_parser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8633978..88439ba 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -27,6 +27,8 @@ class DMARTable(object):
     ASTRHeaderLength = 8
     ANDDHeaderLength = 8
     DeviceScopeHeaderLength = 6
+    # Shortest remapping struct of each type
+    MinimumLength = {0: 16, 1: 24, 2: 8, 3: 20, 4: 8}
 
     def __init__(self, data: bytes) -> "DMARTable":
         """Inits the object."""
@@ -37,6 +39,9 @@ class DMARTable(object):
             remapping_header = self.RemappingStructHeader(self.data)
             assert remapping_header.Type < 5, "Reserved remapping struct found in DMAR table"
 
+            if not self.MinimumLength[remapping_header.Type] <= remapping_header.Length <= len(self.data):
+                raise ValueError("Invalid remapping struct length %d" % remapping_header.Length)
+
             # Parse remapping struct
             if remapping_header.Type == 0:
                 remapping_header = self.DRHDStruct(self.data, remapping_header.Length)
@@ -212,6 +217,8 @@ class DMARTable(object):
             bytes_left = self.Length - DMARTable.DRDHHeaderLength
             while bytes_left > 0:
                 device_scope = DMARTable.DeviceScopeStruct(header_byte_array)
+                if device_scope.Length > bytes_left:
+                    raise ValueError("Device scope exceeds its remapping struct")
                 header_byte_array = header_byte_array[device_scope.Length :]
                 bytes_left -= device_scope.Length
                 self.DeviceScope.append(device_scope)
@@ -276,6 +283,8 @@ class DMARTable(object):
             bytes_left = self.Length - DMARTable.RMRRHeaderLength
             while bytes_left > 0:
                 device_scope = DMARTable.DeviceScopeStruct(header_byte_array)
+                if device_scope.Length > bytes_left:
+                    raise ValueError("Device scope exceeds its remapping struct")
                 header_byte_array = header_byte_array[device_scope.Length :]
                 bytes_left -= device_scope.Length
                 self.DeviceScope.append(device_scope)
@@ -350,6 +359,8 @@ class DMARTable(object):
             bytes_left = self.Length - DMARTable.ASTRHeaderLength
             while bytes_left > 0:
                 device_scope = DMARTable.DeviceScopeStruct(header_byte_array)
+                if device_scope.Length > bytes_left:
+                    raise ValueError("Device scope exceeds its remapping struct")
                 header_byte_array = header_byte_array[device_scope.Length :]
                 bytes_left -= device_scope.Length
                 self.DeviceScope.append(device_scope)
@@ -478,6 +489,8 @@ class DMARTable(object):
             )
 
             assert self.Type < 6, "Reserved Device Scope Type Found"
+            if self.Length < DMARTable.DeviceScopeHeaderLength or self.Length % 2 != 0:
+                raise ValueError("Invalid device scope length %d" % self.Length)
 
             if self.Type == 1:
                 self.TypeString = "PCI Endpoint Device"
-- 
2.43.0


From 77b75efd7b1bf6dcd9f7bcb7c870c6efa5c56ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 41/91] fix: create default BMP objects and print their color
 map

---
 edk2toollib/uefi/bmp_object.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 70bdae1..46eb6b9 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -71,7 +71,7 @@ class BmpColorMap(object):
 
     def Print(self) -> None:
         """Logs the object."""
-        logger = logging.get(__name__)
+        logger = logging.getLogger(__name__)
         logger.info("BMP Color Map")
         logger.info("  Blue:           0x%X" % self.Blue)
         logger.info("  Green:          0x%X" % self.Green)
@@ -118,13 +118,13 @@ class BmpObject(object):
         """Inits an empty object or loads from filestream."""
         self.logger = logging.getLogger(__name__)
         if filestream is None:
-            self.CharB = "B"
-            self.CharM = "M"
-            self.Size = BmpObject.STATIC_STRUCT_SIZE
+            self.CharB = b"B"
+            self.CharM = b"M"
+            self.Size = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.Rsvd16_1 = 0
             self.Rsvd16_2 = 0
-            self.ImageOffset = BmpObject.STATIC_STRUCT_SIZE
-            self.HeaderSize = BmpObject.STATIC_STRUCT_SIZE
+            self.ImageOffset = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
+            self.HeaderSize = BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.PixelWidth = 0
             self.PixelHeight = 0
             self.Planes = 1
-- 
2.43.0


From b634b47841af43e750befd258dbcbbc6708c01b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 42/91] fix: write the BMP padding and drop the previous image
 when populating again

---
 edk2toollib/uefi/bmp_object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 46eb6b9..05e02f6 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -142,7 +142,7 @@ class BmpObject(object):
             self.ColorMapList = []
         else:
             self.ImageData = None
-            self.Padding = None
+            self._Padding = None
             self._PaddingLength = 0
             self.ColorMapList = []
             self.PopulateFromFileStream(filestream)
@@ -217,6 +217,10 @@ class BmpObject(object):
                 % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
             )
 
+        self.ColorMapList = []
+        self._Padding = None
+        self._PaddingLength = 0
+
         StartOfImageData = offset + self.ImageOffset
         if fs.tell() < StartOfImageData:
             # Handle any color maps
@@ -331,7 +335,7 @@ class BmpObject(object):
 
         # padding
         if self._PaddingLength > 0:
-            fs.write(self.Padding)
+            fs.write(self._Padding)
 
         # Pixel data
         if self.ImageData:
-- 
2.43.0


From 4da8fb5926632220196a89f82d1513c111580253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:04 +0000
Subject: [PATCH 43/91] fix: drop the previous IVRS sub structures when
 decoding again

---
 edk2toollib/acpi/ivrs_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index 1605281..fb28ce6 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -33,6 +33,10 @@ class IVRS_TABLE(object):
         """Loads data into the object from the header_byte_array."""
         self.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(data[: IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size])
 
+        self.IVRSBit = self.acpi_header.IVRSBit
+        self.SubStructs = list()
+        self.IVMD_list = list()
+
         # Start from the end of ACPI header, but store the parsed length for verification
         t_length = self.acpi_header.Length
         self.acpi_header.Length = IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size
@@ -315,7 +319,10 @@ class IVRS_TABLE(object):
                 )
             else:
                 ivhd_hdr_size = IVRS_TABLE.IVHD_STRUCT.struct_format_size
+                self.IOMMUEFRImage = None
+                self.Reserved = 0
 
+            self.DeviceTableEntries = list()
             header_byte_array = header_byte_array[ivhd_hdr_size:]
             bytes_left = t_Length - ivhd_hdr_size
             self.Length += ivhd_hdr_size
-- 
2.43.0


From 11b89071c8e6a532c80eb3e4ee55f051a65cb8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 44/91] fix: reject unknown IVRS device entry types and UID
 formats

---
 edk2toollib/acpi/ivrs_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index fb28ce6..01870fe 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -572,7 +572,7 @@ class IVRS_TABLE(object):
             elif Type == IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ACPI:
                 return IVRS_TABLE.DEVICE_TABLE_ENTRY_ACPI(data)
             else:
-                return None
+                raise Exception("Unrecognized device table entry type %d" % Type)
 
     class DEVICE_TABLE_ENTRY_RESERVED(object):
         """Object representing a Device Table Entry RESERVED."""
@@ -1236,6 +1236,8 @@ class IVRS_TABLE(object):
                 (self.UID,) = struct.unpack(
                     "=%ss" % self.UIDLength, header_byte_array[IVRS_TABLE.DEVICE_TABLE_ENTRY.dte_var_len : self.Length]
                 )
+            else:
+                raise Exception("Unrecognized UID format detected %d" % self.UIDFormat)
 
         def Encode(self) -> bytes:
             r"""Serializes the object.
-- 
2.43.0


From fad76e483862c033b1e4a74568499d1129dd4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:28 +0000
Subject: [PATCH 45/91] fix: show the IVMD block length and the type of select
 entries

---
 edk2toollib/acpi/ivrs_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index 01870fe..6b9a275 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -515,7 +515,7 @@ class IVRS_TABLE(object):
             )
             print(
                 "\tIVMD Memory Block Length             : 0x{IVMDMemoryBlockLength:016X}".format(
-                    IVMDMemoryBlockLength=self.Type
+                    IVMDMemoryBlockLength=self.IVMDMemoryBlockLength
                 )
             )
 
@@ -703,7 +703,7 @@ class IVRS_TABLE(object):
                     % (self.Type, IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.SELECT)
                 )
 
-            self.TypeString = "Reserved"
+            self.TypeString = "Select"
             self.Length = IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
-- 
2.43.0


From 942e8b95c5695dee0c73408ee56184ff350fe77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 46/91] fix: FmpAuthHeaderClass.IsSigned never recognised a
 signed buffer

---
 edk2toollib/uefi/fmp_auth_header.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index baf271e..cc438b9 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -93,10 +93,11 @@ class FmpAuthHeaderClass(object):
         if len(Buffer) < self._MonotonicCountSize:
             return False
 
-        auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
-        if auth_info.CertType != WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
+        try:
+            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
+        except ValueError:
             return False
-        return True
+        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
 
     def DumpInfo(self) -> None:
         """Prints object to console."""
-- 
2.43.0


From c3d247f7dcb78d60912f9ad91f478bbcc0b828c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 47/91] fix: drop nested headers of a previous decode of
 capsule structures

---
 edk2toollib/uefi/fmp_auth_header.py     | 1 +
 edk2toollib/uefi/fmp_capsule_header.py  | 1 +
 edk2toollib/uefi/uefi_capsule_header.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index cc438b9..cd5b0f7 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -77,6 +77,7 @@ class FmpAuthHeaderClass(object):
         self.MonotonicCount = MonotonicCount
 
         self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
             self.FmpPayloadHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 31ceee8..721e715 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -132,6 +132,7 @@ class FmpCapsuleImageHeaderClass(object):
         self.UpdateVendorCodeSize = UpdateVendorCodeSize
         self.UpdateHardwareInstance = UpdateHardwareInstance
         self.Payload = Buffer[self._StructSize : self._StructSize + UpdateImageSize]
+        self.FmpAuthHeader = None
         if len(self.Payload) > 0:
             self.FmpAuthHeader = FmpAuthHeaderClass()
             self.FmpAuthHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4699798..4f8ac4e 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -121,6 +121,7 @@ class UefiCapsuleHeaderClass(object):
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
         self.Payload = Buffer[self.HeaderSize :]
+        self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
             self.FmpCapsuleHeader.Decode(self.Payload)
-- 
2.43.0


From c998debffdf818db437f7abb143df4fb1ee1b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 48/91] fix: count decoded FMP capsule items once

---
 edk2toollib/uefi/fmp_capsule_header.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 721e715..acdcc9f 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -295,8 +295,9 @@ class FmpCapsuleHeaderClass(object):
             raise ValueError
 
         self.Version = Version
-        self.EmbeddedDriverCount = EmbeddedDriverCount
-        self.PayloadItemCount = PayloadItemCount
+        # counted by AddEmbeddedDriver and AddFmpCapsuleImageHeader
+        self.EmbeddedDriverCount = 0
+        self.PayloadItemCount = 0
         self._EmbeddedDriverList = []
         self._FmpCapsuleImageHeaderList = []
 
-- 
2.43.0


From ce9a104f0b368f160da6fb918b3529063f8320fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 49/91] fix: reject capsule headers and item lists longer than
 the buffer

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 2 +-
 edk2toollib/uefi/fmp_capsule_header.py      | 2 ++
 edk2toollib/uefi/uefi_capsule_header.py     | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index c384857..7878543 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -82,7 +82,7 @@ class FmpPayloadHeaderClass(object):
         )
         if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
             raise ValueError
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         self.Signature = Signature
         self.HeaderSize = HeaderSize
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index acdcc9f..abadb8d 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -307,6 +307,8 @@ class FmpCapsuleHeaderClass(object):
         # Parse the ItemOffsetList values
         #
         Offset = self._StructSize
+        if len(Buffer) < Offset + (EmbeddedDriverCount + PayloadItemCount) * self._ItemOffsetSize:
+            raise ValueError
         for Index in range(EmbeddedDriverCount + PayloadItemCount):
             ItemOffset = struct.unpack(self._ItemOffsetFormat, Buffer[Offset : Offset + self._ItemOffsetSize])[0]
             if ItemOffset >= len(Buffer):
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4f8ac4e..103f5f0 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -109,7 +109,7 @@ class UefiCapsuleHeaderClass(object):
         (CapsuleGuid, HeaderSize, Flags, CapsuleImageSize, Reserved) = struct.unpack(
             self._StructFormat, Buffer[0 : self._StructSize]
         )
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         if CapsuleImageSize != len(Buffer):
             raise ValueError
-- 
2.43.0


From 7f3c7a957e6e378264a2c77eccb842c08ef044d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 50/91] fix: keep the extended part of capsule and FMP payload
 headers

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 5 ++++-
 edk2toollib/uefi/uefi_capsule_header.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index 7878543..cd99a5e 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -48,6 +48,7 @@ class FmpPayloadHeaderClass(object):
         self.HeaderSize = self._StructSize
         self.FwVersion = 0x00000000
         self.LowestSupportedVersion = 0x00000000
+        self.ExtendedHeader = b""
         self.Payload = b""
 
     def Encode(self) -> bytes:
@@ -56,10 +57,11 @@ class FmpPayloadHeaderClass(object):
         Returns:
             (bytes): string representing packed data as bytes (i.e. b'\x01\x00\x03')
         """
+        self.HeaderSize = self._StructSize + len(self.ExtendedHeader)
         FmpPayloadHeader = struct.pack(
             self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
         )
-        return FmpPayloadHeader + self.Payload
+        return FmpPayloadHeader + self.ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: bytes) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -88,6 +90,7 @@ class FmpPayloadHeaderClass(object):
         self.HeaderSize = HeaderSize
         self.FwVersion = FwVersion
         self.LowestSupportedVersion = LowestSupportedVersion
+        self.ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
 
         return self.Payload
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 103f5f0..ab5574a 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -61,6 +61,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = False
         self.InitiateReset = False
         self.CapsuleImageSize = self.HeaderSize
+        self.ExtendedHeader = b""
         self.Payload = b""
         self.FmpCapsuleHeader = None
 
@@ -82,13 +83,14 @@ class UefiCapsuleHeaderClass(object):
         if self.FmpCapsuleHeader is not None:
             self.Payload = self.FmpCapsuleHeader.Encode()
 
+        self.HeaderSize = self._StructSize + len(self.ExtendedHeader)
         self.CapsuleImageSize = self.HeaderSize + len(self.Payload)
 
         UefiCapsuleHeader = struct.pack(
             self._StructFormat, self.CapsuleGuid.bytes_le, self.HeaderSize, Flags, self.CapsuleImageSize, 0
         )
 
-        return UefiCapsuleHeader + self.Payload
+        return UefiCapsuleHeader + self.ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: BytesIO) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -120,6 +122,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
+        self.ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
         self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
-- 
2.43.0


From b484fc7e33fbaf350040607b3bad3cc1f41a66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 51/91] fix: use the current time of the call, not of the
 import, as the default EFI time

---
 .../authenticated_variables_structure_support.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 25a7cf5..1c381b3 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1093,15 +1093,15 @@ class EfiTime(CommonUefiStructure):
     _struct_format = "<H6BLh2B"
     _struct_size = struct.calcsize(_struct_format)
 
-    def __init__(self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None) -> "EfiTime":
+    def __init__(self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None) -> "EfiTime":
         """Inits an EFI_TIME object.
 
         Args:
-            time: Inits object with specified date (if decodefs not set)
+            time: Inits object with specified date, or the current one (if decodefs not set)
             decodefs: Inits the object with this stream
         """
         if decodefs is None:
-            self.time = time
+            self.time = datetime.datetime.now() if time is None else time
         else:
             self.decode(decodefs)
 
@@ -1243,12 +1243,12 @@ class EfiVariableAuthentication2(CommonUefiStructure):
     """An object representing a EFI_VARIABLE_AUTHENTICATION_2."""
 
     def __init__(
-        self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None
+        self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None
     ) -> "EfiVariableAuthentication2":
         """Inits an EFI_VARIABLE_AUTHENTICATION_2 object.
 
         Args:
-            time: Inits object with specified date (if decodefs not set)
+            time: Inits object with specified date, or the current one (if decodefs not set)
             decodefs: Inits the object with this stream
         """
         if decodefs:
@@ -1429,7 +1429,7 @@ class EfiVariableAuthentication2Builder(object):
         guid: str,
         attributes: Union[int, str],
         payload: Optional[Union[io.BytesIO, bytes]] = None,
-        efi_time: datetime.datetime = datetime.datetime.now(),
+        efi_time: Optional[datetime.datetime] = None,
     ) -> "EfiVariableAuthentication2Builder":
         """Builds a EfiVariableAuthentication2 structure.
 
@@ -1439,7 +1439,7 @@ class EfiVariableAuthentication2Builder(object):
             attributes (int | str): Attributes of the UEFI variable
             payload (io.BytesIO | bytes): binary payload to be signed and used as the value
                 of the variable
-            efi_time (time.datetime): EFI time of the datetime object
+            efi_time (time.datetime): EFI time of the datetime object, or the current one
 
         """
         self.signature = b""
@@ -1601,7 +1601,7 @@ class EFiVariableAuthentication2(EfiVariableAuthentication2):
     """An object representing a EFI_VARIABLE_AUTHENTICATION_2. DEPRECATED."""
 
     def __init__(
-        self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None
+        self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None
     ) -> "EFiVariableAuthentication2":
         """DEPRECATED. Use EfiVariableAuthentication2() instead. Initializes a EFiVariableAuthentication2."""
         warn(
-- 
2.43.0


From 89a9e0b53fb97c6835286de48af422a090b98396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 52/91] fix: drop the previous payload when an authenticated
 variable is given a new one

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 1c381b3..b452f12 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1397,6 +1397,10 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         if fs is None:
             raise ValueError("Invalid File Input Stream")
 
+        # Nothing of an earlier payload survives
+        self.payload = None
+        self.sig_list_payload = None
+
         # Find the payload size
         start = fs.tell()
         fs.seek(0, 2)
-- 
2.43.0


From 46dc435f59bd927c28352c5b0b45fd8e4e6dd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:10 +0000
Subject: [PATCH 53/91] fix: an empty payload replaces the previous payload in
 the digest and the variable

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index b452f12..311bc71 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1497,6 +1497,8 @@ class EfiVariableAuthentication2Builder(object):
         # if provided with a payload, the serialized payload must be added to the Digest to be signed
         if not payload:
             logging.info("Empty payload")
+            self.digest = self.digest_without_payload
+            self.authenticated_variable.set_payload(io.BytesIO())
             return
 
         # convert the payload to a file stream for SetPayload
-- 
2.43.0


From ad6c02c9ac0b677f5e0546c75c24db028871182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 54/91] fix: the variable store type follows the store loaded
 last

---
 edk2toollib/uefi/edk2/variable_format.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 1b4ecb7..72909e8 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -81,8 +81,7 @@ class VariableStoreHeader(object):
         # Check one last thing.
         if self.Signature != EfiVariableGuid and self.Signature != EfiAuthenticatedVariableGuid:
             raise Exception("VarStore is of unknown type! %s" % self.Signature)
-        if self.Signature == EfiAuthenticatedVariableGuid:
-            self.Type = "AuthVar"
+        self.Type = "AuthVar" if self.Signature == EfiAuthenticatedVariableGuid else "Var"
 
         return self
 
-- 
2.43.0


From 8edc76902fedfacfaaaf352ae22253d7445792d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 55/91] fix: decoding a policy entry drops the previous name
 and lock policy

---
 edk2toollib/uefi/edk2/variable_policy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 5843a93..3aca037 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -227,6 +227,9 @@ class VariablePolicyEntry(object):
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
+        self.Name = None
+        self.LockPolicy = None
+
         if self.OffsetToName != self.Size:
             self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
 
-- 
2.43.0


From c4bcfc0bd2bd7daf80bc79e500c62eb4460778f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:16 +0000
Subject: [PATCH 56/91] fix: reject a policy entry whose sizes contradict each
 other or the buffer

---
 edk2toollib/uefi/edk2/variable_policy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 3aca037..8d26bed 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -55,7 +55,7 @@ class VariableLockOnVarStatePolicy(object):
             raise ValueError("Buffer too short!")
 
         string_end = None
-        for i in range(0, len(buffer), 2):
+        for i in range(0, len(buffer) - 1, 2):
             if buffer[i] == 0 and buffer[i + 1] == 0:
                 string_end = i + 2
                 break
@@ -224,6 +224,8 @@ class VariablePolicyEntry(object):
             raise ValueError("Unknown structure version!")
         if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
             raise ValueError("Unknown LockPolicyType!")
+        if not self._HdrStructSize <= self.OffsetToName <= self.Size <= len(buffer):
+            raise ValueError("Invalid structure size!")
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
-- 
2.43.0


From 5c59875eb888536ddb2091dacc01fcfb7beb791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:28 +0000
Subject: [PATCH 57/91] fix: encoding a SHA256 signature no longer goes through
 the deprecated Write()

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 311bc71..ba73285 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -448,7 +448,7 @@ class EfiSignatureDataEfiCertSha256(CommonUefiStructure):
     def encode(self) -> bytes:
         """Return bytes array produced by Write()."""
         with io.BytesIO() as fs:
-            self.Write(fs)
+            self.write(fs)
             return fs.getvalue()
 
     def GetBytes(self) -> bytes:
-- 
2.43.0


From f9e679e1bc9af327887c0ca927d3e7911ac77594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:06 +0000
Subject: [PATCH 58/91] fix: computing the canonical database leaves the
 original unchanged

---
 .../uefi/authenticated_variables_structure_support.py        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index ba73285..6de9e73 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -11,6 +11,7 @@ Each object can be created and or populated from a file stream.
 Each object can be written to a filesteam as binary and printed to the console in text.
 """
 
+import copy
 import datetime
 import hashlib
 import io
@@ -1014,7 +1015,9 @@ class EfiSignatureDatabase(CommonUefiStructure):
                 continue
             if Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
                 if sha256esl is None:
-                    sha256esl = Esl  # initialize it
+                    # initialize it with a copy, self is not changed by merging and sorting
+                    sha256esl = copy.copy(Esl)
+                    sha256esl.signature_data_list = list(Esl.signature_data_list)
                 else:
                     sha256esl.MergeSignatureList(Esl)
             elif Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
-- 
2.43.0


From 9c7c7076be53886d8a52cee8245720ab90dbb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 59/91] fix: equal certificates held in different objects are
 duplicates

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 6de9e73..7912a1a 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1046,7 +1046,9 @@ class EfiSignatureDatabase(CommonUefiStructure):
             for esl in x509eslList:
                 if not canonicalDb.esl_list:
                     canonicalDb.esl_list.append(esl)
-                elif esl == canonicalDb.esl_list[-1]:
+                elif [data.signature_data for data in esl.signature_data_list] == [
+                    data.signature_data for data in canonicalDb.esl_list[-1].signature_data_list
+                ]:
                     duplicatesDb.esl_list.append(esl)
                 else:
                     canonicalDb.esl_list.append(esl)
-- 
2.43.0


From bd3b1c9fcc2b8fa7778afd6086acc5bd942bf8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:36 +0000
Subject: [PATCH 60/91] fix: FMP auth header uses the current certificate
 functions, not the deprecated ones

---
 edk2toollib/uefi/fmp_auth_header.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index cd5b0f7..2fcf7e1 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -55,9 +55,9 @@ class FmpAuthHeaderClass(object):
         FmpAuthHeader = struct.pack(self._MonotonicCountFormat, self.MonotonicCount)
 
         if self.FmpPayloadHeader is not None:
-            return FmpAuthHeader + self.AuthInfo.Encode() + self.FmpPayloadHeader.Encode()
+            return FmpAuthHeader + self.AuthInfo.encode() + self.FmpPayloadHeader.Encode()
         else:
-            return FmpAuthHeader + self.AuthInfo.Encode() + self.Payload
+            return FmpAuthHeader + self.AuthInfo.encode() + self.Payload
 
     def Decode(self, Buffer: IO) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -76,7 +76,7 @@ class FmpAuthHeaderClass(object):
         (MonotonicCount,) = struct.unpack(self._MonotonicCountFormat, Buffer[: self._MonotonicCountSize])
         self.MonotonicCount = MonotonicCount
 
-        self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.Payload = self.AuthInfo.decode(Buffer[self._MonotonicCountSize :])
         self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
@@ -107,7 +107,7 @@ class FmpAuthHeaderClass(object):
                 MonotonicCount=self.MonotonicCount
             )
         )
-        self.AuthInfo.DumpInfo()
+        self.AuthInfo.dump_info()
         print(
             "sizeof (Payload)                                                = {Size:08X}".format(
                 Size=len(self.Payload)
-- 
2.43.0


From 05a3351390097d56b51a83261f6993656790a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:48 +0000
Subject: [PATCH 61/91] fix: signature database and authenticated variable
 wrappers announce their deprecation

---
 .../uefi/authenticated_variables_structure_support.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 7912a1a..e5024a3 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -901,7 +901,7 @@ class EfiSignatureDatabase(CommonUefiStructure):
         """
         if filestream:
             self.esl_list = []
-            self.PopulateFromFileStream(filestream)
+            self.decode(filestream)
         else:
             self.esl_list = [] if esl_list is None else esl_list
 
@@ -949,6 +949,7 @@ class EfiSignatureDatabase(CommonUefiStructure):
             (Exception): Invalid filestream
             (Exception): Invalid filestream size
         """
+        warn("PopulateFromFileStream() is deprecated, use decode() instead.", DeprecationWarning, 2)
         return self.decode(fs)
 
     def print(self, compact: bool = False, outfs: IO = sys.stdout) -> None:
@@ -983,7 +984,7 @@ class EfiSignatureDatabase(CommonUefiStructure):
 
     def GetBytes(self) -> bytes:
         """Return bytes array produced by Write()."""
-        warn("GetBytes() is deprecated, use encode() instead.")
+        warn("GetBytes() is deprecated, use encode() instead.", DeprecationWarning, 2)
         return self.encode()
 
     def encode(self) -> bytes:
@@ -1376,6 +1377,7 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         Raises:
             (ValueError): Invalid filestream
         """
+        warn("Write() is deprecated, use write() instead.", DeprecationWarning, 2)
         return self.write(fs)
 
     def SetPayload(self, fs: BinaryIO) -> None:
-- 
2.43.0


From 3fc1bcdad43baa2eaae2d274e9d74568df827842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 62/91] fix: signature list whose sizes do not cover its header
 or entries is rejected

---
 .../uefi/authenticated_variables_structure_support.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index e5024a3..2306e3d 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -644,6 +644,9 @@ class EfiSignatureList(CommonUefiStructure):
         self.signature_header_size = struct.unpack("<I", fs.read(4))[0]
         self.signature_size = struct.unpack("<I", fs.read(4))[0]
 
+        if self.signature_list_size < EfiSignatureList.STATIC_STRUCT_SIZE:
+            raise Exception("Invalid Sig List.  signature_list_size does not cover the list's own header")
+
         # check the total size of this is within the File
         if (end - start) < self.signature_list_size:
             logging.debug(f"signature_list_size {self.signature_list_size:0x}")
@@ -661,7 +664,8 @@ class EfiSignatureList(CommonUefiStructure):
         if self.signature_header_size > 0:
             self.signature_header = EfiSignatureHeader(fs, self.signature_header_size)
 
-        if ((self.signature_list_size - (fs.tell() - start)) % self.signature_size) != 0:
+        data_size = self.signature_list_size - (fs.tell() - start)
+        if data_size != 0 and (self.signature_size == 0 or data_size % self.signature_size != 0):
             raise Exception("Invalid Sig List.  Signature Data Array is not a valid size")
 
         self.signature_data_list = []
-- 
2.43.0


From d48a576a6f430f9b922e64a3c44ba71ed63b8899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 63/91] fix: rejected certificate data leaves the certificate
 length alone

---
 edk2toollib/uefi/wincert.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 56af57d..4055bec 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -478,20 +478,21 @@ class WinCertUefiGuid(object):
         Args:
             in_data (obj): Data to read.
         """
-        # if the data is already set, let's subtract it from the length before adding the new data
-        if self.cert_data is not None:
-            self.Hdr_dwLength -= len(self.cert_data)
-
         # Account for back compat. Behave differently for file streams.
         if hasattr(in_data, "seek"):
-            self.cert_data = in_data.read()
+            cert_data = in_data.read()
         elif hasattr(in_data, "decode"):
-            self.cert_data = in_data
+            cert_data = in_data
         else:
             raise ValueError(
                 f"Invalid datatype provided: {type(in_data)}, data may only be of type filestream or bytes"
             )
 
+        # if the data is already set, let's subtract it from the length before adding the new data
+        if self.cert_data is not None:
+            self.Hdr_dwLength -= len(self.cert_data)
+
+        self.cert_data = cert_data
         self.Hdr_dwLength = self.Hdr_dwLength + len(self.cert_data)
 
     def PopulateFromFileStream(self, fs: BytesIO) -> bytes:
-- 
2.43.0


From 253d71c605bd881e56307ecc23b046e482462f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:24 +0000
Subject: [PATCH 64/91] fix: PC card device path reads the node data of its
 header

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 508b54d..e69982f 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -312,7 +312,7 @@ class PccardDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "PccardDevicePath":
-        function_number = struct.unpack("<B", header.data[:1])[0]
+        function_number = struct.unpack("<B", header.dev_data[:1])[0]
         return cls(header, function_number)
 
 
-- 
2.43.0


From eb09c738679b86a264bb046ad2f697dc682d58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 65/91] fix: IPv4 device path ports are little-endian on every
 host

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index e69982f..22f26d7 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -555,7 +555,7 @@ class Ipv4DevicePath(EfiDevicePathProtocol):
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "Ipv4DevicePath":
         local_ip_address = EfiIpv4Address.from_binary(header.dev_data[:4])
         remote_ip_address = EfiIpv4Address.from_binary(header.dev_data[4:8])
-        local_port, remote_port, protocol = struct.unpack("HHH", header.dev_data[8:14])
+        local_port, remote_port, protocol = struct.unpack("<HHH", header.dev_data[8:14])
         static_ip_address = bool(header.dev_data)
         gateway_ip_address = EfiIpv4Address.from_binary(header.dev_data[15:19])
         subnet_mask = EfiIpv4Address.from_binary(header.dev_data[19:23])
-- 
2.43.0


From 8aefe8626923a95da4b9c4fe8f8cdfd6e3943c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 66/91] fix: unknown device path types decode as unimplemented
 nodes without growing the shared tables

---
 edk2toollib/uefi/device_path.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 22f26d7..8da3bef 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -108,6 +108,24 @@ END_OF_HARDWARE_DEVICE_PATH = 0x7F
 NOT_FOUND = 255
 
 
+def _find_subtype(type, subtype) -> tuple:
+    """Looks up the name and implementation of a device path node without touching the shared tables.
+
+    Args:
+        type (int): The device path type.
+        subtype (int): The device path subtype.
+
+    Returns:
+        tuple: The subtype's name and the class implementing it.
+    """
+    subtypes = DEVICE_PATH_SUBTYPES.get(type)
+    if subtypes is None:
+        return ("NOT_FOUND!", UnimplementedDevicePath)
+    if subtype in subtypes:
+        return subtypes[subtype]
+    return subtypes.default_factory()
+
+
 def _helper_get_device_path_type(type, subtype) -> tuple[str, str]:
     """Helper function to get the device path type and subtype.
 
@@ -118,8 +136,8 @@ def _helper_get_device_path_type(type, subtype) -> tuple[str, str]:
     Returns:
         tuple[str, str]: A tuple containing the device path type and subtype.
     """
-    device_path_type = DEVICE_PATH_TYPES[type]
-    device_path_subtype = DEVICE_PATH_SUBTYPES[type][subtype][0]
+    device_path_type = DEVICE_PATH_TYPES.get(type, "NOT FOUND")
+    device_path_subtype = _find_subtype(type, subtype)[0]
 
     return (device_path_type, device_path_subtype)
 
@@ -1059,7 +1077,7 @@ class DevicePathFactory(object):
             class: The implementation class corresponding to the device type and subtype.
         """
 
-        class_impl = DEVICE_PATH_SUBTYPES[header.dev_type][header.dev_subtype][1]
+        class_impl = _find_subtype(header.dev_type, header.dev_subtype)[1]
         return class_impl
 
     @staticmethod
-- 
2.43.0


From ddc2aa065f7a183e8d84cc9782b6361699aa371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 67/91] fix: device path node length is checked before the node
 is decoded

---
 edk2toollib/uefi/device_path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 8da3bef..aa5bc5a 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -1100,14 +1100,14 @@ class DevicePathFactory(object):
 
         while offset < len(binary):
             header = EfiDevicePathProtocol.decode(binary[offset:])
+            if header.dev_length < EfiDevicePathProtocol._dp_struct_size or header.dev_length > len(binary) - offset:
+                # dev_length is user controlled after all..
+                raise ValueError(f"Invalid Header Length: {header}")
+
             device_path_class = DevicePathFactory._find_implementation(header)
             device_path = device_path_class.from_binary(header)
             device_paths.append(device_path)
 
-            if header.dev_length == 0:
-                # dev_length is user controlled after all..
-                raise ValueError(f"Invalid Header Length: {header}")
-
             offset += header.dev_length
 
         return device_paths
-- 
2.43.0


From 91047056d9dde85b34eb465abb92648db4827149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 68/91] fix: messaging device path subtypes 0x1B to 0x1F name
 the nodes the UEFI specification assigns

---
 edk2toollib/uefi/device_path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index aa5bc5a..7373659 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -79,11 +79,11 @@ MSG_NVME_NAMESPACE_DP = 0x17
 MSG_URI_DP = 0x18
 MSG_UFS_DP = 0x19
 MSG_SD_DP = 0x1A
-MSG_EMMC_DP = 0x1B
-MSG_BLUEFIELD_DP = 0x1C
-MSG_BLUETOOTH_DP = 0x1D
-MSG_WIFI_DP = 0x1E
-MSG_EFI_DP = 0x1F
+MSG_BLUETOOTH_DP = 0x1B
+MSG_WIFI_DP = 0x1C
+MSG_EMMC_DP = 0x1D
+MSG_BLUETOOTH_LE_DP = 0x1E
+MSG_DNS_DP = 0x1F
 
 # Media Device Path
 MEDIA_DEVICE_PATH = 0x04
@@ -1028,11 +1028,11 @@ DEVICE_PATH_SUBTYPES = defaultdict(
                 MSG_URI_DP: ("URI", UnimplementedDevicePath),
                 MSG_UFS_DP: ("UFS", UnimplementedDevicePath),
                 MSG_SD_DP: ("SD", UnimplementedDevicePath),
-                MSG_EMMC_DP: ("eMMC", UnimplementedDevicePath),
-                MSG_BLUEFIELD_DP: ("BlueField", UnimplementedDevicePath),
                 MSG_BLUETOOTH_DP: ("Bluetooth", UnimplementedDevicePath),
                 MSG_WIFI_DP: ("WiFi", UnimplementedDevicePath),
-                MSG_EFI_DP: ("EFI", UnimplementedDevicePath),
+                MSG_EMMC_DP: ("eMMC", UnimplementedDevicePath),
+                MSG_BLUETOOTH_LE_DP: ("Bluetooth LE", UnimplementedDevicePath),
+                MSG_DNS_DP: ("DNS", UnimplementedDevicePath),
             },
         ),
         MEDIA_DEVICE_PATH: defaultdict(
-- 
2.43.0


From 52ccbfe407a18029c5c681eb2a4510db159e9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 69/91] fix: looking a module up by INF path leaves the modules
 unchanged

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 525228a..6b4bfc7 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -332,9 +332,10 @@ class BuildReport(object):
             (None): If not found
         """
         for k, v in self.Modules.items():
-            if os.path.isabs(v.InfPath):
-                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath) or v.InfPath
-            if v.InfPath.lower() == InfPath.lower():
+            path = v.InfPath
+            if os.path.isabs(path):
+                path = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(path) or path
+            if path.lower() == InfPath.lower():
                 logging.debug("Found Module by InfPath: %s" % InfPath)
                 return v
 
-- 
2.43.0


From cf7a0da94c6363c1c96315073bdecdc6078f54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:33 +0000
Subject: [PATCH 70/91] fix: equal DSC section types hash equal

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f9114e5..644c002 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -209,7 +209,7 @@ class dsc_section_type:
             return False
         arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
         arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
-        return self.module_type == other.module_type or arch == arch2
+        return self.module_type == other.module_type and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From 3d6493ab0fdcfd1895803ca1b201c153609dc525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:02 +0000
Subject: [PATCH 71/91] fix: build option sections of different architectures
 are not equal, as their hashes say

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 644c002..5af38ab 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -268,9 +268,9 @@ class dsc_buildoption_section_type(dsc_section_type):
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_buildoption_section_type:
             return False
-        if not (other.module_type == self.module_type and other.codebase == self.codebase):
-            return False
-        return other.module_type == self.module_type
+        arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
+        arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
+        return arch == arch2 and other.module_type == self.module_type and other.codebase == self.codebase
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From 7ff038b9384c5d707c3212e62e2bba10ad41d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 72/91] fix: library classes equal but for case hash equal

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 5af38ab..ca3924e 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -524,7 +524,7 @@ class library_class:
         if self.libraryclass.lower() == "null":
             return hash(self.inf)
         else:
-            return hash(self.libraryclass)
+            return hash(self.libraryclass.lower())
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From ce1444d7082e7c5e99fe6843d3a6dbef03005fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:29 +0000
Subject: [PATCH 73/91] fix: component text tests its own source information

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index ca3924e..0a4c352 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -415,7 +415,7 @@ class component:
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-        source = str(self.source_info) if source_info is not None else ""
+        source = str(self.source_info) if self.source_info is not None else ""
         return f"{self.inf} @ {source}"
 
 
-- 
2.43.0


From f647ac81b96a61674b2713531479c2a1103f9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 74/91] fix: DSC translator writes build option section headers
 the parser reads back

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index a62beb6..9b5f9a4 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -70,9 +70,8 @@ class DscTranslator:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Then Build Options
-            print(obj.build_options.items())
             for header, x in obj.build_options.items():
-                lines.append(f"{depth_pad}[BuildOptions{header}]")
+                lines.append(f"{depth_pad}[BuildOptions.{header}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
         elif type(obj) is sku_id:
-- 
2.43.0


From a488a96d044ef22905c97dde2f2a901577a12e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 75/91] fix: DSC translator writes the libraries and default
 stores it was given

---
 .../uefi/edk2/build_objects/dsc_translator.py    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 9b5f9a4..a2457be 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -11,9 +11,11 @@ import os
 from edk2toollib.uefi.edk2.build_objects.dsc import (
     build_option,
     component,
+    default_store,
     definition,
     dsc,
     dsc_set,
+    library,
     library_class,
     pcd,
     pcd_typed,
@@ -54,6 +56,16 @@ class DscTranslator:
             for x in obj.skus:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
+            # Then the default stores
+            if len(obj.default_stores) > 0:
+                lines.append(f"{depth_pad}[DefaultStores]")
+                lines += cls._GetDscLinesFromDscObj(obj.default_stores, depth)
+
+            # Then the libraries
+            for header, x in obj.libraries.items():
+                lines.append(f"{depth_pad}[Libraries{header}]")
+                lines += cls._GetDscLinesFromDscObj(x, depth)
+
             # Third, library classes
             for header, x in obj.library_classes.items():
                 lines.append(f"{depth_pad}[LibraryClasses{header}]")
@@ -76,6 +88,10 @@ class DscTranslator:
 
         elif type(obj) is sku_id:
             lines.append(f"{depth_pad}{obj.id}|{obj.name}|{obj.parent}")
+        elif type(obj) is default_store:
+            lines.append(f"{depth_pad}{obj.index}|{obj.value}")
+        elif type(obj) is library:
+            lines.append(f"{depth_pad}{obj.inf}")
         elif type(obj) is library_class:
             lines.append(f"{depth_pad}{obj.libraryclass}|{obj.inf}")
         elif type(obj) is definition:
-- 
2.43.0


From 7ee841dbc436730d4251bd993f013e25d8a36ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:25 +0000
Subject: [PATCH 76/91] fix: DSC translator keeps the replacing assignment of a
 build option

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index a2457be..d4960ea 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -125,7 +125,7 @@ class DscTranslator:
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
             rep += "_".join((obj.target, obj.tagname, obj.arch, obj.tool_code, obj.attribute))
-            rep += f"= {obj.data}"
+            rep += f"== {obj.data}" if obj.replace else f"= {obj.data}"
             lines.append(rep)
         else:
             logging.warning(f"UNKNOWN OBJECT {obj}")
-- 
2.43.0


From b7f314800265cc6a4ff8b8dc95d9d2fbcb4aca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 77/91] fix: INF names, keys and target versions with a
 trailing line break are rejected

---
 edk2toollib/windows/capsule/inf_generator.py  |  2 +-
 edk2toollib/windows/capsule/inf_generator2.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 9f1d198..7e3a38f 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -149,7 +149,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): Invalid Characters in name
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             logging.critical("Name invalid: '%s'", value)
             raise ValueError("Name has invalid chars.")
         self._name = value
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 323577d..df91462 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -63,7 +63,7 @@ class InfHeader(object):
         if TargetOSVersion is None:
             self.TargetOSVersion = DEFAULT_TARGET_OSVERSION_DIRID13
         else:
-            if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
+            if not re.fullmatch(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
             self.TargetOSVersion = TargetOSVersion
 
@@ -80,7 +80,7 @@ class InfHeader(object):
             (ValueError): Invalid chars in string
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Name has invalid chars.")
         self._name = value
 
@@ -204,7 +204,7 @@ class InfFirmware(object):
             (ValueError): Invalid character for a tag
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Tag has invalid chars.")
         self._tag = value
 
@@ -296,7 +296,7 @@ class InfFirmwareSections(object):
         if TargetOSVersion is None:
             self.TargetOSVersion = DEFAULT_TARGET_OSVERSION_DIRID13
         else:
-            if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
+            if not re.fullmatch(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
             self.TargetOSVersion = TargetOSVersion
 
@@ -357,7 +357,7 @@ class InfSourceFiles(object):
             Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
-        if not (re.compile(r"[\.\w-]*$")).match(Filename):
+        if not (re.compile(r"[\.\w-]*")).fullmatch(Filename):
             raise ValueError("Filename has invalid chars.")
 
         if Filename not in self.Files:
@@ -403,7 +403,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -418,7 +418,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From ea0211de2eee90eff2aed382cfb9f09badca2d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 78/91] fix: policy values at stream offset zero are read from
 there

---
 edk2toollib/windows/policy/firmware_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4f1b473..4e9407d 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -285,7 +285,7 @@ class PolicyValueType:
             fs (BinaryIO): filestream to read
             fsOffset (`int`, optional): offset to start reading from
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         valueType = struct.unpack(cls.StructFormat, fs.read(cls.StructSize))[0]
         return cls(valueType)
@@ -365,7 +365,7 @@ class PolicyString:
         Raises:
             (Exception): string length mismatch
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
         LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
@@ -445,7 +445,7 @@ class PolicyValue:
         Raises:
             (Exception): if STRICT is True, unsupported PolicyValueType
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         else:
             fsOffset = fs.tell()
-- 
2.43.0


From e01e0de3a5f6ee9897a89ee2437d8a173b1466cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:48 +0000
Subject: [PATCH 79/91] fix: Windows SDK tool lookup passes product and
 architecture in their own places

---
 edk2toollib/windows/locate_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0e05159..e570a08 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -384,7 +384,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     variables = ["WindowsSdkDir", "WindowsSDKVersion"]
     # get the value with QueryVcVariables
     try:
-        results = QueryVcVariables(variables, product, arch)
+        results = QueryVcVariables(variables, arch=arch, product=product)
         # Get the variables we care about
         sdk_dir = results["WindowsSdkDir"]
         sdk_ver = results["WindowsSDKVersion"]
-- 
2.43.0


From d95998520d98ba865e8a2261ae583609e35c1b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:01 +0000
Subject: [PATCH 80/91] fix: negative INF versions do not fit an unsigned 32
 bit value

---
 edk2toollib/windows/capsule/inf_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 7e3a38f..e6e3612 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -237,7 +237,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): hex does not fit in a 32but uint
         """
         a = int(value, 0)
-        if a > 0xFFFFFFFF:
+        if a < 0 or a > 0xFFFFFFFF:
             logging.critical("VersionHex invalid: '%s'", value)
             raise ValueError("VersionHex must fit within 32bit value range for unsigned integer")
         self._versionhex = a
-- 
2.43.0


From 651f17d3c3163b9bc5c48fd3251500e48f686a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:35 +0000
Subject: [PATCH 81/91] fix: variable store size check counts the store header
 it has to keep

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 82aaab4..18ab091 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -105,6 +105,8 @@ class VariableStore(object):
         """Flush the changes to file."""
         # First, we need to make sure that our variables will fit in the VarStore.
         var_size = sum([var.get_buffer_size() for var in self.variables])
+        # The store's own header counts towards its size.
+        var_size += self.var_store_header.StructSize
         # Add the terminating var header.
         dummy_var = self.get_new_var_class()
         var_size += dummy_var.StructSize
-- 
2.43.0


From b4063549c6c2a8c4c60286b66d4ae6e21c40a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:49 +0000
Subject: [PATCH 82/91] fix: GUID parts with an upper case hex prefix are
 parsed

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 05ec9e9..ed978b0 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -778,58 +778,58 @@ class BaseParser(object):
             raise RuntimeError(
                 f"Invalid GUID found {line}. We are missing some parts since we only found: {len(entries)}"
             )
-        gu = entries[0].lstrip(" 0").lstrip("x").strip()
+        gu = entries[0].lstrip(" 0").lstrip("xX").strip()
         # pad front until 8 chars
         while len(gu) < 8:
             gu = "0" + gu
 
-        gut = entries[1].lstrip(" 0").lstrip("x").strip()
+        gut = entries[1].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 4:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[2].lstrip(" 0").lstrip("x").strip()
+        gut = entries[2].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 4:
             gut = "0" + gut
         gu = gu + "-" + gut
 
         # strip off extra {
-        gut = entries[3].lstrip(" { 0").lstrip("x").strip()
+        gut = entries[3].lstrip(" { 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[4].lstrip(" 0").lstrip("x").strip()
+        gut = entries[4].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[5].lstrip(" 0").lstrip("x").strip()
+        gut = entries[5].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + "-" + gut
 
-        gut = entries[6].lstrip(" 0").lstrip("x").strip()
+        gut = entries[6].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[7].lstrip(" 0").lstrip("x").strip()
+        gut = entries[7].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[8].lstrip(" 0").lstrip("x").strip()
+        gut = entries[8].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[9].lstrip(" 0").lstrip("x").strip()
+        gut = entries[9].lstrip(" 0").lstrip("xX").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
 
-        gut = entries[10].split()[0].lstrip(" 0").lstrip("x").rstrip(" } ").strip()
+        gut = entries[10].split()[0].lstrip(" 0").lstrip("xX").rstrip(" } ").strip()
         while len(gut) < 2:
             gut = "0" + gut
         gu = gu + gut
-- 
2.43.0


From 9b91b7a192beae58fad8b16489f302da4b50129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 83/91] fix: FDF include and define lines without an operand
 are reported as such

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index c00987a..7906161 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -113,6 +113,8 @@ class FdfParser(HashFileParser):
 
             if sline.lower().startswith("!include"):
                 tokens = sline.split()
+                if len(tokens) < 2:
+                    raise RuntimeError("Unable to properly parse " + sline)
                 include_file = tokens[1]
                 sp = self.FindPath(include_file)
                 if sp is None:
@@ -146,6 +148,8 @@ class FdfParser(HashFileParser):
             # defining a local variable that is removed when entering a new section
             elif sline.strip().startswith("DEFINE"):
                 tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+                if len(tokens) != 2:
+                    raise RuntimeError("Unable to properly parse " + sline)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From e454a7357450ea90d4caf75fc67e805d39671c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 84/91] fix: PCD sections of different SKUs or default stores
 are different sections

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 0a4c352..1764fa0 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -317,7 +317,7 @@ class dsc_pcd_section_type:
 
     def __hash__(self) -> int:
         """Returns the hash of an object for hashtables."""
-        return hash((self.arch, self.pcd_type))
+        return hash((self.arch, self.pcd_type, self.sku, self.default_store))
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -328,7 +328,12 @@ class dsc_pcd_section_type:
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_pcd_section_type:
             return False
-        return self.pcd_type == other.pcd_type and self.arch == other.arch
+        return (self.arch, self.pcd_type, self.sku, self.default_store) == (
+            other.arch,
+            other.pcd_type,
+            other.sku,
+            other.default_store,
+        )
 
 
 class dsc_pcd_component_type(dsc_pcd_section_type):
-- 
2.43.0


From fe1d478bea86d7846da3bf92e76439ce3d554517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 85/91] fix: firmware policy rules with the same key and value
 are equal, so AddRule adds them once

---
 edk2toollib/windows/policy/firmware_policy.py | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4e9407d..1105b97 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -120,6 +120,8 @@ class Rule(object):
 
     def __eq__(self, other: "Rule") -> bool:
         """Rule table offsets are not considered for equivalency, only the actual key/value."""
+        if type(other) is not Rule:
+            return False
         if (
             self.RootKey == other.RootKey
             and self.SubKeyName == other.SubKeyName
@@ -275,6 +277,14 @@ class PolicyValueType:
 
         self.vt = Type
 
+    def __eq__(self, other: "PolicyValueType") -> bool:
+        """Two value types are equal if they stand for the same POLICY_VALUE_TYPE_*."""
+        return type(other) is PolicyValueType and self.vt == other.vt
+
+    def __hash__(self) -> int:
+        """Returns the hash of the value type."""
+        return hash(self.vt)
+
     @classmethod
     def FromFileStream(cls: "PolicyValueType", fs: BinaryIO, fsOffset: int = None) -> "PolicyValueType":
         """Load a Policy Value Type from a file stream.
@@ -354,6 +364,14 @@ class PolicyString:
             self.String = ""
         return
 
+    def __eq__(self, other: "PolicyString") -> bool:
+        """Two policy strings are equal if they hold the same text."""
+        return type(other) is PolicyString and self.String == other.String
+
+    def __hash__(self) -> int:
+        """Returns the hash of the text."""
+        return hash(self.String)
+
     @classmethod
     def FromFileStream(cls: "PolicyString", fs: BinaryIO, fsOffset: int = None) -> "PolicyString":
         """Inits a PolicyString from a file stream.
@@ -432,6 +450,14 @@ class PolicyValue:
         self.valueType = valueType
         self.value = value
 
+    def __eq__(self, other: "PolicyValue") -> bool:
+        """Two policy values are equal if both their type and their value are."""
+        return type(other) is PolicyValue and self.valueType == other.valueType and self.value == other.value
+
+    def __hash__(self) -> int:
+        """Returns the hash of the type and the value."""
+        return hash((self.valueType, self.value))
+
     @classmethod
     def FromFileStream(cls: "PolicyValue", fs: BinaryIO, fsOffset: int = None) -> "PolicyValue":
         """Load a Policy Value from a file stream.
-- 
2.43.0


From 4baf583cffbf8b70e335a123296005de58173a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 86/91] fix: DSC sections accept the MM standalone and host
 application module types

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 1764fa0..cdb25ae 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -186,8 +186,11 @@ class dsc_section_type:
         "DXE_SAL_DRIVER",
         "DXE_SMM_DRIVER",
         "SMM_CORE",
+        "MM_STANDALONE",
+        "MM_CORE_STANDALONE",
         "UEFI_DRIVER",
         "UEFI_APPLICATION",
+        "HOST_APPLICATION",
         "USER_DEFINED",
     ]
 
-- 
2.43.0


From c66129d1a8aea33b7396a6d83c081fbdd3592a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 87/91] fix: re-parsing a source file refreshes its license and
 total line count too

---
 edk2toollib/database/tables/source_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index a8cbc8a..88206e4 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -62,6 +62,8 @@ class SourceTable(TableGenerator):
                 to_add.append(source)
             else:
                 to_add.append(existing_source[source.path])
+                to_add[-1].license = source.license
+                to_add[-1].total_lines = source.total_lines
                 to_add[-1].code_lines = source.code_lines
                 to_add[-1].comment_lines = source.comment_lines
                 to_add[-1].blank_lines = source.blank_lines
-- 
2.43.0


From a5ac543a473e69f07c9885b96630696bbdc42f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 88/91] fix: a new parse of the instanced INF table reads the
 INF files again

---
 edk2toollib/database/tables/instanced_inf_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 7dc74ab..98fec55 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -50,6 +50,7 @@ class InstancedInfTable(TableGenerator):
         self.pathobj = pathobj
         self.ws = Path(self.pathobj.WorkspacePath)
         self.env = env
+        self._parsed_infs = {}
         self.dsc = self.env["ACTIVE_PLATFORM"]
         self.arch = self.env["TARGET_ARCH"].split(" ")
         self.target = self.env["TARGET"]
-- 
2.43.0


From eea0a898989ac0318646e655ee2dfb51e88af90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 89/91] fix: INF version strings and target OS versions with
 line breaks or quotes are rejected

---
 edk2toollib/windows/capsule/inf_generator.py  | 3 +--
 edk2toollib/windows/capsule/inf_generator2.py | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index e6e3612..fe73760 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -218,8 +218,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (ValueError): Invalid format
         """
-        c = value.count(".")
-        if (c < 1) or (c > 3):
+        if not re.fullmatch(r"\w+(\.\w+){1,3}", value):
             logging.critical("Version string in invalid format.")
             raise ValueError("VersionString must be in format of xx.xx -> xx.xx.xx.xx")
         self._versionstring = value
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index df91462..9568124 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -24,7 +24,8 @@ SUPPORTED_ARCH = {"amd64": "amd64", "x64": "amd64", "arm": "arm", "arm64": "ARM6
 # This is a WHCP requirement that went into effect in the 26080 build.
 DEFAULT_TARGET_OSVERSION_DIRID13 = "10.0...17134"
 
-_TARGET_OSVERSION_RE = r"^\s*10\.0(\.\d+)?(\.\.\.\d+)?\s*$"  # minimal guard (Win10/11 are 10.0; allows optional fields)
+# minimal guard (Win10/11 are 10.0; allows optional fields)
+_TARGET_OSVERSION_RE = r"^[ \t]*10\.0(\.\d+)?(\.\.\.\d+)?[ \t]*$"
 
 
 class InfHeader(object):
@@ -96,8 +97,7 @@ class InfHeader(object):
         Raises:
             (ValueError): Invalid string format
         """
-        c = value.count(".")
-        if (c < 1) or (c > 3):
+        if not re.fullmatch(r"\w+(\.\w+){1,3}", value):
             raise ValueError("VersionString must be in format of xx.xx -> xx.xx.xx.xx")
         self._versionstr = value
 
-- 
2.43.0


From 06590da49bf6797dfddf1bb2b430b5ab2f61d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 90/91] fix: the ESRT GUID of an INF is written in the registry
 form for every accepted spelling

---
 edk2toollib/windows/capsule/inf_generator.py  | 5 ++---
 edk2toollib/windows/capsule/inf_generator2.py | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index fe73760..b855775 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -202,9 +202,8 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (Exception): Invalid value
         """
-        uuid.UUID(value)  # if this works it is valid...otherwise throws exception
-        # todo - make sure it is formatted exactly right
-        self._esrt_guid = value
+        # if this works it is valid...otherwise throws exception
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionString(self) -> str:
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 9568124..94eeabd 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -216,8 +216,7 @@ class InfFirmware(object):
     @EsrtGuid.setter
     def EsrtGuid(self, value: uuid.UUID) -> None:
         """Transforms string into actual guid object before setting."""
-        uuid.UUID(value)
-        self._esrt_guid = value
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionInt(self) -> int:
-- 
2.43.0


From 7497a5da42019cef3800c1eddf0096f19788e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 91/91] fix: INF file names with quotes or line breaks are
 rejected

---
 edk2toollib/windows/capsule/inf_generator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index b855775..7c57e55 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -287,7 +287,14 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
 
     @IntegrityFilename.setter
     def IntegrityFilename(self, value: str) -> None:
-        """Setter for the IntegrityFile name."""
+        """Setter for the IntegrityFile name.
+
+        Raises:
+            (ValueError): Invalid characters in the file name
+        """
+        if value is not None and re.search(r'["\r\n]', str(value)):
+            logging.critical("IntegrityFilename invalid: '%s'", value)
+            raise ValueError("IntegrityFilename has invalid chars.")
         self._integrityfile = value
 
     def MakeInf(self, OutputInfFilePath: os.PathLike, FirmwareBinFileName: str, Rollback: bool = False) -> int:
@@ -303,6 +310,8 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             RollbackString = InfGenerator.ROLLBACKTEMPLATE.format(EsrtGuid=self.EsrtGuid)
 
         binfilename = os.path.basename(FirmwareBinFileName)
+        if re.search(r'["\r\n]', binfilename):
+            raise ValueError("FirmwareBinFileName has invalid chars.")
 
         copy_files = InfSection("Firmware_CopyFiles")
         copy_files.Items.append(binfilename)
-- 
2.43.0

