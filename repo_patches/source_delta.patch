From cb832b117339206a41cd745c85f6f9e610f7e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:41 +0000
Subject: [PATCH 01/25] fix: return the CPI tag URI without storing it on the
 instance

Two threads asking the same object for different tag URIs could each get
the other's result.
---
 epcpy/epc_schemes/cpi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index a381313..e3b61fe 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -286,9 +286,7 @@ class CPI(GS1Element, TagEncodable):
         ):
             raise ConvertException(message=f"Invalid serial value {self._serial}")
 
-        self._tag_uri = f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
-
-        return self._tag_uri
+        return f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
 
     def binary(
         self,
-- 
2.43.0


From 41f6cc192e1ad38fb469ae2563ffa7319f701614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:43 +0000
Subject: [PATCH 02/25] fix: keep the message of a ConvertException when it is
 pickled or copied

---
 epcpy/utils/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b2e0260..5b4122f 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -1,6 +1,7 @@
 import base64
 import re
 from enum import Enum
+from functools import partial
 from math import log
 from typing import Dict, List, Tuple
 
@@ -27,6 +28,9 @@ class ConvertException(Exception):
         self.message = message
         super().__init__(self.message, *args)
 
+    def __reduce__(self):
+        return partial(type(self), message=self.message), self.args[1:], self.__dict__
+
 
 def replace_uri_escapes(uri: str) -> str:
     """Replace the escaped characters in a EPC pure identity URI
-- 
2.43.0


From 8d4acdf7cc09efaa36b9bc7f04c50d45cdd7225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:46 +0000
Subject: [PATCH 03/25] fix: raise ConvertException for a binary header of
 another scheme

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 5b4122f..4c5e28b 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -566,7 +566,7 @@ def parse_header_and_truncate_binary(
 
     try:
         scheme = header_to_schemes[header]
-    except ValueError:
+    except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
     _, size = scheme.value.split("-")
-- 
2.43.0


From e6cdcf164efd03a150901fe86a262a55382fcacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:49 +0000
Subject: [PATCH 04/25] fix: raise ConvertException for malformed binary,
 hexadecimal and base64 text

Characters outside the alphabet were reported as ValueError or silently
skipped.
---
 epcpy/utils/common.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 4c5e28b..24241f5 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -18,6 +18,9 @@ ESCAPE_CHARACTERS = {
 }
 
 
+BASE64_REGEX = re.compile("[a-zA-Z0-9+/]*={0,2}")
+BINARY_REGEX = re.compile("[01]+")
+HEX_REGEX = re.compile("[0-9a-fA-F]+")
 VERIFY_GS3A3_CHARS_REGEX = re.compile(VERIFY_GS3A3_CHARS)
 
 
@@ -94,6 +97,9 @@ def binary_to_int(binary: str) -> int:
     Returns:
         int: Integer value of binary string
     """
+    if not BINARY_REGEX.fullmatch(binary):
+        raise ConvertException(message=f"Invalid binary string {binary}")
+
     return int(binary, 2)
 
 
@@ -119,8 +125,14 @@ def base64_to_hex(base64_string: str) -> str:
     Returns:
         str: Hexadecimal representation
     """
-    # Add padding to ensure valid padding
-    return base64.b64decode(f"{base64_string}==").hex()
+    if not BASE64_REGEX.fullmatch(base64_string):
+        raise ConvertException(message=f"Invalid base64 string {base64_string}")
+
+    try:
+        # Add padding to ensure valid padding
+        return base64.b64decode(f"{base64_string}==").hex()
+    except ValueError:
+        raise ConvertException(message=f"Invalid base64 string {base64_string}")
 
 
 def hex_to_base64(hex_string: str) -> str:
@@ -144,6 +156,9 @@ def hex_to_binary(hex_string: str) -> str:
     Returns:
         str: Binary string
     """
+    if not HEX_REGEX.fullmatch(hex_string):
+        raise ConvertException(message=f"Invalid hexadecimal string {hex_string}")
+
     return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
 
 
@@ -569,6 +584,9 @@ def parse_header_and_truncate_binary(
     except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
+    if not BINARY_REGEX.fullmatch(binary_string):
+        raise ConvertException(message=f"Invalid binary string {binary_string}")
+
     _, size = scheme.value.split("-")
     size = int(size) if size.isnumeric() else None
 
-- 
2.43.0


From 3a5fb5df39b8c0e404cd71908a14babd773a14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:52 +0000
Subject: [PATCH 05/25] fix: raise ConvertException for URIs with too few
 components

---
 epcpy/utils/parsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 4318b70..57a7ad8 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -148,7 +148,7 @@ def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     Returns:
         EPCScheme: EPCScheme instance for this URI
     """
-    identifier = epc_pure_identity_uri.split(":")[3]
+    identifier = ":".join(epc_pure_identity_uri.split(":")[3:4])
 
     if identifier not in EPC_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown EPC URI")
@@ -317,7 +317,7 @@ def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
     Returns:
         TagEncodable: TagEncodable class for this tag URI
     """
-    identifier = epc_tag_uri.split(":")[3].split("-")[0]
+    identifier = ":".join(epc_tag_uri.split(":")[3:4]).split("-")[0]
 
     if identifier not in TAG_ENCODABLE_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown TagEncodable scheme identifier")
-- 
2.43.0


From 38f8c4d5c5b6df1e649d165d01908d31f7821f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:56 +0000
Subject: [PATCH 06/25] fix: accept every valid escape in a serial component

Components starting with %2F, %3C, %3E or %3F were rejected or ended in a
ValueError.
---
 epcpy/utils/common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 24241f5..57698c6 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -525,13 +525,13 @@ def verify_gs3a3_component(gs3a3_component: str):
         ConvertException: Component not valid
     """
     res = ""
-    for g in re.split("(%\d\d)", gs3a3_component):
-        if len(g) == 0:
-            continue
-        elif g[0] != "%":
+    for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
+        if "%" not in g:
             res += g
-        else:
+        elif len(g) == 3 and g[0] == "%":
             res += chr(int(g[1:], 16))
+        else:
+            raise ConvertException(message=f"Invalid escape in {gs3a3_component}")
 
     if not VERIFY_GS3A3_CHARS_REGEX.fullmatch(res):
         raise ConvertException()
-- 
2.43.0


From ece6077d1ab33a4a91b5485cd21f1025291c5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:58 +0000
Subject: [PATCH 07/25] fix: parse element strings whose serial contains
 parentheses

---
 epcpy/epc_schemes/lgtin.py | 3 ++-
 epcpy/epc_schemes/sgln.py  | 3 ++-
 epcpy/epc_schemes/sgtin.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/lgtin.py b/epcpy/epc_schemes/lgtin.py
index 4c29723..91806f0 100644
--- a/epcpy/epc_schemes/lgtin.py
+++ b/epcpy/epc_schemes/lgtin.py
@@ -141,7 +141,8 @@ class LGTIN(GS1Keyed):
                 message=f"Invalid LGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        digits = gs1_element_string[4:18]
+        chars = gs1_element_string[22:]
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index cccc48c..058b40c 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -192,7 +192,8 @@ class SGLN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGLN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string)
+        digits = gs1_element_string[5:18]
+        chars = gs1_element_string[23:]
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 37aee79..603efa2 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -255,7 +255,8 @@ class SGTIN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        digits = gs1_element_string[4:18]
+        chars = gs1_element_string[22:]
         chars = revert_uri_escapes(chars)
 
         return cls(
-- 
2.43.0


From 4fda81d1ea350493ef512edba9ccf702b9f10b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:01 +0000
Subject: [PATCH 08/25] fix: keep the part of a GIAI asset reference after a
 colon

---
 epcpy/epc_schemes/giai.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0e7dc5f..98fedf8 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -194,7 +194,7 @@ class GIAI(TagEncodable, GS1Keyed):
         if not GIAI_URI_REGEX.fullmatch(epc_uri):
             raise ConvertException(message=f"Invalid GIAI URI {epc_uri}")
 
-        company_prefix, *asset_reference = epc_uri.split(":")[4].split(".")
+        company_prefix, *asset_reference = ":".join(epc_uri.split(":")[4:]).split(".")
         asset_reference = ".".join(asset_reference)
 
         if (
-- 
2.43.0


From 5db4148566bf80973a1422e1a20611101269771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:04 +0000
Subject: [PATCH 09/25] fix: measure component lengths on unescaped characters

Valid GRAI, GDTI, GIAI and CPI identities with escaped characters were
rejected.
---
 epcpy/epc_schemes/cpi.py  | 2 +-
 epcpy/epc_schemes/gdti.py | 2 +-
 epcpy/epc_schemes/giai.py | 2 +-
 epcpy/epc_schemes/grai.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index e3b61fe..ed9ff2d 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -211,7 +211,7 @@ class CPI(GS1Element, TagEncodable):
         )
 
         if (
-            len("".join([self._company_pref, self._cp_ref])) > 30
+            len("".join([self._company_pref, replace_cpi_escapes(self._cp_ref)])) > 30
             or len(self._serial) > 12
             or not (6 <= len(self._company_pref) <= 12)
         ):
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index 218df08..f927ea9 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -142,7 +142,7 @@ class GDTI(TagEncodable, GS1Keyed):
 
         if (
             len(f"{self._company_pref}{self._doc_type}") != 12
-            or len(self._serial) > 17
+            or len(replace_uri_escapes(self._serial)) > 17
             or not (6 <= len(self._company_pref) <= 12)
         ):
             raise ConvertException(
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 98fedf8..a40f18c 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -199,7 +199,7 @@ class GIAI(TagEncodable, GS1Keyed):
 
         if (
             not (6 <= len(company_prefix) <= 12)
-            or len(f"{company_prefix}{asset_reference}") > 30
+            or len(f"{company_prefix}{replace_uri_escapes(asset_reference)}") > 30
         ):
             raise ConvertException(
                 message=f"Invalid company prefix length {len(company_prefix)}"
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 7b24302..3622695 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -143,7 +143,7 @@ class GRAI(TagEncodable, GS1Keyed):
         if (
             len(f"{self._company_pref}{self._asset_type}") != 12
             or not (6 <= len(self._company_pref) <= 12)
-            or len(self._serial) > 16
+            or len(replace_uri_escapes(self._serial)) > 16
         ):
             raise ConvertException(message=f"Invalid EPC URI {epc_uri}")
 
-- 
2.43.0


From 992771725b8087029fb4e91297200f45dc656182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:07 +0000
Subject: [PATCH 10/25] fix: decode ADI part number and serial on six-bit
 boundaries

Runs of zeros across two characters were taken for the terminator, and a
missing serial terminator went unnoticed.
---
 epcpy/epc_schemes/adi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/adi.py b/epcpy/epc_schemes/adi.py
index 5831370..5dda196 100644
--- a/epcpy/epc_schemes/adi.py
+++ b/epcpy/epc_schemes/adi.py
@@ -200,21 +200,22 @@ class ADI(TagEncodable):
         filter_binary = truncated_binary[8:14]
         cage_code_binary = truncated_binary[14:50]
 
-        if not re.match(".*([0]{6})+.*", truncated_binary[50:]):
+        characters = re.findall("[0-1]{6}", truncated_binary[50:])
+
+        if characters.count("000000") < 2:
             raise ConvertException(
                 message="Invalid binary for ADI, missing 6-bit terminators"
             )
 
-        part_number_binary, _, *serial_binary = re.split(
-            "([0]{6})", truncated_binary[50:]
-        )
-        serial_binary_trimmed = "".join(serial_binary)[:-6]
+        part_number_length = characters.index("000000")
+        part_number_binary = "".join(characters[:part_number_length])
+        serial_binary = "".join(characters[part_number_length + 1 :])
 
         filter_string = binary_to_int(filter_binary)
         cage_code_string = decode_cage_code_six_bits(cage_code_binary)
         part_number_string = decode_string_six_bits(part_number_binary, 32)
 
-        serial_string = decode_string_six_bits(serial_binary_trimmed, 30)
+        serial_string = decode_string_six_bits(serial_binary, 30)
 
         return cls.from_tag_uri(
             f"{cls.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_string}.{cage_code_string}.{part_number_string}.{serial_string}"
-- 
2.43.0


From f08709f65a97281b86673c49a1c31798379c0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:11 +0000
Subject: [PATCH 11/25] fix: reject a CPI-var read that ends before its serial

---
 epcpy/epc_schemes/cpi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index ed9ff2d..3c3986c 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -362,7 +362,10 @@ class CPI(GS1Element, TagEncodable):
                 if g == "000000":
                     is_serial = True
 
-            serial_binary = serial_binary[:40] if len(serial_binary) > 0 else "0"
+            serial_binary = serial_binary[:40]
+
+            if len(serial_binary) != 40:
+                raise ConvertException(message="Invalid binary size for CPI serial")
 
         filter_string = binary_to_int(filter_binary)
         serial_string = binary_to_int(serial_binary)
-- 
2.43.0


From fd8f87863c40bd86382b23f3cd7385c277e4382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:14 +0000
Subject: [PATCH 12/25] fix: refuse to encode identities the coding scheme
 cannot represent

The tag URI was refused, but binary, hexadecimal and base64 encodings lost
leading zeros, overflowed or ended in a ValueError.
---
 epcpy/epc_schemes/cpi.py   | 3 +++
 epcpy/epc_schemes/gdti.py  | 3 +++
 epcpy/epc_schemes/giai.py  | 3 +++
 epcpy/epc_schemes/grai.py  | 3 +++
 epcpy/epc_schemes/itip.py  | 3 +++
 epcpy/epc_schemes/sgln.py  | 3 +++
 epcpy/epc_schemes/sgtin.py | 3 +++
 7 files changed, 21 insertions(+)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 3c3986c..aba67bf 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -302,6 +302,9 @@ class CPI(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._cp_ref]
         serial = self._serial
 
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index f927ea9..7c8227c 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -248,6 +248,9 @@ class GDTI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._doc_type]
 
         header = GDTI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index a40f18c..6912fbb 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -308,6 +308,9 @@ class GIAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         header = GIAI.BinaryHeader[binary_coding_scheme.name].value
         filter_binary = str_to_binary(filter_value.value, 3)
         parts = [self._company_pref, self._asset_ref]
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 3622695..0f99d3a 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -243,6 +243,9 @@ class GRAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._asset_type]
 
         header = GRAI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 075ba55..aa854f7 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -244,6 +244,9 @@ class ITIP(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._item_ref]
 
         header = ITIP.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index 058b40c..2462994 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -244,6 +244,9 @@ class SGLN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._location_ref]
 
         header = SGLN.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 603efa2..f3455a2 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -308,6 +308,9 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse what the coding scheme cannot represent
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._item_ref]
 
         header = SGTIN.BinaryHeader[binary_coding_scheme.name].value
-- 
2.43.0


From 8b84a942788c39bb0c8ce92b7e4f861ce95cd99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:17 +0000
Subject: [PATCH 13/25] fix: require two digits for piece and total of an ITIP

---
 epcpy/epc_schemes/itip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index aa854f7..946ed23 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -151,6 +151,8 @@ class ITIP(GS1Element, TagEncodable):
             len(f"{self._company_pref}{self._item_ref}{self._piece}{self._total}") != 17
             or not (1 <= len(replace_uri_escapes(self._serial)) <= 20)
             or not (6 <= len(self._company_pref) <= 12)
+            or len(self._piece) != 2
+            or len(self._total) != 2
         ):
             raise ConvertException(message=f"Invalid ITIP URI {epc_uri}")
 
-- 
2.43.0


From d6184e79935a9b30542a400fa52d79789e96bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:20 +0000
Subject: [PATCH 14/25] fix: check the company prefix length of a UPUI

---
 epcpy/epc_schemes/upui.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/upui.py b/epcpy/epc_schemes/upui.py
index 1578323..de71fd7 100644
--- a/epcpy/epc_schemes/upui.py
+++ b/epcpy/epc_schemes/upui.py
@@ -50,7 +50,9 @@ class UPUI(GS1Element):
         if not (1 <= len(self._tpx) <= 28):
             raise ConvertException(message=f"Incorrect TPX size")
 
-        if len(f"{self._company_pref}{self._item_ref}") != 13:
+        if len(f"{self._company_pref}{self._item_ref}") != 13 or not (
+            6 <= len(self._company_pref) <= 12
+        ):
             raise ConvertException(
                 message=f"Wrong company prefix + item ref size (!=13)"
             )
-- 
2.43.0


From 9ee631809226532d722ad9984edddb98a99822ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:23 +0000
Subject: [PATCH 15/25] fix: reject characters after the terminator of a
 seven-bit string

They were joined to the characters before it, giving an identity nobody wrote.
---
 epcpy/utils/common.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 57698c6..473fa6c 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -279,15 +279,18 @@ def decode_string(binary: str) -> str:
     Returns:
         str: Decoded string
     """
-    return "".join(
-        list(
-            map(
-                decode_binary_char,
-                re.findall("." * 7, binary),
-            )
+    chars = list(
+        map(
+            decode_binary_char,
+            re.findall("." * 7, binary),
         )
     )
 
+    if "" in chars and any(chars[chars.index("") :]):
+        raise ConvertException(message="Characters found after string terminator")
+
+    return "".join(chars)
+
 
 def encode_partition_table(
     parts: List[str],
-- 
2.43.0


From 52fedfc38c79efe95acf988362c9afa8cc1e5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:26 +0000
Subject: [PATCH 16/25] fix: encode ITIP piece and total numbers up to 99

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 473fa6c..5a6daf0 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -437,7 +437,7 @@ def encode_fixed_width_integer(string: str, bit_count: int) -> str:
     Returns:
         str: Encoded fixed width integer string
     """
-    if int(string) >= (pow(10, int(bit_count * log(2) / log(10))) - 1):
+    if int(string) >= pow(10, int(bit_count * log(2) / log(10))):
         raise ConvertException(message="Fixed width numeric integer too large")
 
     return str_to_binary(string, bit_count)
-- 
2.43.0


From d5afb42647197af511192e5cca6cc392cf5732e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:29 +0000
Subject: [PATCH 17/25] fix: reject tag URIs followed by other text

---
 epcpy/epc_schemes/base_scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index c951c98..7171edc 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -183,7 +183,7 @@ class TagEncodable(EPCScheme):
         Returns:
             TagEncodable: Instance of TagEncodable class
         """
-        if not TagEncodable.TAG_URI_REGEX.match(epc_tag_uri):
+        if not TagEncodable.TAG_URI_REGEX.fullmatch(epc_tag_uri):
             raise ConvertException(message=f"Invalid EPC tag URI {epc_tag_uri}")
 
         epc_scheme = epc_tag_uri.split(":")[3]
-- 
2.43.0


From 6a50bfe7637bbd738a5f859e7add4a7b4de638b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:31 +0000
Subject: [PATCH 18/25] fix: accept only ASCII digits in numeric components

---
 epcpy/utils/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index cda91f4..aba32f9 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,14 +1,14 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
-NUMERIC_COMPONENT = "(0|[1-9]\d*)"
+NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
 GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
-PADDED_NUMERIC_COMPONENT = "\d+"
-PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
+PADDED_NUMERIC_COMPONENT = "[0-9]+"
+PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
 VERIFY_GS3A3_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]+"
 GS1_ELEM_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]"
 GS1_ELEM_CHARS_CPI = "[0-9A-Z\/\-\#]"
-DIGIT = "\d"
+DIGIT = "[0-9]"
 
 FOUR_PADDED_NUMERIC_COMPONENTS = f"{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}"
 
-- 
2.43.0


From f7543d4af4c6b2db41781aca955a28cb7899a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:34 +0000
Subject: [PATCH 19/25] fix: raise ConvertException for GID and USDOD numbers
 of any length

---
 epcpy/epc_schemes/gid.py   | 6 +++---
 epcpy/epc_schemes/usdod.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/gid.py b/epcpy/epc_schemes/gid.py
index c5daa6f..12fb4c5 100644
--- a/epcpy/epc_schemes/gid.py
+++ b/epcpy/epc_schemes/gid.py
@@ -49,13 +49,13 @@ class GID(TagEncodable):
 
         self._manager, self._object, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._manager) >= pow(2, 28):
+        if len(self._manager) > 11 or int(self._manager) >= pow(2, 28):
             raise ConvertException(message=f"Manager out of range: (max: {pow(2, 28)})")
 
-        if int(self._object) >= pow(2, 24):
+        if len(self._object) > 11 or int(self._object) >= pow(2, 24):
             raise ConvertException(message=f"Object out of range: (max: {pow(2, 24)})")
 
-        if int(self._serial) >= pow(2, 36) or (
+        if len(self._serial) > 11 or int(self._serial) >= pow(2, 36) or (
             len(self._serial) > 1 and self._serial[0] == "0"
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
diff --git a/epcpy/epc_schemes/usdod.py b/epcpy/epc_schemes/usdod.py
index 119cd5f..a3507ec 100644
--- a/epcpy/epc_schemes/usdod.py
+++ b/epcpy/epc_schemes/usdod.py
@@ -70,7 +70,7 @@ class USDOD(TagEncodable):
 
         self._cage_dodaac, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._serial) >= pow(2, 36) or (
+        if len(self._serial) > 11 or int(self._serial) >= pow(2, 36) or (
             len(self._serial) > 1 and self._serial[0] == "0"
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
-- 
2.43.0


From 811b348bccb7a97668e784bbf8d1e57755addfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:57 +0000
Subject: [PATCH 20/25] fix: refuse GIAI and GINC element strings with fewer
 digits than the company prefix length

---
 epcpy/epc_schemes/giai.py | 6 ++++++
 epcpy/epc_schemes/ginc.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 6912fbb..07de24b 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -251,6 +251,12 @@ class GIAI(TagEncodable, GS1Keyed):
             )
 
         digits = gs1_element_string[6 : 6 + company_prefix_length]
+
+        if not digits.isdigit():
+            raise ConvertException(
+                message=f"Invalid GIAI company prefix length {company_prefix_length}"
+            )
+
         chars = gs1_element_string[6 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
diff --git a/epcpy/epc_schemes/ginc.py b/epcpy/epc_schemes/ginc.py
index 175ef3d..993dbd3 100644
--- a/epcpy/epc_schemes/ginc.py
+++ b/epcpy/epc_schemes/ginc.py
@@ -99,6 +99,12 @@ class GINC(GS1Keyed):
             )
 
         digits = gs1_element_string[5 : 5 + company_prefix_length]
+
+        if not digits.isdigit():
+            raise ConvertException(
+                message=f"Invalid GINC company prefix length {company_prefix_length}"
+            )
+
         chars = gs1_element_string[5 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
-- 
2.43.0


From ed2129990ace6904ec2f8fc84c06fd30b00aeb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:50 +0000
Subject: [PATCH 21/25] fix: resolve every escape of a component in keys and
 element strings

Escapes other than the seven upper-case ones were accepted but copied as they were
into GS1 keys and element strings.
---
 epcpy/utils/common.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 5a6daf0..389ff90 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -44,15 +44,7 @@ def replace_uri_escapes(uri: str) -> str:
     Returns:
         str: Escaped URI string
     """
-    return (
-        uri.replace("%22", '"')
-        .replace("%26", "&")
-        .replace("%2F", "/")
-        .replace("%3C", "<")
-        .replace("%3E", ">")
-        .replace("%3F", "?")
-        .replace("%25", "%")
-    )
+    return re.sub("%([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), uri)
 
 
 def revert_uri_escapes(uri: str) -> str:
-- 
2.43.0


From 88797eb7f26893a03e412ce1229aaf36653ee105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:37 +0000
Subject: [PATCH 22/25] fix: raise ConvertException for a malformed escape
 between valid ones

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 389ff90..bb64767 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -523,7 +523,7 @@ def verify_gs3a3_component(gs3a3_component: str):
     for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
         if "%" not in g:
             res += g
-        elif len(g) == 3 and g[0] == "%":
+        elif re.fullmatch("%[0-9a-fA-F]{2}", g):
             res += chr(int(g[1:], 16))
         else:
             raise ConvertException(message=f"Invalid escape in {gs3a3_component}")
-- 
2.43.0


From 17c155af3fd5eb244775428dfe4df0ac686111ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:54:03 +0000
Subject: [PATCH 23/25] fix: refuse an empty GTIN instead of making up an
 all-zero SGTIN

---
 epcpy/epc_schemes/sgtin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index f3455a2..8175dec 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -187,6 +187,9 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             SGTIN: Instance of SGTIN class based on the provided data
         """
+        if not gtin:
+            raise ConvertException(message="Missing GTIN")
+
         gtin = gtin.zfill(14)
         return cls(
             f"urn:epc:id:sgtin:{gtin[1:1 + company_prefix_length]}.{gtin[0]}{gtin[1 + company_prefix_length:-1]}.{str(serial)}"
-- 
2.43.0


From 148a2ee889f5e308892b5ec4b411004d12c60c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:54:17 +0000
Subject: [PATCH 24/25] fix: raise a conversion error when a GTIN is asked of a
 key that is none

---
 epcpy/utils/parsers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 57a7ad8..25ec428 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -133,9 +133,17 @@ def get_gs1_key(
             message="Source could not be converted to proper GS1Keyed scheme"
         )
 
+    _verify_gtin_requested(scheme, kwargs)
+
     return scheme.gs1_key(**kwargs)
 
 
+def _verify_gtin_requested(scheme: GS1Keyed, kwargs: dict) -> None:
+    # Only GTIN based schemes have a GTIN to give
+    if "gtin_type" in kwargs and not isinstance(scheme, (LGTIN, SGTIN)):
+        raise ConvertException(message="Source does not contain a GTIN")
+
+
 def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     """Convert a EPC pure identity string into its schema class
 
@@ -217,7 +225,10 @@ def epc_pure_identity_to_gs1_key(epc_pure_identity_uri: str, **kwargs) -> str:
     Returns:
         str: GS1 key for this URI
     """
-    return epc_pure_identity_to_gs1_keyed(epc_pure_identity_uri).gs1_key(**kwargs)
+    scheme = epc_pure_identity_to_gs1_keyed(epc_pure_identity_uri)
+    _verify_gtin_requested(scheme, kwargs)
+
+    return scheme.gs1_key(**kwargs)
 
 
 def epc_pure_identity_to_tag_encodable(epc_pure_identity_uri: str) -> TagEncodable:
-- 
2.43.0


From 4e2f638a0f6e42de1f2ed3faa4a54320ccb7775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:31 +0000
Subject: [PATCH 25/25] fix: refuse a GTIN whose check digit is not a digit

---
 epcpy/epc_schemes/sgtin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 8175dec..a682360 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -187,8 +187,8 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             SGTIN: Instance of SGTIN class based on the provided data
         """
-        if not gtin:
-            raise ConvertException(message="Missing GTIN")
+        if not re.fullmatch("[0-9]{1,14}", gtin):
+            raise ConvertException(message=f"Invalid GTIN {gtin}")
 
         gtin = gtin.zfill(14)
         return cls(
-- 
2.43.0

