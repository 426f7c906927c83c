From 9ccb5129a184cdfbf21062526922ffc3cd52a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 01/54] fix: raise when decoder runs past the end of the PER
 bytes instead of decoding a truncated field

---
 asn1PERser/codec/per/decoder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0024a67..d625c96 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -11,6 +11,14 @@ __all__ = ['decode']
 logger = logging.getLogger("asn1perser.decoder")
 
 
+class PerDecodingException(Exception):
+    pass
+
+
+class EndOfDataReached(PerDecodingException):
+    pass
+
+
 class Offset(object):
     def __init__(self, octets=0, bits=0):
         self.prev_octets = octets
@@ -59,6 +67,8 @@ class PerBytes(object):
         bits_stop = (item.stop.curr_octets * 8) + item.stop.curr_bits
         if bits_start == bits_stop:
             return '0'
+        if bits_stop > len(self.binary_string):
+            raise EndOfDataReached("needed {} bits but only {} are available".format(bits_stop, len(self.binary_string)))
         return self.binary_string[bits_start:bits_stop]
 
     def __len__(self):
-- 
2.43.0


From 8dba5a653513872606880c1795d3774a6ccab9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:01 +0000
Subject: [PATCH 02/54] fix: single-value constrained whole number decodes to
 its lower bound, not to 0

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index d625c96..77bcbcc 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -643,7 +643,7 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     field_size = get_bit_field_size(range)
     logger.debug("constrained whole number: range: %s; size: %s", range, field_size)
     if range == 1:
-        return 0
+        return lowerBound
     elif range <= 255:
         non_negative_binary_integer = decode_non_negative_binary_integer(per_bytes, field_size, octet_align=False)
     elif range == 256:
-- 
2.43.0


From 4d4dc961d7196c2c59cf46413d6c39a80604b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 03/54] fix: keep leading zero octets of size-constrained OCTET
 STRING when decoding

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 77bcbcc..4d9c77b 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -300,7 +300,7 @@ def decode_octetstring(octetstring, per_bytes):
                 logger.info("%s: decoding finished.", octetstring.__class__.__name__)
                 return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0), octet_align=True)
-            octetstring_val = hex(octetstring_val)[2:].rstrip("L")
+            octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
             logger.info("%s: decoding finished.", octetstring.__class__.__name__)
             return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))
-- 
2.43.0


From 8efde2c11ae8e6cd02663c484728baaa6201b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:06 +0000
Subject: [PATCH 04/54] fix: empty unconstrained OCTET STRING decodes to an
 empty value, not to one zero octet

---
 asn1PERser/codec/per/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 4d9c77b..b30ed61 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -311,6 +311,10 @@ def decode_octetstring(octetstring, per_bytes):
                                                                        n=per_bytes,
                                                                        lowerBound=0,
                                                                        upperBound=None)
+            if octetstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", octetstring.__class__.__name__)
+                logger.info("%s: decoding finished.", octetstring.__class__.__name__)
+                return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0))
             octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
-- 
2.43.0


From fc285099aeb195fb272c41329a371c22dd56c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:43 +0000
Subject: [PATCH 05/54] fix: empty BIT STRING is encoded and decoded as zero
 bits, not as a single 0 bit

---
 asn1PERser/codec/per/decoder.py | 6 +++---
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index b30ed61..bbbe705 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -184,7 +184,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
             per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
@@ -220,7 +220,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
@@ -233,7 +233,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=0,
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 7159457..932ef0b 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -122,7 +122,7 @@ def encode_bitstring(bitstring):    # 16
     if bitstring.namedValues:    # 16.2, 16.3
         raise NotImplemented
 
-    bitstring_value = bitstring.asBinary()
+    bitstring_value = bitstring.asBinary() if len(bitstring) else ''
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-- 
2.43.0


From 693df408e31824f6d2686a4927d55b1723da3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:46 +0000
Subject: [PATCH 06/54] fix: no octet-alignment padding for an empty
 size-constrained BIT STRING or OCTET STRING

---
 asn1PERser/codec/per/decoder.py | 6 ++++--
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index bbbe705..b05d856 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -219,7 +219,8 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
-            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
+            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant),
+                                           octet_align=bitstring_length_determinant > 0)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
@@ -232,7 +233,8 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
-            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
+            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant),
+                                           octet_align=bitstring_length_determinant > 0)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 932ef0b..d7c5751 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -40,7 +40,7 @@ def encode(asn1Spec):
 def _produce_complete_encoding(field_list):    # 11.1
     complete_encoding = ''
     for field in field_list:
-        if field.octet_align:
+        if field.octet_align and field.value:    # 11.9.3.3: no field (so no padding) when length is zero
             if len(complete_encoding) % 8 != 0:
                 complete_encoding += ''.zfill(abs(len(complete_encoding) % 8 - 8))
             complete_encoding += field.value
-- 
2.43.0


From e9a815996c65605e7b74a6ca75acf5086d8655e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 07/54] fix: do not skip bits after an extended BIT STRING
 value when decoding

---
 asn1PERser/codec/per/decoder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index b05d856..c548188 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -183,7 +183,6 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=0,
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
-            per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-- 
2.43.0


From 1e64511297cbe3418a41a4fae9391ca942bc3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:50 +0000
Subject: [PATCH 08/54] fix: emit the extension bit of an extensible zero-size
 BIT STRING or OCTET STRING

---
 asn1PERser/codec/per/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index d7c5751..967bc2a 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -139,7 +139,7 @@ def encode_bitstring(bitstring):    # 16
             return [extension_bit_field] + bitstring_length_determinant + [bitstring_bit_field]
     # else:    # 16.7
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
-        return
+        return [extension_bit_field] if extension_bit_field else []
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         if bitstring_len <= 16:    # 16.9
             bitstring_bit_field = bit_field(octet_align=False, value=bitstring_value)
@@ -195,7 +195,7 @@ def encode_octetstring(octetstring):
                                                                        upperBound=None)
             return [extension_bit_field] + octetstring_length_determinant + [octetstring_bit_field]
     if octetstring.subtypeSpec.upperEndpoint == 0:    # 17.5
-        return
+        return [extension_bit_field] if extension_bit_field else []
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         if octetstring_len <= 2:    # 17.6
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
-- 
2.43.0


From 2220a48aedb00645c710811165bf2b36ffbc21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:22 +0000
Subject: [PATCH 09/54] fix: refuse length 16384, which needs fragmentation,
 instead of overflowing the 14 bit length field

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 967bc2a..0ef23c2 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -567,7 +567,7 @@ def encode_length_determinant(normally_small_length, constrained, n, lowerBound,
             encoded_length_determinant_with_8th_bit_zero = bit_field(octet_align=encoded_length_determinant.octet_align,
                                                                      value= '0' + encoded_length_determinant.value)
             return [encoded_length_determinant_with_8th_bit_zero]
-        elif 127 < n <= 16384:    # 11.9.3.7
+        elif 127 < n < 16384:    # 11.9.3.7
             determinant_size = bit_field_size(octets=1, bits=6)
             encoded_length_determinant = encode_non_negative_binary_integer(value=n, size=determinant_size,
                                                                             octet_align=True)
-- 
2.43.0


From e965fd0b904121d64993a5bac0b845deef099abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:25 +0000
Subject: [PATCH 10/54] fix: OCTET STRING and SEQUENCE OF with upper size bound
 of 65536 or more use the unconstrained length form

---
 asn1PERser/codec/per/decoder.py | 4 ++--
 asn1PERser/codec/per/encoder.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index c548188..7275442 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -290,7 +290,7 @@ def decode_octetstring(octetstring, per_bytes):
     else:  # 17.8
         logger.info("%s: lowerEndpoint = %s; upperEndpoint = %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint, octetstring.subtypeSpec.upperEndpoint)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = decode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=per_bytes,
@@ -481,7 +481,7 @@ def decode_sequence_of(sequence_of, per_bytes):
     else:  # 20.6
         logger.info("%s: lowerEndpoint = %s and upperEndpoint = %s", sequence_of.__class__.__name__,
                     sequence_of.subtypeSpec.lowerEndpoint, sequence_of.subtypeSpec.upperEndpoint)
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = decode_length_determinant(normally_small_length=False,
                                                            constrained=True,
                                                            n=per_bytes,
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 0ef23c2..b234bbc 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -211,7 +211,7 @@ def encode_octetstring(octetstring):
             raise NotImplemented
     else:    # 17.8
         octetstring_bit_field = bit_field(octet_align=True, value=octetstring_value)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = encode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=octetstring_len,
@@ -379,7 +379,7 @@ def encode_sequence_of(sequence_of):    # 20
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
     else:    # 20.6
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
-- 
2.43.0


From 7634ca9f4d6ad26a02997bf515654cc48aedf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:27 +0000
Subject: [PATCH 11/54] fix: use the unconstrained length determinant for
 unconstrained INTEGER so that values over 127 octets are correct

---
 asn1PERser/codec/per/decoder.py | 6 +++++-
 asn1PERser/codec/per/encoder.py | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7275442..bfc4fa3 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -682,7 +682,11 @@ def decode_normally_small_non_negative_whole_number(per_bytes, lower_bound):
 
 def decode_unconstrained_whole_number(per_bytes):
     logger.debug("function: decode_unconstrained_whole_number; params: per_bytes: (hidden)")
-    unconstrained_length_determinant = per_bytes.next(octet_align=True)
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
     logger.debug("unconstarined length determinant: %s", unconstrained_length_determinant)
     unconstrained_whole_number = twos_comp(
         per_bytes=per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0)),
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index b234bbc..601592a 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -525,8 +525,12 @@ def encode_semi_constrained_whole_number(n, lower_bound):    # 11.7
 def create_field_list_for_unconstrained_whole_number(integer):
     unconstrained_length_determinant = get_twos_complement_octet_len(integer)
     unconstrained_whole_number = encode_unconstrained_whole_number(integer, unconstrained_length_determinant)
-    unconstrained_length_determinant = '{0:08b}'.format(unconstrained_length_determinant)
-    return [bit_field(octet_align=True, value=unconstrained_length_determinant + unconstrained_whole_number.value)]
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=unconstrained_length_determinant,
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [unconstrained_whole_number]
 
 
 def encode_unconstrained_whole_number(integer, unconstrained_length_determinant):    # 11.8
-- 
2.43.0


From 5a02b354b705617af072e88426a1df58baac4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:58 +0000
Subject: [PATCH 12/54] fix: extensible INTEGER and SIZE constraints with an
 open (MIN/MAX) root endpoint can be encoded and decoded

---
 asn1PERser/codec/per/decoder.py |  9 +++--
 asn1PERser/codec/per/encoder.py | 58 ++++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index bfc4fa3..a8e094b 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -3,7 +3,7 @@ import logging
 import codecs
 from collections import deque
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_size_constrained
 
 
 __all__ = ['decode']
@@ -103,6 +103,11 @@ def decode_integer(integer, per_bytes):
             logger.info("%s: value: %s", integer.__class__.__name__, unconstrained_whole_number)
             logger.info("%s: decoding finished.", integer.__class__.__name__)
             return integer.__class__(unconstrained_whole_number)
+        elif is_semi_constrained_whole_number(integer):
+            return integer.__class__(decode_semi_constrained_whole_number_from_field_list(per_bytes=per_bytes,
+                                                                                          lowerBound=integer.subtypeSpec.lowerEndpoint))
+        elif not is_constrained_whole_number(integer):
+            return integer.__class__(decode_unconstrained_whole_number(per_bytes))
         else:
             constrained_whole_number = decode_constrained_whole_number_from_field_list(per_bytes=per_bytes,
                                                                                        lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
@@ -438,7 +443,7 @@ def decode_sequence_of(sequence_of, per_bytes):
         logger.info("%s: extension bit: %s", sequence_of.__class__.__name__, extension_bit_field)
         if not extension_bit_field:
             length_determinant = decode_length_determinant(normally_small_length=False,
-                                                           constrained=True,
+                                                           constrained=is_size_constrained(sequence_of.subtypeSpec),
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 601592a..8e58ac7 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -66,7 +66,9 @@ def encode_boolean(boolean):    # 12
 
 def encode_integer(integer):
     if integer.subtypeSpec.extensionMarker:    # 13.1
-        if integer.subtypeSpec.lowerEndpoint <= integer._value <= integer.subtypeSpec.upperEndpoint:
+        if is_within_endpoints(integer._value, integer.subtypeSpec):
+            if not is_constrained_whole_number(integer):
+                return [bit_field(octet_align=False, value='0')] + create_field_list_for_not_constrained_whole_number(integer)
             constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=integer._value,
                                                                                                  lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
@@ -84,20 +86,25 @@ def encode_integer(integer):
                                                                                                  lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
             return constrained_whole_number_field_list
-        elif is_semi_constrained_whole_number(integer):    # 13.2.3
-            semi_constrained_whole_number = encode_semi_constrained_whole_number(n=integer._value,
-                                                                                 lower_bound=integer.subtypeSpec.lowerEndpoint)
-            n = int(len(semi_constrained_whole_number.value) / 8)
-            unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
-                                                                         constrained=False,
-                                                                         n=n,
-                                                                         lowerBound=1,
-                                                                         upperBound=None)
-            return unconstrained_length_determinant + [semi_constrained_whole_number]
-
-        else:    # 13.2.4
-            unconstrained_whole_number_field_list = create_field_list_for_unconstrained_whole_number(integer)
-            return unconstrained_whole_number_field_list
+        else:
+            return create_field_list_for_not_constrained_whole_number(integer)
+
+
+def create_field_list_for_not_constrained_whole_number(integer):
+    if is_semi_constrained_whole_number(integer):    # 13.2.3
+        semi_constrained_whole_number = encode_semi_constrained_whole_number(n=integer._value,
+                                                                             lower_bound=integer.subtypeSpec.lowerEndpoint)
+        n = int(len(semi_constrained_whole_number.value) / 8)
+        unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                     constrained=False,
+                                                                     n=n,
+                                                                     lowerBound=1,
+                                                                     upperBound=None)
+        return unconstrained_length_determinant + [semi_constrained_whole_number]
+
+    else:    # 13.2.4
+        unconstrained_whole_number_field_list = create_field_list_for_unconstrained_whole_number(integer)
+        return unconstrained_whole_number_field_list
 
 
 def encode_enumerated(enumerated):
@@ -126,7 +133,7 @@ def encode_bitstring(bitstring):    # 16
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-        if bitstring.subtypeSpec.lowerEndpoint <= bitstring_len <= bitstring.subtypeSpec.upperEndpoint:
+        if is_within_endpoints(bitstring_len, bitstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             bitstring_bit_field = bit_field(octet_align=True, value=bitstring_value)
@@ -183,7 +190,7 @@ def encode_octetstring(octetstring):
 
     extension_bit_field = None
     if octetstring.subtypeSpec.extensionMarker:    # 17.3
-        if octetstring.subtypeSpec.lowerEndpoint <= octetstring_len <= octetstring.subtypeSpec.upperEndpoint:
+        if is_within_endpoints(octetstring_len, octetstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
@@ -360,9 +367,10 @@ def encode_sequence_of(sequence_of):    # 20
     for component in sequence_of:
         component.fill_field_list(sequence_of_field_list)
     if sequence_of.subtypeSpec.extensionMarker:    #20.4
-        if sequence_of.subtypeSpec.lowerEndpoint <= n <= sequence_of.subtypeSpec.upperEndpoint:
+        if is_within_endpoints(n, sequence_of.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
-            length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
+            length_determinant = encode_length_determinant(normally_small_length=False,
+                                                           constrained=is_size_constrained(sequence_of.subtypeSpec),
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
             return [extension_bit_field] + length_determinant + sequence_of_field_list
@@ -640,6 +648,18 @@ def get_twos_complement_octet_len(integer):
                 power_multiplier += 1
 
 
+def is_within_endpoints(n, constraint):
+    if (constraint.lowerEndpoint is not None) and (n < constraint.lowerEndpoint):
+        return False
+    if (constraint.upperEndpoint is not None) and (n > constraint.upperEndpoint):
+        return False
+    return True
+
+
+def is_size_constrained(constraint):
+    return (constraint.upperEndpoint is not None) and (constraint.upperEndpoint < 65536)
+
+
 def is_constrained_whole_number(integer):
     if (integer.subtypeSpec.lowerEndpoint is not None) and (integer.subtypeSpec.upperEndpoint is not None):
         return True
-- 
2.43.0


From 2b219c73cf570d54ab967d961550db589fcddee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:01 +0000
Subject: [PATCH 13/54] fix: PER bounds of an intersection of constraints are
 those of the intersection

---
 asn1PERser/classes/types/constraint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index c563c5f..37cf812 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -101,8 +101,10 @@ class ConstraintOr(ConstraintsUnion):
 class ConstraintAnd(ConstraintsIntersection):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints if constraint.lowerEndpoint is not None]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints if constraint.upperEndpoint is not None]
+        self.lowerEndpoint = max(lower_endpoints) if lower_endpoints else None
+        self.upperEndpoint = min(upper_endpoints) if upper_endpoints else None
         super(ConstraintAnd, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From ec6e96b79dd5200d59686c774ac5b9af15eb9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:03 +0000
Subject: [PATCH 14/54] fix: union of constraints accepts members with open
 (MIN/MAX) endpoints

---
 asn1PERser/classes/types/constraint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 37cf812..6d829bc 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -89,8 +89,10 @@ class ValueSize(ValueSizeConstraint):
 class ConstraintOr(ConstraintsUnion):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints]
+        self.lowerEndpoint = None if None in lower_endpoints else min(lower_endpoints)
+        self.upperEndpoint = None if None in upper_endpoints else max(upper_endpoints)
         super(ConstraintOr, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From 8473f7c104a921634af28f5257fd8d0f9bcc74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:05 +0000
Subject: [PATCH 15/54] fix: SEQUENCE OF constrained to SIZE(0) refuses
 elements

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 8e58ac7..ca9420b 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -382,7 +382,7 @@ def encode_sequence_of(sequence_of):    # 20
             return [extension_bit_field] + length_determinant + sequence_of_field_list
     elif n < sequence_of.subtypeSpec.lowerEndpoint:
         raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
-    elif sequence_of.subtypeSpec.upperEndpoint and (n > sequence_of.subtypeSpec.upperEndpoint):
+    elif (sequence_of.subtypeSpec.upperEndpoint is not None) and (n > sequence_of.subtypeSpec.upperEndpoint):
         raise InvalidComponentIndexIntoStructuredType('invalid index: {}'.format(sequence_of.subtypeSpec.upperEndpoint + 1))
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
-- 
2.43.0


From 30e8afb0867ad47d0602fbb071553693395a829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:25 +0000
Subject: [PATCH 16/54] fix: MIN as lower endpoint of a SIZE constraint means 0

---
 asn1PERser/classes/types/constraint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 6d829bc..2beb511 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -45,7 +45,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(SequenceOfValueSize, self).__init__()
 
@@ -77,7 +77,7 @@ class SingleValue(SingleValueConstraint):
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
-- 
2.43.0


From c77468a5c4a280d6c99e99c1ff782c0f4828c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:42 +0000
Subject: [PATCH 17/54] fix: decoding an empty SEQUENCE OF returns an empty
 value instead of raising or leaving it unset

---
 asn1PERser/codec/per/decoder.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index a8e094b..ba2a6a5 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -79,8 +79,6 @@ def decode(per_stream, asn1Spec, **kwargs):
     per_bytes = PerBytes(binascii.hexlify(per_stream))
     logger.debug("Decoding of bytes: '%s' started. Binary representation: '%s'", codecs.encode(per_stream, "hex_codec"), per_bytes.binary_string)
     decoded = asn1Spec.create_field_list(per_bytes)
-    if decoded == '':
-        return asn1Spec.__class__('')
     return decoded
 
 
@@ -195,7 +193,7 @@ def decode_bitstring(bitstring, per_bytes):
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", bitstring.__class__.__name__)
         logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-        return ''
+        return bitstring.__class__('')
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", bitstring.__class__.__name__, bitstring.subtypeSpec.lowerEndpoint)
         if bitstring.subtypeSpec.lowerEndpoint <= 16:    # 16.9
@@ -272,7 +270,7 @@ def decode_octetstring(octetstring, per_bytes):
     if octetstring.subtypeSpec.upperEndpoint == 0:  # 17.5
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", octetstring.__class__.__name__)
         logger.info("%s: decoding finished.", octetstring.__class__.__name__)
-        return ''
+        return octetstring.__class__('')
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint)
@@ -435,7 +433,7 @@ def decode_sequence(sequence, per_bytes):
 
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
-    new_seq_of = sequence_of.__class__()
+    new_seq_of = sequence_of.__class__().clear()
     component_type = sequence_of.getComponentType()
     if sequence_of.subtypeSpec.extensionMarker:  # 20.4
         logger.info("%s: extension marker should be present", sequence_of.__class__.__name__)
-- 
2.43.0


From 7e0279b89ece746b23ed00d8fc73ee8aea78c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:28 +0000
Subject: [PATCH 18/54] fix: an OPTIONAL or extension component explicitly set
 to an empty SEQUENCE OF or SEQUENCE is encoded as present

---
 asn1PERser/codec/per/encoder.py | 34 +++++++--------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index ca9420b..276897f 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -246,15 +246,8 @@ def encode_sequence(sequence):    # 19
         componentType = sequence.getComponentByName(namedType.name)
         if namedType.isOptional:    # 19.2
             if componentType.isValue:
-                if not hasattr(componentType, '_componentValues'):
-                    optional_default_bit_field_value += '1'
-                    componentType.fill_field_list(rootComponentFieldList)
-                else:
-                    if len(componentType._componentValues) > 0:
-                        optional_default_bit_field_value += '1'
-                        componentType.fill_field_list(rootComponentFieldList)
-                    else:
-                        optional_default_bit_field_value += '0'
+                optional_default_bit_field_value += '1'
+                componentType.fill_field_list(rootComponentFieldList)
             else:
                 optional_default_bit_field_value += '0'
         elif namedType.isDefaulted:    # 19.2
@@ -290,17 +283,9 @@ def encode_sequence(sequence):    # 19
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
-                        if not hasattr(extensionComponentType, '_componentValues'):
-                            extension_addition_bit_field_value += '1'
-                            open_type_field_list = encode_open_type_field(extensionComponentType)
-                            extension_addition_field_list.extend(open_type_field_list)
-                        else:
-                            if len(extensionComponentType._componentValues) > 0:
-                                extension_addition_bit_field_value += '1'
-                                open_type_field_list = encode_open_type_field(extensionComponentType)
-                                extension_addition_field_list.extend(open_type_field_list)
-                            else:
-                                extension_addition_bit_field_value += '0'
+                        extension_addition_bit_field_value += '1'
+                        open_type_field_list = encode_open_type_field(extensionComponentType)
+                        extension_addition_field_list.extend(open_type_field_list)
                     else:
                         extension_addition_bit_field_value += '0'
                     previous_extensionComponent = {'name': namedType.name,
@@ -316,13 +301,8 @@ def encode_sequence(sequence):    # 19
                         if extensionComponentType.isValue:
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
-                            if not hasattr(extensionComponentType, '_componentValues'):
-                                extension_addition_group_present = True
-                                previous_extension_addition_group_component_present = True
-                            else:
-                                if len(extensionComponentType._componentValues) > 0:
-                                    extension_addition_group_present = True
-                                    previous_extension_addition_group_component_present = True
+                            extension_addition_group_present = True
+                            previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
                                                             'present': previous_extension_addition_group_component_present,
                                                             'optional': namedType.isOptional}
-- 
2.43.0


From 777a80fafb5830cb642c218f6ce68de1b8a82832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:31 +0000
Subject: [PATCH 19/54] fix: a decoded SEQUENCE without any component is an
 empty value, not an unset one

---
 asn1PERser/classes/data/builtin/SequenceType.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 21f88c2..bf36ddb 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -30,6 +30,8 @@ class SequenceType(Sequence):
 
     def create_field_list(self, per_bytes):
         decoded = decode_sequence(self, per_bytes)
+        if decoded.components is noValue:
+            decoded.clear()
         return decoded
 
     def to_dict(self, is_root=True):
-- 
2.43.0


From 3763ddae89fcfaa79dc2b417ce0351b01f6e916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 20/54] fix: to_dict keeps empty lists and sequences, skips
 absent components and does not make them present

---
 asn1PERser/classes/data/builtin/ChoiceType.py     |  5 +----
 asn1PERser/classes/data/builtin/SequenceOfType.py | 11 ++---------
 asn1PERser/classes/data/builtin/SequenceType.py   | 15 +++++----------
 3 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/ChoiceType.py b/asn1PERser/classes/data/builtin/ChoiceType.py
index 92e5cd7..5597e60 100644
--- a/asn1PERser/classes/data/builtin/ChoiceType.py
+++ b/asn1PERser/classes/data/builtin/ChoiceType.py
@@ -22,7 +22,4 @@ class ChoiceType(Choice):
     def to_dict(self, is_root=True):
         for componentType, componentValue in self.items():
             if componentValue is not noValue and componentValue.isValue:
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    return {componentType: value_dict}
-                return {}
+                return {componentType: componentValue.to_dict(is_root=False)}
diff --git a/asn1PERser/classes/data/builtin/SequenceOfType.py b/asn1PERser/classes/data/builtin/SequenceOfType.py
index 1fc7c2d..c918b94 100644
--- a/asn1PERser/classes/data/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/data/builtin/SequenceOfType.py
@@ -19,13 +19,6 @@ class SequenceOfType(SequenceOf):
     def to_dict(self, is_root=True):
         component_list = []
         for componentValue in self:
-            if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_list.append(value_dict)
-
-        if is_root:
-            return component_list
-        if not component_list:
-            return noValue
+            if componentValue is not noValue:
+                component_list.append(componentValue.to_dict(is_root=False))
         return component_list
diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index bf36ddb..669859f 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -36,14 +36,9 @@ class SequenceType(Sequence):
 
     def to_dict(self, is_root=True):
         component_dict = OrderedDict()
-        for componentType, componentValue in self.items():
-            if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_dict[componentType] = value_dict
-
-        if is_root:
-            return component_dict
-        if not component_dict:
-            return noValue
+        for namedType in self.componentType.namedTypes:
+            # absent components must not be instantiated, as that could make them present
+            componentValue = self.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
+            if componentValue is not noValue and componentValue.isValue:
+                component_dict[namedType.name] = componentValue.to_dict(is_root=False)
         return component_dict
-- 
2.43.0


From b905867f18d409a6d50b9f15e293649a54a3bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:22 +0000
Subject: [PATCH 21/54] fix: SEQUENCE extension bitmap is read by its received
 length and unknown additions are skipped

---
 asn1PERser/codec/per/decoder.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index ba2a6a5..509e3f7 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -391,7 +391,7 @@ def decode_sequence(sequence, per_bytes):
                                                                           lowerBound=None,
                                                                           upperBound=None)
         extension_addition_bit_field_value = per_bytes.next(size=bit_field_size(octets=0, bits=extension_addition_length_determinant))
-        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_bit_field_len)
+        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_length_determinant)
         logger.info("%s: extension bits: '%s'; within that: extension addition bits: '%s'; extension addition group bits: '%s'",
                     sequence.__class__.__name__,
                     extension_addition_bit_field_bits,
@@ -427,6 +427,10 @@ def decode_sequence(sequence, per_bytes):
                 else:
                     logger.info("%s: extension addition group number %s not present",
                                 sequence.__class__.__name__, group_index)
+        for is_present_bit in extension_addition_bit_field_bits[extension_addition_bit_field_len:]:    # 19.9 unknown additions
+            if int(is_present_bit):
+                logger.info("%s: skipping unknown extension addition", sequence.__class__.__name__)
+                skip_open_type_field(per_bytes)
     logger.info("%s: decoding finished.", sequence.__class__.__name__)
     return new_seq
 
@@ -644,6 +648,15 @@ def decode_open_type_field(type, per_bytes):
     return decoded
 
 
+def skip_open_type_field(per_bytes):
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=None,
+                                                                 upperBound=None)
+    per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
+
+
 def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     logger.debug("function: decode_constrained_whole_number; params: per_bytes: (hidden), lowerBound: %s, "
                  "upperBound: %s", lowerBound, upperBound)
-- 
2.43.0


From 9b418f1af87251bfa1f895fb06fd80b7c6820491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:25 +0000
Subject: [PATCH 22/54] fix: DEFAULT BIT STRING is compared with its length,
 not only by numeric value

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 276897f..a79827f 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -254,7 +254,7 @@ def encode_sequence(sequence):    # 19
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if namedType._NamedType__type._value != componentType._value:    # hacky...:) no other way for now
+            if namedType.asn1Object != componentType:
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
-- 
2.43.0


From 1617f3c100d35445ebd99b197bf7fca67aa7f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:36 +0000
Subject: [PATCH 23/54] fix: extension additions equal to their DEFAULT are
 treated as absent

---
 asn1PERser/codec/per/encoder.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index a79827f..66558d9 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -254,7 +254,7 @@ def encode_sequence(sequence):    # 19
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if namedType.asn1Object != componentType:
+            if not is_default_value(namedType, componentType):
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
@@ -279,7 +279,7 @@ def encode_sequence(sequence):    # 19
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = sequence.getComponentByName(namedType.name)
-                    if extensionComponentType.isValue:
+                    if extensionComponentType.isValue and not is_default_value(namedType, extensionComponentType):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
@@ -290,7 +290,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '0'
                     previous_extensionComponent = {'name': namedType.name,
                                                    'present': bool(int(extension_addition_bit_field_value[-1])),
-                                                   'optional': namedType.isOptional}
+                                                   'optional': namedType.isOptional or namedType.isDefaulted}
             if sequence.extensionAdditionGroups:
                 for index_group, extensionAdditionGroup in enumerate(sequence.extensionAdditionGroups, start=1):
                     extension_addition_group_present = False
@@ -298,14 +298,14 @@ def encode_sequence(sequence):    # 19
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
                         extensionComponentType = sequence.getComponentByName(namedType.name)
-                        if extensionComponentType.isValue:
+                        if extensionComponentType.isValue and not is_default_value(namedType, extensionComponentType):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
                             extension_addition_group_present = True
                             previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
                                                             'present': previous_extension_addition_group_component_present,
-                                                            'optional': namedType.isOptional}
+                                                            'optional': namedType.isOptional or namedType.isDefaulted}
                         extension_group_components[index_group].append(previous_extensionGroupComponent)
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
@@ -628,6 +628,10 @@ def get_twos_complement_octet_len(integer):
                 power_multiplier += 1
 
 
+def is_default_value(namedType, component):
+    return namedType.isDefaulted and namedType.asn1Object == component
+
+
 def is_within_endpoints(n, constraint):
     if (constraint.lowerEndpoint is not None) and (n < constraint.lowerEndpoint):
         return False
-- 
2.43.0


From a30430728b229099bec0ffe393b7352cc913a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:15 +0000
Subject: [PATCH 24/54] fix: a missing mandatory extension addition is detected
 wherever a later one is present, not only right before it

---
 asn1PERser/codec/per/encoder.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 66558d9..b6805cf 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -276,22 +276,23 @@ def encode_sequence(sequence):    # 19
             extension_addition_field_list = []
             encoded_extension_addition_groups = []
             extension_group_components = defaultdict(list)
+            missing_extension_component = None    # first mandatory extension addition (or group) which is not present
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = sequence.getComponentByName(namedType.name)
                     if extensionComponentType.isValue and not is_default_value(namedType, extensionComponentType):
-                        if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
-                            raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
+                        if missing_extension_component is not None:
+                            raise MandatoryExtensionFieldNotPresent(missing_extension_component)
 
                         extension_addition_bit_field_value += '1'
                         open_type_field_list = encode_open_type_field(extensionComponentType)
                         extension_addition_field_list.extend(open_type_field_list)
                     else:
                         extension_addition_bit_field_value += '0'
-                    previous_extensionComponent = {'name': namedType.name,
-                                                   'present': bool(int(extension_addition_bit_field_value[-1])),
-                                                   'optional': namedType.isOptional or namedType.isDefaulted}
+                        if (missing_extension_component is None) and not (namedType.isOptional or namedType.isDefaulted):
+                            missing_extension_component = namedType.name
             if sequence.extensionAdditionGroups:
+                missing_extension_component = None
                 for index_group, extensionAdditionGroup in enumerate(sequence.extensionAdditionGroups, start=1):
                     extension_addition_group_present = False
                     previous_extensionGroupComponent = {}
@@ -309,13 +310,12 @@ def encode_sequence(sequence):    # 19
                         extension_group_components[index_group].append(previous_extensionGroupComponent)
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
+                        if (missing_extension_component is None) and not any(component['optional'] for component
+                                                                             in extension_group_components[index_group]):
+                            missing_extension_component = extension_group_components[index_group][0]['name']
                     else:
-                        if (index_group > 1):
-                            for previous_extension_group_component in extension_group_components[index_group - 1]:
-                                if previous_extension_group_component['present'] or previous_extension_group_component['optional']:
-                                    break
-                            else:
-                                raise MandatoryExtensionFieldNotPresent(extension_group_components[index_group - 1][0]['name'])
+                        if missing_extension_component is not None:
+                            raise MandatoryExtensionFieldNotPresent(missing_extension_component)
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-- 
2.43.0


From e9a60ca22afd148783a27bae1e8e587768bf9c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:54 +0000
Subject: [PATCH 25/54] fix: ENUMERATED index is the position in ascending
 value order, so explicitly numbered values round-trip

---
 asn1PERser/codec/per/decoder.py | 7 +++----
 asn1PERser/codec/per/encoder.py | 8 ++++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 509e3f7..bf1b66b 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -151,7 +151,7 @@ def decode_enumerated(enumerated, per_bytes):
         enumeration_index = decode_constrained_whole_number(per_bytes, lowerBound=0, upperBound=len(list(enumerated.namedValues)) - 1)
         logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
         logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-        return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+        return enumerated.__class__(sorted(enumerated.namedValues.values())[enumeration_index])
     else:    # 14.3
         logger.info("%s: extension marker should be present", enumerated.__class__.__name__)
         value_is_extension_addition = per_bytes.next(size=bit_field_size(octets=0, bits=1))
@@ -161,13 +161,12 @@ def decode_enumerated(enumerated, per_bytes):
                                                                 upperBound=len(list(enumerated.enumerationRoot)) - 1)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-            return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+            return enumerated.__class__(sorted(enumerated.enumerationRoot.values())[enumeration_index])
         else:
             enumeration_index = decode_normally_small_non_negative_whole_number(per_bytes, lower_bound=0)
-            enumeration_index += len(enumerated.enumerationRoot)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-            return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+            return enumerated.__class__(list(enumerated.extensionAddition.values())[enumeration_index])
 
 
 def decode_bitstring(bitstring, per_bytes):
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index b6805cf..f2952ee 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -109,12 +109,12 @@ def create_field_list_for_not_constrained_whole_number(integer):
 
 def encode_enumerated(enumerated):
     if not enumerated.subtypeSpec.extensionMarker:    # 14.2
-        return create_field_list_for_constrained_whole_number(n=enumerated._value, lowerEndpoint=0,
+        return create_field_list_for_constrained_whole_number(n=get_enumeration_index(enumerated.namedValues, enumerated._value), lowerEndpoint=0,
                                                               upperEndpoint=len(list(enumerated.namedValues)) - 1)
     else:    # 14.3
         if enumerated._value in list(enumerated.enumerationRoot.values()):
             extension_bit_field = bit_field(octet_align=False, value='0')
-            constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=enumerated._value,
+            constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=get_enumeration_index(enumerated.enumerationRoot, enumerated._value),
                                                                                                  lowerEndpoint=0,
                                                                                                  upperEndpoint=len(list(enumerated.enumerationRoot)) - 1)
             return [extension_bit_field] + constrained_whole_number_field_list
@@ -598,6 +598,10 @@ def get_bit_field_size(range):
         return bit_field_size(octets=range_octet_len, bits=0)
 
 
+def get_enumeration_index(named_values, value):    # 14.1
+    return sorted(named_values.values()).index(value)
+
+
 def integer_range(lb, ub):
     return ub - lb + 1
 
-- 
2.43.0


From 918965daa8af69d813a2dcfa476a6a172c8eec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:19 +0000
Subject: [PATCH 26/54] fix: an absent OPTIONAL SEQUENCE without mandatory
 components is not made present by reading or encoding

---
 asn1PERser/classes/data/builtin/SequenceType.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 669859f..b5026cf 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -23,6 +23,13 @@ class SequenceType(Sequence):
                 return True
         return False
 
+    def setComponentByPosition(self, idx, value=noValue, *args, **kwargs):
+        super(SequenceType, self).setComponentByPosition(idx, value, *args, **kwargs)
+        if value is noValue and isinstance(self._componentValues[idx], SequenceType):
+            # instantiated (e.g. by reading it) but not set: must stay absent even if it has no mandatory components
+            self._componentValues[idx].reset()
+        return self
+
     def fill_field_list(self, field_list):
         sequence_field_list = encode_sequence(self)
         if sequence_field_list:
-- 
2.43.0


From f9e594bedd6d439e947e247153536f6dc7b7fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 27/54] fix: an explicitly empty SEQUENCE with mandatory
 extension additions counts as present

---
 asn1PERser/classes/data/builtin/SequenceType.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index b5026cf..74bacae 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -21,7 +21,9 @@ class SequenceType(Sequence):
         for component in self.components:
             if component is not noValue and component.isValue:
                 return True
-        return False
+        # explicitly empty: only root components are mandatory, not extension additions
+        return self.rootComponent is not None and all(
+            namedType.isOptional or namedType.isDefaulted for namedType in self.rootComponent.namedTypes)
 
     def setComponentByPosition(self, idx, value=noValue, *args, **kwargs):
         super(SequenceType, self).setComponentByPosition(idx, value, *args, **kwargs)
-- 
2.43.0


From de6be014876f753b7e563a8dec35f15efd7adadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:44 +0000
Subject: [PATCH 28/54] fix: a list with an incomplete element is refused
 instead of silently left out

---
 asn1PERser/classes/data/builtin/SequenceOfType.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/SequenceOfType.py b/asn1PERser/classes/data/builtin/SequenceOfType.py
index c918b94..d58c4a8 100644
--- a/asn1PERser/classes/data/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/data/builtin/SequenceOfType.py
@@ -7,6 +7,15 @@ from asn1PERser.classes.types.constraint import SequenceOfValueSize, MAX
 class SequenceOfType(SequenceOf):
     subtypeSpec = SequenceOfValueSize(0, MAX)
 
+    @property
+    def isValue(self):
+        if super(SequenceOfType, self).isValue:
+            return True
+        if self._componentValues is noValue:
+            return False
+        # an incomplete element must be refused when encoding, it must not make the whole list absent
+        return any(component is not noValue and component.isValue for component in self._componentValues.values())
+
     def fill_field_list(self, field_list):
         sequence_of_field_list = encode_sequence_of(self)
         if sequence_of_field_list:
-- 
2.43.0


From 9189e03180ba9e909acbf7c8b33b88017acb4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:07 +0000
Subject: [PATCH 29/54] fix: encoding an unset mandatory SEQUENCE does not
 leave it set

---
 asn1PERser/classes/data/builtin/SequenceType.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 74bacae..f525e18 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -33,7 +33,8 @@ class SequenceType(Sequence):
         return self
 
     def fill_field_list(self, field_list):
-        sequence_field_list = encode_sequence(self)
+        # encoding an unset sequence instantiates its components, which must not make it set
+        sequence_field_list = encode_sequence(self.clone() if self.components is noValue else self)
         if sequence_field_list:
             field_list.extend(sequence_field_list)
 
-- 
2.43.0


From 353c736ddf523d8a12ac6057aeacb482d9178f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:11 +0000
Subject: [PATCH 30/54] fix: keep the extension marker of a constraint written
 outside SIZE, like (SIZE(1..4), ...)

---
 asn1PERser/classes/parse_actions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 1f0a662..a8c5bbc 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -179,7 +179,10 @@ def parse_EnumeratedType(toks):
 def parse_Constraint(toks):
     constraint = toks[0]
     if constraint[0] == 'SIZE':
-        return constraint[1]
+        size_constraint = constraint[1]
+        if any('...' in token for token in constraint[2:] if not isinstance(token, constraint_tuple)):
+            size_constraint = size_constraint._replace(extensionMarker=True)
+        return size_constraint
     constraint = '(' + ' '.join(constraint) + ')'
     parsed = list(Constraint.parseString(constraint))
     ext_mark = False
-- 
2.43.0


From 5ddd796a649066f94c7160c6cdfc6be861dca7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:15 +0000
Subject: [PATCH 31/54] fix: do not take bounds of constraint extension
 additions, like (0..5, ..., 6..10), as root bounds

---
 asn1PERser/classes/parse_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index a8c5bbc..7433d55 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -187,6 +187,6 @@ def parse_Constraint(toks):
     parsed = list(Constraint.parseString(constraint))
     ext_mark = False
     if '...' in parsed:
-        parsed.remove('...')
+        parsed = parsed[:parsed.index('...')]    # bounds after extension marker are not part of the root
         ext_mark = True
     return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
-- 
2.43.0


From cb948dbc854d06fd17828a09d8b25315be700ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:19 +0000
Subject: [PATCH 32/54] fix: components after the second extension marker of a
 SEQUENCE belong to its root

---
 asn1PERser/classes/types/builtin/SequenceType.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 4013c19..1fff63d 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -18,6 +18,7 @@ class SequenceType(ComponentType):
         single_extension_group = []
         in_extension_addition_group = False
         extension_marker_present = False
+        in_root = True
         for ComponentType in self.ComponentTypeList:
             if ComponentType == '[[':
                 in_extension_addition_group = True
@@ -30,10 +31,11 @@ class SequenceType(ComponentType):
             if in_extension_addition_group:
                 single_extension_group.append(self._fill_named_types(ComponentType))
             if ComponentType == '...':
+                in_root = extension_marker_present    # second extension marker: root components follow
                 extension_marker_present = True
                 continue
             if not in_extension_addition_group:
-                if not extension_marker_present:
+                if in_root:
                     root_named_types.append(self._fill_named_types(ComponentType))
                 else:
                     addition_named_types.append(self._fill_named_types(ComponentType))
-- 
2.43.0


From 38193330ec7d04861a7a1f0c158e58b722594c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:22 +0000
Subject: [PATCH 33/54] fix: keep constraints and inline definitions of
 SEQUENCE OF elements

---
 .../templates/files/SequenceOfType.txt        |  5 ++++
 .../classes/types/builtin/SequenceOfType.py   | 28 +++++++++++++++----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/classes/templates/files/SequenceOfType.txt b/asn1PERser/classes/templates/files/SequenceOfType.txt
index f1c1cd7..afd9b8d 100644
--- a/asn1PERser/classes/templates/files/SequenceOfType.txt
+++ b/asn1PERser/classes/templates/files/SequenceOfType.txt
@@ -1,4 +1,9 @@
 class {{ class_name }}({{ class_type }}):
+{%- filter indent(width=4) %}
+{%- for template in subtemplates %}
+{{ template }}
+{%- endfor %}
+{%- endfilter %}
 {%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = SequenceOfValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
diff --git a/asn1PERser/classes/types/builtin/SequenceOfType.py b/asn1PERser/classes/types/builtin/SequenceOfType.py
index b698562..83335a0 100644
--- a/asn1PERser/classes/types/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/types/builtin/SequenceOfType.py
@@ -10,21 +10,39 @@ class SequenceOfType(ComponentType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
+        subtypes_templates = []
+        inner_defined_templates = []
+        field_type = self.ComponentType.template_field_type
+        if self.ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
+            is_inline = self.ComponentType.is_constrained()
+        elif self.ComponentType.typereference in ['ChoiceType', 'SequenceType', 'EnumeratedType', 'SequenceOfType']:
+            is_inline = True
+        else:
+            is_inline = False
+            inner_defined_templates = [self.ComponentType]
+        if is_inline:
+            self.ComponentType.identifier = 'element'
+            field_type = self.ComponentType.template_class_name
+            inner_templates, subtypes_template = self.ComponentType.fill_template(has_parent=True)
+            subtypes_templates.append(subtypes_template[:-2])    # remove 2 last new line characters
+            if inner_templates:
+                inner_defined_templates.extend(inner_templates)
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
-                                               field_type=self.ComponentType.template_field_type,
+                                               subtemplates=subtypes_templates,
+                                               field_type=field_type,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
                                                            'upperEndpoint': self.constraint.upperEndpoint})
         if has_parent:
-            return ([self.ComponentType], filled_template)
+            return (inner_defined_templates, filled_template)
         if filled_template in already_filled_template:
             return ''
         already_filled_template.add(filled_template)
-        if self.ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-            return filled_template
-        components_template = self.ComponentType.fill_template()
+        components_template = ''
+        for inner_defined_template in inner_defined_templates:
+            components_template += inner_defined_template.fill_template()
         return components_template + filled_template
 
     @property
-- 
2.43.0


From 1698fcb30645ad7d4dfa3bd2379487380b07a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:32 +0000
Subject: [PATCH 34/54] fix: honour explicit numbers of ENUMERATED items

---
 .../classes/types/builtin/EnumeratedType.py   | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index b96cd3c..79e543e 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -13,18 +13,24 @@ class EnumeratedType(SimpleType):
         root_named_values = []
         addition_named_values = []
         extension_marker_present = False
+        root_indexes = set(EnumerationItem[1] for EnumerationItem in self._root_items() if EnumerationItem[1] is not None)
         enumeration_index = 0
         for EnumerationItem in self.EnumerationItems:
             if EnumerationItem == '...':
                 extension_marker_present = True
+                enumeration_index = 0
                 continue
+            name, index = EnumerationItem
+            if index is None:    # X.680 20.6: first number, which is not used in root
+                while enumeration_index in root_indexes:
+                    enumeration_index += 1
+                index = enumeration_index
             if not extension_marker_present:
-                root_named_values.append({'field_name': str(EnumerationItem).strip(),
-                                          'field_index': enumeration_index})
+                root_named_values.append({'field_name': name, 'field_index': index})
+                root_indexes.add(index)
             else:
-                addition_named_values.append({'field_name': str(EnumerationItem).strip(),
-                                              'field_index': enumeration_index})
-            enumeration_index += 1
+                addition_named_values.append({'field_name': name, 'field_index': index})
+                enumeration_index = index + 1
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
@@ -44,10 +50,17 @@ class EnumeratedType(SimpleType):
 
     @EnumerationItems.setter
     def EnumerationItems(self, EnumerationItem):
-        if isinstance(EnumerationItem, str):
+        if EnumerationItem == '...':
             self._EnumerationItems.append(EnumerationItem)
+        elif isinstance(EnumerationItem, str):
+            self._EnumerationItems.append((EnumerationItem.strip(), None))
         else:
-            self._EnumerationItems.append({EnumerationItem[1]: EnumerationItem[0]})
+            self._EnumerationItems.append((EnumerationItem[0], int(EnumerationItem[1])))
+
+    def _root_items(self):
+        if '...' in self.EnumerationItems:
+            return self.EnumerationItems[:self.EnumerationItems.index('...')]
+        return self.EnumerationItems
 
     def parse_value(self, value):
         return "'" + value + "'"
-- 
2.43.0


From bfd6390e1558557afe2792983f310beee4074d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:36 +0000
Subject: [PATCH 35/54] fix: do not generate names that are Python keywords

---
 asn1PERser/classes/templates/__init__.py        | 10 ++++++++--
 asn1PERser/classes/types/builtin/DefinedType.py |  7 ++++---
 asn1PERser/classes/types/type.py                |  4 ++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index 2ad4066..ea238f5 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -1,14 +1,20 @@
+from keyword import iskeyword
 from .creator import template_filler
 
 
+def python_name(name):
+    name = name.replace('-', '_')
+    return name + '_' if iskeyword(name) else name
+
+
 class Template(object):
     def fill_template(self):
         return template_filler.fill('header')
 
     @property
     def template_class_name(self):
-        return self.identifier.replace('-','_') if self.identifier else self.typereference.replace('-','_')
+        return python_name(self.identifier) if self.identifier else python_name(self.typereference)
 
     @property
     def template_field_type(self):
-        return self.typereference.replace('-','_') if self.typereference else self.identifier.replace('-','_')
+        return python_name(self.typereference) if self.typereference else python_name(self.identifier)
diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index fc3df2b..bdd0a15 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -1,5 +1,6 @@
 from ..type import DefType, SimpleType
 from asn1PERser.classes.module import typereference_to_type
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 
 
@@ -13,8 +14,8 @@ class DefinedType(DefType):
 
         if self.identifier and self.typereference and not self.Value:  # Foo ::= Bar
             return template_filler.fill(asn_type='type_type', type_or_value='type',
-                                        identifier=self.identifier.replace('-', '_'),
-                                        typereference=self.typereference.replace('-', '_'))
+                                        identifier=python_name(self.identifier),
+                                        typereference=python_name(self.typereference))
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
             while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
@@ -24,7 +25,7 @@ class DefinedType(DefType):
             defined_type.Value = self.Value
             return template_filler.fill(asn_type='simple_value', type_or_value='value',
                                         valuereference=self.valuereference,
-                                        class_type=self.typereference.replace('-','_'),
+                                        class_type=python_name(self.typereference),
                                         value=defined_type.Value)
         if self.Value:
             defined_type.Value = self.Value
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 1d196af..64bf182 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -1,5 +1,5 @@
 from pyasn1.type.namedtype import NamedTypes
-from asn1PERser.classes.templates import Template
+from asn1PERser.classes.templates import Template, python_name
 from asn1PERser.classes.types.constraint import NoConstraint
 
 
@@ -46,7 +46,7 @@ class Type(Template):
 
     @valuereference.setter
     def valuereference(self, valuereference):
-        self._valuereference = valuereference.replace('-', '_')
+        self._valuereference = python_name(valuereference)
 
     @property
     def Value(self):
-- 
2.43.0


From 54592ebf48dd353613b34ea8656f15bd3fd9da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:40 +0000
Subject: [PATCH 36/54] fix: value references in DEFAULT, constraints and
 values of any type

---
 asn1PERser/classes/module.py                        |  7 +++++++
 asn1PERser/classes/parse_actions.py                 |  2 ++
 asn1PERser/classes/types/builtin/BitStringType.py   |  3 +++
 asn1PERser/classes/types/builtin/BooleanType.py     |  7 +++++--
 asn1PERser/classes/types/builtin/DefinedType.py     | 10 +++-------
 asn1PERser/classes/types/builtin/EnumeratedType.py  |  3 +++
 asn1PERser/classes/types/builtin/IntegerType.py     |  6 ++++++
 asn1PERser/classes/types/builtin/OctetStringType.py |  3 +++
 asn1PERser/classes/types/builtin/SequenceType.py    | 13 +++++--------
 9 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1007edd..7509ae5 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -13,6 +13,13 @@ constants = {}
 already_filled_template = set()
 
 
+def get_defined_type(typereference):
+    defined_type = typereference_to_type[typereference]
+    while isinstance(defined_type, DefType):    # Foo ::= Bar
+        defined_type = typereference_to_type[defined_type.typereference]
+    return defined_type
+
+
 class ModuleDefinition(Template):
     def __init__(self):
         self._ModuleIdentifier = ''
diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 7433d55..3021f06 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -4,6 +4,7 @@ from asn1PERser.classes.types.builtin import SequenceType, DefinedType, \
     VisibleString, NumericString, IntegerType, DateType, RealType, BooleanType, \
     ChoiceType, EnumeratedType, IA5String, UTF8String, OctetStringType, \
     BitStringType, SequenceOfType, builtin_types
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.module import ModuleDefinition, typereference_to_type
 from asn1PERser.asn_definitions.constraint_def import Constraint
 
@@ -189,4 +190,5 @@ def parse_Constraint(toks):
     if '...' in parsed:
         parsed = parsed[:parsed.index('...')]    # bounds after extension marker are not part of the root
         ext_mark = True
+    parsed = [python_name(token) if token[0].islower() else token for token in parsed]    # value references
     return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index f3b89f4..24374f3 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -26,6 +27,8 @@ class BitStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
+        if not value.startswith("'"):    # value reference
+            return python_name(value)
         if value.endswith('B'):
             return "binValue={}".format(value[:-1])
         if value.endswith('H'):
diff --git a/asn1PERser/classes/types/builtin/BooleanType.py b/asn1PERser/classes/types/builtin/BooleanType.py
index 71f74c0..6b042dd 100644
--- a/asn1PERser/classes/types/builtin/BooleanType.py
+++ b/asn1PERser/classes/types/builtin/BooleanType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -9,7 +10,7 @@ class BooleanType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if isinstance(self.Value, bool):
+        if self.Value is not None:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
@@ -25,4 +26,6 @@ class BooleanType(SimpleType):
     def parse_value(self, value):
         if value == 'TRUE':
             return True
-        return False
+        if value == 'FALSE':
+            return False
+        return python_name(value)    # value reference
diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index bdd0a15..99ddefb 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -1,5 +1,5 @@
 from ..type import DefType, SimpleType
-from asn1PERser.classes.module import typereference_to_type
+from asn1PERser.classes.module import typereference_to_type, get_defined_type
 from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 
@@ -18,15 +18,11 @@ class DefinedType(DefType):
                                         typereference=python_name(self.typereference))
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
-            while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-                defined_type = typereference_to_type[defined_type.typereference]
-            defined_type.valuereference = self.valuereference
-            defined_type.typereference = self.typereference
-            defined_type.Value = self.Value
+            defined_type = get_defined_type(self.typereference)
             return template_filler.fill(asn_type='simple_value', type_or_value='value',
                                         valuereference=self.valuereference,
                                         class_type=python_name(self.typereference),
-                                        value=defined_type.Value)
+                                        value=defined_type.parse_value(self.Value))
         if self.Value:
             defined_type.Value = self.Value
             return defined_type.fill_template()
diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index 79e543e..78ba7f8 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -63,6 +64,8 @@ class EnumeratedType(SimpleType):
         return self.EnumerationItems
 
     def parse_value(self, value):
+        if value not in [EnumerationItem[0] for EnumerationItem in self.EnumerationItems if EnumerationItem != '...']:
+            return python_name(value)    # value reference
         return "'" + value + "'"
 
     def __repr__(self):
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 40c6107..067654e 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -24,3 +25,8 @@ class IntegerType(SimpleType):
             already_filled_template.add(filled_template)
             return filled_template
         return ''
+
+    def parse_value(self, value):
+        if value[0].isalpha():    # value reference
+            return python_name(value)
+        return value
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index e1f1cdc..63cb145 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -26,6 +27,8 @@ class OctetStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
+        if not value.startswith("'"):    # value reference
+            return python_name(value)
         if value.endswith('B'):
             return "binValue={}".format(value[:-1])
         if value.endswith('H'):
diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 1fff63d..3e94832 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -1,6 +1,6 @@
 from ..type import ComponentType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants
+from asn1PERser.classes.module import already_filled_template, typereference_to_type, get_defined_type
 
 
 class SequenceType(ComponentType):
@@ -96,14 +96,11 @@ class SequenceType(ComponentType):
             named_type_properties['optional'] = True
         elif ComponentType.default is not None:
             named_type_properties['default'] = True
-            if ComponentType.default in constants.keys():
-                named_type_properties['is_constant'] = True;
-                named_type_properties['default_value'] = str(ComponentType.default)
+            if ComponentType.typereference in typereference_to_type.keys():
+                defined_type = get_defined_type(ComponentType.typereference)
+                named_type_properties['default_value'] = defined_type.parse_value(ComponentType.default)
             else:
-                if ComponentType.typereference in typereference_to_type.keys():
-                    named_type_properties['default_value'] = typereference_to_type[ComponentType.typereference].parse_value(ComponentType.default)
-                else:
-                    named_type_properties['default_value'] = str(ComponentType.default)
+                named_type_properties['default_value'] = str(ComponentType.default)
         else:
             pass
         return named_type_properties
-- 
2.43.0


From d5649bc4c8bb245d9c7ab90a29aa8bf9572d5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:44 +0000
Subject: [PATCH 37/54] fix: a parsed module must not see types of modules
 parsed before

---
 asn1PERser/classes/module.py                   | 6 ++++--
 asn1PERser/classes/parse_actions.py            | 4 +---
 asn1PERser/classes/types/builtin/ChoiceType.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 7509ae5..1d34844 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -9,7 +9,6 @@ logger = logging.getLogger("asn1perser.moduleParser")
 
 typereference_to_type = {}
 valuereference_to_type = {}
-constants = {}
 already_filled_template = set()
 
 
@@ -37,6 +36,10 @@ class ModuleDefinition(Template):
 
     def fill_template(self):
         already_filled_template.clear()
+        typereference_to_type.clear()
+        for Assignment in self.ModuleBody or []:
+            if not Assignment.valuereference:
+                typereference_to_type[Assignment.identifier or Assignment.typereference] = Assignment
         template = super(ModuleDefinition, self).fill_template()
         if self.ModuleBody:
             for Assignment in self.ModuleBody:
@@ -58,7 +61,6 @@ class ModuleDefinition(Template):
             elif isinstance(assignment, DefType):
                 if assignment.valuereference:
                     constant_assignments.append(assignment)
-                    constants[assignment.valuereference] = assignment
                 else:
                     type_type_assignments.append(assignment)
             else:
diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 3021f06..5e68bb2 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -1,11 +1,10 @@
-from copy import deepcopy
 from collections import namedtuple
 from asn1PERser.classes.types.builtin import SequenceType, DefinedType, \
     VisibleString, NumericString, IntegerType, DateType, RealType, BooleanType, \
     ChoiceType, EnumeratedType, IA5String, UTF8String, OctetStringType, \
     BitStringType, SequenceOfType, builtin_types
 from asn1PERser.classes.templates import python_name
-from asn1PERser.classes.module import ModuleDefinition, typereference_to_type
+from asn1PERser.classes.module import ModuleDefinition
 from asn1PERser.asn_definitions.constraint_def import Constraint
 
 
@@ -39,7 +38,6 @@ def parse_TypeAssignment(toks):
         item_type.typereference = item_typereference
     else:
         item_type.identifier = item_typereference
-    typereference_to_type[item_typereference] = deepcopy(item_type)
     return item_type
 
 
diff --git a/asn1PERser/classes/types/builtin/ChoiceType.py b/asn1PERser/classes/types/builtin/ChoiceType.py
index 658a2f5..f8177b7 100644
--- a/asn1PERser/classes/types/builtin/ChoiceType.py
+++ b/asn1PERser/classes/types/builtin/ChoiceType.py
@@ -1,6 +1,6 @@
 from ..type import ComponentType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants
+from asn1PERser.classes.module import already_filled_template, typereference_to_type
 
 
 class ChoiceType(ComponentType):
-- 
2.43.0


From 44fa28a10781106c7eb3f695c4e889722df0a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:47 +0000
Subject: [PATCH 38/54] fix: define every name of a generated module before it
 is used

---
 asn1PERser/classes/module.py                  | 39 ++++++++++++++++++-
 .../classes/types/builtin/SequenceOfType.py   |  4 +-
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1d34844..474a042 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -1,7 +1,7 @@
 import os
 import re
 import logging
-from asn1PERser.classes.templates import Template
+from asn1PERser.classes.templates import Template, python_name
 from asn1PERser.classes.types.type import SimpleType, ComponentType, DefType
 
 
@@ -67,7 +67,42 @@ class ModuleDefinition(Template):
                 component_type_assignments.append(assignment)
         component_type_assignments = self.sort_components(component_type_assignments)
         type_type_assignments, component_type_assignments = self.additional_sort(type_type_assignments, component_type_assignments)
-        return [] + value_assignments + simple_type_assignments + type_type_assignments + constant_assignments + component_type_assignments
+        return self.sort_by_dependencies([] + value_assignments + simple_type_assignments + type_type_assignments +
+                                         constant_assignments + component_type_assignments)
+
+    def sort_by_dependencies(self, AssignmentList):
+        name_to_assignment = {self._get_name(assignment): assignment for assignment in AssignmentList}
+        sorted_assignments = []
+        visited_names = set()
+
+        def visit(assignment):
+            if self._get_name(assignment) in visited_names:
+                return
+            visited_names.add(self._get_name(assignment))
+            for name in self._get_dependencies(assignment):
+                if name in name_to_assignment:
+                    visit(name_to_assignment[name])
+            sorted_assignments.append(assignment)
+
+        for assignment in AssignmentList:
+            visit(assignment)
+        return sorted_assignments
+
+    def _get_name(self, assignment):
+        return assignment.valuereference if assignment.valuereference else assignment.template_class_name
+
+    def _get_dependencies(self, assignment):
+        names = [assignment.constraint.lowerEndpoint, assignment.constraint.upperEndpoint, assignment.Value]
+        if isinstance(assignment.default, str):
+            names.append(assignment.default)
+        if isinstance(assignment, DefType):
+            names.append(assignment.typereference)
+        dependencies = [python_name(name) for name in names if isinstance(name, str)]
+        if isinstance(assignment, ComponentType):
+            for subcomponent in assignment:
+                if not isinstance(subcomponent, str):  # elipsis: ...
+                    dependencies.extend(self._get_dependencies(subcomponent))
+        return dependencies
 
     def sort_components(self, component_type_assignments):
         MAX_ITERATIONS = 100
diff --git a/asn1PERser/classes/types/builtin/SequenceOfType.py b/asn1PERser/classes/types/builtin/SequenceOfType.py
index 83335a0..0a80f63 100644
--- a/asn1PERser/classes/types/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/types/builtin/SequenceOfType.py
@@ -1,6 +1,6 @@
 from ..type import ComponentType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template
+from asn1PERser.classes.module import already_filled_template, typereference_to_type
 
 
 class SequenceOfType(ComponentType):
@@ -42,6 +42,8 @@ class SequenceOfType(ComponentType):
         already_filled_template.add(filled_template)
         components_template = ''
         for inner_defined_template in inner_defined_templates:
+            if inner_defined_template.typereference in typereference_to_type.keys():
+                continue
             components_template += inner_defined_template.fill_template()
         return components_template + filled_template
 
-- 
2.43.0


From b21cde7358dad5b6a6d949c67033f3b9bcb38157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:51 +0000
Subject: [PATCH 39/54] fix: constraint endpoints given as INTEGER constants
 are plain numbers for the codec

---
 asn1PERser/classes/types/constraint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 2beb511..2562c8f 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -45,16 +45,16 @@ class SequenceOfValueSize(ConstraintsIntersection):
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else int(lower_endpoint)
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(SequenceOfValueSize, self).__init__()
 
 
 class ValueRange(ValueRangeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = None if lower_endpoint == MIN else int(lower_endpoint)
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(ValueRange, self).__init__(lower_endpoint, upper_endpoint)
 
     def _testValue(self, value, idx):
@@ -77,8 +77,8 @@ class SingleValue(SingleValueConstraint):
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else int(lower_endpoint)
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From aba18af3536e540cb6ada1c162288da81dc16bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:56 +0000
Subject: [PATCH 40/54] fix: accept any whitespace between words like OCTET
 STRING or SEQUENCE OF

---
 asn1PERser/asn_definitions/module_def.py | 4 ++--
 asn1PERser/asn_definitions/type_def.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/asn_definitions/module_def.py b/asn1PERser/asn_definitions/module_def.py
index d0469ec..ba8a9be 100644
--- a/asn1PERser/asn_definitions/module_def.py
+++ b/asn1PERser/asn_definitions/module_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, Group
+from pyparsing import Or, And, Forward, Literal, ZeroOrMore, Group, Regex
 from asn1PERser.classes.parse_actions import parse_ModuleDefinition
 from .assignment_def import TypeAssignment, ValueAssignment
 from .common_def import DefinedValue
@@ -10,7 +10,7 @@ from .lexical_items import COMMA, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, \
 FROM = Literal("FROM")
 EXPLICIT_TAGS = Literal("EXPLICIT TAGS")
 IMPLICIT_TAGS = Literal("IMPLICIT TAGS")
-AUTOMATIC_TAGS = Literal("AUTOMATIC TAGS")
+AUTOMATIC_TAGS = Regex(r"AUTOMATIC\s+TAGS")
 DEFINITIONS = Literal("DEFINITIONS").setResultsName("DEFINITIONS")
 BEGIN = Literal("BEGIN").setResultsName("BEGIN")
 END = Literal("END").setResultsName("END")
diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 3911105..ac15541 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group
+from pyparsing import Or, And, Forward, Literal, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group, Regex
 from asn1PERser.classes.parse_actions import parse_SequenceType, parse_ComponentType, \
     parse_ConstrainedType, parse_DateType, parse_TypeWithConstraint, \
     parse_RealType, parse_ChoiceType, parse_AlternativeTypeList, \
@@ -24,10 +24,10 @@ INTEGER = Literal("INTEGER")
 OPTIONAL = Literal("OPTIONAL")
 DEFAULT = Literal("DEFAULT")
 COMPONENTS_OF = Literal("COMPONENTS OF")
-BIT_STRING = Literal("BIT STRING")
+BIT_STRING = Regex(r"BIT\s+STRING")
 ENUMERATED = Literal("ENUMERATED")
 SEQUENCE = Literal("SEQUENCE")
-SEQUENCE_OF = Literal("SEQUENCE OF")
+SEQUENCE_OF = Regex(r"SEQUENCE\s+OF")
 CHOICE = Literal("CHOICE")
 SET = Literal("SET")
 OF = Literal("OF")
@@ -163,7 +163,7 @@ BitStringType = Or([
 
 
 # 23.1
-OctetStringType = Literal("OCTET STRING").setParseAction(parse_OctetStringType)
+OctetStringType = Regex(r"OCTET\s+STRING").setParseAction(parse_OctetStringType)
 
 
 # 24.1
-- 
2.43.0


From 82759c22011f2ac14f53c4c09f2c0d6ce381708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:59 +0000
Subject: [PATCH 41/54] fix: ignore whitespace inside bstring and hstring
 values

---
 asn1PERser/classes/types/builtin/BitStringType.py   | 1 +
 asn1PERser/classes/types/builtin/OctetStringType.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index 24374f3..91ae79b 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -29,6 +29,7 @@ class BitStringType(SimpleType):
     def parse_value(self, value):
         if not value.startswith("'"):    # value reference
             return python_name(value)
+        value = ''.join(value.split())    # whitespace has no meaning
         if value.endswith('B'):
             return "binValue={}".format(value[:-1])
         if value.endswith('H'):
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index 63cb145..49aede0 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -29,6 +29,7 @@ class OctetStringType(SimpleType):
     def parse_value(self, value):
         if not value.startswith("'"):    # value reference
             return python_name(value)
+        value = ''.join(value.split())    # whitespace has no meaning
         if value.endswith('B'):
             return "binValue={}".format(value[:-1])
         if value.endswith('H'):
-- 
2.43.0


From d0bb7b369cfe17bbe7c47d184262708ac335d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:02 +0000
Subject: [PATCH 42/54] fix: BIT STRING with empty hexValue

---
 asn1PERser/classes/data/builtin/BitStringType.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/BitStringType.py b/asn1PERser/classes/data/builtin/BitStringType.py
index 8b9b62a..9c3fe63 100644
--- a/asn1PERser/classes/data/builtin/BitStringType.py
+++ b/asn1PERser/classes/data/builtin/BitStringType.py
@@ -7,6 +7,12 @@ from asn1PERser.classes.types.constraint import NoConstraint
 class BitStringType(BitString):
     subtypeSpec = NoConstraint()
 
+    @classmethod
+    def fromHexString(cls, value, internalFormat=False, prepend=None):
+        if not value:    # not handled by pyasn1
+            return cls.fromBinaryString(value, internalFormat=internalFormat, prepend=prepend)
+        return super(BitStringType, cls).fromHexString(value, internalFormat=internalFormat, prepend=prepend)
+
     def fill_field_list(self, field_list):
         bitstring_field_list = encode_bitstring(self)
         if bitstring_field_list:
-- 
2.43.0


From bb082b646d607cc42a368388f269df506dc0dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:06 +0000
Subject: [PATCH 43/54] fix: OCTET STRING with empty binValue has no octets

---
 asn1PERser/classes/data/builtin/OctetStringType.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/OctetStringType.py b/asn1PERser/classes/data/builtin/OctetStringType.py
index 5f7577a..e06cf6f 100644
--- a/asn1PERser/classes/data/builtin/OctetStringType.py
+++ b/asn1PERser/classes/data/builtin/OctetStringType.py
@@ -7,6 +7,10 @@ from asn1PERser.classes.types.constraint import NoConstraint
 class OctetStringType(OctetString):
     subtypeSpec = NoConstraint()
 
+    @staticmethod
+    def fromBinaryString(value):
+        return OctetString.fromBinaryString(value) if value else b''    # pyasn1 makes one octet of no bits
+
     def fill_field_list(self, field_list):
         octetstring_field_list = encode_octetstring(self)
         if octetstring_field_list:
-- 
2.43.0


From dfae9ab95b0f5e8a1f8b0df7e133e08b639bd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:02 +0000
Subject: [PATCH 44/54] fix: nested class of a component must not hide
 attributes of its parent class

---
 asn1PERser/classes/templates/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index ea238f5..cc1221d 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -1,4 +1,5 @@
 from keyword import iskeyword
+from asn1PERser.classes.data.builtin import SequenceType, ChoiceType
 from .creator import template_filler
 
 
@@ -13,7 +14,12 @@ class Template(object):
 
     @property
     def template_class_name(self):
-        return python_name(self.identifier) if self.identifier else python_name(self.typereference)
+        if not self.identifier:
+            return python_name(self.typereference)
+        name = python_name(self.identifier)
+        if any(hasattr(data_type, name) for data_type in (SequenceType, ChoiceType)):
+            return name + '_'    # nested class must not hide attribute of its parent, like 'items'
+        return name
 
     @property
     def template_field_type(self):
-- 
2.43.0


From 2a7eb32b33b91cbeabb94ca9173db1fbdf42ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:33 +0000
Subject: [PATCH 45/54] fix: type assignments that refer to each other in a
 circle do not hang the parser

---
 asn1PERser/classes/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 474a042..cadafaf 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -14,7 +14,9 @@ already_filled_template = set()
 
 def get_defined_type(typereference):
     defined_type = typereference_to_type[typereference]
-    while isinstance(defined_type, DefType):    # Foo ::= Bar
+    visited = set()
+    while isinstance(defined_type, DefType) and defined_type.typereference not in visited:    # Foo ::= Bar
+        visited.add(defined_type.typereference)
         defined_type = typereference_to_type[defined_type.typereference]
     return defined_type
 
-- 
2.43.0


From 3def14de9155a23c4ad5c641736b50c48616ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:33 +0000
Subject: [PATCH 46/54] fix: text after the END of a module is an error, it was
 ignored without a word

---
 asn1PERser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 61e044d..b3ea544 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -11,5 +11,5 @@ asn1perser_logging_setup()
 
 def parse_asn1_schema(asn1_schema, output_folder=None):
     no_comment_schema = remove_comments(asn1_schema)
-    parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
+    parsed_asn = ModuleDefinition.parseString(no_comment_schema, parseAll=True)[0]
     return parsed_asn.create_python_template(path=output_folder)
-- 
2.43.0


From b6e1939cce92d72a168db3b77be3b39828990910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:25 +0000
Subject: [PATCH 47/54] fix: a name defined twice in a module is an error, one
 of the definitions was lost without a word

---
 asn1PERser/classes/module.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index cadafaf..d7d92e0 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -48,6 +48,12 @@ class ModuleDefinition(Template):
                 template += Assignment.fill_template()
         return template
 
+    def check_names(self, AssignmentList):
+        names = [self._get_name(assignment) for assignment in AssignmentList]
+        for name in names:
+            if names.count(name) > 1:
+                raise ValueError('{} is defined more than once'.format(name))
+
     def sort_assigment_list(self, AssignmentList):
         value_assignments = []
         constant_assignments = []
@@ -224,6 +230,7 @@ class ModuleDefinition(Template):
 
     @ModuleBody.setter
     def ModuleBody(self, AssignmentList):
+        self.check_names(AssignmentList)
         self._ModuleBody = self.sort_assigment_list(AssignmentList)
 
     def __repr__(self):
-- 
2.43.0


From 82e1567c54cf73c5337d31c5c9a01e5cf825bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:33 +0000
Subject: [PATCH 48/54] fix: value of an inline constrained or enumerated type
 lost its type

'v INTEGER (0..3) ::= 9' was accepted and gave an unconstrained value,
'v ENUMERATED {a, b} ::= b' gave a class EnumeratedType that hid the base class, and no v.
---
 asn1PERser/classes/types/builtin/BitStringType.py   | 8 ++++++--
 asn1PERser/classes/types/builtin/EnumeratedType.py  | 6 +++++-
 asn1PERser/classes/types/builtin/IntegerType.py     | 8 ++++++--
 asn1PERser/classes/types/builtin/OctetStringType.py | 8 ++++++--
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index 91ae79b..a53cc40 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -10,15 +10,19 @@ class BitStringType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if self.Value:
+        if self.Value and not self.is_constrained():
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
         filled_template = template_filler.fill(asn_type=self.__class__.__name__, type_or_value='type',
-                                               class_name=self.template_class_name, class_type=self.__class__.__name__,
+                                               class_name=self.valuereference or self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
                                                            'upperEndpoint': self.constraint.upperEndpoint})
+        if self.Value:    # value of a type that is defined where it is used
+            return filled_template + template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
+                                                          valuereference=self.valuereference, value=self.Value,
+                                                          class_type=self.valuereference)
         if has_parent:
             return (None, filled_template)
         if filled_template not in already_filled_template:
diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index 78ba7f8..e488075 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -33,11 +33,15 @@ class EnumeratedType(SimpleType):
                 addition_named_values.append({'field_name': name, 'field_index': index})
                 enumeration_index = index + 1
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
-                                               class_name=self.template_class_name,
+                                               class_name=self.valuereference or self.template_class_name,
                                                class_type=self.__class__.__name__,
                                                extension_marker=extension_marker_present,
                                                root_named_values=root_named_values,
                                                addition_named_values=addition_named_values)
+        if self.Value:    # value of a type that is defined where it is used
+            return filled_template + template_filler.fill(asn_type='simple_value', type_or_value='value',
+                                                          valuereference=self.valuereference, value=self.Value,
+                                                          class_type=self.valuereference)
         if has_parent:
             return (None, filled_template)
         if filled_template in already_filled_template:
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 067654e..daa5732 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -10,15 +10,19 @@ class IntegerType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if self.Value:
+        if self.Value and not self.is_constrained():
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
         filled_template = template_filler.fill(asn_type=self.__class__.__name__, type_or_value='type',
-                                               class_name=self.template_class_name, class_type=self.__class__.__name__,
+                                               class_name=self.valuereference or self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
                                                            'upperEndpoint': self.constraint.upperEndpoint})
+        if self.Value:    # value of a type that is defined where it is used
+            return filled_template + template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
+                                                          valuereference=self.valuereference, value=self.Value,
+                                                          class_type=self.valuereference)
         if has_parent:
             return (None, filled_template)
         if filled_template not in already_filled_template:
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index 49aede0..40b4e04 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -10,15 +10,19 @@ class OctetStringType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if self.Value:
+        if self.Value and not self.is_constrained():
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
         filled_template = template_filler.fill(asn_type=self.__class__.__name__, type_or_value='type',
-                                               class_name=self.template_class_name, class_type=self.__class__.__name__,
+                                               class_name=self.valuereference or self.template_class_name, class_type=self.__class__.__name__,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
                                                            'upperEndpoint': self.constraint.upperEndpoint})
+        if self.Value:    # value of a type that is defined where it is used
+            return filled_template + template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
+                                                          valuereference=self.valuereference, value=self.Value,
+                                                          class_type=self.valuereference)
         if has_parent:
             return (None, filled_template)
         if filled_template not in already_filled_template:
-- 
2.43.0


From 9978107be55019426d1df3b13da9b3eba744b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:33 +0000
Subject: [PATCH 49/54] fix: a number is not a value of an ENUMERATED

---
 asn1PERser/classes/types/builtin/EnumeratedType.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index e488075..99ed19a 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -69,6 +69,8 @@ class EnumeratedType(SimpleType):
 
     def parse_value(self, value):
         if value not in [EnumerationItem[0] for EnumerationItem in self.EnumerationItems if EnumerationItem != '...']:
+            if not value[0].isalpha():
+                raise ValueError('{} is not an item of ENUMERATED'.format(value))
             return python_name(value)    # value reference
         return "'" + value + "'"
 
-- 
2.43.0


From 995093d62d7241fa36f69cdbdcb719effcf1c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:32 +0000
Subject: [PATCH 50/54] fix: a number is not a value of a BOOLEAN

---
 asn1PERser/classes/types/builtin/BooleanType.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/classes/types/builtin/BooleanType.py b/asn1PERser/classes/types/builtin/BooleanType.py
index 6b042dd..29abcce 100644
--- a/asn1PERser/classes/types/builtin/BooleanType.py
+++ b/asn1PERser/classes/types/builtin/BooleanType.py
@@ -28,4 +28,6 @@ class BooleanType(SimpleType):
             return True
         if value == 'FALSE':
             return False
+        if not value[0].isalpha():
+            raise ValueError('{} is not a value of BOOLEAN'.format(value))
         return python_name(value)    # value reference
-- 
2.43.0


From 1b05f9811007ce45bf6126dd7789b333e07dd6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:09 +0000
Subject: [PATCH 51/54] fix: a number is not a value of a BIT STRING or OCTET
 STRING

---
 asn1PERser/classes/types/builtin/BitStringType.py   | 4 +++-
 asn1PERser/classes/types/builtin/OctetStringType.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index a53cc40..eba4b93 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -31,8 +31,10 @@ class BitStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
-        if not value.startswith("'"):    # value reference
+        if value[0].isalpha():    # value reference
             return python_name(value)
+        if not value.startswith("'"):
+            raise ValueError('{} is not a value of BIT STRING'.format(value))
         value = ''.join(value.split())    # whitespace has no meaning
         if value.endswith('B'):
             return "binValue={}".format(value[:-1])
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index 40b4e04..5bc94bb 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -31,8 +31,10 @@ class OctetStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
-        if not value.startswith("'"):    # value reference
+        if value[0].isalpha():    # value reference
             return python_name(value)
+        if not value.startswith("'"):
+            raise ValueError('{} is not a value of OCTET STRING'.format(value))
         value = ''.join(value.split())    # whitespace has no meaning
         if value.endswith('B'):
             return "binValue={}".format(value[:-1])
-- 
2.43.0


From 61463d9da536f0ba58ad77d19a7a38a70d2eac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:27 +0000
Subject: [PATCH 52/54] fix: negative sizes and sizes of SEQUENCE OF with
 bounds the wrong way round were accepted

---
 asn1PERser/classes/types/constraint.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 2562c8f..9751137 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -1,3 +1,4 @@
+from pyasn1.error import PyAsn1Error
 from pyasn1.type.constraint import ValueRangeConstraint, ConstraintsIntersection, ConstraintsUnion, SingleValueConstraint, \
     ValueSizeConstraint
 
@@ -6,6 +7,11 @@ MIN = float('-inf')
 MAX = float('inf')
 
 
+def check_size(size):
+    if size.lowerEndpoint < 0 or (size.upperEndpoint is not None and size.upperEndpoint < size.lowerEndpoint):
+        raise PyAsn1Error('no size between {} and {}'.format(size.lowerEndpoint, size.upperEndpoint))
+
+
 class NoConstraint(ConstraintsIntersection):
     def __init__(self):
         self.extensionMarker = False
@@ -47,6 +53,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = 0 if lower_endpoint == MIN else int(lower_endpoint)
         self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
+        check_size(self)
         super(SequenceOfValueSize, self).__init__()
 
 
@@ -79,6 +86,7 @@ class ValueSize(ValueSizeConstraint):
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = 0 if lower_endpoint == MIN else int(lower_endpoint)
         self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
+        check_size(self)
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From 25cf43af6a96222c33801380481b64ba19fd18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:12 +0000
Subject: [PATCH 53/54] fix: refuse to decode a SEQUENCE OF with an element
 count outside its SIZE constraint

---
 asn1PERser/codec/per/decoder.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index bf1b66b..9df4b07 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -3,7 +3,7 @@ import logging
 import codecs
 from collections import deque
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_size_constrained
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_size_constrained, is_within_endpoints
 
 
 __all__ = ['decode']
@@ -19,6 +19,10 @@ class EndOfDataReached(PerDecodingException):
     pass
 
 
+class SizeConstraintViolated(PerDecodingException):
+    pass
+
+
 class Offset(object):
     def __init__(self, octets=0, bits=0):
         self.prev_octets = octets
@@ -434,6 +438,11 @@ def decode_sequence(sequence, per_bytes):
     return new_seq
 
 
+def check_size(n, sequence_of):
+    if not is_within_endpoints(n, sequence_of.subtypeSpec):
+        raise SizeConstraintViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
+
+
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
     new_seq_of = sequence_of.__class__().clear()
@@ -493,6 +502,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
+            check_size(length_determinant, sequence_of)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -508,6 +518,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=None)
+            check_size(length_determinant, sequence_of)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
-- 
2.43.0


From 93bfa2e9f505fb9617807576b3b9995e2688bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:12 +0000
Subject: [PATCH 54/54] fix: decode components without creating them in the
 type objects that all calls share

---
 asn1PERser/codec/per/decoder.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 9df4b07..fd0e5c8 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -358,7 +358,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding optional component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -370,7 +370,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding default component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -380,7 +380,7 @@ def decode_sequence(sequence, per_bytes):
         else:
             logger.info("%s: decoding component: '%s' of type '%s' ...", sequence.__class__.__name__,
                         namedType.name, namedType.asn1Object.__class__.__name__)
-            componentType = sequence.getComponentByName(namedType.name)
+            componentType = namedType.asn1Object
             decoded = componentType.create_field_list(per_bytes)
             logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
             new_seq[namedType.name] = decoded
@@ -407,7 +407,7 @@ def decode_sequence(sequence, per_bytes):
                 if int(is_present_bit):
                     logger.info("%s: extension addition component '%s' present. Decoding...", sequence.__class__.__name__,
                                 extensionNamedType.name)
-                    componentType = sequence.getComponentByName(extensionNamedType.name)
+                    componentType = extensionNamedType.asn1Object
                     decoded = decode_open_type_field(componentType, per_bytes)
                     logger.info("%s: decoded extension addition component: '%s'", sequence.__class__.__name__, extensionNamedType.name)
                     new_seq[extensionNamedType.name] = decoded
@@ -538,7 +538,7 @@ def decode_choice(choice, per_bytes):    # 23
         if len(choice.rootComponent.namedTypes) == 1:  # 23.4
             logger.info("%s: length of choice list is 1", choice.__class__.__name__)
             selected_type = choice.rootComponent.namedTypes[0]
-            selected_component = choice.getComponentByName(selected_type.name)
+            selected_component = selected_type.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...", choice.__class__.__name__,
                         selected_type.name, selected_component.__class__.__name__)
             val = selected_component.create_field_list(per_bytes)
@@ -549,7 +549,7 @@ def decode_choice(choice, per_bytes):    # 23
         else:    # 23.6
             index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
             namedType = choice.rootComponent.namedTypes[index]
-            selected_component = choice.getComponentByPosition(index)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...", choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
             val = selected_component.create_field_list(per_bytes)
@@ -565,7 +565,7 @@ def decode_choice(choice, per_bytes):    # 23
             if len(choice.rootComponent.namedTypes) == 1:  # 23.4
                 logger.info("%s: length of choice list is 1", choice.__class__.__name__)
                 selected_type = choice.rootComponent.namedTypes[0]
-                selected_component = choice.getComponentByName(selected_type.name)
+                selected_component = selected_type.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...",
                             choice.__class__.__name__,
                             selected_type.name, selected_component.__class__.__name__)
@@ -578,7 +578,7 @@ def decode_choice(choice, per_bytes):    # 23
             else:
                 index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
                 namedType = choice.rootComponent.namedTypes[index]
-                selected_component = choice.getComponentByPosition(index)
+                selected_component = namedType.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...",
                             choice.__class__.__name__,
                             namedType.name, selected_component.__class__.__name__, index)
@@ -604,7 +604,7 @@ def decode_choice(choice, per_bytes):    # 23
                              choice.__class__.__name__)
                 raise NotImplemented
             namedType = choice_extension.namedTypes[index]
-            selected_component = choice.getComponentByName(namedType.name)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices). Decoding...",
                         choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
-- 
2.43.0

