From f027dad1997c26f8a7421349908361591d05a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 001/119] fix: do not mistake a definite length ending in 0x80
 for an indefinite length

A header such as 04 81 80 or 30 82 01 80 ends in the octet 0x80 without using
the indefinite form; dumping such a value forced a re-encode, which dropped the
original octets of BER content and failed for types without a native value.
---
 asn1crypto/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a07cd97..a22c56d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -644,7 +644,7 @@ class Asn1Value(object):
         contents = self.contents
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if self._header is None or force:
@@ -1350,7 +1350,7 @@ class Choice(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         self._contents = self.chosen.dump(force=force)
@@ -1727,7 +1727,7 @@ class Primitive(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if force:
@@ -4137,7 +4137,7 @@ class Sequence(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         # We can't force encoding if we don't have a spec
@@ -4610,7 +4610,7 @@ class SequenceOf(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if force:
-- 
2.43.0


From 8aee08f4ea2a12cfd3d2c6a4f5e73a79b30aada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 002/119] fix: give Real, ObjectDescriptor and InstanceOf a
 native value

Reading .native of these types, or of any structure holding one, raised
AttributeError; forcing a re-encode did too.
---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a22c56d..109b50f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1714,6 +1714,18 @@ class Primitive(Asn1Value):
         if self._trailer != b'':
             self._trailer = b''
 
+    @property
+    def native(self):
+        """
+        The native Python datatype representation of this value - types that
+        have no Python implementation provide the encoded contents
+
+        :return:
+            A byte string or None
+        """
+
+        return self.contents
+
     def dump(self, force=False):
         """
         Encodes the value using DER
-- 
2.43.0


From a6db1f9fa9f4615c3592ff71d618cc2d24759721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 003/119] fix: raise ValueError, not KeyError, for an
 undeclared enumeration value

---
 asn1crypto/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 109b50f..267a5e5 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3312,7 +3312,16 @@ class Enumerated(Integer):
             return None
 
         if self._native is None:
-            self._native = self._map[self.__int__()]
+            value = self.__int__()
+            if self._map is not None and value not in self._map:
+                raise ValueError(unwrap(
+                    '''
+                    %s value %s is not a valid value
+                    ''',
+                    type_name(self),
+                    value
+                ))
+            self._native = self._map[value]
         return self._native
 
 
-- 
2.43.0


From 34a1de6458b483207829faa4c2d48afb70c9569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 004/119] fix: reset the cached dotted form when an object
 identifier is reassigned

---
 asn1crypto/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 267a5e5..0b12689 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3116,6 +3116,7 @@ class ObjectIdentifier(Primitive, ValueMap):
             ))
 
         self._native = value
+        self._dotted = None
 
         if self._map is not None:
             if value in self._reverse_map:
-- 
2.43.0


From 6ec27c0bcb6eb33bde8b9196b2385d75dc5c5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 005/119] fix: do not merge the first two arcs of a
 RELATIVE-OID

X.690 8.20 encodes every arc of a relative object identifier separately.
---
 asn1crypto/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0b12689..66ace57 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3010,6 +3010,9 @@ class ObjectIdentifier(Primitive, ValueMap):
     # A unicode string of the dotted form of the object identifier
     _dotted = None
 
+    # If the first two arcs are encoded as a single number
+    _merged_arcs = True
+
     @classmethod
     def map(cls, value):
         """
@@ -3128,10 +3131,10 @@ class ObjectIdentifier(Primitive, ValueMap):
             part = int(part)
 
             # The first two parts are merged into a single byte
-            if index == 0:
+            if index == 0 and self._merged_arcs:
                 first = part
                 continue
-            elif index == 1:
+            elif index == 1 and self._merged_arcs:
                 if first > 2:
                     raise ValueError(unwrap(
                         '''
@@ -3187,7 +3190,7 @@ class ObjectIdentifier(Primitive, ValueMap):
                 part += byte & 127
                 # Last byte in subidentifier has the eighth bit set to 0
                 if byte & 0x80 == 0:
-                    if len(output) == 0:
+                    if len(output) == 0 and self._merged_arcs:
                         if part >= 80:
                             output.append(str_cls(2))
                             output.append(str_cls(part - 80))
@@ -3343,6 +3346,9 @@ class RelativeOid(ObjectIdentifier):
 
     tag = 13
 
+    # A relative identifier has no root arcs to merge
+    _merged_arcs = False
+
 
 class Sequence(Asn1Value):
     """
-- 
2.43.0


From b90d8374df2632ba9f59aad1572002549a5aca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 006/119] fix: allow setting AnyAlgorithmId from a name or
 dotted string

Its table had no reverse mapping, so constructing one always raised TypeError.
---
 asn1crypto/algos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 3a4b18f..209f246 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1319,9 +1319,14 @@ class AnyAlgorithmId(ObjectIdentifier):
 
     def _setup(self):
         _map = self.__class__._map
+        _reverse_map = {}
         for other_cls in (EncryptionAlgorithmId, SignedDigestAlgorithmId, DigestAlgorithmId):
             for oid, name in other_cls._map.items():
                 _map[oid] = name
+                _reverse_map[name] = oid
+            # Some classes have a preferred OID for names with more than one
+            _reverse_map.update(other_cls._reverse_map or {})
+        self.__class__._reverse_map = _reverse_map
 
 
 class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
-- 
2.43.0


From 3f2cd8f9ce773b20670e57bb50117f65b3f36bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 007/119] fix: keep bits without a name when a named bit string
 is set

Decoding a named bit string reports bits that have no name by their index, but
setting such a native value (which editing a single bit or forcing a re-encode
also does) silently cleared them, ignored misspelled names, and kept a
reference to the set of the caller.
---
 asn1crypto/core.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 66ace57..bd34918 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2154,17 +2154,32 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                 ))
 
             bits = [0] * self._size
-            self._native = value
-            for index in range(0, self._size):
-                key = self._map.get(index)
-                if key is None:
-                    continue
-                if key in value:
-                    bits[index] = 1
+            native = set()
+            for key in value:
+                # Bits that are not part of the map are represented by their index
+                if key in self._reverse_map:
+                    index = self._reverse_map[key]
+                elif isinstance(key, int_types) and key >= 0:
+                    index = key
+                else:
+                    raise ValueError(unwrap(
+                        '''
+                        %s._map does not contain an entry for "%s"
+                        ''',
+                        type_name(self),
+                        key
+                    ))
+                if index >= len(bits):
+                    bits.extend([0] * (index + 1 - len(bits)))
+                bits[index] = 1
+                native.add(self._map.get(index, index))
 
+            max_size = len(bits)
+            self._native = native
             value = ''.join(map(str_cls, bits))
 
         elif value.__class__ == tuple:
+            max_size = self._size
             if self._map is None:
                 self._native = value
             else:
@@ -2186,7 +2201,7 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             ))
 
         if self._map is not None:
-            if len(value) > self._size:
+            if len(value) > max_size:
                 raise ValueError(unwrap(
                     '''
                     %s value must be at most %s bits long, specified was %s long
-- 
2.43.0


From 3d804615e466e8ea7e483ef02516934268c5321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 008/119] fix: keep the exact octets and bits when forcing a
 re-encode of integer and octet bit strings

---
 asn1crypto/core.py | 81 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bd34918..c55c769 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2514,6 +2514,33 @@ class OctetBitString(Constructable, Castable, Primitive):
 
         return self.__bytes__()
 
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # If the length is indefinite, force the re-encoding
+        if self._indefinite:
+            force = True
+
+        if force and self.contents is not None:
+            # The native value does not retain the number of unused bits
+            native = self.native
+            unused_bits = len(self._unused_bits)
+            self.set(native)
+            if unused_bits:
+                self.contents = int_to_bytes(unused_bits) + native
+                self._unused_bits = (0,) * unused_bits
+
+        return Asn1Value.dump(self)
+
     @property
     def unused_bits(self):
         """
@@ -2593,6 +2620,35 @@ class IntegerBitString(_IntegerBitString, Constructable, Castable, Primitive):
 
         return self._native
 
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # If the length is indefinite, force the re-encoding
+        if self._indefinite:
+            force = True
+
+        if force and self.contents is not None:
+            # The native value does not retain the number of bits
+            value, bits, _ = self._chunks_to_int()
+            self.set(value)
+            extra_bits = -bits % 8
+            self.contents = int_to_bytes(extra_bits, width=1) + int_to_bytes(
+                value << extra_bits,
+                width=(bits + extra_bits) // 8
+            )
+            self._unused_bits = (0,) * extra_bits
+
+        return Asn1Value.dump(self)
+
 
 class OctetString(Constructable, Castable, Primitive):
     """
@@ -2739,6 +2795,31 @@ class IntegerOctetString(Constructable, Castable, Primitive):
             self._native = int_from_bytes(self._merge_chunks())
         return self._native
 
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # If the length is indefinite, force the re-encoding
+        if self._indefinite:
+            force = True
+
+        if force and self.contents is not None:
+            # The native value does not retain the number of leading null
+            # bytes, which are part of the octet string
+            contents = self._merge_chunks()
+            self.set(self.native)
+            self.contents = contents
+
+        return Asn1Value.dump(self)
+
     def set_encoded_width(self, width):
         """
         Set the explicit enoding width for the integer
-- 
2.43.0


From 7aca505e9bd25a0cf66717354fd64501e3de937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:33 +0000
Subject: [PATCH 009/119] fix: keep all bits and leading zeros when copying a
 segmented integer or octet bit string

---
 asn1crypto/core.py | 64 ++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c55c769..2058496 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -812,7 +812,18 @@ class Constructable(object):
         # We really don't want to dump BER encodings, so if we see an
         # indefinite encoding, let's re-encode it
         if other._indefinite:
-            self.set(other._setable_native())
+            self._set_from(other)
+
+    def _set_from(self, other):
+        """
+        Sets this object to the value of another object of the same class,
+        using the primitive method
+
+        :param other:
+            The object of the same class to take the value from, may be self
+        """
+
+        self.set(other._setable_native())
 
 
 class Void(Asn1Value):
@@ -2531,16 +2542,19 @@ class OctetBitString(Constructable, Castable, Primitive):
             force = True
 
         if force and self.contents is not None:
-            # The native value does not retain the number of unused bits
-            native = self.native
-            unused_bits = len(self._unused_bits)
-            self.set(native)
-            if unused_bits:
-                self.contents = int_to_bytes(unused_bits) + native
-                self._unused_bits = (0,) * unused_bits
+            self._set_from(self)
 
         return Asn1Value.dump(self)
 
+    def _set_from(self, other):
+        # The native value does not retain the number of unused bits
+        native = other.native
+        unused_bits = len(other._unused_bits)
+        self.set(native)
+        if unused_bits:
+            self.contents = int_to_bytes(unused_bits) + native
+            self._unused_bits = (0,) * unused_bits
+
     @property
     def unused_bits(self):
         """
@@ -2637,18 +2651,21 @@ class IntegerBitString(_IntegerBitString, Constructable, Castable, Primitive):
             force = True
 
         if force and self.contents is not None:
-            # The native value does not retain the number of bits
-            value, bits, _ = self._chunks_to_int()
-            self.set(value)
-            extra_bits = -bits % 8
-            self.contents = int_to_bytes(extra_bits, width=1) + int_to_bytes(
-                value << extra_bits,
-                width=(bits + extra_bits) // 8
-            )
-            self._unused_bits = (0,) * extra_bits
+            self._set_from(self)
 
         return Asn1Value.dump(self)
 
+    def _set_from(self, other):
+        # The native value does not retain the number of bits
+        value, bits, _ = other._chunks_to_int()
+        self.set(value)
+        extra_bits = -bits % 8
+        self.contents = int_to_bytes(extra_bits, width=1) + int_to_bytes(
+            value << extra_bits,
+            width=(bits + extra_bits) // 8
+        )
+        self._unused_bits = (0,) * extra_bits
+
 
 class OctetString(Constructable, Castable, Primitive):
     """
@@ -2812,14 +2829,17 @@ class IntegerOctetString(Constructable, Castable, Primitive):
             force = True
 
         if force and self.contents is not None:
-            # The native value does not retain the number of leading null
-            # bytes, which are part of the octet string
-            contents = self._merge_chunks()
-            self.set(self.native)
-            self.contents = contents
+            self._set_from(self)
 
         return Asn1Value.dump(self)
 
+    def _set_from(self, other):
+        # The native value does not retain the number of leading null bytes,
+        # which are part of the octet string
+        contents = other._merge_chunks()
+        self.set(other.native)
+        self.contents = contents
+
     def set_encoded_width(self, width):
         """
         Set the explicit enoding width for the integer
-- 
2.43.0


From 9ec2b4c15167d399bf0acba0d4634d1546a37b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 010/119] fix: decode empty segmented octet bit strings, refuse
 bit strings without an initial octet

---
 asn1crypto/core.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 2058496..64ce968 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2042,6 +2042,10 @@ class _IntegerBitString(object):
             # return an empty chunk, for cases like \x23\x80\x00\x00
             return []
 
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.3
+            raise ValueError('Bit string has no initial octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         value = int_from_bytes(self.contents[1:])
         bits = (len(self.contents) - 1) * 8
@@ -2488,6 +2492,14 @@ class OctetBitString(Constructable, Castable, Primitive):
             List with one tuple, consisting of a byte string and an integer (unused bits)
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return []
+
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.3
+            raise ValueError('Bit string has no initial octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if not unused_bits_len:
             return [(self.contents[1:], ())]
@@ -3077,6 +3089,14 @@ class ParsableOctetBitString(ParsableOctetString):
             A byte string
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return b''
+
+        if not self.contents:
+            # Disallowed by X.690 §8.6.2.3
+            raise ValueError('Bit string has no initial octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if unused_bits_len:
             raise ValueError('ParsableOctetBitString should have no unused bits')
-- 
2.43.0


From a973c5c2906cd5aa3477d6699b4116fbaf9cdd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 011/119] fix: accept character strings segmented into octet
 strings

---
 asn1crypto/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 64ce968..01871e2 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -758,8 +758,13 @@ class Constructable(object):
         output = None
 
         while pointer < contents_len:
+            info, pointer = _parse(self.contents, contents_len, pointer)
             # We pass the current class as the spec so content semantics are preserved
-            sub_value, pointer = _parse_build(self.contents, pointer, spec=self.__class__)
+            spec = self.__class__
+            # X.690 §8.23.6 has the segments of character strings be octet strings
+            if isinstance(self, AbstractString) and info[0] == 0 and info[2] == OctetString.tag:
+                spec = OctetString
+            sub_value = _build(*info, spec=spec)
             if output is None:
                 output = sub_value._merge_chunks()
             else:
-- 
2.43.0


From b352e081c9eb47fb830e15e9f21dbabbb19ff4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 012/119] fix: leave the previous value in place when set()
 refuses a value

---
 asn1crypto/core.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 01871e2..ba228f0 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1836,8 +1836,10 @@ class AbstractString(Constructable, Primitive):
                 type_name(value)
             ))
 
+        encoded_value = value.encode(self._encoding)
+
         self._unicode = value
-        self.contents = value.encode(self._encoding)
+        self.contents = encoded_value
         self._header = None
         if self._indefinite:
             self._indefinite = False
@@ -2195,20 +2197,29 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                 native.add(self._map.get(index, index))
 
             max_size = len(bits)
-            self._native = native
             value = ''.join(map(str_cls, bits))
 
         elif value.__class__ == tuple:
             max_size = self._size
+            for bit in value:
+                if bit not in (0, 1):
+                    raise ValueError(unwrap(
+                        '''
+                        %s value must be a tuple of ones and zeros, but it
+                        contains %s
+                        ''',
+                        type_name(self),
+                        repr(bit)
+                    ))
             if self._map is None:
-                self._native = value
+                native = value
             else:
-                self._native = set()
+                native = set()
                 for index, bit in enumerate(value):
                     if bit:
                         name = self._map.get(index, index)
-                        self._native.add(name)
-            value = ''.join(map(str_cls, value))
+                        native.add(name)
+            value = ''.join(['1' if bit else '0' for bit in value])
 
         else:
             raise TypeError(unwrap(
@@ -2258,6 +2269,7 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
         if len(value_bytes) != size_in_bytes:
             value_bytes = (b'\x00' * (size_in_bytes - len(value_bytes))) + value_bytes
 
+        self._native = native
         self.contents = extra_bits_byte + value_bytes
         self._unused_bits = (0,) * extra_bits
         self._header = None
@@ -2804,8 +2816,10 @@ class IntegerOctetString(Constructable, Castable, Primitive):
                 value
             ))
 
+        contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+
         self._native = value
-        self.contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+        self.contents = contents
         self._header = None
         if self._indefinite:
             self._indefinite = False
-- 
2.43.0


From 7813775825604b83557fae647c0720f1480f79e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 013/119] fix: refuse object identifier strings that are not
 dotted integers

---
 asn1crypto/core.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ba228f0..797c86b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -102,7 +102,7 @@ METHOD_NUM_TO_NAME_MAP = {
 }
 
 
-_OID_RE = re.compile(r'^\d+(\.\d+)*$')
+_OID_RE = re.compile(r'^[0-9]+(\.[0-9]+)*\Z')
 
 
 # A global tracker to ensure that _setup() is called for every class, even
@@ -3273,14 +3273,23 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        self._native = value
-        self._dotted = None
+        native = value
 
         if self._map is not None:
             if value in self._reverse_map:
                 value = self._reverse_map[value]
 
-        self.contents = b''
+        if not _OID_RE.match(value) or (self._merged_arcs and '.' not in value):
+            raise ValueError(unwrap(
+                '''
+                %s value must be a dotted integer string%s, not "%s"
+                ''',
+                type_name(self),
+                ' or one of the mapped values' if self._map is not None else '',
+                value
+            ))
+
+        contents = b''
         first = None
         for index, part in enumerate(value.split('.')):
             part = int(part)
@@ -3312,8 +3321,11 @@ class ObjectIdentifier(Primitive, ValueMap):
             while part > 0:
                 encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
                 part = part >> 7
-            self.contents += encoded_part
+            contents += encoded_part
 
+        self._native = native
+        self._dotted = None
+        self.contents = contents
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From 76be087298313b17eb397114939c612f262f885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 014/119] fix: encode years before 1000 with four digits,
 refuse out of range and newline-terminated times

---
 asn1crypto/core.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 797c86b..b28be35 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5178,7 +5178,10 @@ class AbstractTime(AbstractString):
             value = self._get_datetime(parsed)
 
             if fraction:
-                value += timedelta(microseconds=fraction)
+                try:
+                    value += timedelta(microseconds=fraction)
+                except (OverflowError):
+                    raise ValueError('Fraction of the %s is out of range' % type_name(self))
 
             self._native = value
 
@@ -5218,7 +5221,7 @@ class UTCTime(AbstractTime):
                 (?P<dminute>\d{2})
             )
         )
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
@@ -5237,7 +5240,10 @@ class UTCTime(AbstractTime):
                 raise ValueError('Must be timezone aware')
 
             # Convert value to UTC.
-            value = value.astimezone(utc_with_dst)
+            try:
+                value = value.astimezone(utc_with_dst)
+            except (OverflowError):
+                raise ValueError('Year of the %s is not in range [0, 9999] in UTC' % type_name(self))
 
             if not 1950 <= value.year <= 2049:
                 raise ValueError('Year of the UTCTime is not in range [1950, 2049], use GeneralizedTime instead')
@@ -5314,7 +5320,7 @@ class GeneralizedTime(AbstractTime):
                 (?P<dminute>\d{2})?
             )
         )?
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
@@ -5334,16 +5340,18 @@ class GeneralizedTime(AbstractTime):
                 raise ValueError('Must be timezone aware')
 
             # Convert value to UTC.
-            value = value.astimezone(utc_with_dst)
+            try:
+                value = value.astimezone(utc_with_dst)
+            except (OverflowError):
+                raise ValueError('Year of the %s is not in range [0, 9999] in UTC' % type_name(self))
 
             if value.microsecond:
                 fraction = '.' + str(value.microsecond).zfill(6).rstrip('0')
             else:
                 fraction = ''
 
-            value = value.strftime('%Y%m%d%H%M%S') + fraction + 'Z'
-            if _PY2:
-                value = value.decode('ascii')
+            # The C library may not pad years before 1000 to four digits
+            value = ('%04d' % value.year) + str_cls(value.strftime('%m%d%H%M%S')) + fraction + 'Z'
 
         AbstractString.set(self, value)
         # Set it to None and let the class take care of converting the next
-- 
2.43.0


From a359d0657433ef88dced66910a2e3c76e5348716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 015/119] fix: keep the contents of a value when forcing its
 re-encoding fails

---
 asn1crypto/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b28be35..bb206af 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1759,9 +1759,7 @@ class Primitive(Asn1Value):
             force = True
 
         if force:
-            native = self.native
-            self.contents = None
-            self.set(native)
+            self.set(self.native)
 
         return Asn1Value.dump(self)
 
-- 
2.43.0


From 1dac38739d29cc6dbc7f6bb1dbe4a060bb603def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 016/119] fix: shift year zero datetimes up to year 9999

---
 asn1crypto/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/util.py b/asn1crypto/util.py
index 918b330..1e324a1 100644
--- a/asn1crypto/util.py
+++ b/asn1crypto/util.py
@@ -820,7 +820,13 @@ class extended_datetime(object):
             A new extended_datetime or datetime.datetime object.
         """
 
-        return extended_datetime.from_y2k(self._y2k + other)
+        try:
+            value = self._y2k + other
+        except (OverflowError):
+            # The year 2000 substitute passed 9999, the real year may not have
+            return self._y2k + (other - timedelta(days=self.DAYS_IN_2000_YEARS))
+
+        return extended_datetime.from_y2k(value)
 
     def __sub__(self, other):
         """
@@ -835,7 +841,7 @@ class extended_datetime(object):
         """
 
         if isinstance(other, timedelta):
-            return extended_datetime.from_y2k(self._y2k - other)
+            return self + -other
 
         if isinstance(other, extended_datetime):
             return self._y2k - other._y2k
-- 
2.43.0


From 3847668361772f821cc26741e30fa28d63976161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 017/119] fix: do not merge a field's default into a value that
 was encoded

---
 asn1crypto/core.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bb206af..925f0a4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3586,14 +3586,9 @@ class Sequence(Asn1Value):
 
         Asn1Value.__init__(self, **kwargs)
 
-        check_existing = False
-        if value is None and default is not None:
-            check_existing = True
-            if self.children is None:
-                if self.contents is None:
-                    check_existing = False
-                else:
-                    self._parse_children()
+        # A default only applies to a value that was not encoded, never to parts
+        # of one that was
+        if value is None and default is not None and self.contents is None:
             value = default
 
         if value is not None:
@@ -3609,15 +3604,6 @@ class Sequence(Asn1Value):
                     unused_keys = set(keys)
 
                 for key in keys:
-                    # If we are setting defaults, but a real value has already
-                    # been set for the field, then skip it
-                    if check_existing:
-                        index = self._field_map[key]
-                        if index < len(self.children) and self.children[index] is not VOID:
-                            if key in unused_keys:
-                                unused_keys.remove(key)
-                            continue
-
                     if key in value:
                         self.__setitem__(key, value[key])
                         unused_keys.remove(key)
-- 
2.43.0


From 00d83ab8d1e184b19831b5ac3105090d7936d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 018/119] fix: encode a record constructed without any field

---
 asn1crypto/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 925f0a4..4577680 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3629,6 +3629,10 @@ class Sequence(Asn1Value):
                         ', '.join(sorted(list(unused_keys)))
                     ))
 
+                # When none of the fields was set, there is still a value
+                if self._contents is None and not self._mutated:
+                    self._set_contents()
+
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
-- 
2.43.0


From fed3bd4ce6ec21c7f4b89762c07e118615040fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 019/119] fix: order set members by their outermost tag,
 skipping absent ones, also after loading

---
 asn1crypto/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4577680..6e57a6a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4970,8 +4970,8 @@ class Set(Sequence):
             self._parse_children()
 
         child_tag_encodings = []
-        for index, child in enumerate(self.children):
-            child_encoding = child.dump(force=force)
+        for index in range(len(self.children)):
+            child_encoding = self._lazy_child(index).dump(force=force)
 
             # Skip encoding defaulted children
             name, spec, field_params = self._fields[index]
@@ -4979,7 +4979,13 @@ class Set(Sequence):
                 if spec(**field_params).dump() == child_encoding:
                     continue
 
-            child_tag_encodings.append((child.tag, child_encoding))
+            # Absent optional fields have no encoding
+            if child_encoding == b'':
+                continue
+
+            # The outermost tag of the field determines its position
+            (class_, _, tag, _, _, _), _ = _parse(child_encoding, len(child_encoding))
+            child_tag_encodings.append(((class_, tag), child_encoding))
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-- 
2.43.0


From 881c82eaca5e13761ef61aac9fe4cd3542996a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 020/119] fix: match optional fields by their class-level or
 nested explicit tags

---
 asn1crypto/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6e57a6a..e0bc64f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5555,12 +5555,19 @@ def _build_id_tuple(params, spec):
 
     _tag_type_to_explicit_implicit(params)
 
-    if 'explicit' in params:
-        if isinstance(params['explicit'], tuple):
-            required_class, required_tag = params['explicit']
+    # The outermost explicit tag is the one that identifies a field
+    explicit = params.get('explicit')
+    if explicit is None and 'no_explicit' not in params:
+        explicit = spec.explicit
+
+    if explicit is not None:
+        if isinstance(explicit, tuple):
+            if not isinstance(explicit[-1], int_types):
+                explicit = explicit[-1]
+            required_class, required_tag = explicit
         else:
             required_class = 2
-            required_tag = params['explicit']
+            required_tag = explicit
     elif 'implicit' in params:
         if isinstance(params['implicit'], tuple):
             required_class, required_tag = params['implicit']
-- 
2.43.0


From fb123f09c8e861d8918251c809ff7c561494e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:17 +0000
Subject: [PATCH 021/119] fix: refuse data after the value inside an explicit
 tag instead of dropping it

---
 asn1crypto/core.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e0bc64f..27f2ec7 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5639,6 +5639,35 @@ _UNIVERSAL_SPECS = {
 }
 
 
+def _parse_only(contents, value):
+    """
+    Parses the single value an explicit tag contains
+
+    :param contents:
+        A byte string of the contents of the explicit tag
+
+    :param value:
+        The Asn1Value object that is being parsed
+
+    :raises:
+        ValueError - when there is anything after the value
+
+    :return:
+        A 6-element tuple of class, method, tag, header, contents and trailer
+    """
+
+    info, pointer = _parse(contents, len(contents))
+    if pointer != len(contents):
+        raise ValueError(unwrap(
+            '''
+            Error parsing %s - %d bytes of extra data inside of an explicit tag
+            ''',
+            type_name(value),
+            len(contents) - pointer
+        ))
+    return info
+
+
 def _build(class_, method, tag, header, contents, trailer, spec=None, spec_params=None, nested_spec=None):
     """
     Builds an Asn1Value object generically, or using a spec with optional params
@@ -5737,7 +5766,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                         expected_tag,
                         parsed_tag
                     ))
-                info, _ = _parse(to_parse, len(to_parse))
+                info = _parse_only(to_parse, value)
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
                 if not isinstance(value, Choice):
@@ -5823,7 +5852,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         explicit_header = header
         explicit_trailer = trailer or b''
         for expected_class, expected_tag in reversed(original_explicit):
-            info, _ = _parse(to_parse, len(to_parse))
+            info = _parse_only(to_parse, original_value)
             _, _, _, parsed_header, to_parse, parsed_trailer = info
             explicit_header += parsed_header
             explicit_trailer = parsed_trailer + explicit_trailer
-- 
2.43.0


From 9af4b95eea1afd0d4e4543db2f0481b21afd774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 022/119] fix: decode and encode choices with indefinite-length
 alternatives and nested explicit tags

---
 asn1crypto/core.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 27f2ec7..e2b3e57 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1285,17 +1285,18 @@ class Choice(Asn1Value):
         id_ = (class_, tag)
 
         if self.explicit is not None:
-            if self.explicit[-1] != id_:
-                raise ValueError(unwrap(
-                    '''
-                    %s was explicitly tagged, but the value provided does not
-                    match the class and tag
-                    ''',
-                    type_name(self)
-                ))
+            for expected_id in reversed(self.explicit):
+                if expected_id != id_:
+                    raise ValueError(unwrap(
+                        '''
+                        %s was explicitly tagged, but the value provided does not
+                        match the class and tag
+                        ''',
+                        type_name(self)
+                    ))
 
-            ((class_, _, tag, _, _, _), _) = _parse(contents, len(contents))
-            id_ = (class_, tag)
+                ((class_, _, tag, _, contents, _), _) = _parse(contents, len(contents))
+                id_ = (class_, tag)
 
         if id_ in self._id_map:
             self._choice = self._id_map[id_]
@@ -1369,13 +1370,16 @@ class Choice(Asn1Value):
         if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
-        self._contents = self.chosen.dump(force=force)
-        if self._header is None or force:
+        contents = self.chosen.dump(force=force)
+        # The lengths in the header are those of the contents
+        if self._header is None or force or contents != self._contents:
+            self._contents = contents
             self._header = b''
             if self.explicit is not None:
                 for class_, tag in self.explicit:
                     self._header = _dump_header(class_, 1, tag, self._header + self._contents) + self._header
-        return self._header + self._contents
+            self._trailer = b''
+        return self._header + self._contents + self._trailer
 
 
 class Concat(object):
@@ -5729,6 +5733,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 value = spec()
             original_explicit = value.explicit
             explicit_info = reversed(original_explicit)
+            explicit_left = len(original_explicit)
             parsed_class = class_
             parsed_method = method
             parsed_tag = tag
@@ -5769,7 +5774,9 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 info = _parse_only(to_parse, value)
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
-                if not isinstance(value, Choice):
+                # The header of a choice is that of the alternative it holds
+                explicit_left -= 1
+                if explicit_left or not isinstance(value, Choice):
                     explicit_header += parsed_header
                     explicit_trailer = parsed_trailer + explicit_trailer
 
@@ -5791,8 +5798,9 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 value.validate(class_, tag, contents)
                 try:
                     # Force parsing the Choice now
-                    value.contents = header + value.contents
+                    value.contents = header + value.contents + (trailer or b'')
                     header = b''
+                    trailer = b''
                     value.parse()
                 except (ValueError, TypeError) as e:
                     args = e.args[1:]
-- 
2.43.0


From 5bcfc47a985289a4d96ce57de745b2d79c464175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:24 +0000
Subject: [PATCH 023/119] fix: decode constructed strings that have a definite
 length

---
 asn1crypto/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e2b3e57..409fc31 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5819,10 +5819,10 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                         CLASS_NUM_TO_NAME_MAP.get(class_, class_)
                     ))
                 if method != value.method:
-                    # Allow parsing a primitive method as constructed if the value
-                    # is indefinite length. This is to allow parsing BER.
-                    ber_indef = method == 1 and value.method == 0 and trailer == b'\x00\x00'
-                    if not ber_indef or not isinstance(value, Constructable):
+                    # Allow parsing a primitive method as constructed, since BER
+                    # allows strings to be split into segments
+                    ber_segmented = method == 1 and value.method == 0
+                    if not ber_segmented or not isinstance(value, Constructable):
                         raise ValueError(unwrap(
                             '''
                             Error parsing %s - method should have been %s, but %s was found
@@ -5886,8 +5886,8 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         spec = _UNIVERSAL_SPECS[tag]
 
         value = spec(contents=contents, class_=class_)
-        ber_indef = method == 1 and value.method == 0 and trailer == b'\x00\x00'
-        if ber_indef and isinstance(value, Constructable):
+        ber_segmented = method == 1 and value.method == 0
+        if ber_segmented and isinstance(value, Constructable):
             value._indefinite = True
         value.method = method
 
-- 
2.43.0


From bc98181f686c207bd0b10e03585a6d18857cf2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:06 +0000
Subject: [PATCH 024/119] fix: keep the explicit tags of untyped values when
 building, copying, retagging and re-parsing them

---
 asn1crypto/core.py | 59 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 409fc31..d85f2c7 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -919,6 +919,7 @@ class Any(Asn1Value):
                         type_name(value)
                     ))
 
+                value = self._tag_parsed(value)
                 self._parsed = (value, value.__class__, None)
                 self.contents = value.dump()
 
@@ -927,6 +928,36 @@ class Any(Asn1Value):
             e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
             raise e
 
+    def _tag_parsed(self, value, old_explicit=None):
+        """
+        Ensures the parsed value carries the explicit tags of this object
+
+        :param value:
+            The Asn1Value object that was parsed, or is to be contained
+
+        :param old_explicit:
+            A tuple of explicit tags of this object that value is carrying
+
+        :return:
+            value, or a copy of it if the tagging had to be changed
+        """
+
+        explicit = value.explicit or ()
+        if old_explicit is not None and explicit[-len(old_explicit):] == old_explicit:
+            explicit = explicit[:-len(old_explicit)]
+        elif explicit == self.explicit:
+            return value
+
+        explicit = (explicit + (self.explicit or ())) or None
+        if explicit == value.explicit:
+            return value
+
+        if isinstance(value, Any):
+            value = value.parsed
+        value = value.copy()
+        value.explicit = explicit
+        return value
+
     @property
     def native(self):
         """
@@ -975,14 +1006,19 @@ class Any(Asn1Value):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             try:
-                passed_params = spec_params or {}
+                passed_params = dict(spec_params or {})
                 _tag_type_to_explicit_implicit(passed_params)
                 if self.explicit is not None:
+                    # The tags of this object are outside of those of the spec
                     if 'explicit' in passed_params:
-                        passed_params['explicit'] = self.explicit + passed_params['explicit']
+                        inner_explicit = Asn1Value(explicit=passed_params['explicit']).explicit
+                        passed_params['explicit'] = inner_explicit + self.explicit
                     else:
                         passed_params['explicit'] = self.explicit
-                contents = self._header + self.contents + self._trailer
+                if self._parsed is not None:
+                    contents = self._parsed[0].dump()
+                else:
+                    contents = self._header + self.contents + self._trailer
                 parsed_value, _ = _parse_build(
                     contents,
                     spec=spec,
@@ -993,7 +1029,6 @@ class Any(Asn1Value):
                 # Once we've parsed the Any value, clear any attributes from this object
                 # since they are now duplicate
                 self.tag = None
-                self.explicit = None
                 self.implicit = False
                 self._header = b''
                 self.contents = contents
@@ -1018,7 +1053,23 @@ class Any(Asn1Value):
         """
 
         super(Any, self)._copy(other, copy_func)
+
+        if other._parsed is None and self.explicit == other.explicit:
+            self._header = other._header
+            self._trailer = other._trailer
+            return
+
+        if other.contents is None:
+            return
+
+        parsed = other.parsed
         self._parsed = copy_func(other._parsed)
+        if self.explicit != other.explicit:
+            parsed = self._tag_parsed(parsed, other.explicit)
+            self._parsed = (parsed,) + self._parsed[1:]
+            self._native = None
+            self.contents = parsed.dump()
+            self._header = b''
 
     def dump(self, force=False):
         """
-- 
2.43.0


From 739f36d009d25443b7aa8e7c59b51be11b702d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:11 +0000
Subject: [PATCH 025/119] fix: check and keep every explicit tag when no
 specification is given

---
 asn1crypto/core.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d85f2c7..8b7ab7c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5907,17 +5907,31 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         original_value = Asn1Value(contents=contents, **spec_params)
         original_explicit = original_value.explicit
 
-        to_parse = contents
-        explicit_header = header
-        explicit_trailer = trailer or b''
+        info = (class_, method, tag, header, contents, trailer)
+        explicit_header = b''
+        explicit_trailer = b''
         for expected_class, expected_tag in reversed(original_explicit):
-            info = _parse_only(to_parse, original_value)
-            _, _, _, parsed_header, to_parse, parsed_trailer = info
+            parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
+            if (parsed_class, parsed_method, parsed_tag) != (expected_class, 1, expected_tag):
+                raise ValueError(unwrap(
+                    '''
+                    Error parsing %s - explicit tag should have been %s class,
+                    constructed method, tag %s, but %s class, %s method, tag %s
+                    was found
+                    ''',
+                    type_name(original_value),
+                    CLASS_NUM_TO_NAME_MAP.get(expected_class),
+                    expected_tag,
+                    CLASS_NUM_TO_NAME_MAP.get(parsed_class, parsed_class),
+                    METHOD_NUM_TO_NAME_MAP.get(parsed_method, parsed_method),
+                    parsed_tag
+                ))
             explicit_header += parsed_header
-            explicit_trailer = parsed_trailer + explicit_trailer
+            explicit_trailer = (parsed_trailer or b'') + explicit_trailer
+            info = _parse_only(to_parse, original_value)
         value = _build(*info, spec=spec, spec_params={'no_explicit': True})
-        value._header = header + value._header
-        value._trailer += trailer or b''
+        value._header = explicit_header + value._header
+        value._trailer += explicit_trailer
         value.explicit = original_explicit
         header_set = True
 
-- 
2.43.0


From 0a68788044586164e024768530ba82956b342e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 026/119] fix: tag the choices in EDIPartyName, CountryName and
 AdministrationDomainName explicitly

---
 asn1crypto/x509.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 38aa770..f595b2c 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1190,8 +1190,7 @@ class AnotherName(Sequence):
 
 
 class CountryName(Choice):
-    class_ = 1
-    tag = 1
+    explicit = (1, 1)
 
     _alternatives = [
         ('x121_dcc_code', NumericString),
@@ -1200,8 +1199,7 @@ class CountryName(Choice):
 
 
 class AdministrationDomainName(Choice):
-    class_ = 1
-    tag = 2
+    explicit = (1, 2)
 
     _alternatives = [
         ('numeric', NumericString),
@@ -1424,8 +1422,8 @@ class ORAddress(Sequence):
 
 class EDIPartyName(Sequence):
     _fields = [
-        ('name_assigner', DirectoryString, {'implicit': 0, 'optional': True}),
-        ('party_name', DirectoryString, {'implicit': 1}),
+        ('name_assigner', DirectoryString, {'explicit': 0, 'optional': True}),
+        ('party_name', DirectoryString, {'explicit': 1}),
     ]
 
 
-- 
2.43.0


From bb1ffb6b7318c43d021f3cd62f9de4fb535221b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:54 +0000
Subject: [PATCH 027/119] fix: follow the published definitions of
 TimeStampResp, ArchiveTimeStampSequence, V2Form and
 SMIMEEncryptionKeyPreference

---
 asn1crypto/cms.py | 6 +++---
 asn1crypto/tsp.py | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index b104c99..4be4154 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -268,8 +268,8 @@ class Holder(Sequence):
 class V2Form(Sequence):
     _fields = [
         ('issuer_name', GeneralNames, {'optional': True}),
-        ('base_certificate_id', IssuerSerial, {'explicit': 0, 'optional': True}),
-        ('object_digest_info', ObjectDigestInfo, {'explicit': 1, 'optional': True}),
+        ('base_certificate_id', IssuerSerial, {'implicit': 0, 'optional': True}),
+        ('object_digest_info', ObjectDigestInfo, {'implicit': 1, 'optional': True}),
     ]
 
 
@@ -939,7 +939,7 @@ class SMIMEEncryptionKeyPreference(Choice):
     _alternatives = [
         ('issuer_and_serial_number', IssuerAndSerialNumber, {'implicit': 0}),
         ('recipient_key_id', RecipientKeyIdentifier, {'implicit': 1}),
-        ('subject_alt_key_identifier', PublicKeyInfo, {'implicit': 2}),
+        ('subject_alt_key_identifier', OctetString, {'implicit': 2}),
     ]
 
     def _setup(self):
diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index f006da9..721674d 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -156,7 +156,7 @@ class PKIStatusInfo(Sequence):
 class TimeStampResp(Sequence):
     _fields = [
         ('status', PKIStatusInfo),
-        ('time_stamp_token', ContentInfo),
+        ('time_stamp_token', ContentInfo, {'optional': True}),
     ]
 
 
@@ -208,10 +208,14 @@ class ArchiveTimeStamp(Sequence):
     ]
 
 
-class ArchiveTimeStampSequence(SequenceOf):
+class ArchiveTimeStampChain(SequenceOf):
     _child_spec = ArchiveTimeStamp
 
 
+class ArchiveTimeStampSequence(SequenceOf):
+    _child_spec = ArchiveTimeStampChain
+
+
 class EvidenceRecord(Sequence):
     _fields = [
         ('version', Version),
-- 
2.43.0


From 0e6c2ddd8190d4fa41c501c7887a2ca6b6b699a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 028/119] fix: correct Microsoft PKCS#12 attribute identifiers
 and read a signed authenticated safe

---
 asn1crypto/pkcs12.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 7ebcefe..f0d09c8 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -53,7 +53,8 @@ class AttributeType(ObjectIdentifier):
         '1.2.840.113549.1.9.20': 'friendly_name',
         '1.2.840.113549.1.9.21': 'local_key_id',
         # https://support.microsoft.com/en-us/kb/287547
-        '1.3.6.1.4.1.311.17.1': 'microsoft_local_machine_keyset',
+        '1.3.6.1.4.1.311.17.1': 'microsoft_csp_name',
+        '1.3.6.1.4.1.311.17.2': 'microsoft_local_machine_keyset',
         # https://github.com/frohoff/jdk8u-dev-jdk/blob/master/src/share/classes/sun/security/pkcs12/PKCS12KeyStore.java
         # this is a set of OIDs, representing key usage, the usual value is a SET of one element OID 2.5.29.37.0
         '2.16.840.1.113894.746875.1.1': 'trusted_key_usage',
@@ -115,7 +116,7 @@ class Pfx(Sequence):
         if self._authenticated_safe is None:
             content = self['auth_safe']['content']
             if isinstance(content, SignedData):
-                content = content['content_info']['content']
+                content = content['encap_content_info']['content']
             self._authenticated_safe = AuthenticatedSafe.load(content.native)
         return self._authenticated_safe
 
-- 
2.43.0


From 5051b64209bc670c7ec154fcc2d0c4059e588643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:21 +0000
Subject: [PATCH 029/119] fix: attributes of a PKCS#6 extended certificate are
 a SET OF

---
 asn1crypto/cms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 4be4154..fe77c0b 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -56,17 +56,21 @@ from .core import (
 from .crl import CertificateList
 from .keys import PublicKeyInfo
 from .ocsp import OCSPResponse
-from .x509 import Attributes, Certificate, Extensions, GeneralName, GeneralNames, Name
+from .x509 import Attribute, Attributes, Certificate, Extensions, GeneralName, GeneralNames, Name
 
 
 # These structures are taken from
 # ftp://ftp.rsasecurity.com/pub/pkcs/ascii/pkcs-6.asc
 
+class ExtendedCertificateAttributes(SetOf):
+    _child_spec = Attribute
+
+
 class ExtendedCertificateInfo(Sequence):
     _fields = [
         ('version', Integer),
         ('certificate', Certificate),
-        ('attributes', Attributes),
+        ('attributes', ExtendedCertificateAttributes),
     ]
 
 
-- 
2.43.0


From b6ac2f3c4a4a7d515d9c723e4b6057fdb95bd93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 030/119] fix: raise TypeError when a record is constructed
 from something that is not a dict

---
 asn1crypto/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 8b7ab7c..27f630f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3648,6 +3648,15 @@ class Sequence(Asn1Value):
 
         if value is not None:
             try:
+                if not hasattr(value, 'keys'):
+                    raise TypeError(unwrap(
+                        '''
+                        %s value must be a dict, not %s
+                        ''',
+                        type_name(self),
+                        type_name(value)
+                    ))
+
                 # Fields are iterated in definition order to allow things like
                 # OID-based specs. Otherwise sometimes the value would be processed
                 # before the OID field, resulting in invalid value object creation.
-- 
2.43.0


From f02382aec490a267d2b239da0e6a3496e8c60607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 031/119] fix: reset the cached header and trailer when a null
 is set

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 27f630f..06f2ef0 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3194,6 +3194,9 @@ class Null(Primitive):
         """
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
-- 
2.43.0


From eff993fd68d9a22d81cc78ce9552e188ffa4d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 032/119] fix: copy the children of records and lists so that
 editing a copy keeps its native value up-to-date

---
 asn1crypto/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 06f2ef0..da104a4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4350,13 +4350,15 @@ class Sequence(Asn1Value):
         """
 
         super(Sequence, self)._copy(other, copy_func)
-        if self.children is not None:
+        if other.children is not None:
             self.children = []
             for child in other.children:
-                if child.__class__ == tuple:
+                if child is None or child is VOID or child.__class__ == tuple:
                     self.children.append(child)
                 else:
                     self.children.append(child.copy())
+        # The native value has to refer to the one of each of the children
+        self._native = None
 
     def debug(self, nest_level=1):
         """
@@ -4826,7 +4828,7 @@ class SequenceOf(Asn1Value):
         """
 
         super(SequenceOf, self)._copy(other, copy_func)
-        if self.children is not None:
+        if other.children is not None:
             self.children = []
             for child in other.children:
                 if child.__class__ == tuple:
-- 
2.43.0


From b32fb6825c523e217c60aba1199ae7013787e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 033/119] fix: notice changes to a nested record or list that
 was encoded on its own

---
 asn1crypto/core.py | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index da104a4..2654b34 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -52,6 +52,7 @@ from datetime import datetime, timedelta
 from fractions import Fraction
 import binascii
 import copy
+import itertools
 import math
 import re
 import sys
@@ -166,6 +167,24 @@ def load(encoded_data, strict=False):
     return Asn1Value.load(encoded_data, strict=strict)
 
 
+# Numbers the changes to the children of Sequence and SequenceOf objects
+_changes = itertools.count(1)
+
+
+def _mark_encoded(value):
+    """
+    Notes that the contents of a Sequence or SequenceOf object are up-to-date
+    with its children
+
+    :param value:
+        A Sequence or SequenceOf object
+    """
+
+    if value._is_mutated():
+        value._last_change = next(_changes)
+    value._mutated = False
+
+
 def unpickle_helper(asn1crypto_cls, der_bytes):
     """
     Helper function to integrate with pickle.
@@ -3594,6 +3613,9 @@ class Sequence(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # The number of the last change that is part of the contents
+    _last_change = 0
+
     # A list of tuples in one of the following forms.
     #
     # Option 1, a unicode string field name and a value class
@@ -3740,7 +3762,8 @@ class Sequence(Asn1Value):
         if self.children is not None:
             for child in self.children:
                 if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
+                    # A child that was encoded on its own is no longer mutated
+                    mutated = mutated or child._is_mutated() or child._last_change > self._last_change
 
         return mutated
 
@@ -3952,7 +3975,7 @@ class Sequence(Asn1Value):
                     continue
             contents.write(child_dump)
         self._contents = contents.getvalue()
-        self._mutated = False
+        _mark_encoded(self)
 
         self._header = None
         if self._trailer != b'':
@@ -4436,6 +4459,9 @@ class SequenceOf(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # The number of the last change that is part of the contents
+    _last_change = 0
+
     # An Asn1Value class to use when parsing children
     _child_spec = None
 
@@ -4517,7 +4543,8 @@ class SequenceOf(Asn1Value):
         if self.children is not None:
             for child in self.children:
                 if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
+                    # A child that was encoded on its own is no longer mutated
+                    mutated = mutated or child._is_mutated() or child._last_change > self._last_change
 
         return mutated
 
@@ -4739,7 +4766,7 @@ class SequenceOf(Asn1Value):
         for child in self:
             contents.write(child.dump(force=force))
         self._contents = contents.getvalue()
-        self._mutated = False
+        _mark_encoded(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -4835,6 +4862,9 @@ class SequenceOf(Asn1Value):
                     self.children.append(child)
                 else:
                     self.children.append(child.copy())
+        # The native value has to refer to the one of each of the children
+        self._native = None
+        self._child_spec = other._child_spec
 
     def debug(self, nest_level=1):
         """
@@ -5058,7 +5088,7 @@ class Set(Sequence):
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-        self._mutated = False
+        _mark_encoded(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -5092,7 +5122,7 @@ class SetOf(SequenceOf):
             child_encodings.append(child.dump(force=force))
 
         self._contents = b''.join(sorted(child_encodings))
-        self._mutated = False
+        _mark_encoded(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From 45191f975fb985bba2eb7b7db4c3e6774cb5f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 034/119] fix: keep the spec of a list inside an explicit tag

---
 asn1crypto/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 2654b34..ed0b598 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5875,7 +5875,10 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                     explicit_header += parsed_header
                     explicit_trailer = parsed_trailer + explicit_trailer
 
-            value = _build(*info, spec=spec, spec_params={'no_explicit': True})
+            inner_params = {'no_explicit': True}
+            if spec_params and 'spec' in spec_params:
+                inner_params['spec'] = spec_params['spec']
+            value = _build(*info, spec=spec, spec_params=inner_params)
             value._header = explicit_header
             value._trailer = explicit_trailer
             value.explicit = original_explicit
-- 
2.43.0


From c8ae241e7bf916b6dc1063157e42417df3e60af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 035/119] fix: keep the tagging and list spec when pickling a
 value

---
 asn1crypto/core.py | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ed0b598..9721e09 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -185,13 +185,14 @@ def _mark_encoded(value):
     value._mutated = False
 
 
-def unpickle_helper(asn1crypto_cls, der_bytes):
+def unpickle_helper(asn1crypto_cls, der_bytes, params=None):
     """
     Helper function to integrate with pickle.
 
     Note that this must be an importable top-level function.
     """
-    return asn1crypto_cls.load(der_bytes)
+    value, _ = _parse_build(der_bytes, spec=asn1crypto_cls, spec_params=params or {})
+    return value
 
 
 class Asn1Value(object):
@@ -513,8 +514,29 @@ class Asn1Value(object):
         """
         Permits pickling Asn1Value objects using their DER representation.
         """
+        params = self._pickle_params()
+        if params:
+            return unpickle_helper, (self.__class__, self.dump(), params)
         return unpickle_helper, (self.__class__, self.dump())
 
+    def _pickle_params(self):
+        """
+        :return:
+            A dict of the params to load a pickled value with - the tagging of
+            this object that is not part of the class
+        """
+
+        cls = self.__class__
+        params = {}
+        if self.explicit != cls.explicit:
+            if not self.explicit:
+                params['no_explicit'] = True
+            else:
+                params['explicit'] = self.explicit[len(cls.explicit or ()):]
+        elif (self.class_, self.tag) != (cls.class_ or 0, cls.tag) and self.tag is not None:
+            params['implicit'] = (CLASS_NUM_TO_NAME_MAP[self.class_], self.tag)
+        return params
+
     def _new_instance(self):
         """
         Constructs a new copy of the current object, preserving any tagging
@@ -858,6 +880,13 @@ class Void(Asn1Value):
 
     contents = b''
 
+    def __reduce__(self):
+        """
+        Permits pickling absent values, which have no encoding
+        """
+
+        return self.__class__, ()
+
     def __eq__(self, other):
         """
         :param other:
@@ -4532,6 +4561,17 @@ class SequenceOf(Asn1Value):
 
         self._contents = value
 
+    def _pickle_params(self):
+        """
+        :return:
+            A dict of the params to load a pickled value with
+        """
+
+        params = super(SequenceOf, self)._pickle_params()
+        if self._child_spec is not self.__class__._child_spec:
+            params['spec'] = self._child_spec
+        return params
+
     def _is_mutated(self):
         """
         :return:
-- 
2.43.0


From 5a1a0573a9370c6eb8a8bfd0ba1720e17b09bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 036/119] fix: refuse a set that holds the same field more than
 once

---
 asn1crypto/core.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9721e09..1dde12d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5031,6 +5031,19 @@ class Set(Sequence):
                         parts[2],
                     ))
 
+                if field in child_map:
+                    raise ValueError(unwrap(
+                        '''
+                        Data for field %s (%s class, %s method, tag %s) repeats
+                        the field "%s"
+                        ''',
+                        seen_field,
+                        CLASS_NUM_TO_NAME_MAP.get(parts[0]),
+                        METHOD_NUM_TO_NAME_MAP.get(parts[1]),
+                        parts[2],
+                        self._fields[field][0]
+                    ))
+
                 _, field_spec, value_spec, field_params, spec_override = (
                     cls._precomputed_specs[field] or self._determine_spec(field))
 
-- 
2.43.0


From 0b1d2e6b98889d49a66f7a1529306ca6feebaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 037/119] fix: read the children of a set without field
 definitions

---
 asn1crypto/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 1dde12d..06fdc00 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4445,7 +4445,7 @@ class Sequence(Asn1Value):
             force = True
 
         # We can't force encoding if we don't have a spec
-        if force and self._fields == [] and self.__class__ is Sequence:
+        if force and self._fields == [] and self.__class__ in (Sequence, Set):
             force = False
 
         if force:
@@ -4995,6 +4995,11 @@ class Set(Sequence):
             ValueError - when an error occurs parsing child objects
         """
 
+        # Without field definitions there is nothing to match the children to
+        if not self._fields:
+            super(Set, self)._parse_children(recurse=recurse)
+            return
+
         cls = self.__class__
         if self._contents is None:
             if self._fields:
-- 
2.43.0


From 0d1674b6d71096e6771986cf0d1946705a5d7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 038/119] fix: keep elements that follow the declared fields
 when a record is re-encoded

---
 asn1crypto/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 06fdc00..5cb19b6 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4003,6 +4003,13 @@ class Sequence(Asn1Value):
                 if default_value.dump() == child_dump:
                     continue
             contents.write(child_dump)
+        # Keep the children that follow the last of the defined fields
+        for index in range(len(self._fields), len(self.children)):
+            child = self.children[index]
+            if child.__class__ == tuple:
+                contents.write(child[3] + child[4] + child[5])
+            else:
+                contents.write(child.dump())
         self._contents = contents.getvalue()
         _mark_encoded(self)
 
-- 
2.43.0


From 1caa71f43af6c428d8968ef8532b0e82c21af558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 039/119] fix: do not take the default of an absent field for a
 change to the encoded value

---
 asn1crypto/core.py | 44 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5cb19b6..d7b800d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -185,6 +185,44 @@ def _mark_encoded(value):
     value._mutated = False
 
 
+def _default_value(spec, params):
+    """
+    Constructs the value of a field that is absent from the encoding of a
+    Sequence or Set, without it counting as a change to the encoded value
+
+    :param spec:
+        The class of the field
+
+    :param params:
+        A dict of the params of the field
+
+    :return:
+        An instance of spec
+    """
+
+    value = spec(**params)
+    _mark_unchanged(value)
+    return value
+
+
+def _mark_unchanged(value):
+    """
+    Makes the current children of a Sequence or SequenceOf object not count as
+    changes
+
+    :param value:
+        An Asn1Value object - those without children are ignored
+    """
+
+    if isinstance(value, (Sequence, SequenceOf)):
+        # Encodes the children
+        value.contents
+        value._last_change = 0
+        if value.children is not None:
+            for child in value.children:
+                _mark_unchanged(child)
+
+
 def unpickle_helper(asn1crypto_cls, der_bytes, params=None):
     """
     Helper function to integrate with pickle.
@@ -4249,7 +4287,7 @@ class Sequence(Asn1Value):
                                 if 'optional' in field_params:
                                     self.children.append(VOID)
                                 else:
-                                    self.children.append(field_spec(**field_params))
+                                    self.children.append(_default_value(field_spec, field_params))
                                 field += 1
                                 again = True
                                 continue
@@ -4305,7 +4343,7 @@ class Sequence(Asn1Value):
             while index < field_len:
                 name, field_spec, field_params = self._fields[index]
                 if 'default' in field_params:
-                    self.children.append(field_spec(**field_params))
+                    self.children.append(_default_value(field_spec, field_params))
                 elif 'optional' in field_params:
                     self.children.append(VOID)
                 else:
@@ -5098,7 +5136,7 @@ class Set(Sequence):
                 elif 'optional' in field_params:
                     child_map[index] = VOID
                 elif 'default' in field_params:
-                    child_map[index] = field_spec(**field_params)
+                    child_map[index] = _default_value(field_spec, field_params)
 
                 if missing:
                     raise ValueError(unwrap(
-- 
2.43.0


From 8fc5cf7a1b608d5c7b42af5aeab8317b12e9ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 040/119] fix: keep the octets after the parsed value when
 forcing the re-encoding of an octet string

---
 asn1crypto/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d7b800d..f711a3d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3192,12 +3192,15 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             force = True
 
         if force:
-            if self._parsed is not None:
-                native = self.parsed.dump(force=force)
-            else:
-                native = self.native
+            parsed = self._parsed
+            native = None if self.contents is None else self.__bytes__()
+            if parsed is not None:
+                # Keep whatever follows the parsed value
+                _, parsed_len = _parse(native, len(native))
+                native = parsed[0].dump(force=force) + native[parsed_len:]
             self.contents = None
             self.set(native)
+            self._parsed = parsed
 
         return Asn1Value.dump(self)
 
-- 
2.43.0


From b7ad0383f90a789ca07fc899de33770af9235607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 041/119] fix: forget the parsed value of an octet string that
 is reassigned

---
 asn1crypto/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f711a3d..320218b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3075,6 +3075,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             ))
 
         self._bytes = value
+        self._parsed = None
         self.contents = value
         self._header = None
         if self._indefinite:
@@ -3231,6 +3232,7 @@ class ParsableOctetBitString(ParsableOctetString):
 
         self._bytes = value
         # Set the unused bits to 0
+        self._parsed = None
         self.contents = b'\x00' + value
         self._header = None
         if self._indefinite:
-- 
2.43.0


From 95d89010388361def511339e1f920cf3781566ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:12 +0000
Subject: [PATCH 042/119] fix: keep the octets of a Teletex string when forcing
 its re-encoding

---
 asn1crypto/x509.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f595b2c..6b8461e 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -31,6 +31,7 @@ from ._types import type_name, str_cls, byte_cls, bytes_to_list
 from .algos import AlgorithmIdentifier, AnyAlgorithmIdentifier, DigestAlgorithm, SignedDigestAlgorithm
 from .core import (
     Any,
+    Asn1Value,
     BitString,
     BMPString,
     Boolean,
@@ -479,6 +480,44 @@ class NotReallyTeletexString(TeletexString):
             self._unicode = self._merge_chunks().decode(self._decoding_encoding)
         return self._unicode
 
+    def _set_from(self, other):
+        """
+        Sets this object to the octets of another object of the same class,
+        which the strict encoding may not be able to represent
+
+        :param other:
+            The object of the same class to take the value from, may be self
+        """
+
+        self.contents = other._merge_chunks()
+        self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
+        if self._trailer != b'':
+            self._trailer = b''
+
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # If the length is indefinite, force the re-encoding
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
+            force = True
+
+        if force:
+            self._set_from(self)
+
+        return Asn1Value.dump(self)
+
 
 @contextmanager
 def strict_teletex():
-- 
2.43.0


From 40414f4e3485a54df07698851b7fd65a233722cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 043/119] fix: keep an implicit tag when casting a value

---
 asn1crypto/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 320218b..6daaeab 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -802,6 +802,7 @@ class Castable(object):
 
         new_obj = other_class()
         new_obj.class_ = self.class_
+        new_obj.tag = self.tag
         new_obj.implicit = self.implicit
         new_obj.explicit = self.explicit
         new_obj._header = self._header
-- 
2.43.0


From be1104744167d907ddbfc6e7f507471b9e8acb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 044/119] fix: encode an untyped value with an unknown tag as
 it was read

---
 asn1crypto/core.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6daaeab..0f10190 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1171,10 +1171,26 @@ class Any(Asn1Value):
         """
 
         if self._parsed is None:
+            # There is no class to parse a value with an unknown tag
+            if self._header and self.contents is not None and self._is_unknown():
+                return self._header + self.contents + self._trailer
             self.parse()
 
         return self._parsed[0].dump(force=force)
 
+    def _is_unknown(self):
+        """
+        :return:
+            A boolean - if the tag of the value, inside any explicit tags, is
+            not one that can be parsed without a spec
+        """
+
+        encoded = self._header + self.contents + self._trailer
+        info, _ = _parse(encoded, len(encoded))
+        for _ in self.explicit or ():
+            info, _ = _parse(info[4], len(info[4]))
+        return info[2] not in _UNIVERSAL_SPECS
+
 
 class Choice(Asn1Value):
     """
-- 
2.43.0


From 034387459b729fd6be97e6acb8c733a2284eeab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 045/119] fix: keep a BER header when copying a value

---
 asn1crypto/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0f10190..7ffaff9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -685,6 +685,10 @@ class Asn1Value(object):
 
         self.contents = other.contents
         self._native = copy_func(other._native)
+        # As long as it is tagged the same way, a copy has the same encoding
+        if (self.class_, self.tag, self.explicit) == (other.class_, other.tag, other.explicit):
+            self._header = other._header
+            self._trailer = other._trailer
 
     def debug(self, nest_level=1):
         """
@@ -1043,6 +1047,8 @@ class Any(Asn1Value):
             value = value.parsed
         value = value.copy()
         value.explicit = explicit
+        value._header = None
+        value._trailer = b''
         return value
 
     @property
@@ -1142,10 +1148,12 @@ class Any(Asn1Value):
         super(Any, self)._copy(other, copy_func)
 
         if other._parsed is None and self.explicit == other.explicit:
-            self._header = other._header
-            self._trailer = other._trailer
             return
 
+        # The encoding is that of the parsed value
+        self._header = None
+        self._trailer = b''
+
         if other.contents is None:
             return
 
@@ -1504,6 +1512,7 @@ class Choice(Asn1Value):
         """
 
         super(Choice, self)._copy(other, copy_func)
+        self._contents = other._contents
         self._choice = other._choice
         self._name = other._name
         self._parsed = copy_func(other._parsed)
-- 
2.43.0


From 1fc416e5f0f505e9eeff850f88a3cd62c62c0698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:04 +0000
Subject: [PATCH 046/119] fix: do not guess the class of a value with a tag
 that is not universal in order to encode it

---
 asn1crypto/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7ffaff9..920ba8f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1179,7 +1179,8 @@ class Any(Asn1Value):
         """
 
         if self._parsed is None:
-            # There is no class to parse a value with an unknown tag
+            # There is no class to parse a value with an unknown tag, and one
+            # that is not universal can only be guessed
             if self._header and self.contents is not None and self._is_unknown():
                 return self._header + self.contents + self._trailer
             self.parse()
@@ -1197,7 +1198,7 @@ class Any(Asn1Value):
         info, _ = _parse(encoded, len(encoded))
         for _ in self.explicit or ():
             info, _ = _parse(info[4], len(info[4]))
-        return info[2] not in _UNIVERSAL_SPECS
+        return info[0] != 0 or info[2] not in _UNIVERSAL_SPECS
 
 
 class Choice(Asn1Value):
-- 
2.43.0


From b1b225eccffadc8e09a7d2d2816959a4f19c4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 047/119] fix: encode a concatenation that was loaded without
 its last children

---
 asn1crypto/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 920ba8f..fe1d724 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1745,7 +1745,9 @@ class Concat(object):
 
         contents = b''
         for child in self._children:
-            contents += child.dump(force=force)
+            # A child past the end of what was loaded has nothing to encode
+            if child.contents is not None:
+                contents += child.dump(force=force)
         return contents
 
     @property
-- 
2.43.0


From 441c00c22b1ffc39d9d7faf587fed14e37ecbbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 048/119] fix: read and set an enumeration that has no names

---
 asn1crypto/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fe1d724..2736994 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3624,7 +3624,7 @@ class Enumerated(Integer):
             ))
 
         if isinstance(value, str_cls):
-            if value not in self._reverse_map:
+            if self._map is None or value not in self._reverse_map:
                 raise ValueError(unwrap(
                     '''
                     %s value "%s" is not a valid value
@@ -3635,7 +3635,7 @@ class Enumerated(Integer):
 
             value = self._reverse_map[value]
 
-        elif value not in self._map:
+        elif self._map is not None and value not in self._map:
             raise ValueError(unwrap(
                 '''
                 %s value %s is not a valid value
@@ -3652,7 +3652,7 @@ class Enumerated(Integer):
         The native Python datatype representation of this value
 
         :return:
-            A unicode string or None
+            A unicode string, an integer if there is no _map, or None
         """
 
         if self.contents is None:
@@ -3660,7 +3660,10 @@ class Enumerated(Integer):
 
         if self._native is None:
             value = self.__int__()
-            if self._map is not None and value not in self._map:
+            if self._map is None:
+                self._native = value
+                return self._native
+            if value not in self._map:
                 raise ValueError(unwrap(
                     '''
                     %s value %s is not a valid value
-- 
2.43.0


From 34fe2e658ba53e90abbe4af11e4f322395ecdcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:37 +0000
Subject: [PATCH 049/119] fix: decode a key with an algorithm that is not known

---
 asn1crypto/keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 92716e1..462acfd 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -730,7 +730,7 @@ class PrivateKeyInfo(Sequence):
             'x448': OctetString,
             'ed25519': OctetString,
             'ed448': OctetString,
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'private_key': _private_key_spec
@@ -1097,7 +1097,7 @@ class PublicKeyInfo(Sequence):
             'x448': (OctetBitString, None),
             'ed25519': (OctetBitString, None),
             'ed448': (OctetBitString, None),
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'public_key': _public_key_spec
-- 
2.43.0


From 8f808a49ae745be4b566c967967c2cad58de2e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 050/119] fix: native of an Adobe time-stamp without the
 authentication flag

---
 asn1crypto/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/pdf.py b/asn1crypto/pdf.py
index b72c886..a9bad4d 100644
--- a/asn1crypto/pdf.py
+++ b/asn1crypto/pdf.py
@@ -38,7 +38,7 @@ class AdobeTimestamp(Sequence):
     _fields = [
         ('version', Integer),
         ('location', GeneralName),
-        ('requires_auth', Boolean, {'optional': True, 'default': False}),
+        ('requires_auth', Boolean, {'default': False}),
     ]
 
 
-- 
2.43.0


From 826859a41500b0738349c1f8e768d89525d24bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:00 +0000
Subject: [PATCH 051/119] fix: keep an object identifier that shares its name
 with another one when re-encoding

---
 asn1crypto/core.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 2736994..a11ed7e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3570,6 +3570,26 @@ class ObjectIdentifier(Primitive, ValueMap):
             self._native = self._map[self._native]
         return self._native
 
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # More than one identifier may have the same name, thus the native
+        # value can not be used to regenerate the contents
+        if force and self.contents is not None:
+            self.set(self.dotted)
+            force = False
+
+        return Primitive.dump(self, force=force)
+
 
 class ObjectDescriptor(Primitive):
     """
-- 
2.43.0


From 397fe784b5e56ac22e9fa3604485c997e37df40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 052/119] fix: encode the key of an EC private key container
 with the size the curve requires

---
 asn1crypto/keys.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 462acfd..f0d1068 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -824,7 +824,12 @@ class PrivateKeyInfo(Sequence):
                 algorithm['parameters'].name != 'implicit_ca' and \
                 isinstance(self['private_key'], ParsableOctetString) and \
                 isinstance(self['private_key'].parsed, ECPrivateKey):
-            self['private_key'].parsed.set_key_size(algorithm['parameters'].key_size)
+            parsed = self['private_key'].parsed
+            contents = parsed['private_key'].contents
+            parsed.set_key_size(algorithm['parameters'].key_size)
+            if parsed['private_key'].contents != contents:
+                # The octet string has to contain the key with the new size
+                self['private_key'].dump(force=True)
 
         return res
 
-- 
2.43.0


From e88d69114e8e979b528de2bcb7db08e2099df1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:23 +0000
Subject: [PATCH 053/119] fix: EC points with a coordinate that is zero or a
 power of 256

---
 asn1crypto/keys.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index f0d1068..725d256 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -148,10 +148,7 @@ class _ECPoint():
             An ECPoint object
         """
 
-        x_bytes = int(math.ceil(math.log(x, 2) / 8.0))
-        y_bytes = int(math.ceil(math.log(y, 2) / 8.0))
-
-        num_bytes = max(x_bytes, y_bytes)
+        num_bytes = max(len(int_to_bytes(x)), len(int_to_bytes(y)))
 
         byte_string = b'\x04'
         byte_string += int_to_bytes(x, width=num_bytes)
-- 
2.43.0


From 51cf0089569fca2e8d0bffd4f5bb3cb932063c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:27 +0000
Subject: [PATCH 054/119] fix: key size of specified domain parameters with an
 order just over a power of 256

---
 asn1crypto/keys.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 725d256..e47532f 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -531,7 +531,15 @@ class ECDomainParameters(Choice):
 
         if self.name == 'specified':
             order = self.chosen['order'].native
-            return math.ceil(math.log(order, 2.0) / 8.0)
+            if order < 2:
+                raise ValueError(unwrap(
+                    '''
+                    Unable to calculate key_size from ECDomainParameters
+                    with an order of %s
+                    ''',
+                    order
+                ))
+            return len(int_to_bytes(order - 1))
 
         oid = self.chosen.dotted
         if oid not in NamedCurve._key_sizes:
-- 
2.43.0


From 8f1bb6559e494c9f46f1feaed624a795016d40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:48 +0000
Subject: [PATCH 055/119] fix: the extension attributes of an X.400 address are
 a set

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 6b8461e..29c13c0 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1447,7 +1447,7 @@ class ExtensionAttribute(Sequence):
     }
 
 
-class ExtensionAttributes(SequenceOf):
+class ExtensionAttributes(SetOf):
     _child_spec = ExtensionAttribute
 
 
-- 
2.43.0


From 02883782fb4e24fdf6cabfd87c9f30be2f130ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 056/119] fix: read V1 attribute certificates, the version of
 which is not encoded

---
 asn1crypto/cms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index fe77c0b..dbc6309 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -56,6 +56,7 @@ from .core import (
 from .crl import CertificateList
 from .keys import PublicKeyInfo
 from .ocsp import OCSPResponse
+from .parser import parse
 from .x509 import Attribute, Attributes, Certificate, Extensions, GeneralName, GeneralNames, Name
 
 
@@ -514,7 +515,10 @@ class CertificateChoices(Choice):
 
         super(CertificateChoices, self).validate(class_, tag, contents)
         if self._choice == 2:
-            if AttCertVersion.load(Sequence.load(contents)[0].dump()).native == 'v2':
+            # The version is the first field of a V2 attribute certificate, for a
+            # V1 attribute certificate it is not encoded
+            class_, _, tag, _, version, _ = parse(Sequence.load(contents).contents)
+            if class_ == 0 and tag == 2 and AttCertVersion(contents=version).native == 'v2':
                 self._choice = 3
 
 
-- 
2.43.0


From 9bda7cf2674a5065a1ebed975a75114052f28e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:01 +0000
Subject: [PATCH 057/119] fix: unarmour blocks of which the type holds
 punctuation

---
 asn1crypto/pem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/pem.py b/asn1crypto/pem.py
index 2d18f3c..9b3dabe 100644
--- a/asn1crypto/pem.py
+++ b/asn1crypto/pem.py
@@ -151,7 +151,10 @@ def _unarmor(pem_bytes):
         if state == "trash":
             # Look for a starting line since some CA cert bundle show the cert
             # into in a parsed format above each PEM block
-            type_name_match = re.match(b'^(?:---- |-----)BEGIN ([A-Z0-9 ]+)(?: ----|-----)', line)
+            type_name_match = re.match(
+                b'^(?:---- |-----)BEGIN ([ -,.-~]+(?:-[ -,.-~]+)*)(?: ----|-----)',
+                line
+            )
             if not type_name_match:
                 continue
             object_type = type_name_match.group(1).decode('ascii')
@@ -161,7 +164,7 @@ def _unarmor(pem_bytes):
             continue
 
         if state == 'headers':
-            if line.find(b':') == -1:
+            if line.find(b':') == -1 or line[0:5] in (b'-----', b'---- '):
                 state = 'body'
             else:
                 decoded_line = line.decode('ascii')
-- 
2.43.0


From 8d58766d1e2e5febfb20bc49b0d2c6a96edc761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:34 +0000
Subject: [PATCH 058/119] fix: keep the brackets of an IPv6 host, an empty
 authority and a plus sign in the scheme of a URI

---
 asn1crypto/_iri.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 7394b4d..e406c05 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -19,7 +19,7 @@ from ._errors import unwrap
 from ._types import byte_cls, str_cls, type_name, bytes_to_list, int_types
 
 if sys.version_info < (3,):
-    from urlparse import urlsplit, urlunsplit
+    from urlparse import urlsplit
     from urllib import (
         quote as urlquote,
         unquote as unquote_to_bytes,
@@ -30,7 +30,6 @@ else:
         quote as urlquote,
         unquote_to_bytes,
         urlsplit,
-        urlunsplit,
     )
 
 
@@ -67,15 +66,17 @@ def iri_to_uri(value, normalize=False):
         parsed = urlsplit(value)
         if real_prefix:
             value = real_prefix + value[7:]
-            scheme = _urlquote(real_prefix[:-3])
+            scheme = _urlquote(real_prefix[:-3], safe='+')
     else:
         parsed = urlsplit(value)
 
     if scheme is None:
-        scheme = _urlquote(parsed.scheme)
+        scheme = _urlquote(parsed.scheme, safe='+')
     hostname = parsed.hostname
     if hostname is not None:
         hostname = hostname.encode('idna')
+        if parsed.netloc.rpartition('@')[2].startswith('['):
+            hostname = b'[' + hostname + b']'
     # RFC 3986 allows userinfo to contain sub-delims
     username = _urlquote(parsed.username, safe='!$&\'()*+,;=')
     password = _urlquote(parsed.password, safe='!$&\'()*+,;=')
@@ -107,13 +108,18 @@ def iri_to_uri(value, normalize=False):
     if normalize and query is None and fragment is None and path == b'/':
         path = None
 
-    # Python 2.7 compat
-    if path is None:
-        path = ''
-
-    output = urlunsplit((scheme, netloc, path, query, fragment))
-    if isinstance(output, str_cls):
-        output = output.encode('latin1')
+    output = b''
+    if scheme:
+        output += scheme + b':'
+    # The authority may be present, but empty, e.g. ldap:///
+    if netloc or re.match('^(?:[^:/?#]*:)?//', value):
+        output += b'//' + netloc
+    if path:
+        output += path
+    if query:
+        output += b'?' + query
+    if fragment:
+        output += b'#' + fragment
     return output
 
 
@@ -147,6 +153,8 @@ def uri_to_iri(value):
     hostname = parsed.hostname
     if hostname:
         hostname = hostname.decode('idna')
+        if parsed.netloc.rpartition(b'@')[2].startswith(b'['):
+            hostname = '[' + hostname + ']'
     port = parsed.port
     if port and not isinstance(port, int_types):
         port = port.decode('ascii')
@@ -166,7 +174,18 @@ def uri_to_iri(value):
     query = _urlunquote(parsed.query, remap=['&', '='], preserve=True)
     fragment = _urlunquote(parsed.fragment)
 
-    return urlunsplit((scheme, netloc, path, query, fragment))
+    output = ''
+    if scheme:
+        output += scheme + ':'
+    # The authority may be present, but empty, e.g. ldap:///
+    if netloc or re.match(b'^(?:[^:/?#]*:)?//', value):
+        output += '//' + netloc
+    output += path
+    if query:
+        output += '?' + query
+    if fragment:
+        output += '#' + fragment
+    return output
 
 
 def _iri_utf8_errors_handler(exc):
-- 
2.43.0


From 0ecd51a8b827ae142f1da047eec24ad7f382bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 059/119] fix: do not unquote a quoted percent sign of a URI,
 or fail with a quoted null

---
 asn1crypto/_iri.py | 48 +++++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index e406c05..f6e78f2 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -226,37 +226,25 @@ def _urlquote(string, safe=''):
     if string is None or string == '':
         return None
 
-    # Anything already hex quoted is pulled out of the URL and unquoted if
-    # possible
-    escapes = []
-    if re.search('%[0-9a-fA-F]{2}', string):
-        # Try to unquote any percent values, restoring them if they are not
-        # valid UTF-8. Also, requote any safe chars since encoded versions of
-        # those are functionally different than the unquoted ones.
-        def _try_unescape(match):
-            byte_string = unquote_to_bytes(match.group(0))
-            unicode_string = byte_string.decode('utf-8', 'iriutf8')
+    output = b''
+    for part in re.split('((?:%[0-9a-fA-F]{2})+)', string):
+        part_safe = safe
+
+        # Anything already hex quoted is unquoted if possible. It is restored if
+        # it is not valid UTF-8, is one of the safe chars, or a percent sign,
+        # since encoded versions of those are functionally different than the
+        # unquoted ones.
+        if re.match('%[0-9a-fA-F]{2}', part):
+            part = unquote_to_bytes(part).replace(b'%', b'%25').decode('utf-8', 'iriutf8')
             for safe_char in list(safe):
-                unicode_string = unicode_string.replace(safe_char, '%%%02x' % ord(safe_char))
-            return unicode_string
-        string = re.sub('(?:%[0-9a-fA-F]{2})+', _try_unescape, string)
-
-        # Once we have the minimal set of hex quoted values, removed them from
-        # the string so that they are not double quoted
-        def _extract_escape(match):
-            escapes.append(match.group(0).encode('ascii'))
-            return '\x00'
-        string = re.sub('%[0-9a-fA-F]{2}', _extract_escape, string)
-
-    output = urlquote(string.encode('utf-8'), safe=safe.encode('utf-8'))
-    if not isinstance(output, byte_cls):
-        output = output.encode('ascii')
-
-    # Restore the existing quoted values that we extracted
-    if len(escapes) > 0:
-        def _return_escape(_):
-            return escapes.pop(0)
-        output = re.sub(b'%00', _return_escape, output)
+                part = part.replace(safe_char, '%%%02x' % ord(safe_char))
+            # The values that are left are not double quoted
+            part_safe += '%'
+
+        quoted = urlquote(part.encode('utf-8'), safe=part_safe.encode('utf-8'))
+        if not isinstance(quoted, byte_cls):
+            quoted = quoted.encode('ascii')
+        output += quoted
 
     return output
 
-- 
2.43.0


From c5925c979b1e94d0ddcae6b7e3c002751c61ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:48 +0000
Subject: [PATCH 060/119] fix: leave quoted delimiters, percent signs and
 control characters of a URI quoted

---
 asn1crypto/_iri.py | 55 +++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index f6e78f2..1e51dc3 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -16,7 +16,7 @@ import re
 import sys
 
 from ._errors import unwrap
-from ._types import byte_cls, str_cls, type_name, bytes_to_list, int_types
+from ._types import byte_cls, chr_cls, str_cls, type_name, bytes_to_list, int_types
 
 if sys.version_info < (3,):
     from urlparse import urlsplit
@@ -148,8 +148,8 @@ def uri_to_iri(value):
     if scheme is not None:
         scheme = scheme.decode('ascii')
 
-    username = _urlunquote(parsed.username, remap=[':', '@'])
-    password = _urlunquote(parsed.password, remap=[':', '@'])
+    username = _urlunquote(parsed.username, remap=list('!$&\'()*+,;=:@/?#[]'))
+    password = _urlunquote(parsed.password, remap=list('!$&\'()*+,;=:@/?#[]'))
     hostname = parsed.hostname
     if hostname:
         hostname = hostname.decode('idna')
@@ -170,9 +170,9 @@ def uri_to_iri(value):
     if port is not None:
         netloc += ':' + str_cls(port)
 
-    path = _urlunquote(parsed.path, remap=['/'], preserve=True)
-    query = _urlunquote(parsed.query, remap=['&', '='], preserve=True)
-    fragment = _urlunquote(parsed.fragment)
+    path = _urlunquote(parsed.path, remap=list('/!$&\'()*+,;=@:?#'))
+    query = _urlunquote(parsed.query, remap=list('/?!$&\'()*+,;=@:#'))
+    fragment = _urlunquote(parsed.fragment, remap=list('/?!$&\'()*+,;=@:#'))
 
     output = ''
     if scheme:
@@ -249,7 +249,7 @@ def _urlquote(string, safe=''):
     return output
 
 
-def _urlunquote(byte_string, remap=None, preserve=None):
+def _urlunquote(byte_string, remap):
     """
     Unquotes a URI portion from a byte string into unicode using UTF-8
 
@@ -257,13 +257,9 @@ def _urlunquote(byte_string, remap=None, preserve=None):
         A byte string of the data to unquote
 
     :param remap:
-        A list of characters (as unicode) that should be re-mapped to a
-        %XX encoding. This is used when characters are not valid in part of a
-        URL.
-
-    :param preserve:
-        A bool - indicates that the chars to be remapped if they occur in
-        non-hex form, should be preserved. E.g. / for URL path.
+        A list of characters (as unicode) that are left in %XX form if they
+        occur in it, since they are functionally different when unquoted. The
+        same is true of the percent sign and control characters.
 
     :return:
         A unicode string
@@ -275,24 +271,19 @@ def _urlunquote(byte_string, remap=None, preserve=None):
     if byte_string == b'':
         return ''
 
-    if preserve:
-        replacements = ['\x1A', '\x1C', '\x1D', '\x1E', '\x1F']
-        preserve_unmap = {}
-        for char in remap:
-            replacement = replacements.pop(0)
-            preserve_unmap[replacement] = char
-            byte_string = byte_string.replace(char.encode('ascii'), replacement.encode('ascii'))
-
-    byte_string = unquote_to_bytes(byte_string)
+    keep = set(ord(char) for char in remap)
+    keep.update([0x25, 0x7f])
+    keep.update(range(0, 0x20))
 
-    if remap:
-        for char in remap:
-            byte_string = byte_string.replace(char.encode('ascii'), ('%%%02x' % ord(char)).encode('ascii'))
+    def _unquote(match):
+        output = b''
+        for num in bytes_to_list(unquote_to_bytes(match.group(0))):
+            if num in keep:
+                output += ('%%%02x' % num).encode('ascii')
+            else:
+                output += chr_cls(num)
+        return output
 
-    output = byte_string.decode('utf-8', 'iriutf8')
+    byte_string = re.sub(b'(?:%[0-9a-fA-F]{2})+', _unquote, byte_string)
 
-    if preserve:
-        for replacement, original in preserve_unmap.items():
-            output = output.replace(replacement, original)
-
-    return output
+    return byte_string.decode('utf-8', 'iriutf8')
-- 
2.43.0


From d71f09208b30f5e9facda9eda36f5bdfbf746e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:39 +0000
Subject: [PATCH 061/119] fix: read and write every IPv6 address in the
 portable routines, refuse malformed ones

---
 asn1crypto/_inet.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/asn1crypto/_inet.py b/asn1crypto/_inet.py
index 045ba56..035d015 100644
--- a/asn1crypto/_inet.py
+++ b/asn1crypto/_inet.py
@@ -1,6 +1,7 @@
 # coding: utf-8
 from __future__ import unicode_literals, division, absolute_import, print_function
 
+import re
 import socket
 import struct
 
@@ -78,6 +79,10 @@ def inet_ntop(address_family, packed_ip):
     zero_start = runs_of_zero[longest_run]
     zero_end = zero_start + longest_run
 
+    # IPv4-compatible and IPv4-mapped addresses
+    if zero_start == 0 and (longest_run == 6 or (longest_run == 5 and octets[5] == 0xffff)):
+        hexed[6:] = [inet_ntop(socket.AF_INET, packed_ip[12:])]
+
     return ':'.join(hexed[:zero_start]) + '::' + ':'.join(hexed[zero_end:])
 
 
@@ -120,11 +125,10 @@ def inet_pton(address_family, ip_string):
         if not error:
             ints = []
             for o in octets:
-                o = int(o)
-                if o > 255 or o < 0:
+                if not re.match('(?:0|[1-9][0-9]{0,2})\\Z', o) or int(o) > 255:
                     error = True
                     break
-                ints.append(o)
+                ints.append(int(o))
 
         if error:
             raise ValueError(unwrap(
@@ -138,28 +142,39 @@ def inet_pton(address_family, ip_string):
         return struct.pack(b'!BBBB', *ints)
 
     error = False
-    omitted = ip_string.count('::')
+    hex_string = ip_string
+
+    # The last two groups may be in the form of an IPv4 address
+    if ip_string.find('.') != -1:
+        prefix, _, ipv4_string = ip_string.rpartition(':')
+        try:
+            hex_string = '%s:%x:%x' % ((prefix, ) + struct.unpack(b'!HH', inet_pton(socket.AF_INET, ipv4_string)))
+        except (ValueError):
+            error = True
+
+    omitted = hex_string.count('::')
     if omitted > 1:
         error = True
     elif omitted == 0:
-        octets = ip_string.split(':')
-        error = len(octets) != 8
+        octets = hex_string.split(':')
+        error = error or len(octets) != 8
     else:
-        begin, end = ip_string.split('::')
-        begin_octets = begin.split(':')
-        end_octets = end.split(':')
+        begin, end = hex_string.split('::')
+        begin_octets = begin.split(':') if begin else []
+        end_octets = end.split(':') if end else []
         missing = 8 - len(begin_octets) - len(end_octets)
         octets = begin_octets + (['0'] * missing) + end_octets
+        error = error or missing < 1
 
     if not error:
         ints = []
         for o in octets:
-            o = int(o, 16)
-            if o > 65535 or o < 0:
+            if not re.match('[0-9a-fA-F]{1,4}\\Z', o):
                 error = True
                 break
-            ints.append(o)
+            ints.append(int(o, 16))
 
+    if not error:
         return struct.pack(b'!HHHHHHHH', *ints)
 
     raise ValueError(unwrap(
-- 
2.43.0


From d4b468fe5ab96d57eeaef19f1a74357ff278f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:44 +0000
Subject: [PATCH 062/119] fix: refuse malformed IP addresses and prefixes with
 ValueError

---
 asn1crypto/x509.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 29c13c0..f8ba3b8 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -329,14 +329,15 @@ class IPAddress(OctetString):
         if has_cidr:
             parts = value.split('/', 1)
             value = parts[0]
-            cidr = int(parts[1])
-            if cidr < 0:
+            if not re.match('[0-9]+\\Z', parts[1]):
                 raise ValueError(unwrap(
                     '''
-                    %s value contains a CIDR range less than 0
+                    %s value contains a CIDR range that is not a non-negative
+                    integer
                     ''',
                     type_name(self)
                 ))
+            cidr = int(parts[1])
 
         if value.find(':') != -1:
             family = socket.AF_INET6
@@ -368,8 +369,19 @@ class IPAddress(OctetString):
             cidr_bytes = int_to_bytes(int(cidr_mask, 2))
             cidr_bytes = (b'\x00' * ((cidr_size // 8) - len(cidr_bytes))) + cidr_bytes
 
+        try:
+            ip_bytes = inet_pton(family, value)
+        except (socket.error):
+            raise ValueError(unwrap(
+                '''
+                %s value must be a valid IPv4 or IPv6 address, got %s
+                ''',
+                type_name(self),
+                repr(original_value)
+            ))
+
         self._native = original_value
-        self.contents = inet_pton(family, value) + cidr_bytes
+        self.contents = ip_bytes + cidr_bytes
         self._bytes = self.contents
         self._header = None
         if self._trailer != b'':
-- 
2.43.0


From 3729c1e65e61bc4cb3ce5d9bb90fd592af1c7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:04 +0000
Subject: [PATCH 063/119] fix: reset the BER form of DNS names, URIs, e-mail
 and IP addresses that are set

---
 asn1crypto/x509.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f8ba3b8..a2336b8 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -118,6 +118,9 @@ class DNSName(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -144,6 +147,9 @@ class URI(IA5String):
         self._unicode = value
         self.contents = iri_to_uri(value)
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -235,6 +241,9 @@ class EmailAddress(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -384,6 +393,9 @@ class IPAddress(OctetString):
         self.contents = ip_bytes + cidr_bytes
         self._bytes = self.contents
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
-- 
2.43.0


From f9b3f43d9080e0cb78c0ab289ab45db62141faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 064/119] fix: compare DNS names and e-mail addresses by their
 encoded form, without changing them

---
 asn1crypto/x509.py | 47 ++++++++++++----------------------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index a2336b8..d1cc680 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -91,7 +91,9 @@ class DNSName(IA5String):
         if not isinstance(other, DNSName):
             return False
 
-        return self.__unicode__().lower() == other.__unicode__().lower()
+        # The encoded form is the same, no matter if a name was set from Unicode
+        # or loaded. Case is only significant in the Unicode form.
+        return (self._merge_chunks() or b'').lower() == (other._merge_chunks() or b'').lower()
 
     def set(self, value):
         """
@@ -170,7 +172,7 @@ class URI(IA5String):
         if not isinstance(other, URI):
             return False
 
-        return iri_to_uri(self.native, True) == iri_to_uri(other.native, True)
+        return iri_to_uri(self.__unicode__(), True) == iri_to_uri(other.__unicode__(), True)
 
     def __unicode__(self):
         """
@@ -187,33 +189,9 @@ class URI(IA5String):
 
 class EmailAddress(IA5String):
 
-    _contents = None
-
-    # If the value has gone through the .set() method, thus normalizing it
-    _normalized = False
-
     # In the wild we've seen this encoded as a UTF8String and PrintableString
     _bad_tag = (12, 19)
 
-    @property
-    def contents(self):
-        """
-        :return:
-            A byte string of the DER-encoded contents of the sequence
-        """
-
-        return self._contents
-
-    @contents.setter
-    def contents(self, value):
-        """
-        :param value:
-            A byte string of the DER-encoded contents of the sequence
-        """
-
-        self._normalized = False
-        self._contents = value
-
     def set(self, value):
         """
         Sets the value of the string
@@ -237,7 +215,6 @@ class EmailAddress(IA5String):
         else:
             encoded_value = value.encode('ascii')
 
-        self._normalized = True
         self._unicode = value
         self.contents = encoded_value
         self._header = None
@@ -253,6 +230,8 @@ class EmailAddress(IA5String):
             A unicode string
         """
 
+        if self.contents is None:
+            return ''
         # We've seen this in the wild as a PrintableString, and since ascii is a
         # subset of cp1252, we use the later for decoding to be more user friendly
         if self._unicode is None:
@@ -281,16 +260,14 @@ class EmailAddress(IA5String):
         if not isinstance(other, EmailAddress):
             return False
 
-        if not self._normalized:
-            self.set(self.native)
-        if not other._normalized:
-            other.set(other.native)
+        contents = self._merge_chunks() or b''
+        other_contents = other._merge_chunks() or b''
 
-        if self._contents.find(b'@') == -1 or other._contents.find(b'@') == -1:
-            return self._contents == other._contents
+        if contents.find(b'@') == -1 or other_contents.find(b'@') == -1:
+            return contents == other_contents
 
-        other_mailbox, other_hostname = other._contents.rsplit(b'@', 1)
-        mailbox, hostname = self._contents.rsplit(b'@', 1)
+        other_mailbox, other_hostname = other_contents.rsplit(b'@', 1)
+        mailbox, hostname = contents.rsplit(b'@', 1)
 
         if mailbox != other_mailbox:
             return False
-- 
2.43.0


From febda433d7ab430262483dde2841e26bb05bf85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 065/119] fix: compare a general name to a value of another
 type

---
 asn1crypto/x509.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index d1cc680..a6ccb82 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1494,6 +1494,9 @@ class GeneralName(Choice):
             A boolean
         """
 
+        if not isinstance(other, GeneralName):
+            return False
+
         if self.name in ('other_name', 'x400_address', 'edi_party_name'):
             raise ValueError(unwrap(
                 '''
-- 
2.43.0


From 62b638a3e30e1201d5493afc2b785463f9393f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 066/119] fix: leave the previous value of a URI in place when
 set() refuses a value

---
 asn1crypto/x509.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index a6ccb82..c34b23d 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -146,8 +146,10 @@ class URI(IA5String):
                 type_name(value)
             ))
 
+        encoded_value = iri_to_uri(value)
+
         self._unicode = value
-        self.contents = iri_to_uri(value)
+        self.contents = encoded_value
         self._header = None
         if self._indefinite:
             self._indefinite = False
-- 
2.43.0


From d4411dd3f9af65358a18f977d09c5d8dd3105fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 067/119] fix: ignore variation selectors, and no other
 characters, when comparing names

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index c34b23d..fe18afc 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -794,7 +794,7 @@ class NameTypeAndValue(Sequence):
         """
 
         # Map step
-        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe0f-\uff00\ufffc]+', '', string)
+        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe00-\ufe0f\ufffc]+', '', string)
         string = re.sub('[\u0009\u000a\u000b\u000c\u000d\u0085]', ' ', string)
         if sys.maxunicode == 0xffff:
             # Some installs of Python 2.7 don't support 8-digit unicode escape
-- 
2.43.0


From 110cfae42ff5e5411873bd877f7eba410559ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 068/119] fix: compare every value of a relative name that
 holds several of the same type

---
 asn1crypto/x509.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index fe18afc..1887162 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -901,9 +901,8 @@ class RelativeDistinguishedName(SetOf):
         """
 
         output = []
-        values = self._get_values(self)
-        for key in sorted(values.keys()):
-            output.append('%s: %s' % (key, values[key]))
+        for type_name_, value in self._get_values(self):
+            output.append('%s: %s' % (type_name_, value))
         # Unit separator is used here since the normalization process for
         # values moves any such character, and the keys are all dotted integers
         # or under_score_words
@@ -935,14 +934,7 @@ class RelativeDistinguishedName(SetOf):
         if self_types != other_types:
             return False
 
-        self_values = self._get_values(self)
-        other_values = self._get_values(other)
-
-        for type_name_ in self_types:
-            if self_values[type_name_] != other_values[type_name_]:
-                return False
-
-        return True
+        return self._get_values(self) == self._get_values(other)
 
     def _get_types(self, rdn):
         """
@@ -960,19 +952,19 @@ class RelativeDistinguishedName(SetOf):
 
     def _get_values(self, rdn):
         """
-        Returns a dict of prepped values contained in an RDN
+        Returns a list of prepped values contained in an RDN
 
         :param rdn:
             A RelativeDistinguishedName object
 
         :return:
-            A dict object with unicode strings of NameTypeAndValue value field
-            values that have been prepped for comparison
+            A sorted list of 2-element tuples of the unicode string of the
+            NameTypeAndValue type field, and the value field that has been
+            prepped for comparison
         """
 
-        output = {}
-        [output.update([(ntv['type'].native, ntv.prepped_value)]) for ntv in rdn]
-        return output
+        output = [(ntv['type'].native, ntv.prepped_value) for ntv in rdn]
+        return sorted(output, key=lambda pair: '%s: %s' % pair)
 
 
 class RDNSequence(SequenceOf):
-- 
2.43.0


From d7bcd5c1689277260740cc82148a07f94229b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 069/119] fix: compare and show names with values that are not
 text

---
 asn1crypto/x509.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 1887162..0b19cc6 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -755,7 +755,7 @@ class NameTypeAndValue(Sequence):
                 self._prepped = self._ldap_string_prep(native)
             else:
                 if isinstance(native, byte_cls):
-                    native = ' ' + native.decode('cp1252') + ' '
+                    native = ' ' + native.decode('latin1') + ' '
                 self._prepped = native
         return self._prepped
 
@@ -1191,7 +1191,10 @@ class Name(Choice):
             return ', '.join(
                 reversed([self._recursive_humanize(sub_value) for sub_value in value])
             )
-        return value.native
+        native = value.native
+        if not isinstance(native, str_cls):
+            native = str_cls(native)
+        return native
 
     @property
     def sha1(self):
-- 
2.43.0


From 1f6038c9103b64df6f88b064451c205fd511fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:44 +0000
Subject: [PATCH 070/119] fix: compare names with right-to-left text, RFC 4518
 ignores the direction

---
 asn1crypto/x509.py | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 0b19cc6..3b68fa1 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -862,27 +862,7 @@ class NameTypeAndValue(Sequence):
                     '''
                 ))
 
-        # Check bidirectional step - here we ensure that we are not mixing
-        # left-to-right and right-to-left text in the string
-        has_r_and_al_cat = False
-        has_l_cat = False
-        for char in string:
-            if stringprep.in_table_d1(char):
-                has_r_and_al_cat = True
-            elif stringprep.in_table_d2(char):
-                has_l_cat = True
-
-        if has_r_and_al_cat:
-            first_is_r_and_al = stringprep.in_table_d1(string[0])
-            last_is_r_and_al = stringprep.in_table_d1(string[-1])
-
-            if has_l_cat or not first_is_r_and_al or not last_is_r_and_al:
-                raise ValueError(unwrap(
-                    '''
-                    X.509 Name object contains a malformed bidirectional
-                    sequence
-                    '''
-                ))
+        # Check bidirectional step - RFC 4518 has bidirectional characters ignored
 
         # Insignificant space handling step
         string = ' ' + re.sub(' +', '  ', string).strip() + ' '
-- 
2.43.0


From a739a926a5de99c311f3116e4dc23f2db87e5bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 071/119] fix: compare DNS names and e-mail addresses in names
 by their encoded form

---
 asn1crypto/x509.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 3b68fa1..89268ce 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -750,7 +750,12 @@ class NameTypeAndValue(Sequence):
         """
 
         if self._prepped is None:
-            native = self['value'].native
+            value = self['value']
+            if isinstance(value, (DNSName, EmailAddress)):
+                # The text one was set from may be spelled differently than the
+                # text that is encoded
+                value = value.__class__(contents=value._merge_chunks())
+            native = value.native
             if isinstance(native, str_cls):
                 self._prepped = self._ldap_string_prep(native)
             else:
-- 
2.43.0


From d6f61af6d17a9409395d2f22984a561a920671eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 072/119] fix: URL of a distribution point without a name, and
 of a relative one read twice

---
 asn1crypto/x509.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 89268ce..d9af70c 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1592,8 +1592,10 @@ class DistributionPoint(Sequence):
         """
 
         if self._url is False:
-            self._url = None
             name = self['distribution_point']
+            if name is VOID:
+                self._url = None
+                return self._url
             if name.name != 'full_name':
                 raise ValueError(unwrap(
                     '''
@@ -1602,6 +1604,7 @@ class DistributionPoint(Sequence):
                     '''
                 ))
 
+            self._url = None
             for general_name in name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
                     url = general_name.native
-- 
2.43.0


From e25f27b3683c85db27d38bf974716a9cbedefa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 073/119] fix: authority issuer and serial when the first
 issuer name is not a directory name, or no serial is given

---
 asn1crypto/x509.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index d9af70c..02b18fd 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2675,14 +2675,16 @@ class Certificate(Sequence):
 
         if self._authority_issuer_serial is False:
             akiv = self.authority_key_identifier_value
-            if akiv and akiv['authority_cert_issuer'].native:
-                issuer = self.authority_key_identifier_value['authority_cert_issuer'][0].chosen
-                # We untag the element since it is tagged via being a choice from GeneralName
-                issuer = issuer.untag()
-                authority_serial = self.authority_key_identifier_value['authority_cert_serial_number'].native
-                self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
-            else:
-                self._authority_issuer_serial = None
+            self._authority_issuer_serial = None
+            if akiv and akiv['authority_cert_serial_number'].native is not None:
+                authority_serial = akiv['authority_cert_serial_number'].native
+                for general_name in akiv['authority_cert_issuer']:
+                    if general_name.name != 'directory_name':
+                        continue
+                    # We untag the element since it is tagged via being a choice from GeneralName
+                    issuer = general_name.chosen.untag()
+                    self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                    break
         return self._authority_issuer_serial
 
     @property
-- 
2.43.0


From cc302ce5da19e366113c906d73fa580bfb0096a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 074/119] fix: compare key identifiers that are empty when
 telling whether a certificate is self-signed

---
 asn1crypto/x509.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 02b18fd..fe9217a 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2867,8 +2867,8 @@ class Certificate(Sequence):
         if self._self_signed is None:
             self._self_signed = 'no'
             if self.self_issued:
-                if self.key_identifier:
-                    if not self.authority_key_identifier:
+                if self.key_identifier is not None:
+                    if self.authority_key_identifier is None:
                         self._self_signed = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
                         self._self_signed = 'maybe'
-- 
2.43.0


From 63d6b0eccb7bca601661f66d45d8144d3f1da162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 075/119] fix: do not match a wildcard to a part of an A-label,
 or read it as a regular expression

---
 asn1crypto/x509.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index fe9217a..044aa38 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3049,11 +3049,16 @@ class Certificate(Sequence):
         if wildcard_label == '*':
             return True
 
-        wildcard_regex = re.compile('^' + wildcard_label.replace('*', '.*') + '$')
-        if wildcard_regex.match(first_domain_label):
-            return True
+        # A wildcard may not match a part of the A-label of an IDN
+        if first_domain_label[0:4] == 'xn--':
+            return False
 
-        return False
+        prefix, suffix = wildcard_label.split('*')
+        return (
+            len(first_domain_label) >= len(prefix) + len(suffix)
+            and first_domain_label.startswith(prefix)
+            and first_domain_label.endswith(suffix)
+        )
 
 
 # The structures are taken from the OpenSSL source file x_x509a.c, and specify
-- 
2.43.0


From 20345eaefcd09d9bc791e0f615e5a87a318a2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 076/119] fix: answer is_valid_domain_ip() for any text and any
 listed name or address

---
 asn1crypto/x509.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 044aa38..6f659bd 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2939,7 +2939,11 @@ class Certificate(Sequence):
                 type_name(domain_ip)
             ))
 
-        encoded_domain_ip = domain_ip.encode('idna').decode('ascii').lower()
+        try:
+            encoded_domain_ip = domain_ip.encode('idna').decode('ascii').lower()
+        except (UnicodeError):
+            # Text that is not a host name or address does not match any
+            return False
 
         is_ipv6 = encoded_domain_ip.find(':') != -1
         is_ipv4 = not is_ipv6 and re.match('^\\d+\\.\\d+\\.\\d+\\.\\d+$', encoded_domain_ip)
@@ -2953,7 +2957,12 @@ class Certificate(Sequence):
             domain_labels = encoded_domain_ip.split('.')
 
             for valid_domain in self.valid_domains:
-                encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                try:
+                    encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                except (UnicodeError):
+                    # Name constraint style names, with a leading dot, and
+                    # other names that are not host names
+                    continue
                 valid_domain_labels = encoded_valid_domain.split('.')
 
                 # The domain must be equal in label length to match
@@ -2974,10 +2983,16 @@ class Certificate(Sequence):
             return False
 
         family = socket.AF_INET if is_ipv4 else socket.AF_INET6
-        normalized_ip = inet_pton(family, encoded_domain_ip)
+        try:
+            normalized_ip = inet_pton(family, encoded_domain_ip)
+        except (socket.error, ValueError):
+            return False
 
         for valid_ip in self.valid_ips:
-            valid_family = socket.AF_INET if valid_ip.find('.') != -1 else socket.AF_INET6
+            # Malformed values, and networks, which are not an address
+            if valid_ip is None or valid_ip.find('/') != -1:
+                continue
+            valid_family = socket.AF_INET if valid_ip.find(':') == -1 else socket.AF_INET6
             normalized_valid_ip = inet_pton(valid_family, valid_ip)
 
             if normalized_valid_ip == normalized_ip:
-- 
2.43.0


From 75c05f8e5cd434a16061c10cce6ca3a5fb0b5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 077/119] fix: delta CRL distribution points of a CRL that have
 no name

---
 asn1crypto/crl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bf30196..bc014d2 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -24,6 +24,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .x509 import (
     AuthorityInfoAccessSyntax,
@@ -493,6 +494,8 @@ class CertificateList(Sequence):
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
                     distribution_point_name = distribution_point['distribution_point']
+                    if distribution_point_name is VOID:
+                        continue
                     # RFC 5280 indicates conforming CA should not use the relative form
                     if distribution_point_name.name == 'name_relative_to_crl_issuer':
                         continue
-- 
2.43.0


From bfb7aeff9f90facb41ecbeb7b5ebc98d6104315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:14 +0000
Subject: [PATCH 078/119] fix: OCSP responses without response octets, or with
 octets of another type, hold no basic response

---
 asn1crypto/ocsp.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 91c7fbf..eae4355 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -28,6 +28,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .crl import AuthorityInfoAccessSyntax, CRLReason
 from .keys import PublicKeyAlgorithm
@@ -628,7 +629,13 @@ class OCSPResponse(Sequence):
 
         self._critical_extensions = set()
 
-        for extension in self['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']:
+        response_data = self.response_data
+        if response_data is None:
+            extensions = []
+        else:
+            extensions = response_data['response_extensions']
+
+        for extension in extensions:
             name = extension['extn_id'].native
             attribute_name = '_%s_value' % name
             if hasattr(self, attribute_name):
@@ -689,7 +696,11 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.BasicOCSPResponse object
         """
 
-        return self['response_bytes']['response'].parsed
+        response_bytes = self['response_bytes']
+        # Responses with an error status have no response bytes
+        if response_bytes is VOID or response_bytes['response_type'].native != 'basic_ocsp_response':
+            return None
+        return response_bytes['response'].parsed
 
     @property
     def response_data(self):
@@ -700,4 +711,7 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.ResponseData object
         """
 
-        return self['response_bytes']['response'].parsed['tbs_response_data']
+        basic_ocsp_response = self.basic_ocsp_response
+        if basic_ocsp_response is None:
+            return None
+        return basic_ocsp_response['tbs_response_data']
-- 
2.43.0


From 682fdb77a9a6ea157ef79ac3e3034889ce7cbcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:30 +0000
Subject: [PATCH 079/119] fix: wrapping an RSASSA-PSS key always fails

---
 asn1crypto/keys.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index e47532f..bf14cb0 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -772,7 +772,8 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
-            params = Null()
+            # A RSASSA-PSS key that may be used with any parameters has none
+            params = Null() if algorithm == 'rsa' else None
         elif algorithm == 'dsa':
             if not isinstance(private_key, DSAPrivateKey):
                 private_key = DSAPrivateKey.load(private_key)
@@ -799,7 +800,8 @@ class PrivateKeyInfo(Sequence):
 
         private_key_algo = PrivateKeyAlgorithm()
         private_key_algo['algorithm'] = PrivateKeyAlgorithmId(algorithm)
-        private_key_algo['parameters'] = params
+        if params is not None:
+            private_key_algo['parameters'] = params
 
         container = cls()
         container._algorithm = algorithm
@@ -1152,7 +1154,9 @@ class PublicKeyInfo(Sequence):
 
         algo = PublicKeyAlgorithm()
         algo['algorithm'] = PublicKeyAlgorithmId(algorithm)
-        algo['parameters'] = Null()
+        # A RSASSA-PSS key that may be used with any parameters has none
+        if algorithm == 'rsa':
+            algo['parameters'] = Null()
 
         container = cls()
         container['algorithm'] = algo
-- 
2.43.0


From 922b7d04987e1d9e7d56eb1f05e55fcb410745e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:46 +0000
Subject: [PATCH 080/119] fix: bit size of a key is wrong for a short EC key,
 inexact for a large number and fails for other algorithms

---
 asn1crypto/keys.py | 101 +++++++++++++++++++++++++++++++++------------
 1 file changed, 74 insertions(+), 27 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index bf14cb0..3799b1d 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -17,7 +17,6 @@ Other type classes are defined that help compose the types listed above.
 from __future__ import unicode_literals, division, absolute_import, print_function
 
 import hashlib
-import math
 
 from ._errors import unwrap, APIException
 from ._types import type_name, byte_cls
@@ -710,6 +709,32 @@ class PrivateKeyAlgorithm(_ForceNullParameters, Sequence):
     }
 
 
+# Keys of these algorithms are byte strings of a fixed length
+_RAW_KEY_ALGOS = set(['x25519', 'x448', 'ed25519', 'ed448'])
+
+
+def _number_bit_size(number):
+    """
+    Computes the bit size of a key from the number that determines it
+
+    :param number:
+        An Integer object
+
+    :return:
+        An integer that is a multiple of 8
+    """
+
+    value = number.native
+    if value < 1:
+        raise ValueError(unwrap(
+            '''
+            Unable to determine the bit size of a key from the number %s
+            ''',
+            value
+        ))
+    return len(int_to_bytes(value)) * 8
+
+
 class PrivateKeyInfo(Sequence):
     """
     Source: https://tools.ietf.org/html/rfc5208#page-3
@@ -897,7 +922,8 @@ class PrivateKeyInfo(Sequence):
             ValueError - when the key is not a DSA key
 
         :return:
-            A unicode string of "sha1" or "sha2"
+            A unicode string of "sha1" or "sha2" or None if no parameters are
+            present
         """
 
         if self.algorithm != 'dsa':
@@ -909,9 +935,11 @@ class PrivateKeyInfo(Sequence):
                 self.algorithm.upper()
             ))
 
-        byte_len = math.log(self['private_key_algorithm']['parameters']['q'].native, 2) / 8
+        parameters = self['private_key_algorithm']['parameters']
+        if parameters.native is None:
+            return None
 
-        return 'sha1' if byte_len <= 20 else 'sha2'
+        return 'sha1' if parameters.q_byte_size <= 20 else 'sha2'
 
     @property
     def algorithm(self):
@@ -932,16 +960,27 @@ class PrivateKeyInfo(Sequence):
         """
 
         if self._bit_size is None:
+            parameters = self['private_key_algorithm']['parameters']
             if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
-                prime = self['private_key'].parsed['modulus'].native
-            elif self.algorithm == 'dsa':
-                prime = self['private_key_algorithm']['parameters']['p'].native
+                self._bit_size = _number_bit_size(self['private_key'].parsed['modulus'])
+            elif self.algorithm == 'dsa' and parameters.native is not None:
+                self._bit_size = _number_bit_size(parameters['p'])
             elif self.algorithm == 'ec':
-                prime = self['private_key'].parsed['private_key'].native
-            self._bit_size = int(math.ceil(math.log(prime, 2)))
-            modulus = self._bit_size % 8
-            if modulus != 0:
-                self._bit_size += 8 - modulus
+                # The private key has a fixed width that depends on the curve
+                try:
+                    key_size = parameters.key_size
+                except (ValueError):
+                    key_size = len(self['private_key'].parsed['private_key']._merge_chunks())
+                self._bit_size = key_size * 8
+            elif self.algorithm in _RAW_KEY_ALGOS:
+                self._bit_size = len(self['private_key'].parsed.native) * 8
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    Unable to determine the bit size of a key of the type %s
+                    ''',
+                    self.algorithm
+                ))
         return self._bit_size
 
     @property
@@ -951,7 +990,7 @@ class PrivateKeyInfo(Sequence):
             The byte size of the private key, as an integer
         """
 
-        return int(math.ceil(self.bit_size / 8))
+        return self.bit_size // 8
 
     @property
     def public_key(self):
@@ -1240,9 +1279,7 @@ class PublicKeyInfo(Sequence):
         if parameters.native is None:
             return None
 
-        byte_len = math.log(parameters['q'].native, 2) / 8
-
-        return 'sha1' if byte_len <= 20 else 'sha2'
+        return 'sha1' if parameters.q_byte_size <= 20 else 'sha2'
 
     @property
     def algorithm(self):
@@ -1263,17 +1300,27 @@ class PublicKeyInfo(Sequence):
         """
 
         if self._bit_size is None:
-            if self.algorithm == 'ec':
-                self._bit_size = int(((len(self['public_key'].native) - 1) / 2) * 8)
+            parameters = self['algorithm']['parameters']
+            if self.algorithm in set(['rsa', 'rsaes_oaep', 'rsassa_pss']):
+                self._bit_size = _number_bit_size(self['public_key'].parsed['modulus'])
+            elif (self.algorithm == 'dsa' or self.algorithm == 'dh') and parameters.native is not None:
+                self._bit_size = _number_bit_size(parameters['p'])
+            elif self.algorithm == 'ec':
+                point = self['public_key'].native
+                width = len(point) - 1
+                # Only the uncompressed form contains both of the coordinates
+                if point[0:1] not in set([b'\x02', b'\x03']):
+                    width = width // 2
+                self._bit_size = width * 8
+            elif self.algorithm in _RAW_KEY_ALGOS:
+                self._bit_size = len(self['public_key'].native) * 8
             else:
-                if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
-                    prime = self['public_key'].parsed['modulus'].native
-                elif self.algorithm == 'dsa':
-                    prime = self['algorithm']['parameters']['p'].native
-                self._bit_size = int(math.ceil(math.log(prime, 2)))
-                modulus = self._bit_size % 8
-                if modulus != 0:
-                    self._bit_size += 8 - modulus
+                raise ValueError(unwrap(
+                    '''
+                    Unable to determine the bit size of a key of the type %s
+                    ''',
+                    self.algorithm
+                ))
 
         return self._bit_size
 
@@ -1284,7 +1331,7 @@ class PublicKeyInfo(Sequence):
             The byte size of the public key, as an integer
         """
 
-        return int(math.ceil(self.bit_size / 8))
+        return self.bit_size // 8
 
     @property
     def sha1(self):
-- 
2.43.0


From 5153fb752cf53b6b7e40b089983ecf86ee72392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 081/119] fix: size, algorithm and digests of a key stay the
 same after the key is changed

---
 asn1crypto/keys.py | 114 +++++++++++++++++++--------------------------
 1 file changed, 49 insertions(+), 65 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 3799b1d..d1b8a0c 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -766,8 +766,6 @@ class PrivateKeyInfo(Sequence):
         'private_key': _private_key_spec
     }
 
-    _algorithm = None
-    _bit_size = None
     _public_key = None
     _fingerprint = None
 
@@ -829,7 +827,6 @@ class PrivateKeyInfo(Sequence):
             private_key_algo['parameters'] = params
 
         container = cls()
-        container._algorithm = algorithm
         container['version'] = Integer(0)
         container['private_key_algorithm'] = private_key_algo
         container['private_key'] = private_key
@@ -948,9 +945,7 @@ class PrivateKeyInfo(Sequence):
             A unicode string of "rsa", "rsassa_pss", "dsa" or "ec"
         """
 
-        if self._algorithm is None:
-            self._algorithm = self['private_key_algorithm']['algorithm'].native
-        return self._algorithm
+        return self['private_key_algorithm']['algorithm'].native
 
     @property
     def bit_size(self):
@@ -959,29 +954,29 @@ class PrivateKeyInfo(Sequence):
             The bit size of the private key, as an integer
         """
 
-        if self._bit_size is None:
-            parameters = self['private_key_algorithm']['parameters']
-            if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
-                self._bit_size = _number_bit_size(self['private_key'].parsed['modulus'])
-            elif self.algorithm == 'dsa' and parameters.native is not None:
-                self._bit_size = _number_bit_size(parameters['p'])
-            elif self.algorithm == 'ec':
-                # The private key has a fixed width that depends on the curve
-                try:
-                    key_size = parameters.key_size
-                except (ValueError):
-                    key_size = len(self['private_key'].parsed['private_key']._merge_chunks())
-                self._bit_size = key_size * 8
-            elif self.algorithm in _RAW_KEY_ALGOS:
-                self._bit_size = len(self['private_key'].parsed.native) * 8
-            else:
-                raise ValueError(unwrap(
-                    '''
-                    Unable to determine the bit size of a key of the type %s
-                    ''',
-                    self.algorithm
-                ))
-        return self._bit_size
+        parameters = self['private_key_algorithm']['parameters']
+        if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
+            bit_size = _number_bit_size(self['private_key'].parsed['modulus'])
+        elif self.algorithm == 'dsa' and parameters.native is not None:
+            bit_size = _number_bit_size(parameters['p'])
+        elif self.algorithm == 'ec':
+            # The private key has a fixed width that depends on the curve
+            try:
+                key_size = parameters.key_size
+            except (ValueError):
+                key_size = len(self['private_key'].parsed['private_key']._merge_chunks())
+            bit_size = key_size * 8
+        elif self.algorithm in _RAW_KEY_ALGOS:
+            bit_size = len(self['private_key'].parsed.native) * 8
+        else:
+            raise ValueError(unwrap(
+                '''
+                Unable to determine the bit size of a key of the type %s
+                ''',
+                self.algorithm
+            ))
+
+        return bit_size
 
     @property
     def byte_size(self):
@@ -1154,11 +1149,7 @@ class PublicKeyInfo(Sequence):
         'public_key': _public_key_spec
     }
 
-    _algorithm = None
-    _bit_size = None
     _fingerprint = None
-    _sha1 = None
-    _sha256 = None
 
     @classmethod
     def wrap(cls, public_key, algorithm):
@@ -1288,9 +1279,7 @@ class PublicKeyInfo(Sequence):
             A unicode string of "rsa", "rsassa_pss", "dsa" or "ec"
         """
 
-        if self._algorithm is None:
-            self._algorithm = self['algorithm']['algorithm'].native
-        return self._algorithm
+        return self['algorithm']['algorithm'].native
 
     @property
     def bit_size(self):
@@ -1299,30 +1288,29 @@ class PublicKeyInfo(Sequence):
             The bit size of the public key, as an integer
         """
 
-        if self._bit_size is None:
-            parameters = self['algorithm']['parameters']
-            if self.algorithm in set(['rsa', 'rsaes_oaep', 'rsassa_pss']):
-                self._bit_size = _number_bit_size(self['public_key'].parsed['modulus'])
-            elif (self.algorithm == 'dsa' or self.algorithm == 'dh') and parameters.native is not None:
-                self._bit_size = _number_bit_size(parameters['p'])
-            elif self.algorithm == 'ec':
-                point = self['public_key'].native
-                width = len(point) - 1
-                # Only the uncompressed form contains both of the coordinates
-                if point[0:1] not in set([b'\x02', b'\x03']):
-                    width = width // 2
-                self._bit_size = width * 8
-            elif self.algorithm in _RAW_KEY_ALGOS:
-                self._bit_size = len(self['public_key'].native) * 8
-            else:
-                raise ValueError(unwrap(
-                    '''
-                    Unable to determine the bit size of a key of the type %s
-                    ''',
-                    self.algorithm
-                ))
+        parameters = self['algorithm']['parameters']
+        if self.algorithm in set(['rsa', 'rsaes_oaep', 'rsassa_pss']):
+            bit_size = _number_bit_size(self['public_key'].parsed['modulus'])
+        elif (self.algorithm == 'dsa' or self.algorithm == 'dh') and parameters.native is not None:
+            bit_size = _number_bit_size(parameters['p'])
+        elif self.algorithm == 'ec':
+            point = self['public_key'].native
+            width = len(point) - 1
+            # Only the uncompressed form contains both of the coordinates
+            if point[0:1] not in set([b'\x02', b'\x03']):
+                width = width // 2
+            bit_size = width * 8
+        elif self.algorithm in _RAW_KEY_ALGOS:
+            bit_size = len(self['public_key'].native) * 8
+        else:
+            raise ValueError(unwrap(
+                '''
+                Unable to determine the bit size of a key of the type %s
+                ''',
+                self.algorithm
+            ))
 
-        return self._bit_size
+        return bit_size
 
     @property
     def byte_size(self):
@@ -1340,9 +1328,7 @@ class PublicKeyInfo(Sequence):
             The SHA1 hash of the DER-encoded bytes of this public key info
         """
 
-        if self._sha1 is None:
-            self._sha1 = hashlib.sha1(byte_cls(self['public_key'])).digest()
-        return self._sha1
+        return hashlib.sha1(byte_cls(self['public_key'])).digest()
 
     @property
     def sha256(self):
@@ -1351,9 +1337,7 @@ class PublicKeyInfo(Sequence):
             The SHA-256 hash of the DER-encoded bytes of this public key info
         """
 
-        if self._sha256 is None:
-            self._sha256 = hashlib.sha256(byte_cls(self['public_key'])).digest()
-        return self._sha256
+        return hashlib.sha256(byte_cls(self['public_key'])).digest()
 
     @property
     def fingerprint(self):
-- 
2.43.0


From d4ce2cbe7ad1598b4578c1295dcc8f219b4c55aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:14 +0000
Subject: [PATCH 082/119] fix: curve of an EC key without parameters fails with
 AttributeError

---
 asn1crypto/keys.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index d1b8a0c..18f6833 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -900,6 +900,13 @@ class PrivateKeyInfo(Sequence):
             ))
 
         params = self['private_key_algorithm']['parameters']
+        if not isinstance(params, ECDomainParameters):
+            raise ValueError(unwrap(
+                '''
+                This EC key does not contain parameters that identify a curve
+                '''
+            ))
+
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
@@ -963,7 +970,7 @@ class PrivateKeyInfo(Sequence):
             # The private key has a fixed width that depends on the curve
             try:
                 key_size = parameters.key_size
-            except (ValueError):
+            except (AttributeError, ValueError):
                 key_size = len(self['private_key'].parsed['private_key']._merge_chunks())
             bit_size = key_size * 8
         elif self.algorithm in _RAW_KEY_ALGOS:
@@ -1234,6 +1241,13 @@ class PublicKeyInfo(Sequence):
             ))
 
         params = self['algorithm']['parameters']
+        if not isinstance(params, ECDomainParameters):
+            raise ValueError(unwrap(
+                '''
+                This EC key does not contain parameters that identify a curve
+                '''
+            ))
+
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
-- 
2.43.0


From 26c168f499f248902a8e4b72a75f0111cf5ac9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 083/119] fix: EC point with a truncated coordinate is read as
 two other coordinates

---
 asn1crypto/keys.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 18f6833..3413836 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -170,6 +170,13 @@ class _ECPoint():
         # Uncompressed
         if first_byte == b'\x04':
             remaining = data[1:]
+            if len(remaining) % 2 != 0:
+                raise ValueError(unwrap(
+                    '''
+                    Invalid EC public key - the coordinates are not of the same
+                    length
+                    '''
+                ))
             field_len = len(remaining) // 2
             x = int_from_bytes(remaining[0:field_len])
             y = int_from_bytes(remaining[field_len:])
-- 
2.43.0


From ad75a398038a63dff821bb3df5b69fa5ae3d5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:05 +0000
Subject: [PATCH 084/119] fix: private value assigned to a loaded or copied EC
 key loses the width of the curve

---
 asn1crypto/core.py | 15 +++++++++++++++
 asn1crypto/keys.py | 44 ++++++++++++++++++++++++++++++++++++++------
 2 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a11ed7e..dc570bd 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3039,6 +3039,21 @@ class IntegerOctetString(Constructable, Castable, Primitive):
         self.set(other.native)
         self.contents = contents
 
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another IntegerOctetString object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        super(IntegerOctetString, self)._copy(other, copy_func)
+        self._encoded_width = other._encoded_width
+
     def set_encoded_width(self, width):
         """
         Set the explicit enoding width for the integer
diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 3413836..e40932f 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -19,7 +19,7 @@ from __future__ import unicode_literals, division, absolute_import, print_functi
 import hashlib
 
 from ._errors import unwrap, APIException
-from ._types import type_name, byte_cls
+from ._types import type_name, byte_cls, int_types
 from .algos import _ForceNullParameters, DigestAlgorithm, EncryptionAlgorithm, RSAESOAEPParams, RSASSAPSSParams
 from .core import (
     Any,
@@ -587,16 +587,23 @@ class ECPrivateKey(Sequence):
 
     # This is necessary to ensure the private_key IntegerOctetString is encoded properly
     def __setitem__(self, key, value):
+        if isinstance(key, int_types):
+            key = self._fields[key][0]
+
+        existing_size = None
+        if key == 'private_key' and self._key_size is None:
+            existing_size = self._existing_key_size()
+
         res = super(ECPrivateKey, self).__setitem__(key, value)
 
         if key == 'private_key':
             if self._key_size is None:
-                # Infer the key_size from the existing private key if possible
-                pkey_contents = self['private_key'].contents
-                if isinstance(pkey_contents, byte_cls) and len(pkey_contents) > 1:
-                    self.set_key_size(len(self['private_key'].contents))
+                # Use the size of the existing private key if possible
+                key_size = max(existing_size, len(self['private_key'].contents))
+                if key_size > 1:
+                    self['private_key'].set_encoded_width(key_size)
 
-            elif self._key_size is not None:
+            else:
                 self._update_key_size()
 
         elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
@@ -605,6 +612,28 @@ class ECPrivateKey(Sequence):
 
         return res
 
+    def _existing_key_size(self):
+        """
+        Determines the key size when it was not set, which is the case for a
+        key that was loaded or copied
+
+        :return:
+            An integer byte length, 0 when it is not known
+        """
+
+        parameters = self['parameters']
+        if isinstance(parameters, ECDomainParameters) and parameters.name != 'implicit_ca':
+            try:
+                return parameters.key_size
+            except (ValueError):
+                # The curve is not registered
+                pass
+
+        private_key = self['private_key']
+        if isinstance(private_key, IntegerOctetString) and private_key.contents is not None:
+            return len(private_key._merge_chunks())
+        return 0
+
     def set_key_size(self, key_size):
         """
         Sets the key_size to ensure the private key is encoded to the proper length
@@ -848,6 +877,9 @@ class PrivateKeyInfo(Sequence):
     # This is necessary to ensure any contained ECPrivateKey is the
     # correct size
     def __setitem__(self, key, value):
+        if isinstance(key, int_types):
+            key = self._fields[key][0]
+
         res = super(PrivateKeyInfo, self).__setitem__(key, value)
 
         algorithm = self['private_key_algorithm']
-- 
2.43.0


From 4261c4e07bddb73782f00b6225b2a6c63f333be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:05 +0000
Subject: [PATCH 085/119] fix: null parameters are not set when an algorithm is
 assigned by index

---
 asn1crypto/algos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 209f246..b830efd 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals, division, absolute_import, print_functi
 
 from ._errors import unwrap
 from ._int import fill_width
+from ._types import int_types
 from .util import int_from_bytes, int_to_bytes
 from .core import (
     Any,
@@ -93,6 +94,9 @@ class _ForceNullParameters(object):
     # manually check to see if the algorithm was set and parameters is unset,
     # and then fix the value as appropriate.
     def __setitem__(self, key, value):
+        if isinstance(key, int_types):
+            key = self._fields[key][0]
+
         res = super(_ForceNullParameters, self).__setitem__(key, value)
         if key != 'algorithm':
             return res
-- 
2.43.0


From bcabe73c71da38a8571f92854077097fca013bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:56 +0000
Subject: [PATCH 086/119] fix: dumping octets of indefinite length fails when
 they were parsed as a value that can not be decoded

---
 asn1crypto/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index dc570bd..1c3173a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3232,11 +3232,9 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._indefinite:
-            force = True
-
-        if force:
+        # If the length is indefinite, force the re-encoding of the string, but
+        # not of the parsed value, since that may not be possible
+        if self._indefinite or force:
             parsed = self._parsed
             native = None if self.contents is None else self.__bytes__()
             if parsed is not None:
-- 
2.43.0


From c34525bbe0a1e74ce369206ba185d0d8e1c27b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 087/119] fix: algorithm of a private key container can not be
 replaced before the key

---
 asn1crypto/keys.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index e40932f..4a28e93 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -890,11 +890,25 @@ class PrivateKeyInfo(Sequence):
                 algorithm['algorithm'].native == 'ec' and \
                 isinstance(algorithm['parameters'], ECDomainParameters) and \
                 algorithm['parameters'].name != 'implicit_ca' and \
-                isinstance(self['private_key'], ParsableOctetString) and \
-                isinstance(self['private_key'].parsed, ECPrivateKey):
-            parsed = self['private_key'].parsed
+                isinstance(self['private_key'], ParsableOctetString):
+            key_size = algorithm['parameters'].key_size
+            try:
+                parsed = self['private_key'].parsed
+            except (ValueError):
+                if key == 'private_key':
+                    raise
+                # A key of another algorithm, that is yet to be replaced
+                return res
+
+            if not isinstance(parsed, ECPrivateKey):
+                return res
+
             contents = parsed['private_key'].contents
-            parsed.set_key_size(algorithm['parameters'].key_size)
+            if key == 'private_key_algorithm' and len(int_to_bytes(parsed['private_key'].native)) > key_size:
+                # A key of another curve, that is yet to be replaced
+                return res
+
+            parsed.set_key_size(key_size)
             if parsed['private_key'].contents != contents:
                 # The octet string has to contain the key with the new size
                 self['private_key'].dump(force=True)
-- 
2.43.0


From 3224d60b1214d566c96bf9ce4538b4c4c016ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 088/119] fix: setting the key size of a loaded EC key does not
 change its encoding

---
 asn1crypto/keys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 4a28e93..1d127ee 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -651,7 +651,10 @@ class ECPrivateKey(Sequence):
         """
 
         if self._key_size is not None and isinstance(self['private_key'], IntegerOctetString):
+            contents = self['private_key'].contents
             self['private_key'].set_encoded_width(self._key_size)
+            if self['private_key'].contents != contents:
+                self._mutated = True
 
 
 class DSAParams(Sequence):
-- 
2.43.0


From fdc034a1cb6f5297929d812dd0a8c477977dc555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:16 +0000
Subject: [PATCH 089/119] fix: private key is put in a container together with
 its tag

---
 asn1crypto/keys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 1d127ee..28c08c8 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -834,6 +834,8 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
+            elif private_key.implicit or private_key.explicit is not None:
+                private_key = private_key.untag()
             # A RSASSA-PSS key that may be used with any parameters has none
             params = Null() if algorithm == 'rsa' else None
         elif algorithm == 'dsa':
@@ -849,7 +851,7 @@ class PrivateKeyInfo(Sequence):
             if not isinstance(private_key, ECPrivateKey):
                 private_key = ECPrivateKey.load(private_key)
             else:
-                private_key = private_key.copy()
+                private_key = private_key.untag()
             params = private_key['parameters']
             del private_key['parameters']
         else:
-- 
2.43.0


From c0d628b6f7a7aaee00539948156842a77a1f384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 090/119] fix: key derivation facts of an encryption algorithm
 are made up or fail with KeyError, TypeError or AttributeError

---
 asn1crypto/algos.py | 70 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index b830efd..76ce80c 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -844,6 +844,35 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         'rsaes_oaep': RSAESOAEPParams,
     }
 
+    def _parameter(self, *names):
+        """
+        Finds a value within the parameters
+
+        :param names:
+            The unicode strings of the names of the fields that lead to the
+            value
+
+        :raises:
+            ValueError - when there are no parameters, or they are of an unknown kind
+
+        :return:
+            An Asn1Value object
+        """
+
+        value = self['parameters']
+        for name in names:
+            if not isinstance(value, Sequence):
+                raise ValueError(unwrap(
+                    '''
+                    The parameters of the encryption algorithm "%s" do not
+                    contain the field "%s"
+                    ''',
+                    self['algorithm'].native,
+                    '.'.join(names)
+                ))
+            value = value[name]
+        return value
+
     @property
     def kdf(self):
         """
@@ -857,7 +886,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['key_derivation_func']['algorithm'].native
+            return self._parameter('key_derivation_func', 'algorithm').native
 
         if encryption_algo.find('.') == -1:
             if encryption_algo.find('_') != -1:
@@ -901,12 +930,13 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             if self.kdf == 'scrypt':
                 return None
-            return self['parameters']['key_derivation_func']['parameters']['prf']['algorithm'].native
+            return self._parameter('key_derivation_func', 'parameters', 'prf', 'algorithm').native
 
         if encryption_algo.find('.') == -1:
             if encryption_algo.find('_') != -1:
-                _, hmac_algo, _ = encryption_algo.split('_', 2)
-                return hmac_algo
+                prefix, hmac_algo = encryption_algo.split('_', 2)[0:2]
+                if prefix == 'pbes1' or prefix == 'pkcs12':
+                    return hmac_algo
 
             raise ValueError(unwrap(
                 '''
@@ -936,9 +966,9 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo == 'pbes2':
-            salt = self['parameters']['key_derivation_func']['parameters']['salt']
+            salt = self._parameter('key_derivation_func', 'parameters', 'salt')
 
-            if salt.name == 'other_source':
+            if isinstance(salt, Pbkdf2Salt) and salt.name == 'other_source':
                 raise ValueError(unwrap(
                     '''
                     Can not determine key derivation salt - the
@@ -950,8 +980,8 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return salt.native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
-                return self['parameters']['salt'].native
+            if encryption_algo.split('_')[0] in set(['pbes1', 'pkcs12']):
+                return self._parameter('salt').native
 
             raise ValueError(unwrap(
                 '''
@@ -983,11 +1013,11 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             if self.kdf == 'scrypt':
                 return None
-            return self['parameters']['key_derivation_func']['parameters']['iteration_count'].native
+            return self._parameter('key_derivation_func', 'parameters', 'iteration_count').native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
-                return self['parameters']['iterations'].native
+            if encryption_algo.split('_')[0] in set(['pbes1', 'pkcs12']):
+                return self._parameter('iterations').native
 
             raise ValueError(unwrap(
                 '''
@@ -1039,7 +1069,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return cipher_lengths[encryption_algo]
 
         if encryption_algo == 'rc2':
-            rc2_parameter_version = self['parameters']['rc2_parameter_version'].native
+            rc2_parameter_version = self._parameter('rc2_parameter_version').native
 
             # See page 24 of
             # http://www.emc.com/collateral/white-papers/h11302-pkcs5v2-1-password-based-cryptography-standard-wp.pdf
@@ -1066,7 +1096,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             ))
 
         if encryption_algo == 'pbes2':
-            key_length = self['parameters']['key_derivation_func']['parameters']['key_length'].native
+            key_length = self._parameter('key_derivation_func', 'parameters', 'key_length').native
             if key_length is not None:
                 return key_length
 
@@ -1075,7 +1105,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             # practical terms, neither OpenSSL or OS X support RC5 for PKCS#8
             # so it is unlikely to be an issue that is run into.
 
-            return self['parameters']['encryption_scheme'].key_length
+            return self._parameter('encryption_scheme').key_length
 
         if encryption_algo.find('.') == -1:
             return {
@@ -1125,7 +1155,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return 'cbc'
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_mode
+            return self._parameter('encryption_scheme').encryption_mode
 
         raise ValueError(unwrap(
             '''
@@ -1158,7 +1188,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return 'tripledes'
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_cipher
+            return self._parameter('encryption_scheme').encryption_cipher
 
         if encryption_algo.find('.') == -1:
             return {
@@ -1206,10 +1236,10 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return cipher_map[encryption_algo]
 
         if encryption_algo == 'rc5':
-            return self['parameters']['block_size_in_bits'].native // 8
+            return self._parameter('block_size_in_bits').native // 8
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_block_size
+            return self._parameter('encryption_scheme').encryption_block_size
 
         if encryption_algo.find('.') == -1:
             return {
@@ -1248,7 +1278,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo in set(['rc2', 'rc5']):
-            return self['parameters']['iv'].native
+            return self._parameter('iv').native
 
         # For DES/Triple DES and AES the IV is the entirety of the parameters
         octet_string_iv_oids = set([
@@ -1265,7 +1295,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters'].native
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_iv
+            return self._parameter('encryption_scheme').encryption_iv
 
         # All of the PBES1 algos use their KDF to create the IV. For the pbkdf1,
         # the KDF is told to generate a key that is an extra 8 bytes long, and
-- 
2.43.0


From 433aba3dd4b832765284da771e182e4392d7faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:16 +0000
Subject: [PATCH 091/119] fix: RC2 key length is in bits for long keys and
 fails for the default

---
 asn1crypto/algos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 76ce80c..2b818f5 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1082,12 +1082,13 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             if rc2_parameter_version in encoded_key_bits_map:
                 return encoded_key_bits_map[rc2_parameter_version]
 
-            if rc2_parameter_version >= 256:
-                return rc2_parameter_version
-
             if rc2_parameter_version is None:
                 return 4  # 32-bit default
 
+            # A larger version is the number of bits
+            if rc2_parameter_version >= 256:
+                return (rc2_parameter_version + 7) // 8
+
             raise ValueError(unwrap(
                 '''
                 Invalid RC2 parameter version found in EncryptionAlgorithm
-- 
2.43.0


From ebfe565363d9ef06008023de60d252651231990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 092/119] fix: key length, cipher and block size fail with
 KeyError for algorithms without one, and for RC4

---
 asn1crypto/algos.py | 100 +++++++++++++++++++++++---------------------
 1 file changed, 52 insertions(+), 48 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 2b818f5..a39ae49 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1108,21 +1108,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
 
             return self._parameter('encryption_scheme').key_length
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 16,
-                'pkcs12_sha1_rc4_40': 5,
-                'pkcs12_sha1_tripledes_3key': 24,
-                'pkcs12_sha1_tripledes_2key': 16,
-                'pkcs12_sha1_rc2_128': 16,
-                'pkcs12_sha1_rc2_40': 5,
-            }[encryption_algo]
+        pbe_map = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 16,
+            'pkcs12_sha1_rc4_40': 5,
+            'pkcs12_sha1_tripledes_3key': 24,
+            'pkcs12_sha1_tripledes_2key': 16,
+            'pkcs12_sha1_rc2_128': 16,
+            'pkcs12_sha1_rc2_40': 5,
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1173,8 +1174,8 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         between different variations of TripleDES, AES, and the RC* ciphers.
 
         :return:
-            A unicode string from one of the following: "rc2", "rc5", "des",
-            "tripledes", "aes"
+            A unicode string from one of the following: "rc2", "rc4", "rc5",
+            "des", "tripledes", "aes"
         """
 
         encryption_algo = self['algorithm'].native
@@ -1182,7 +1183,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo[0:7] in set(['aes128_', 'aes192_', 'aes256_']):
             return 'aes'
 
-        if encryption_algo in set(['des', 'rc2', 'rc5']):
+        if encryption_algo in set(['des', 'rc2', 'rc4', 'rc5']):
             return encryption_algo
 
         if encryption_algo == 'tripledes_3key':
@@ -1191,21 +1192,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self._parameter('encryption_scheme').encryption_cipher
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 'des',
-                'pbes1_md5_des': 'des',
-                'pbes1_md2_rc2': 'rc2',
-                'pbes1_md5_rc2': 'rc2',
-                'pbes1_sha1_des': 'des',
-                'pbes1_sha1_rc2': 'rc2',
-                'pkcs12_sha1_rc4_128': 'rc4',
-                'pkcs12_sha1_rc4_40': 'rc4',
-                'pkcs12_sha1_tripledes_3key': 'tripledes',
-                'pkcs12_sha1_tripledes_2key': 'tripledes',
-                'pkcs12_sha1_rc2_128': 'rc2',
-                'pkcs12_sha1_rc2_40': 'rc2',
-            }[encryption_algo]
+        pbe_map = {
+            'pbes1_md2_des': 'des',
+            'pbes1_md5_des': 'des',
+            'pbes1_md2_rc2': 'rc2',
+            'pbes1_md5_rc2': 'rc2',
+            'pbes1_sha1_des': 'des',
+            'pbes1_sha1_rc2': 'rc2',
+            'pkcs12_sha1_rc4_128': 'rc4',
+            'pkcs12_sha1_rc4_40': 'rc4',
+            'pkcs12_sha1_tripledes_3key': 'tripledes',
+            'pkcs12_sha1_tripledes_2key': 'tripledes',
+            'pkcs12_sha1_rc2_128': 'rc2',
+            'pkcs12_sha1_rc2_40': 'rc2',
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1232,6 +1234,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             'des': 8,
             'tripledes_3key': 8,
             'rc2': 8,
+            'rc4': 0,
         }
         if encryption_algo in cipher_map:
             return cipher_map[encryption_algo]
@@ -1242,21 +1245,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self._parameter('encryption_scheme').encryption_block_size
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 0,
-                'pkcs12_sha1_rc4_40': 0,
-                'pkcs12_sha1_tripledes_3key': 8,
-                'pkcs12_sha1_tripledes_2key': 8,
-                'pkcs12_sha1_rc2_128': 8,
-                'pkcs12_sha1_rc2_40': 8,
-            }[encryption_algo]
+        pbe_map = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 0,
+            'pkcs12_sha1_rc4_40': 0,
+            'pkcs12_sha1_tripledes_3key': 8,
+            'pkcs12_sha1_tripledes_2key': 8,
+            'pkcs12_sha1_rc2_128': 8,
+            'pkcs12_sha1_rc2_40': 8,
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
-- 
2.43.0


From e783c37c8e11e2fc6802fcdde0fe77953f8353de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:27 +0000
Subject: [PATCH 093/119] fix: RC4 is said to use the CBC mode

---
 asn1crypto/algos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index a39ae49..6b407cf 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1150,7 +1150,8 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo[0:6] == 'pbes1_':
             return 'cbc'
 
-        if encryption_algo[0:7] == 'pkcs12_':
+        # RC4 is a stream cipher
+        if encryption_algo[0:7] == 'pkcs12_' and encryption_algo.find('_rc4_') == -1:
             return 'cbc'
 
         if encryption_algo in set(['des', 'tripledes_3key', 'rc2', 'rc5']):
-- 
2.43.0


From adb466bfd6b4f9274109e98a18557f0cc5564d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:31 +0000
Subject: [PATCH 094/119] fix: hash algorithm of RSASSA-PSS without parameters
 fails with TypeError

---
 asn1crypto/algos.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 6b407cf..c827770 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -458,6 +458,22 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
             algorithm
         ))
 
+    def _pss_hash_algo(self):
+        """
+        :return:
+            A unicode string of the hash algorithm from the RSASSA-PSS parameters
+        """
+
+        parameters = self['parameters']
+        if not isinstance(parameters, RSASSAPSSParams):
+            raise ValueError(unwrap(
+                '''
+                Hash algorithm not known for %s without parameters
+                ''',
+                self['algorithm'].native
+            ))
+        return parameters['hash_algorithm']['algorithm'].native
+
     @property
     def hash_algo(self):
         """
@@ -472,7 +488,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
             return self._algo_map[algorithm]
 
         if algorithm == 'rsassa_pss':
-            return self['parameters']['hash_algorithm']['algorithm'].native
+            return self._pss_hash_algo()
 
         if algorithm == 'ed25519' or algorithm == 'ed448':
             raise ValueError(unwrap(
@@ -507,7 +523,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
             return self._algo_map[algorithm]
 
         if algorithm == 'rsassa_pss':
-            return self['parameters']['hash_algorithm']['algorithm'].native
+            return self._pss_hash_algo()
 
         cms_algo_map = {
             'ed25519': 'sha512',
-- 
2.43.0


From ee1e2b7ba4343475112cca50957e5c3a54fdd7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:35 +0000
Subject: [PATCH 095/119] fix: signature of an odd length is split into
 integers of different widths

---
 asn1crypto/algos.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index c827770..0eae485 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -735,6 +735,15 @@ class DSASignature(Sequence):
             A DSASignature object
         """
 
+        if len(data) % 2 != 0:
+            raise ValueError(unwrap(
+                '''
+                data must contain two integers of the same width, but is %d
+                bytes long
+                ''',
+                len(data)
+            ))
+
         r = int_from_bytes(data[0:len(data) // 2])
         s = int_from_bytes(data[len(data) // 2:])
         return cls({'r': r, 's': s})
-- 
2.43.0


From 69aa94763e9dcc90e0530715448c36dffb8ac113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:11 +0000
Subject: [PATCH 096/119] fix: refused assignments of undecodable values leave
 the record or list as it was

---
 asn1crypto/core.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 1c3173a..f37d42a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4020,10 +4020,11 @@ class Sequence(Asn1Value):
                 type_name(self)
             ))
 
-        self.children[key] = new_value
-
+        # A value that can not be decoded must not replace the existing one
         if self._native is not None:
-            self._native[self._fields[key][0]] = self.children[key].native
+            self._native[self._fields[key][0]] = new_value.native
+
+        self.children[key] = new_value
         self._mutated = True
 
     def __delitem__(self, key):
@@ -4812,6 +4813,11 @@ class SequenceOf(Asn1Value):
 
         new_value = self._make_value(value)
 
+        # A value that can not be decoded must not replace the existing one
+        new_native = None
+        if self._native is not None:
+            new_native = new_value.native
+
         # If adding at the end, create a space for the new value
         if key == len(self.children):
             self.children.append(None)
@@ -4821,7 +4827,7 @@ class SequenceOf(Asn1Value):
         self.children[key] = new_value
 
         if self._native is not None:
-            self._native[key] = self.children[key].native
+            self._native[key] = new_native
 
         self._mutated = True
 
@@ -4898,10 +4904,13 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             self._parse_children()
 
-        self.children.append(self._make_value(value))
+        new_value = self._make_value(value)
 
+        # A value that can not be decoded must not be added
         if self._native is not None:
-            self._native.append(self.children[-1].native)
+            self._native.append(new_value.native)
+
+        self.children.append(new_value)
 
         self._mutated = True
 
-- 
2.43.0


From dbf8edaf67a7942c4269a8e007770201a6da8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:42 +0000
Subject: [PATCH 097/119] fix: an EC private key that does not fit the curve is
 refused without changing the key

---
 asn1crypto/core.py |   7 ++-
 asn1crypto/keys.py | 108 ++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 97 insertions(+), 18 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f37d42a..563bd95 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3062,10 +3062,15 @@ class IntegerOctetString(Constructable, Castable, Primitive):
             An integer byte width to encode the integer to
         """
 
+        existing_width = self._encoded_width
         self._encoded_width = width
         # Make sure the encoded value is up-to-date with the proper width
         if self.contents is not None and len(self.contents) != width:
-            self.set(self.native)
+            try:
+                self.set(self.native)
+            except (OverflowError):
+                self._encoded_width = existing_width
+                raise
 
 
 class ParsableOctetString(Constructable, Castable, Primitive):
diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 28c08c8..560da46 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -559,6 +559,50 @@ class ECDomainParameters(Choice):
         return NamedCurve._key_sizes[oid]
 
 
+def _field_state(value, key):
+    """
+    :param value:
+        A Sequence object
+
+    :param key:
+        A unicode string of a field name
+
+    :return:
+        What _restore_field() needs to undo the assignment of the field
+    """
+
+    if value.children is None:
+        value._parse_children()
+    native = None
+    if value._native is not None:
+        native = value._native.get(key)
+    child = None
+    if key in value._field_map:
+        child = value.children[value._field_map[key]]
+    return (child, native, value._mutated)
+
+
+def _restore_field(value, key, state):
+    """
+    Undoes the assignment of a field
+
+    :param value:
+        A Sequence object
+
+    :param key:
+        A unicode string of a field name
+
+    :param state:
+        What _field_state() returned before the assignment
+    """
+
+    child, native, mutated = state
+    value.children[value._field_map[key]] = child
+    if value._native is not None:
+        value._native[key] = native
+    value._mutated = mutated
+
+
 class ECPrivateKeyVersion(Integer):
     """
     Original Name: None
@@ -594,21 +638,29 @@ class ECPrivateKey(Sequence):
         if key == 'private_key' and self._key_size is None:
             existing_size = self._existing_key_size()
 
+        state = _field_state(self, key)
+
         res = super(ECPrivateKey, self).__setitem__(key, value)
 
-        if key == 'private_key':
-            if self._key_size is None:
-                # Use the size of the existing private key if possible
-                key_size = max(existing_size, len(self['private_key'].contents))
-                if key_size > 1:
-                    self['private_key'].set_encoded_width(key_size)
+        try:
+            if key == 'private_key':
+                if self._key_size is None:
+                    # Use the size of the existing private key if possible
+                    key_size = max(existing_size, len(self['private_key'].contents))
+                    if key_size > 1:
+                        self['private_key'].set_encoded_width(key_size)
 
-            else:
-                self._update_key_size()
+                else:
+                    self._update_key_size()
+
+            elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
+                    self['parameters'].name != 'implicit_ca':
+                self.set_key_size(self['parameters'].key_size)
 
-        elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
-                self['parameters'].name != 'implicit_ca':
-            self.set_key_size(self['parameters'].key_size)
+        except (ValueError, OverflowError):
+            # The private key does not fit, thus nothing must change
+            _restore_field(self, key, state)
+            raise
 
         return res
 
@@ -642,8 +694,13 @@ class ECPrivateKey(Sequence):
             An integer byte length to encode the private_key to
         """
 
+        existing_size = self._key_size
         self._key_size = key_size
-        self._update_key_size()
+        try:
+            self._update_key_size()
+        except (OverflowError):
+            self._key_size = existing_size
+            raise
 
     def _update_key_size(self):
         """
@@ -885,8 +942,27 @@ class PrivateKeyInfo(Sequence):
         if isinstance(key, int_types):
             key = self._fields[key][0]
 
+        state = _field_state(self, key)
+
         res = super(PrivateKeyInfo, self).__setitem__(key, value)
 
+        try:
+            self._fit_private_key(key)
+        except (ValueError, OverflowError):
+            # The private key does not fit, thus nothing must change
+            _restore_field(self, key, state)
+            raise
+
+        return res
+
+    def _fit_private_key(self, key):
+        """
+        Ensures the private key has the width that fits the parameters
+
+        :param key:
+            A unicode string of the name of the field that was set
+        """
+
         algorithm = self['private_key_algorithm']
 
         # When possible, use the parameter info to make sure the private key encoding
@@ -903,23 +979,21 @@ class PrivateKeyInfo(Sequence):
                 if key == 'private_key':
                     raise
                 # A key of another algorithm, that is yet to be replaced
-                return res
+                return
 
             if not isinstance(parsed, ECPrivateKey):
-                return res
+                return
 
             contents = parsed['private_key'].contents
             if key == 'private_key_algorithm' and len(int_to_bytes(parsed['private_key'].native)) > key_size:
                 # A key of another curve, that is yet to be replaced
-                return res
+                return
 
             parsed.set_key_size(key_size)
             if parsed['private_key'].contents != contents:
                 # The octet string has to contain the key with the new size
                 self['private_key'].dump(force=True)
 
-        return res
-
     def unwrap(self):
         """
         Unwraps the private key into an RSAPrivateKey, DSAPrivateKey or
-- 
2.43.0


From a5c575ef3c4301a4f9c9bc183c4767bff5d3057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:27 +0000
Subject: [PATCH 098/119] fix: values put into fields and lists of a choice
 type are matched by their outermost tag and type

---
 asn1crypto/core.py | 55 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 563bd95..a8e45b2 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1498,7 +1498,7 @@ class Choice(Asn1Value):
             A unicode string of a human-friendly representation of the class and tag
         """
 
-        return '[%s %s]' % (CLASS_NUM_TO_NAME_MAP[class_].upper(), tag)
+        return '[%s %s]' % (CLASS_NUM_TO_NAME_MAP.get(class_, 'unknown').upper(), tag)
 
     def _copy(self, other, copy_func):
         """
@@ -4250,10 +4250,7 @@ class Sequence(Asn1Value):
             if is_tuple or is_dict:
                 value = value_spec(value)
             if not isinstance(value, value_spec):
-                wrapper = value_spec()
-                wrapper.validate(value.class_, value.tag, value.contents)
-                wrapper._parsed = value
-                new_value = wrapper
+                new_value = _wrap_alternative(value_spec, value)
             else:
                 new_value = value
 
@@ -4759,10 +4756,7 @@ class SequenceOf(Asn1Value):
                     self._child_spec.__name__
                 ))
             if not isinstance(value, self._child_spec):
-                wrapper = self._child_spec()
-                wrapper.validate(value.class_, value.tag, value.contents)
-                wrapper._parsed = value
-                value = wrapper
+                value = _wrap_alternative(self._child_spec, value)
             new_value = value
 
         else:
@@ -5817,6 +5811,49 @@ def _fix_tagging(value, params):
     return value
 
 
+def _wrap_alternative(choice_spec, value):
+    """
+    Constructs a Choice object from a value of one of its alternatives
+
+    :param choice_spec:
+        A Choice class
+
+    :param value:
+        An Asn1Value object, tagged the way the alternative is
+
+    :raises:
+        ValueError - when the tag of the value is not one of an alternative
+        TypeError - when the value is of another type than the alternative
+
+    :return:
+        An instance of choice_spec
+    """
+
+    # The outermost explicit tag is the one that identifies an alternative
+    class_, tag = value.class_, value.tag
+    if value.explicit:
+        class_, tag = value.explicit[-1]
+
+    wrapper = choice_spec()
+    wrapper.validate(class_, tag, value.contents)
+
+    # A tag replaces the one of the type, or surrounds the value, thus does not
+    # guarantee the value is of the right type
+    _, spec, params = choice_spec._alternatives[wrapper._choice]
+    if not isinstance(value, (spec, Any)) and value.__class__.tag != spec.tag:
+        raise TypeError(unwrap(
+            '''
+            %s value must be %s, not %s
+            ''',
+            wrapper.name,
+            type_name(spec),
+            type_name(value)
+        ))
+
+    wrapper._parsed = _fix_tagging(value, params)
+    return wrapper
+
+
 def _build_id_tuple(params, spec):
     """
     Builds a 2-element tuple used to identify fields by grabbing the class_
-- 
2.43.0


From 512c4b1f45823b56031fe058145ad8d6dcdc5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:58 +0000
Subject: [PATCH 099/119] fix: values of a child class that uses another tag
 are not put into fields, lists and choices of the parent class

---
 asn1crypto/core.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a8e45b2..7ff5f6a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1350,7 +1350,7 @@ class Choice(Asn1Value):
                 if not isinstance(value, spec):
                     value = spec(value, **params)
                 else:
-                    value = _fix_tagging(value, params)
+                    value = _fix_tagging(value, params, spec)
                 self._parsed = value
 
         except (ValueError, TypeError) as e:
@@ -4294,7 +4294,7 @@ class Sequence(Asn1Value):
                 wrapper._parsed = (new_value, new_value.__class__, None)
                 new_value = wrapper
 
-        new_value = _fix_tagging(new_value, field_params)
+        new_value = _fix_tagging(new_value, field_params, value_spec if is_any else field_spec)
 
         return new_value
 
@@ -4767,7 +4767,7 @@ class SequenceOf(Asn1Value):
             params['explicit'] = self._child_spec.explicit
         if self._child_spec.implicit:
             params['implicit'] = (self._child_spec.class_, self._child_spec.tag)
-        return _fix_tagging(new_value, params)
+        return _fix_tagging(new_value, params, self._child_spec)
 
     def __len__(self):
         """
@@ -5771,7 +5771,7 @@ def _tag_type_to_explicit_implicit(params):
             del params['class']
 
 
-def _fix_tagging(value, params):
+def _fix_tagging(value, params, spec):
     """
     Checks if a value is properly tagged based on the spec, and re/untags as
     necessary
@@ -5782,12 +5782,32 @@ def _fix_tagging(value, params):
     :param params:
         A dict of spec params
 
+    :param spec:
+        An Asn1Value class that is the spec
+
+    :raises:
+        TypeError - when the value is of a type with a different tag than the spec
+
     :return:
         An Asn1Value that is properly tagged
     """
 
     _tag_type_to_explicit_implicit(params)
 
+    # Some classes, such as Enumerated, are a child class of one that uses a
+    # different tag, in which case isinstance() is not sufficient
+    value_id = (value.__class__.class_, value.__class__.tag)
+    spec_id = (spec.class_, spec.tag)
+    if None not in value_id + spec_id and value_id != spec_id:
+        if 'implicit' not in params or (value_id[0] == 0 and spec_id[0] == 0):
+            raise TypeError(unwrap(
+                '''
+                Value must be %s, not %s
+                ''',
+                type_name(spec),
+                type_name(value)
+            ))
+
     retag = False
     if 'implicit' not in params:
         if value.implicit is not False:
@@ -5837,10 +5857,12 @@ def _wrap_alternative(choice_spec, value):
     wrapper = choice_spec()
     wrapper.validate(class_, tag, value.contents)
 
-    # A tag replaces the one of the type, or surrounds the value, thus does not
-    # guarantee the value is of the right type
+    # The tag does not guarantee the value is of the right type
     _, spec, params = choice_spec._alternatives[wrapper._choice]
-    if not isinstance(value, (spec, Any)) and value.__class__.tag != spec.tag:
+    same_type = isinstance(value, (spec, Any))
+    if isinstance(value, Primitive) and issubclass(spec, Primitive):
+        same_type = same_type or value.__class__.tag == spec.tag
+    if not same_type:
         raise TypeError(unwrap(
             '''
             %s value must be %s, not %s
@@ -5850,7 +5872,7 @@ def _wrap_alternative(choice_spec, value):
             type_name(value)
         ))
 
-    wrapper._parsed = _fix_tagging(value, params)
+    wrapper._parsed = _fix_tagging(value, params, spec)
     return wrapper
 
 
-- 
2.43.0


From c945b849e134a4f1f1eeb8b8fc1b32d40abae948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:06 +0000
Subject: [PATCH 100/119] fix: an absent optional field of any type with an
 explicit tag is no longer taken for the value that follows it

---
 asn1crypto/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7ff5f6a..1e8b0b5 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4343,7 +4343,9 @@ class Sequence(Asn1Value):
 
                     # If the next value is optional or default, allow it to be absent
                     if field_params and ('optional' in field_params or 'default' in field_params):
-                        if self._field_ids[field] != (parts[0], parts[2]) and field_spec != Any:
+                        # Without an explicit tag, a value of any type may be present
+                        untagged_any = field_spec == Any and 'explicit' not in field_params
+                        if self._field_ids[field] != (parts[0], parts[2]) and not untagged_any:
 
                             # See if the value is a valid choice before assuming
                             # that we have a missing optional or default value
-- 
2.43.0


From 2b0e1bec20e18f26a819c1a78c1f273bcee41cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:06 +0000
Subject: [PATCH 101/119] fix: choice fields of sequences and sets can have a
 default value

---
 asn1crypto/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 1e8b0b5..68f161e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1294,6 +1294,11 @@ class Choice(Asn1Value):
 
         _tag_type_to_explicit_implicit(kwargs)
 
+        # The default names an alternative, in the same way as a dict or tuple name
+        default = kwargs.pop('default', None)
+        if name is None and kwargs.get('contents') is None:
+            name = default
+
         Asn1Value.__init__(self, **kwargs)
 
         try:
@@ -4235,6 +4240,8 @@ class Sequence(Asn1Value):
         is_any = issubclass(field_spec, Any)
 
         if issubclass(value_spec, Choice):
+            if value is None and field_params.get('default') is not None:
+                value = field_params['default']
             is_asn1value = isinstance(value, Asn1Value)
             is_tuple = isinstance(value, tuple) and len(value) == 2
             is_dict = isinstance(value, dict) and len(value) == 1
-- 
2.43.0


From 4fba5ba65e53c9baeaf7fb78261f6c28b26eecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:10 +0000
Subject: [PATCH 102/119] fix: an untagged choice can be a member of a set and
 an alternative of another choice

---
 asn1crypto/core.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 68f161e..def5eb6 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1270,8 +1270,8 @@ class Choice(Asn1Value):
             if len(info) < 3:
                 info = info + ({},)
                 cls._alternatives[index] = info
-            id_ = _build_id_tuple(info[2], info[1])
-            cls._id_map[id_] = index
+            for id_ in _build_id_tuples(info[2], info[1]):
+                cls._id_map[id_] = index
             cls._name_map[info[0]] = index
 
     def __init__(self, name=None, value=None, **kwargs):
@@ -5101,7 +5101,8 @@ class Set(Sequence):
                 field = field + ({},)
                 cls._fields[index] = field
             cls._field_map[field[0]] = index
-            cls._field_ids[_build_id_tuple(field[2], field[1])] = index
+            for id_ in _build_id_tuples(field[2], field[1]):
+                cls._field_ids[id_] = index
 
         if cls._oid_pair is not None:
             cls._oid_nums = (cls._field_map[cls._oid_pair[0]], cls._field_map[cls._oid_pair[1]])
@@ -5868,6 +5869,8 @@ def _wrap_alternative(choice_spec, value):
 
     # The tag does not guarantee the value is of the right type
     _, spec, params = choice_spec._alternatives[wrapper._choice]
+    if issubclass(spec, Choice) and not isinstance(value, (spec, Any)):
+        value = _wrap_alternative(spec, value)
     same_type = isinstance(value, (spec, Any))
     if isinstance(value, Primitive) and issubclass(spec, Primitive):
         same_type = same_type or value.__class__.tag == spec.tag
@@ -5937,6 +5940,31 @@ def _build_id_tuple(params, spec):
     return (required_class, required_tag)
 
 
+def _build_id_tuples(params, spec):
+    """
+    Builds the 2-element tuples that may identify a field - an untagged Choice
+    is identified by any of its alternatives, everything else by a single one
+
+    :param params:
+        A dict of params to pass to spec
+
+    :param spec:
+        An Asn1Value class
+
+    :return:
+        A list of 2-element integer tuples in the form (class_, tag)
+    """
+
+    id_ = _build_id_tuple(params, spec)
+    if id_ != (None, None) or spec is None or not issubclass(spec, Choice):
+        return [id_]
+
+    output = []
+    for info in spec._alternatives:
+        output.extend(_build_id_tuples(info[2] if len(info) > 2 else {}, info[1]))
+    return output
+
+
 def _int_to_bit_tuple(value, bits):
     """
     Format value as a tuple of 1s and 0s.
-- 
2.43.0


From 8a3947e4179e9c14cc5192e616ba7cc3ef6cf7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:59 +0000
Subject: [PATCH 103/119] fix: set up a class only once when threads use it for
 the first time

---
 asn1crypto/core.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index def5eb6..1e3ecd6 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -56,6 +56,7 @@ import itertools
 import math
 import re
 import sys
+import threading
 
 from . import _teletex_codec
 from ._errors import unwrap
@@ -112,6 +113,10 @@ _OID_RE = re.compile(r'^[0-9]+(\.[0-9]+)*\Z')
 # would just see the parent class attributes and would use them.
 _SETUP_CLASSES = {}
 
+# A class may be used for the first time by several threads at once. Setting up
+# one class may construct values of others.
+_SETUP_LOCK = threading.RLock()
+
 
 def load(encoded_data, strict=False):
     """
@@ -356,13 +361,15 @@ class Asn1Value(object):
         try:
             if self.__class__ not in _SETUP_CLASSES:
                 cls = self.__class__
-                # Allow explicit to be specified as a simple 2-element tuple
-                # instead of requiring the user make a nested tuple
-                if cls.explicit is not None and isinstance(cls.explicit[0], int_types):
-                    cls.explicit = (cls.explicit, )
-                if hasattr(cls, '_setup'):
-                    self._setup()
-                _SETUP_CLASSES[cls] = True
+                with _SETUP_LOCK:
+                    if cls not in _SETUP_CLASSES:
+                        # Allow explicit to be specified as a simple 2-element tuple
+                        # instead of requiring the user make a nested tuple
+                        if cls.explicit is not None and isinstance(cls.explicit[0], int_types):
+                            cls.explicit = (cls.explicit, )
+                        if hasattr(cls, '_setup'):
+                            self._setup()
+                        _SETUP_CLASSES[cls] = True
 
             # Normalize tagging values
             if explicit is not None:
@@ -3418,8 +3425,8 @@ class ObjectIdentifier(Primitive, ValueMap):
         """
 
         if cls not in _SETUP_CLASSES:
-            cls()._setup()
-            _SETUP_CLASSES[cls] = True
+            # Constructing a value sets the class up
+            cls()
 
         if cls._map is None:
             raise ValueError(unwrap(
-- 
2.43.0


From 0edc29c1bb86e7f9f0877a31aefc2e978f5d7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:26 +0000
Subject: [PATCH 104/119] fix: map identifiers by name before a value of the
 class was made

---
 asn1crypto/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 1e3ecd6..9d4a766 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3390,6 +3390,10 @@ class ObjectIdentifier(Primitive, ValueMap):
             A mapped unicode string
         """
 
+        if cls not in _SETUP_CLASSES:
+            # Constructing a value sets the class up
+            cls()
+
         if cls._map is None:
             raise ValueError(unwrap(
                 '''
-- 
2.43.0


From b01475187695af1bd31cab422d547af5bd4b683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:49 +0000
Subject: [PATCH 105/119] fix: do not look up names of a class in the reverse
 map of its parent

---
 asn1crypto/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9d4a766..4b2e18a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -773,11 +773,16 @@ class ValueMap():
         """
 
         cls = self.__class__
-        if cls._map is None or cls._reverse_map is not None:
+        if cls._map is None:
             return
-        cls._reverse_map = {}
-        for key, value in cls._map.items():
-            cls._reverse_map[value] = key
+        # The reverse map belongs to the class that defines the map, a class
+        # with a map of its own must not use the one of a parent
+        for owner in cls.__mro__:
+            if owner.__dict__.get('_reverse_map') is not None:
+                return
+            if owner.__dict__.get('_map') is not None:
+                break
+        owner._reverse_map = dict((value, key) for key, value in owner._map.items())
 
 
 class Castable(object):
-- 
2.43.0


From 7fa1449c267494d3017f3b0089a639fa387065f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:28 +0000
Subject: [PATCH 106/119] fix: know the names tsp and pdf add also when the
 tables were used before

---
 asn1crypto/core.py | 17 +++++++++++++++++
 asn1crypto/pdf.py  | 10 +++++-----
 asn1crypto/tsp.py  |  8 ++++----
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4b2e18a..f2e4f5c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -784,6 +784,23 @@ class ValueMap():
                 break
         owner._reverse_map = dict((value, key) for key, value in owner._map.items())
 
+    @classmethod
+    def _add_to_map(cls, key, value):
+        """
+        Adds to _map from outside of the definition of the class, when
+        _reverse_map may have been generated already
+
+        :param key:
+            The int or OID
+
+        :param value:
+            A unicode string
+        """
+
+        cls._map[key] = value
+        if cls._reverse_map is not None:
+            cls._reverse_map[value] = key
+
 
 class Castable(object):
     """
diff --git a/asn1crypto/pdf.py b/asn1crypto/pdf.py
index a9bad4d..12eea1d 100644
--- a/asn1crypto/pdf.py
+++ b/asn1crypto/pdf.py
@@ -73,12 +73,12 @@ class SetOfRevocationInfoArchival(SetOf):
     _child_spec = RevocationInfoArchival
 
 
-ExtensionId._map['1.2.840.113583.1.1.9.2'] = 'adobe_archive_rev_info'
-ExtensionId._map['1.2.840.113583.1.1.9.1'] = 'adobe_timestamp'
-ExtensionId._map['1.2.840.113583.1.1.10'] = 'adobe_ppklite_credential'
+ExtensionId._add_to_map('1.2.840.113583.1.1.9.2', 'adobe_archive_rev_info')
+ExtensionId._add_to_map('1.2.840.113583.1.1.9.1', 'adobe_timestamp')
+ExtensionId._add_to_map('1.2.840.113583.1.1.10', 'adobe_ppklite_credential')
 Extension._oid_specs['adobe_archive_rev_info'] = AdobeArchiveRevInfo
 Extension._oid_specs['adobe_timestamp'] = AdobeTimestamp
 Extension._oid_specs['adobe_ppklite_credential'] = Null
-KeyPurposeId._map['1.2.840.113583.1.1.5'] = 'pdf_signing'
-CMSAttributeType._map['1.2.840.113583.1.1.8'] = 'adobe_revocation_info_archival'
+KeyPurposeId._add_to_map('1.2.840.113583.1.1.5', 'pdf_signing')
+CMSAttributeType._add_to_map('1.2.840.113583.1.1.8', 'adobe_revocation_info_archival')
 CMSAttribute._oid_specs['adobe_revocation_info_archival'] = SetOfRevocationInfoArchival
diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index 721674d..86d4776 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -306,9 +306,9 @@ class SetOfSigningCertificatesV2(SetOf):
 EncapsulatedContentInfo._oid_specs['tst_info'] = TSTInfo
 EncapsulatedContentInfo._oid_specs['timestamped_data'] = TimeStampedData
 ContentInfo._oid_specs['timestamped_data'] = TimeStampedData
-ContentType._map['1.2.840.113549.1.9.16.1.4'] = 'tst_info'
-ContentType._map['1.2.840.113549.1.9.16.1.31'] = 'timestamped_data'
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.12'] = 'signing_certificate'
+ContentType._add_to_map('1.2.840.113549.1.9.16.1.4', 'tst_info')
+ContentType._add_to_map('1.2.840.113549.1.9.16.1.31', 'timestamped_data')
+CMSAttributeType._add_to_map('1.2.840.113549.1.9.16.2.12', 'signing_certificate')
 CMSAttribute._oid_specs['signing_certificate'] = SetOfSigningCertificates
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.47'] = 'signing_certificate_v2'
+CMSAttributeType._add_to_map('1.2.840.113549.1.9.16.2.47', 'signing_certificate_v2')
 CMSAttribute._oid_specs['signing_certificate_v2'] = SetOfSigningCertificatesV2
-- 
2.43.0


From a881ceba9c590c4ba28619461b3797eb6997be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:45 +0000
Subject: [PATCH 107/119] fix: the value of another key attribute is optional

---
 asn1crypto/cms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index dbc6309..50219f5 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -726,7 +726,7 @@ class OriginatorIdentifierOrKey(Choice):
 class OtherKeyAttribute(Sequence):
     _fields = [
         ('key_attr_id', ObjectIdentifier),
-        ('key_attr', Any),
+        ('key_attr', Any, {'optional': True}),
     ]
 
 
-- 
2.43.0


From 976429b92bc048c4abfb5a5b72644253d5684140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:45 +0000
Subject: [PATCH 108/119] fix: the ICV length of AES-CCM parameters is 12 when
 absent

---
 asn1crypto/algos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 0eae485..010e25f 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -650,7 +650,7 @@ class CcmParams(Sequence):
     # aes_ICVlen: 4 | 6 | 8 | 10 | 12 | 14 | 16
     _fields = [
         ('aes_nonce', OctetString),
-        ('aes_icvlen', Integer),
+        ('aes_icvlen', Integer, {'default': 12}),
     ]
 
 
-- 
2.43.0


From 7d02eb3c57cd073f330873a9821e6e470746284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:02 +0000
Subject: [PATCH 109/119] fix: the attributes of time-stamp meta data and
 archive time-stamps are a set

---
 asn1crypto/tsp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index 86d4776..158f65f 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -42,6 +42,7 @@ from .core import (
 )
 from .crl import CertificateList
 from .x509 import (
+    Attribute,
     Attributes,
     CertificatePolicies,
     GeneralName,
@@ -160,12 +161,16 @@ class TimeStampResp(Sequence):
     ]
 
 
+class SetOfAttribute(SetOf):
+    _child_spec = Attribute
+
+
 class MetaData(Sequence):
     _fields = [
         ('hash_protected', Boolean),
         ('file_name', UTF8String, {'optional': True}),
         ('media_type', IA5String, {'optional': True}),
-        ('other_meta_data', Attributes, {'optional': True}),
+        ('other_meta_data', SetOfAttribute, {'optional': True}),
     ]
 
 
@@ -202,7 +207,7 @@ class PartialHashtrees(SequenceOf):
 class ArchiveTimeStamp(Sequence):
     _fields = [
         ('digest_algorithm', DigestAlgorithm, {'implicit': 0, 'optional': True}),
-        ('attributes', Attributes, {'implicit': 1, 'optional': True}),
+        ('attributes', SetOfAttribute, {'implicit': 1, 'optional': True}),
         ('reduced_hashtree', PartialHashtrees, {'implicit': 2, 'optional': True}),
         ('time_stamp', ContentInfo),
     ]
-- 
2.43.0


From e5b2c1138216d942899eac4395536b482893b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:30 +0000
Subject: [PATCH 110/119] fix: read a set with a field whose type another field
 determines

---
 asn1crypto/core.py | 49 +++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f2e4f5c..f841422 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5215,32 +5215,16 @@ class Set(Sequence):
                         self._fields[field][0]
                     ))
 
-                _, field_spec, value_spec, field_params, spec_override = (
-                    cls._precomputed_specs[field] or self._determine_spec(field))
-
-                if field_spec is None or (spec_override and issubclass(field_spec, Any)):
-                    field_spec = value_spec
-                    spec_override = None
-
-                if spec_override:
-                    child = parts + (field_spec, field_params, value_spec)
-                else:
-                    child = parts + (field_spec, field_params)
-
-                if recurse:
-                    child = _build(*child)
-                    if isinstance(child, (Sequence, SequenceOf)):
-                        child._parse_children(recurse=True)
-
-                child_map[field] = child
+                child_map[field] = parts
                 seen_field += 1
 
             total_fields = len(self._fields)
 
-            for index in range(0, total_fields):
-                if index in child_map:
-                    continue
+            self.children = [VOID] * total_fields
 
+            # A spec that depends on the value of another field can only be
+            # determined once that field is available
+            for index in sorted(range(0, total_fields), key=lambda index: cls._precomputed_specs[index] is None):
                 name, field_spec, value_spec, field_params, spec_override = (
                     cls._precomputed_specs[index] or self._determine_spec(index))
 
@@ -5248,6 +5232,20 @@ class Set(Sequence):
                     field_spec = value_spec
                     spec_override = None
 
+                if index in child_map:
+                    if spec_override:
+                        child = child_map[index] + (field_spec, field_params, value_spec)
+                    else:
+                        child = child_map[index] + (field_spec, field_params)
+
+                    if recurse:
+                        child = _build(*child)
+                        if isinstance(child, (Sequence, SequenceOf)):
+                            child._parse_children(recurse=True)
+
+                    self.children[index] = child
+                    continue
+
                 missing = False
 
                 if not field_params:
@@ -5255,9 +5253,9 @@ class Set(Sequence):
                 elif 'optional' not in field_params and 'default' not in field_params:
                     missing = True
                 elif 'optional' in field_params:
-                    child_map[index] = VOID
+                    self.children[index] = VOID
                 elif 'default' in field_params:
-                    child_map[index] = _default_value(field_spec, field_params)
+                    self.children[index] = _default_value(field_spec, field_params)
 
                 if missing:
                     raise ValueError(unwrap(
@@ -5268,11 +5266,8 @@ class Set(Sequence):
                         type_name(self)
                     ))
 
-            self.children = []
-            for index in range(0, total_fields):
-                self.children.append(child_map[index])
-
         except (ValueError, TypeError) as e:
+            self.children = None
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
-- 
2.43.0


From 1d32f1abc883e21ac19396484e3caca68d7e83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:30 +0000
Subject: [PATCH 111/119] fix: wrap a choice that is the content of an octet or
 bit string

---
 asn1crypto/core.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f841422..4ff3a26 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4272,7 +4272,12 @@ class Sequence(Asn1Value):
         specs_different = field_spec != value_spec
         is_any = issubclass(field_spec, Any)
 
-        if issubclass(value_spec, Choice):
+        if isinstance(value, field_spec):
+            new_value = value
+            if specs_different:
+                new_value.parse(value_spec)
+
+        elif issubclass(value_spec, Choice):
             if value is None and field_params.get('default') is not None:
                 value = field_params['default']
             is_asn1value = isinstance(value, Asn1Value)
@@ -4294,11 +4299,6 @@ class Sequence(Asn1Value):
             else:
                 new_value = value
 
-        elif isinstance(value, field_spec):
-            new_value = value
-            if specs_different:
-                new_value.parse(value_spec)
-
         elif (not specs_different or is_any) and not isinstance(value, value_spec):
             if (not is_any or specs_different) and isinstance(value, Asn1Value):
                 raise TypeError(unwrap(
@@ -4326,13 +4326,13 @@ class Sequence(Asn1Value):
                     ))
                 new_value = value_spec(value)
 
-            # For when the field is OctetString or OctetBitString with embedded
-            # values we need to wrap the value in the field spec to get the
-            # appropriate encoded value.
-            if specs_different and not is_any:
-                wrapper = field_spec(value=new_value.dump(), **field_params)
-                wrapper._parsed = (new_value, new_value.__class__, None)
-                new_value = wrapper
+        # For when the field is OctetString or OctetBitString with embedded
+        # values we need to wrap the value in the field spec to get the
+        # appropriate encoded value.
+        if specs_different and not is_any and not isinstance(new_value, field_spec):
+            wrapper = field_spec(value=new_value.dump(), **field_params)
+            wrapper._parsed = (new_value, new_value.__class__, None)
+            new_value = wrapper
 
         new_value = _fix_tagging(new_value, field_params, value_spec if is_any else field_spec)
 
-- 
2.43.0


From 2028b9c1e5cd2593a5366f375ace97785cfe3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:30 +0000
Subject: [PATCH 112/119] fix: read a segmented string of a class with an
 explicit tag

---
 asn1crypto/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4ff3a26..c0a7798 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -877,7 +877,8 @@ class Constructable(object):
             # X.690 §8.23.6 has the segments of character strings be octet strings
             if isinstance(self, AbstractString) and info[0] == 0 and info[2] == OctetString.tag:
                 spec = OctetString
-            sub_value = _build(*info, spec=spec)
+            # The segments are inside of an explicit tag the class has
+            sub_value = _build(*info, spec=spec, spec_params={'no_explicit': True})
             if output is None:
                 output = sub_value._merge_chunks()
             else:
-- 
2.43.0


From 5498f6ee5db0e85c44319537a9ebaab61eddc395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:54 +0000
Subject: [PATCH 113/119] fix: refuse a value whose class has other explicit
 tags than the spec

---
 asn1crypto/core.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c0a7798..9224d33 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5810,6 +5810,23 @@ def _tag_type_to_explicit_implicit(params):
             del params['class']
 
 
+def _class_explicit(cls):
+    """
+    Determines the explicit tags that are part of an Asn1Value class
+
+    :param cls:
+        An Asn1Value class - may not have been set up yet
+
+    :return:
+        None or a tuple of 2-element integer tuples in the form (class_, tag)
+    """
+
+    explicit = cls.explicit
+    if explicit is not None and isinstance(explicit[0], int_types):
+        explicit = (explicit, )
+    return explicit
+
+
 def _fix_tagging(value, params, spec):
     """
     Checks if a value is properly tagged based on the spec, and re/untags as
@@ -5847,6 +5864,18 @@ def _fix_tagging(value, params, spec):
                 type_name(value)
             ))
 
+    # Nor is it for a child class that adds an explicit tag of its own, or for a
+    # value that lacks the one the class of the spec has
+    if None not in value_id + spec_id and _class_explicit(value.__class__) != _class_explicit(spec):
+        raise TypeError(unwrap(
+            '''
+            Value must be %s, not %s, since the classes have different
+            explicit tags
+            ''',
+            type_name(spec),
+            type_name(value)
+        ))
+
     retag = False
     if 'implicit' not in params:
         if value.implicit is not False:
-- 
2.43.0


From d4618cbc920656faa83b8b19797b59ae0c697812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:54 +0000
Subject: [PATCH 114/119] fix: do not repeat the explicit tag of a class when
 an item of a list is retagged

---
 asn1crypto/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9224d33..364fa64 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4806,8 +4806,6 @@ class SequenceOf(Asn1Value):
             return self._child_spec(value=value)
 
         params = {}
-        if self._child_spec.explicit:
-            params['explicit'] = self._child_spec.explicit
         if self._child_spec.implicit:
             params['implicit'] = (self._child_spec.class_, self._child_spec.tag)
         return _fix_tagging(new_value, params, self._child_spec)
@@ -5891,7 +5889,9 @@ def _fix_tagging(value, params, spec):
         elif value.class_ != CLASS_NAME_TO_NUM_MAP[class_] or value.tag != tag:
             retag = True
 
-    if params.get('explicit') != value.explicit:
+    # Explicit tags that are part of the class are present without any params
+    explicit = params.get('explicit', value.__class__.explicit)
+    if explicit != value.explicit:
         retag = True
 
     if retag:
-- 
2.43.0


From 9d50308c1beb104720eba4d89d03ecb8e68f2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:19 +0000
Subject: [PATCH 115/119] fix: a Name that could not be decoded reads as an
 empty one when asked again

---
 asn1crypto/x509.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 6f659bd..0023439 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1109,17 +1109,19 @@ class Name(Choice):
     @property
     def native(self):
         if self._native is None:
-            self._native = OrderedDict()
+            native = OrderedDict()
             for rdn in self.chosen.native:
                 for type_val in rdn:
                     field_name = type_val['type']
-                    if field_name in self._native:
-                        existing = self._native[field_name]
+                    if field_name in native:
+                        existing = native[field_name]
                         if not isinstance(existing, list):
-                            existing = self._native[field_name] = [existing]
+                            existing = native[field_name] = [existing]
                         existing.append(type_val['value'])
                     else:
-                        self._native[field_name] = type_val['value']
+                        native[field_name] = type_val['value']
+            # Nothing is kept if the value could not be decoded
+            self._native = native
         return self._native
 
     @property
-- 
2.43.0


From a1b2230e7a65943ba8deea4eb4e9ed5a25ffa47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:25 +0000
Subject: [PATCH 116/119] fix: a certificate or distribution point accessor
 that fails halfway answers with a partial result when asked again

---
 asn1crypto/x509.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 0023439..dca76dd 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1606,13 +1606,14 @@ class DistributionPoint(Sequence):
                     '''
                 ))
 
-            self._url = None
+            distribution_point_url = None
             for general_name in name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
                     url = general_name.native
                     if url.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
-                        self._url = url
+                        distribution_point_url = url
                         break
+            self._url = distribution_point_url
 
         return self._url
 
@@ -2677,7 +2678,7 @@ class Certificate(Sequence):
 
         if self._authority_issuer_serial is False:
             akiv = self.authority_key_identifier_value
-            self._authority_issuer_serial = None
+            authority_issuer_serial = None
             if akiv and akiv['authority_cert_serial_number'].native is not None:
                 authority_serial = akiv['authority_cert_serial_number'].native
                 for general_name in akiv['authority_cert_issuer']:
@@ -2685,8 +2686,9 @@ class Certificate(Sequence):
                         continue
                     # We untag the element since it is tagged via being a choice from GeneralName
                     issuer = general_name.chosen.untag()
-                    self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                    authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
                     break
+            self._authority_issuer_serial = authority_issuer_serial
         return self._authority_issuer_serial
 
     @property
@@ -2777,15 +2779,15 @@ class Certificate(Sequence):
         """
 
         if self._valid_domains is None:
-            self._valid_domains = []
+            valid_domains = []
 
             # For the subject alt name extension, we can look at the name of
             # the choice selected since it distinguishes between domain names,
             # email addresses, IPs, etc
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'dns_name' and general_name.native not in self._valid_domains:
-                        self._valid_domains.append(general_name.native)
+                    if general_name.name == 'dns_name' and general_name.native not in valid_domains:
+                        valid_domains.append(general_name.native)
 
             # If there was no subject alt name extension, and the common name
             # in the subject looks like a domain, that is considered the valid
@@ -2799,7 +2801,9 @@ class Certificate(Sequence):
                         if name_type_value['type'].native == 'common_name':
                             value = name_type_value['value'].native
                             if pattern.match(value):
-                                self._valid_domains.append(value)
+                                valid_domains.append(value)
+
+            self._valid_domains = valid_domains
 
         return self._valid_domains
 
@@ -2811,12 +2815,14 @@ class Certificate(Sequence):
         """
 
         if self._valid_ips is None:
-            self._valid_ips = []
+            valid_ips = []
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
                     if general_name.name == 'ip_address':
-                        self._valid_ips.append(general_name.native)
+                        valid_ips.append(general_name.native)
+
+            self._valid_ips = valid_ips
 
         return self._valid_ips
 
@@ -2867,15 +2873,16 @@ class Certificate(Sequence):
         """
 
         if self._self_signed is None:
-            self._self_signed = 'no'
+            self_signed = 'no'
             if self.self_issued:
                 if self.key_identifier is not None:
                     if self.authority_key_identifier is None:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                 else:
-                    self._self_signed = 'maybe'
+                    self_signed = 'maybe'
+            self._self_signed = self_signed
         return self._self_signed
 
     @property
-- 
2.43.0


From 71519586431bd3e9f5abb0fafcc9e816e35c4ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:30 +0000
Subject: [PATCH 117/119] fix: a revocation list accessor that fails halfway
 answers with a partial result when asked again

---
 asn1crypto/crl.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bc014d2..04eed4e 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -259,12 +259,13 @@ class RevokedCertificate(Sequence):
         """
 
         if self._issuer_name is False:
-            self._issuer_name = None
+            issuer_name = None
             if self.certificate_issuer_value:
                 for general_name in self.certificate_issuer_value:
                     if general_name.name == 'directory_name':
-                        self._issuer_name = general_name.chosen
+                        issuer_name = general_name.chosen
                         break
+            self._issuer_name = issuer_name
         return self._issuer_name
 
 
@@ -467,7 +468,7 @@ class CertificateList(Sequence):
         """
 
         if self._issuer_cert_urls is None:
-            self._issuer_cert_urls = []
+            issuer_cert_urls = []
             if self.authority_information_access_value:
                 for entry in self.authority_information_access_value:
                     if entry['access_method'].native == 'ca_issuers':
@@ -476,7 +477,8 @@ class CertificateList(Sequence):
                             continue
                         url = location.native
                         if url.lower()[0:7] == 'http://':
-                            self._issuer_cert_urls.append(url)
+                            issuer_cert_urls.append(url)
+            self._issuer_cert_urls = issuer_cert_urls
         return self._issuer_cert_urls
 
     @property
@@ -489,7 +491,7 @@ class CertificateList(Sequence):
         """
 
         if self._delta_crl_distribution_points is None:
-            self._delta_crl_distribution_points = []
+            delta_crl_distribution_points = []
 
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
@@ -502,7 +504,9 @@ class CertificateList(Sequence):
                     # This library is currently only concerned with HTTP-based CRLs
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
-                            self._delta_crl_distribution_points.append(distribution_point)
+                            delta_crl_distribution_points.append(distribution_point)
+
+            self._delta_crl_distribution_points = delta_crl_distribution_points
 
         return self._delta_crl_distribution_points
 
-- 
2.43.0


From 24efaf5c3660cfcae268101054c37c12ac067a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:04 +0000
Subject: [PATCH 118/119] fix: debug() of an octet string that does not hold an
 encoded value raises an error

---
 asn1crypto/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 364fa64..356c805 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -706,7 +706,13 @@ class Asn1Value(object):
 
         # This interacts with Any and moves the tag, implicit, explicit, _header,
         # contents, _footer to the parsed value so duplicate data isn't present
-        has_parsed = hasattr(self, 'parsed')
+        try:
+            has_parsed = hasattr(self, 'parsed')
+        except (ValueError, TypeError):
+            # An octet string may hold something other than an encoded value
+            if not isinstance(self, ParsableOctetString):
+                raise
+            has_parsed = False
 
         _basic_debug(prefix, self)
         if has_parsed:
-- 
2.43.0


From 9e45128e3fa741a98c9800beca89aac0b8ecb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:09 +0000
Subject: [PATCH 119/119] fix: debug() does not show the children of a sequence
 without field definitions

---
 asn1crypto/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 356c805..a8307e3 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4589,9 +4589,11 @@ class Sequence(Asn1Value):
 
         prefix = '  ' * nest_level
         _basic_debug(prefix, self)
-        for field_name in self:
-            child = self._lazy_child(self._field_map[field_name])
+        for index in range(len(self.children or ())):
+            child = self._lazy_child(index)
             if child is not VOID:
+                # Without field definitions the children are named as in .native
+                field_name = self._fields[index][0] if self._fields else str_cls(index)
                 print('%s    Field "%s"' % (prefix, field_name))
                 child.debug(nest_level + 3)
 
-- 
2.43.0

