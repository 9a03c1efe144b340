From 5a63153f2a9638cb6508a1967fcccd19f2bf66a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 01/39] fix: write_value keeps all bits around the written
 field

---
 flatdata-py/flatdata/lib/data_access.py | 28 +++++++------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 359dfc6..5e9eaf4 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -33,7 +33,6 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
     assert num_bits <= 64, f'Number of bits to write is greater than 64'
 
     offset_bytes, offset_extra_bits = divmod(offset_bits, 8)
-    total_bytes = (num_bits + 7) // 8
 
     if num_bits == 1:
         if value == 1:
@@ -42,23 +41,12 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
             data[offset_bytes] &= ~(1 << offset_extra_bits)
         return
 
-    mask = (1 << num_bits) - 1
-    value <<= offset_extra_bits
-    value &= mask << offset_extra_bits
-    value_in_little_endian = value.to_bytes(total_bytes + 1, byteorder="little", signed=is_signed)
-    surrounding_bits = data[offset_bytes] & ((1 << offset_bits) - 1)
-
-    byte_idx = 0
-    data[offset_bytes] = value_in_little_endian[byte_idx]
-    data[offset_bytes] |= surrounding_bits
-
-    byte_idx += 1
-    while byte_idx < total_bytes:
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx]
-        byte_idx += 1
+    total_bytes = (offset_extra_bits + num_bits + 7) // 8
+    mask = ((1 << num_bits) - 1) << offset_extra_bits
+    mask_in_little_endian = mask.to_bytes(total_bytes, byteorder="little")
+    value = (value << offset_extra_bits) & mask
+    value_in_little_endian = value.to_bytes(total_bytes, byteorder="little")
 
-    bits_written = total_bytes * 8 - offset_extra_bits
-    if bits_written < num_bits:
-        surrounding_bits = data[offset_bytes + byte_idx] & ~((1 << offset_bits) - 1)
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx] & ((1 << (8 - (bits_written % 8))) - 1)
-        data[offset_bytes + byte_idx] |= surrounding_bits
+    for byte_idx in range(total_bytes):
+        surrounding_bits = data[offset_bytes + byte_idx] & ~mask_in_little_endian[byte_idx]
+        data[offset_bytes + byte_idx] = surrounding_bits | value_in_little_endian[byte_idx]
-- 
2.43.0


From 8c8c69cc92809085784d951f34ec20e75b4a5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 02/39] fix: one-bit signed fields hold 0 and -1 in Python

---
 flatdata-py/flatdata/lib/data_access.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 5e9eaf4..3bea013 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -11,7 +11,7 @@ def read_value(data, offset_bits, num_bits, is_signed):
     offset_bytes, offset_extra_bits = divmod(offset_bits, 8)
     total_bytes = (num_bits + 7) // 8
 
-    if num_bits == 1:
+    if num_bits == 1 and not is_signed:
         return int((data[offset_bytes] & (1 << offset_extra_bits)) != 0)
 
     result = int.from_bytes(data[offset_bytes: offset_bytes + total_bytes], byteorder="little")
@@ -35,7 +35,7 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
     offset_bytes, offset_extra_bits = divmod(offset_bits, 8)
 
     if num_bits == 1:
-        if value == 1:
+        if value & 1:
             data[offset_bytes] |= 1 << offset_extra_bits
         else:
             data[offset_bytes] &= ~(1 << offset_extra_bits)
-- 
2.43.0


From f6a2abc676e7f39d09d252ccb6e8109ee4057089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 03/39] fix: unaligned 64-bit fields are masked when read in
 Python

---
 flatdata-py/flatdata/lib/data_access.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 3bea013..86e46d6 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -20,8 +20,7 @@ def read_value(data, offset_bits, num_bits, is_signed):
         remainder = data[offset_bytes + total_bytes]
         result |= remainder << (total_bytes * 8 - offset_extra_bits)
 
-    if num_bits < 64:
-        result = result & ((1 << num_bits) - 1)
+    result = result & ((1 << num_bits) - 1)
 
     if not is_signed:
         return result
-- 
2.43.0


From 804c32c2bd94a07cda5648b7d0bc7ebf2f3ce49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 04/39] fix: empty resources are exposed, not read as missing

---
 flatdata-py/flatdata/lib/archive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 34e27aa..fb7ee28 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -56,8 +56,8 @@ class Archive:
         for name, signature in self._RESOURCES.items():
             resource = self.__getattr__(name)
             result.append([name, signature.container.__name__, signature.is_optional,
-                           resource.size_in_bytes() if resource else None,
-                           len(resource) if resource else None])
+                           resource.size_in_bytes() if resource is not None else None,
+                           len(resource) if resource is not None else None])
         return pd.DataFrame(data=result,
                             columns=["Name", "Type", "Optional", "SizeInBytes", "Size"])
 
@@ -84,7 +84,7 @@ class Archive:
     def size_in_bytes(self):
         return sum(resource_value.size_in_bytes() for resource_value in
                    (self.__getattr__(resource) for resource in self._RESOURCES.keys())
-                   if resource_value)
+                   if resource_value is not None)
 
     def __len__(self):
         return len(self._RESOURCES)
@@ -110,7 +110,7 @@ class Archive:
                                                          name=name,
                                                          initializer=resource_signature.initializer,
                                                          is_optional=resource_signature.is_optional)
-            if resource:
+            if resource is not None:
                 resource.__doc__ = resource_signature.doc
                 return resource
         return None
-- 
2.43.0


From 34a75500fb3f58cfcb33a1cb4b02c5fcc39777a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 05/39] fix: optional resource without data reads as None

---
 flatdata-py/flatdata/lib/resources.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f371a7d..08a8087 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -51,7 +51,10 @@ class ResourceBase:
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name, is_optional), initializer)
+        mem = storage.get(name, is_optional)
+        if mem is None:
+            return None
+        return cls(mem, initializer)
 
 
 class _VectorSlice:
@@ -138,9 +141,11 @@ class Multivector(ResourceBase):
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name + "_index", is_optional),
-                   storage.get(name, is_optional),
-                   *initializer)
+        index_mem = storage.get(name + "_index", is_optional)
+        mem = storage.get(name, is_optional)
+        if index_mem is None or mem is None:
+            return None
+        return cls(index_mem, mem, *initializer)
 
     def __len__(self):
         # The last entry is just a sentinel
-- 
2.43.0


From 3e636a4c4c4c12e7aba47e1e8b0b5f705685f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 06/39] fix: multivector index outside of the buckets raises
 IndexError, negative ones count from the end

---
 flatdata-py/flatdata/lib/resources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 08a8087..66bf34c 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -158,6 +158,11 @@ class Multivector(ResourceBase):
         if isinstance(index, slice):
             return _MultivectorSlice(index, self)
 
+        if index < 0:
+            index += len(self)
+        if index >= len(self) or index < 0:
+            raise IndexError("Multivector access out of bounds: " + str(index))
+
         offset = self._bucket_offset(index)
         next_offset = self._bucket_offset(index + 1)
         elements = []
-- 
2.43.0


From 3dc50e7224eaf2806d712036c5059fa823b7c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 07/39] fix: multivector data too short for header and padding
 is rejected as corrupt

---
 flatdata-py/flatdata/lib/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 66bf34c..d76347b 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -134,8 +134,8 @@ class _MultivectorSlice:
 
 class Multivector(ResourceBase):
     def __init__(self, index_mem, mem, index_type, *element_types):
+        ResourceBase.__init__(self, mem, None)
         self._index = Vector(index_mem, index_type)
-        self._mem = mem
         self._element_types = element_types
         self._index_type = index_type
 
-- 
2.43.0


From f4bd73d9a0a70ac05c57565bceadf4601cac5bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 08/39] fix: raw data access stays within the payload

---
 flatdata-py/flatdata/lib/resources.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index d76347b..18c338f 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -190,12 +190,14 @@ class RawData(ResourceBase):
         return read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
 
     def __getitem__(self, item):
+        size = len(self)
         if isinstance(item, slice):
-            return self._mem[
-                slice(item.start + SIZE_OFFSET_IN_BYTES,
-                      (item.stop + SIZE_OFFSET_IN_BYTES) if item.stop is not None else None,
-                      item.step)
-            ]
+            return self._mem[SIZE_OFFSET_IN_BYTES:SIZE_OFFSET_IN_BYTES + size][item]
+
+        if item < 0:
+            item += size
+        if item >= size or item < 0:
+            raise IndexError("Raw data access out of bounds: " + str(item))
         return self._mem[item + SIZE_OFFSET_IN_BYTES:item + SIZE_OFFSET_IN_BYTES + 1]
 
     def sub_str(self, index, separator = b'\0'):
-- 
2.43.0


From 5c9cccc9dcb0385458852af622ce574aade96960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 09/39] fix: builder reports resource kinds it cannot write
 instead of ignoring them

---
 flatdata-py/flatdata/lib/archive_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index a4b1d2a..be25d48 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -122,7 +122,7 @@ class ArchiveBuilder:
         :raises $name_not_subarchive_error
         :param name: name of the sub-archive
         """
-        NotImplemented
+        raise NotImplementedError("Writing sub-archives is not supported")
 
     @classmethod
     def __validate_structure_fields(cls, name, struct, initializer):
@@ -276,7 +276,7 @@ class ArchiveBuilder:
         elif self._RESOURCES[name].container is RawData:
             storage.write(value)
         else:
-            NotImplementedError
+            raise NotImplementedError(f"Resource {name} cannot be written")
 
         storage.add_size()
         storage.add_padding()
-- 
2.43.0


From ead137fe3a658e74fbdece9ed07469659760b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 10/39] fix: resource data that is not bytes-like is rejected,
 not silently dropped

---
 flatdata-py/flatdata/lib/resource_storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resource_storage.py b/flatdata-py/flatdata/lib/resource_storage.py
index 72a6219..824a1fa 100644
--- a/flatdata-py/flatdata/lib/resource_storage.py
+++ b/flatdata-py/flatdata/lib/resource_storage.py
@@ -50,10 +50,12 @@ class _Resource():
         '''
         Concatenates passed data to instance member bytearray or bytes.
 
+        :raises TypeError if data is not bytes-like
         :param data(bytearray): bytearray to be added to resource
         '''
-        if data and isinstance(data, bytearray) or isinstance(data, bytes):
-            self.data += data
+        if not isinstance(data, (bytes, bytearray, memoryview)):
+            raise TypeError(f'Resource data must be bytes-like, not {type(data).__name__}')
+        self.data += data
 
     def get_data(self):
         '''Returns resources data in bytearray'''
-- 
2.43.0


From 112a1d33f54915de3f540fea821d74dc5b73ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 11/39] fix: zero bit widths are rejected

---
 flatdata-generator/flatdata/generator/tree/builder.py           | 2 +-
 flatdata-generator/flatdata/generator/tree/helpers/basictype.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index bc53a9d..ac1129d 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -142,7 +142,7 @@ def _update_field_type_references(root):
         if isinstance(reference, EnumerationReference):
             field.type = EnumType(name=reference.name, basic_type=BasicType(
                 name=reference.node.type.name, width=reference.node.type.width))
-            if reference.width and reference.width != reference.node.type.width:
+            if reference.width is not None and reference.width != reference.node.type.width:
                 raise InvalidEnumWidthError(enumeration_name=reference.name,
                                             width=reference.node.type.width, provided_width=reference.width)
 
diff --git a/flatdata-generator/flatdata/generator/tree/helpers/basictype.py b/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
index 6a166f1..1ae7d18 100644
--- a/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
+++ b/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
@@ -26,7 +26,7 @@ class BasicType:
         self._width = width
         if width is None:
             self._width = self._WIDTH[self._name]
-        if self._width > self._WIDTH[self.name]:
+        if not 0 < self._width <= self._WIDTH[self.name]:
             raise InvalidWidthError(self._width, self._name)
 
     @property
-- 
2.43.0


From f6e9d27c43a76b41f3e7bc487ff75f5c49db1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 12/39] fix: decimal literals may have leading zeros

---
 flatdata-generator/flatdata/generator/grammar.py              | 4 ++++
 .../flatdata/generator/tree/nodes/trivial/constant.py         | 3 ++-
 .../flatdata/generator/tree/nodes/trivial/enumeration.py      | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index 034c509..2b1b8ec 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -25,6 +25,10 @@ dec_literal = Word(nums)
 hex_literal = Combine("0x" + Word(hexnums))
 signed_literal = Combine(Optional('-') + (dec_literal ^ hex_literal))
 
+def parse_literal(value):
+    """Value of a signed_literal: decimal unless it has the prefix 0x"""
+    return int(value, 16 if "0x" in value else 10)
+
 comment = cppStyleComment
 
 enumValue = Group(
diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
index 1f213a8..908338e 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
@@ -1,3 +1,4 @@
+from flatdata.generator.grammar import parse_literal
 from flatdata.generator.tree.nodes.node import Node
 from flatdata.generator.tree.helpers.basictype import BasicType
 from flatdata.generator.tree.errors import InvalidConstantValueError
@@ -6,7 +7,7 @@ class Constant(Node):
     def __init__(self, name, properties=None):
         super().__init__(name=name, properties=properties)
         if properties:
-            self._value = int(properties.value, 0)
+            self._value = parse_literal(properties.value)
             if self.type.bits_required(self.value) > self.type.width:
                 raise InvalidConstantValueError(name=name, value=self.value)
 
diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py
index 5f714b0..0322e7a 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py
@@ -1,3 +1,4 @@
+from flatdata.generator.grammar import parse_literal
 from flatdata.generator.tree.errors import DuplicateEnumValueError, InvalidEnumValueError, SparseEnumError
 from flatdata.generator.tree.helpers.basictype import BasicType
 from flatdata.generator.tree.nodes.node import Node
@@ -23,7 +24,7 @@ class Enumeration(Node):
         unique_values = set()
         for value in properties.enum_values:
             if value.constant:
-                current_assigned_value = int(value.constant, 0)
+                current_assigned_value = parse_literal(value.constant)
             if current_assigned_value in unique_values:
                 raise DuplicateEnumValueError(enumeration_name=result._name, value=current_assigned_value)
             unique_values.add(current_assigned_value)
-- 
2.43.0


From b5f10c33eaaa99566ecc913d77e47646ca039282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 13/39] fix: malformed namespace names are syntax errors

---
 flatdata-generator/flatdata/generator/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index 2b1b8ec..8cf6d8d 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -201,7 +201,7 @@ free_comments = Optional(OneOrMore(comment)("comment"))
 
 namespace = Group(
     Keyword("namespace") +
-    qualified_identifier("name") +
+    Combine(identifier + ZeroOrMore("." + identifier))("name") +
     "{" +
     ZeroOrMore(flatdata_entry) + "}" +
     Optional(comment)
-- 
2.43.0


From 1071a1a7be0ecae1b029f27541af55d3a7a6b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 14/39] fix: a namespace named like another declaration is a
 redefinition

---
 flatdata-generator/flatdata/generator/tree/builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index ac1129d..2263784 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -10,7 +10,7 @@ from flatdata.generator.grammar import flatdata_grammar
 from flatdata.generator.tree.errors import (
     InvalidEnumWidthError, InvalidRangeName, InvalidRangeReference,
     InvalidConstReference, InvalidConstValueReference, DuplicateInvalidValueReference,
-    InvalidStructInExplicitReference, OptionalRange)
+    InvalidStructInExplicitReference, OptionalRange, SymbolRedefinition)
 from flatdata.generator.tree.nodes.explicit_reference import ExplicitReference
 from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.node import Node
@@ -47,11 +47,12 @@ def _ensure_namespace(root, path):
         Node.PATH_SEPARATOR), "This method only works with root-level paths"
 
     found = root.get(path)
-    if found is not None:
-        assert isinstance(found, nodes.Namespace)
+    if isinstance(found, nodes.Namespace):
         return found
 
-    last_common_parent = root.find_last(path)
+    last_common_parent = found if found is not None else root.find_last(path)
+    if not isinstance(last_common_parent, (Root, nodes.Namespace)):
+        raise SymbolRedefinition(duplicate="namespace " + path, existing=last_common_parent)
     first, last = _create_nested_namespaces(
         path[len(last_common_parent.path) + 1:])
     last_common_parent.insert(first)
-- 
2.43.0


From 0665c6fafc1abc4e46d4d1c1414dbde0c0481a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 15/39] fix: the same reference spelled differently is reported
 as redefinition

---
 flatdata-generator/flatdata/generator/tree/nodes/node.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/node.py b/flatdata-generator/flatdata/generator/tree/nodes/node.py
index f324d8a..e19aeca 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/node.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/node.py
@@ -101,15 +101,14 @@ class Node:
     def set_name(self, value):
         """
         Sets the new name for the node. New name should not clash with any of siblings' names.
-        :raises RuntimeError in case name is already in use
+        :raises SymbolRedefinition in case name is already in use
         :param value: new name
         """
         if self.name == value:
             return
 
         if self.parent is not None and value in self._parent._children:
-            raise RuntimeError(
-                "Cannot rename the node, name {value} is already in use".format(value=value))
+            raise SymbolRedefinition(duplicate=value, existing=self._parent._children[value])
 
         self._name = value
         if self.parent is not None:
-- 
2.43.0


From 4b7f1758141737f706226fe8ab1847b746fecef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 16/39] fix: range names are unique in a struct and a field has
 at most one

---
 flatdata-generator/flatdata/generator/tree/builder.py | 4 +++-
 flatdata-generator/flatdata/generator/tree/errors.py  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index 2263784..66dba03 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -180,8 +180,10 @@ def _check_ranges(root):
         if not name:
             continue
         for sibling in field.parent.fields:
-            if sibling.name == name:
+            if sibling.name == name or (sibling is not field and sibling.range == name):
                 raise InvalidRangeName(name)
+        if len([d for d in field.decorations if "range" in d]) > 1:
+            raise InvalidRangeName(name)
         # Also check that the range is not optional
         if field.invalid_value:
             raise OptionalRange(name)
diff --git a/flatdata-generator/flatdata/generator/tree/errors.py b/flatdata-generator/flatdata/generator/tree/errors.py
index 22c8d4f..8edbc9a 100644
--- a/flatdata-generator/flatdata/generator/tree/errors.py
+++ b/flatdata-generator/flatdata/generator/tree/errors.py
@@ -141,7 +141,7 @@ class DuplicateInvalidValueReference(FlatdataSyntaxError):
 class InvalidRangeName(FlatdataSyntaxError):
     def __init__(self, name):
         super().__init__(
-            "@range name {name} is already in use for a field"
+            "@range name {name} is already in use, or not the only range of its field"
             .format(name=name))
 
 class InvalidRangeReference(FlatdataSyntaxError):
-- 
2.43.0


From afc5f724e4b0022172d326fce66e9af73a731b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 17/39] fix: multivector index width 0 is rejected instead of
 read as 64

---
 .../flatdata/generator/tree/nodes/trivial/field.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
index 2b23c85..b701c10 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
@@ -29,7 +29,7 @@ class Field(Node):
     @staticmethod
     def create(properties, offset=None):
         width = None
-        if properties.width:
+        if properties.width or properties.width == 0:
             width = int(properties.width)
         return Field(name=properties.name,
                      properties=properties,
-- 
2.43.0


From fc3b6d57c0b686eb986d86b7b6c5c40ba783e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 18/39] fix: C++ reader decodes one-bit signed fields as 0 and
 -1

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 74c3514..5090319 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -81,7 +81,7 @@ struct Reader
             BYTE_OFFSET, struct_size_bytes );
 #endif
 
-        if ( num_bits == 1 )
+        if ( num_bits == 1 && !IsSigned< T >::value )
         {
             return static_cast< T >( ( data[ BYTE_OFFSET ] & ( 1 << BIT_OFFSET ) ) != 0 );
         }
-- 
2.43.0


From 2ec4b2faea2014d127a8b8e4eed007495050b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 19/39] fix: C++ fields over signed enumerations compile at
 full width and do not clobber their neighbours

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 12 +++++++++---
 flatdata-cpp/include/flatdata/internal/Writer.h |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 5090319..20282f5 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -39,16 +39,22 @@ struct Reader
     {
         bit_width = num_bits
     };
+    enum
+    {
+        // Limits of enumerations are the ones of unsigned numbers unless these do not fit the type
+        has_sign = std::is_signed< T >::value
+                   || ( IsSigned< T >::value && num_bits == sizeof( T ) * 8 )
+    };
     enum : typename UnderlyingType< T >::type
     {
         max = bit_width == 0 ? 0
-                             : ( bit_width - std::is_signed< T >::value
+                             : ( bit_width - has_sign
                                          == sizeof( typename BitsToUnsigned< num_bits >::type ) * 8
                                      ? typename BitsToUnsigned< num_bits >::type( -1 )
                                      : ( typename BitsToUnsigned< num_bits >::type( 1 )
-                                         << ( bit_width - std::is_signed< T >::value ) )
+                                         << ( bit_width - has_sign ) )
                                            - 1 ),
-        min = bit_width == 0 || !std::is_signed< T >::value
+        min = bit_width == 0 || !has_sign
                   ? static_cast< typename UnderlyingType< T >::type >( 0 )
                   : static_cast< typename UnderlyingType< T >::type >( -max - 1 )
     };
diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 230e861..0f54578 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -53,7 +53,7 @@ struct Writer
         static const int BIT_OFFSET = offset % 8;
 
         auto value_to_store = static_cast< UnsignedType >( t );
-        if ( std::is_signed< T >::value )
+        if ( IsSigned< T >::value )
         {
             // negative numbers are stored as 2-complement, and we need to remove upper bits
             value_to_store = masked< num_bits >( value_to_store );
-- 
2.43.0


From 2712bda12dd9f56cee2b451018d32f89ef05b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 20/39] fix: assigning a boost::optional to an optional C++
 field compiles and returns the field

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 0f54578..7ed7c3c 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -137,12 +137,13 @@ struct Writer< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
     {
         if ( t )
         {
-            Writer< T, offset, num_bits >{ data } = t;
+            Writer< T, offset, num_bits >{ data } = *t;
         }
         else
         {
             Writer< T, offset, num_bits >{ data } = INVALID_VALUE;
         }
+        return *this;
     }
 };
 
-- 
2.43.0


From 6fbacf878f132d8323cdd18470ebf885d93b9c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 21/39] fix: C++ header compiles if an explicit reference
 points to an instance

---
 .../flatdata/generator/templates/cpp/archive.jinja2           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/templates/cpp/archive.jinja2 b/flatdata-generator/flatdata/generator/templates/cpp/archive.jinja2
index 97b5e7d..33ebe4b 100644
--- a/flatdata-generator/flatdata/generator/templates/cpp/archive.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/cpp/archive.jinja2
@@ -148,7 +148,7 @@ inline bool
 
 {% for r in archive.resources|simple_resources %}
     read_resource( is_open, m_{{ r.name }}, "{{ r.name }}", internal::{{ archive.name }}__{{ r.name }}__schema__ );
-{% if r.max_size %}
+{% if r.max_size and not r|is_instance %}
     is_open = is_open && ( !m_{{ r.name }} || m_{{ r.name }}{%if r.optional %}->{% else %}.{% endif %}size( ) <= {{ r.max_size }} );
 {% endif %}
 {% endfor %}
@@ -162,7 +162,7 @@ inline void
 {{ archive.name }}::describe_resources( std::ostream& stream, size_t nest_level ) const
 {
 {% for r in archive.resources|simple_resources %}
-    describe_resource( nest_level, stream, "{{ r.name }}", m_{{ r.name }}{% if r.max_size %}, m_{{ r.name }} && m_{{ r.name }}{%if r.optional %}->{% else %}.{% endif %}size( ) > {{ r.max_size }}{% endif %} );
+    describe_resource( nest_level, stream, "{{ r.name }}", m_{{ r.name }}{% if r.max_size and not r|is_instance %}, m_{{ r.name }} && m_{{ r.name }}{%if r.optional %}->{% else %}.{% endif %}size( ) > {{ r.max_size }}{% endif %} );
 {% endfor %}
 {% for r in archive.resources|archive_resources %}
     describe_resource( nest_level, stream, "{{ r.name }}", m_{{ r.name }} );
-- 
2.43.0


From 6b6cd0f078a684e691c624738f683824d6468741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 22/39] fix: report a refused output stream as a failed write

---
 flatdata-cpp/include/flatdata/ExternalVector.h   |  7 +++++--
 flatdata-cpp/include/flatdata/MultiVector.h      |  7 +++++--
 .../include/flatdata/internal/ResourceHandle.h   |  4 ++++
 .../flatdata/internal/ResourceStorage.inl        | 16 ++++++++++++++--
 flatdata-cpp/src/ResourceStorage.cpp             |  5 +++++
 5 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ExternalVector.h b/flatdata-cpp/include/flatdata/ExternalVector.h
index 6dd7c14..fe0febb 100644
--- a/flatdata-cpp/include/flatdata/ExternalVector.h
+++ b/flatdata-cpp/include/flatdata/ExternalVector.h
@@ -97,7 +97,10 @@ template < typename T >
 void
 ExternalVector< T >::flush( )
 {
-    m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_array )
+    {
+        m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
 }
@@ -107,7 +110,7 @@ ArrayView< T >
 ExternalVector< T >::close( )
 {
     flush( );
-    MemoryDescriptor data = m_array->close( );
+    MemoryDescriptor data = m_array ? m_array->close( ) : MemoryDescriptor( );
     return data ? ArrayView< T >{ data.data( ), data.data( ) + data.size_in_bytes( ) }
                 : ArrayView< T >{ };
 }
diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 62ae109..3d1ded1 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -142,7 +142,7 @@ MultiVector< IndexType, Args... >::close( )
     add_to_index( );  // sentinel for last item
     flush( );
 
-    MemoryDescriptor data = m_handle->close( );
+    MemoryDescriptor data = m_handle ? m_handle->close( ) : MemoryDescriptor( );
     ArrayView< IndexType > index_view = m_index.close( );
     if ( !data || !index_view )
     {
@@ -163,7 +163,10 @@ template < typename IndexType, typename... Args >
 void
 MultiVector< IndexType, Args... >::flush( )
 {
-    m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_handle )
+    {
+        m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_size_flushed += m_data.size( ) - PADDING_SIZE;
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
diff --git a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
index e77f196..3fd5452 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
+++ b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
@@ -41,6 +41,10 @@ template < typename T >
 void
 ResourceHandle::write( T* data, size_t size_in_bytes )
 {
+    if ( m_stream == nullptr )
+    {
+        return;
+    }
     m_stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     m_size_in_bytes += size_in_bytes;
 }
diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0520da2..cd5370b 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -134,6 +134,11 @@ ResourceStorage::write_schema( const char* resource_name, const char* schema )
 {
     auto schema_stream
         = create_output_stream( ( std::string( resource_name ) + ".schema" ).c_str( ) );
+    if ( !schema_stream )
+    {
+        return false;
+    }
+
     *schema_stream << schema;
     schema_stream->flush( );
     return static_cast< bool >( *schema_stream );
@@ -184,7 +189,11 @@ template < typename T >
 ExternalVector< T >
 ResourceStorage::create_external_vector( const char* resource_name, const char* schema )
 {
-    write_schema( resource_name, schema );
+    if ( !write_schema( resource_name, schema ) )
+    {
+        return ExternalVector< T >( nullptr );
+    }
+
     auto data_stream = create_output_stream( resource_name );
     return ExternalVector< T >( ResourceHandle::create(
         std::move( data_stream ), internal::ResourceReader( this, resource_name, schema ) ) );
@@ -198,7 +207,10 @@ ResourceStorage::create_multi_vector( const char* resource_name, const char* sch
     auto index = create_external_vector< IndexType >(
         index_name.c_str( ), internal::multivector_index_schema( schema ).c_str( ) );
 
-    write_schema( resource_name, schema );
+    if ( !write_schema( resource_name, schema ) )
+    {
+        return MultiVector< IndexType, Args... >( std::move( index ), nullptr );
+    }
 
     auto data_stream = create_output_stream( resource_name );
     return MultiVector< IndexType, Args... >(
diff --git a/flatdata-cpp/src/ResourceStorage.cpp b/flatdata-cpp/src/ResourceStorage.cpp
index d14192e..0f7064a 100644
--- a/flatdata-cpp/src/ResourceStorage.cpp
+++ b/flatdata-cpp/src/ResourceStorage.cpp
@@ -17,6 +17,11 @@ ResourceStorage::write_to_stream( const char* resource_name,
                                   size_t size_in_bytes )
 {
     auto stream = create_output_stream( resource_name );
+    if ( !stream )
+    {
+        return false;
+    }
+
     resource_storage::write_to_stream( *stream, size_in_bytes );
     stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     resource_storage::write_padding( *stream );
-- 
2.43.0


From fa6aaa449737dc84299b44847bb74dec69fac5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 23/39] fix: archive builders without storage are not open
 instead of crashing

---
 flatdata-cpp/include/flatdata/ArchiveBuilder.h |  2 ++
 flatdata-cpp/src/ArchiveBuilder.cpp            | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/ArchiveBuilder.h b/flatdata-cpp/include/flatdata/ArchiveBuilder.h
index c84ba3d..d1113ec 100644
--- a/flatdata-cpp/include/flatdata/ArchiveBuilder.h
+++ b/flatdata-cpp/include/flatdata/ArchiveBuilder.h
@@ -54,6 +54,8 @@ protected:
     void check_created( ) const;
 
 private:
+    void check_open( ) const;
+
     std::shared_ptr< flatdata::ResourceStorage > m_storage;
     bool m_created = false;
 };
diff --git a/flatdata-cpp/src/ArchiveBuilder.cpp b/flatdata-cpp/src/ArchiveBuilder.cpp
index 4333b5d..f559a9c 100644
--- a/flatdata-cpp/src/ArchiveBuilder.cpp
+++ b/flatdata-cpp/src/ArchiveBuilder.cpp
@@ -27,12 +27,14 @@ ArchiveBuilder::ArchiveBuilder( std::shared_ptr< flatdata::ResourceStorage > sto
 flatdata::ResourceStorage&
 ArchiveBuilder::storage( )
 {
+    check_open( );
     return *m_storage;
 }
 
 const flatdata::ResourceStorage&
 ArchiveBuilder::storage( ) const
 {
+    check_open( );
     return *m_storage;
 }
 
@@ -52,9 +54,23 @@ ArchiveBuilder::check_created( ) const
     }
 }
 
+void
+ArchiveBuilder::check_open( ) const
+{
+    if ( !is_open( ) )
+    {
+        throw std::runtime_error( "Attempting to use an archive builder that is not open." );
+    }
+}
+
 bool
 ArchiveBuilder::initialize( )
 {
+    if ( !m_storage )
+    {
+        return false;
+    }
+
     const auto signature_name = internal::signature_name( name( ) );
     if ( !storage( ).exists( signature_name.c_str( ) ) )
     {
-- 
2.43.0


From 1cb7a94f0e585bae9a08a222be79c4345b769a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:09 +0000
Subject: [PATCH 24/39] fix: measure backward distances between array view
 iterators

The difference was divided by an unsigned size, so that any negative
distance came out as a huge positive number.
---
 flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
index 7862702..6acf28b 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
@@ -98,7 +98,7 @@ template < typename T >
 typename ArrayViewIterator< T >::difference_type
 ArrayViewIterator< T >::operator-( const ArrayViewIterator& other ) const
 {
-    return ( m_ptr - other.m_ptr ) / T::size_in_bytes( );
+    return ( m_ptr - other.m_ptr ) / static_cast< difference_type >( T::size_in_bytes( ) );
 }
 
 template < typename T >
-- 
2.43.0


From a49fd0f3ad12d2c16d3fe560abf9969bc868b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 25/39] fix: report no bytes for empty views of ranged structs

A view over an empty payload of a struct with ranges claimed the bytes of
one element, so that writing it read past the end of its data.
---
 flatdata-cpp/include/flatdata/ArrayView.h            | 1 +
 flatdata-cpp/include/flatdata/internal/ArrayView.inl | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/ArrayView.h b/flatdata-cpp/include/flatdata/ArrayView.h
index f24d2f7..f6f9722 100644
--- a/flatdata-cpp/include/flatdata/ArrayView.h
+++ b/flatdata-cpp/include/flatdata/ArrayView.h
@@ -53,6 +53,7 @@ private:
 
     ConstStreamType m_data;
     size_t m_size;
+    size_t m_size_in_bytes;
 };
 
 }  // namespace flatdata
diff --git a/flatdata-cpp/include/flatdata/internal/ArrayView.inl b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
index 76c5a8f..339fe4a 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayView.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
@@ -11,6 +11,7 @@ template < typename T >
 ArrayView< T >::ArrayView( ConstStreamType data_begin, ConstStreamType data_end )
     : m_data( data_begin )
     , m_size( ( data_end - data_begin ) / T::size_in_bytes( ) )
+    , m_size_in_bytes( m_size * T::size_in_bytes( ) )
 {
     if ( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )
     {
@@ -22,6 +23,7 @@ template < typename T >
 ArrayView< T >::ArrayView( ConstStreamType data, size_t size )
     : m_data( data )
     , m_size( size )
+    , m_size_in_bytes( ( size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) ) * T::size_in_bytes( ) )
 {
 }
 
@@ -50,7 +52,7 @@ template < typename T >
 size_t
 ArrayView< T >::size_in_bytes( ) const
 {
-    return ( m_size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) ) * T::size_in_bytes( );
+    return m_size_in_bytes;
 }
 
 template < typename T >
-- 
2.43.0


From 678230496dc84547ebd0cf7ada2ac6ade478bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 26/39] fix: tar reader stops at a file cut off by the end of
 the archive, and forgets a long name of a directory

A size close to 2^64 wrapped the position of the next header around, so the reader
read the same headers over and over; a long name preceding a directory was given
to the next file.
---
 flatdata-cpp/src/TarReader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 6a35034..7d4f6e0 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -151,12 +151,19 @@ read_tar_file_entries( MemoryDescriptor data )
             file.size = file_size;
             file_entries.emplace_back( file );
 
+            if ( file_size > data.size( ) - offset )
+            {
+                // The file is cut off, there is nothing after it
+                break;
+            }
+
             const size_t padding = ( BLOCK_SIZE - ( file_size % BLOCK_SIZE ) ) % BLOCK_SIZE;
             offset += file_size + padding;
         }
         else if ( header.typeflag == DIRTYPE )
         {
-            // Skip directories
+            // Skip directories, a long name does not extend to the next file
+            long_name.clear( );
         }
         else if ( header.typeflag == GNUTYPE_LONGNAME )
         {
-- 
2.43.0


From 146b8ca2414a985eaca2c373d57beb63fefb1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:53 +0000
Subject: [PATCH 27/39] fix: directories of a memory storage use one mutex for
 the state they share

The maps of streams, resources and directories are shared by all storages obtained
from directory() and create_directory(), but each of them locked a mutex of its own.
---
 .../include/flatdata/MemoryResourceStorage.h  | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index f8dbf72..d3d7027 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -26,6 +26,9 @@ class MemoryResourceStorage : public ResourceStorage
         std::map< std::string, std::shared_ptr< std::string > > resources;
         std::set< std::string > created_directories;
 
+        // Directories share the storage, and are used from different threads as well
+        std::mutex mutex;
+
         ~Storage( );
     };
 
@@ -55,7 +58,6 @@ private:
 
 private:
     std::shared_ptr< Storage > m_storage;
-    mutable std::mutex m_storage_mutex;
     std::string m_path;
 };
 
@@ -73,7 +75,7 @@ MemoryResourceStorage::create_output_stream( const char* key )
     std::shared_ptr< std::stringstream > result(
         new std::stringstream( std::ofstream::out | std::ofstream::binary ) );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->streams[ get_path( key ) ] = result;
 
     return result;
@@ -110,7 +112,7 @@ MemoryResourceStorage::read_resource( const char* key )
 {
     const auto path = get_path( key );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->resources.count( path ) == 0 )
     {
         auto found = m_storage->streams.find( path );
@@ -136,7 +138,7 @@ MemoryResourceStorage::read_resource( const char* key )
 inline void
 MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->resources.insert( std::make_pair(
         std::string( key ),
         std::make_shared< std::string >( value.char_ptr( ), value.size_in_bytes( ) ) ) );
@@ -151,7 +153,7 @@ MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 inline void
 MemoryResourceStorage::assign_value( const char* key, const char* value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->resources.insert(
         std::make_pair( std::string( key ), std::make_shared< std::string >( value ) ) );
 #ifdef DEBUG_DATA_ACCESS_STATISTICS
@@ -166,7 +168,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::create_directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->created_directories.insert( new_path );
     return std::unique_ptr< MemoryResourceStorage >(
         new MemoryResourceStorage( m_storage, new_path ) );
@@ -176,7 +178,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->created_directories.find( new_path ) == m_storage->created_directories.end( ) )
     {
         return nullptr;
@@ -253,7 +255,7 @@ inline bool
 MemoryResourceStorage::exists( const char* key )
 {
     auto path = get_path( key );
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     return m_storage->resources.count( path ) != 0 || m_storage->streams.count( path ) != 0
            || helpers::prefix_exists( m_storage->resources, path + "/" )
            || helpers::prefix_exists( m_storage->streams, path + "/" );
@@ -268,7 +270,7 @@ MemoryResourceStorage::dump_resources( bool dump_schemas, ResourceSerializer&& f
     };
 
     std::ostringstream ss;
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     for ( auto& resource : m_storage->resources )
     {
         if ( !is_schema( resource.first ) || dump_schemas )
-- 
2.43.0


From d2109d40817ccb23a9504208ce45d578911c189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 28/39] fix: read the ninth byte of an unaligned field behind
 its own first byte (Rust)

---
 flatdata-rs/lib/src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 99376c5..5c39332 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -63,7 +63,7 @@ macro_rules! flatdata_read_bytes {
 
             let read_bits = num_bytes * 8 - bit_offset;
             if read_bits < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << read_bits % (num_bytes * 8);
             }
             result = flatdata_read_bytes!(@mask, result, $num_bits);
-- 
2.43.0


From fc66ae5bb7b4917a732da5723e2c612d5d277a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 29/39] fix: write the ninth byte of an unaligned field behind
 its own first byte (Rust)

---
 flatdata-rs/lib/src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/bytewriter.rs b/flatdata-rs/lib/src/bytewriter.rs
index 2275e14..c931880 100644
--- a/flatdata-rs/lib/src/bytewriter.rs
+++ b/flatdata-rs/lib/src/bytewriter.rs
@@ -65,7 +65,7 @@ macro_rules! flatdata_write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes * 8);
             value_mask >>= batched_bits_written % (num_bytes * 8);
             unsafe {
-- 
2.43.0


From 7b455aa6241dd4415b61c9744c86030a0da91387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 30/39] fix: sign-extend fields that fit the rest of their
 first byte (Go)

---
 flatdata-go/flatdata/reader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatdata-go/flatdata/reader.go b/flatdata-go/flatdata/reader.go
index a48d20e..7f6d6a1 100644
--- a/flatdata-go/flatdata/reader.go
+++ b/flatdata-go/flatdata/reader.go
@@ -28,11 +28,12 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result = currentByte >> localOffset
 		if bitsLeft <= (8 - localOffset) {
 			result &= (1 << bitsLeft) - 1
-			return int(result)
+			bitsLeft = 0
+		} else {
+			bitsLeft -= 8 - localOffset
+			currentIndex++
+			currentByte = uint(descriptor.At(int(currentIndex)))
 		}
-		bitsLeft -= 8 - localOffset
-		currentIndex++
-		currentByte = uint(descriptor.At(int(currentIndex)))
 	}
 
 	for bitsLeft >= 8 {
-- 
2.43.0


From 60b84b1fc5eb53406312de9cd203ca568ff0fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:35 +0000
Subject: [PATCH 31/39] fix: size tables of Python slices by the elements they
 hold

A limit larger than the slice left uninitialised rows, a smaller one raised
IndexError.
---
 flatdata-py/flatdata/lib/resources.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 18c338f..503ad34 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -4,6 +4,7 @@
 '''
 
 import json
+from itertools import islice
 
 import pandas as pd
 import numpy as np
@@ -64,12 +65,14 @@ class _VectorSlice:
 
     def to_numpy(self, limit=None):
         indices = self._slice.indices(len(self._sequence))
-        num_items = len(range(*indices)) if not limit else limit
+        num_items = len(range(*indices))
+        if limit:
+            num_items = min(num_items, limit)
         result = np.empty(
             shape=num_items,
             dtype=self._sequence._element_type.dtype()
         )
-        for index, item in enumerate(self):
+        for index, item in enumerate(islice(self, num_items)):
             result[index] = item.as_tuple()
         return result
 
-- 
2.43.0


From 96b627fb47c89d5dc61e7453540a867e656582a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:29 +0000
Subject: [PATCH 32/39] fix: Rust accessors of ranges over enumerations compile

They named the placeholder of the unresolved type reference.
---
 .../flatdata/generator/templates/rust/structure.jinja2    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
index bfdce59..82b60c9 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
@@ -110,8 +110,12 @@ impl {{ struct.name }} {
     {% endif %}
     #[inline]
     pub fn {{ field.range | escape_rust_keywords }}(&self) -> std::ops::Range<{% if field.invalid_value %}Option<{{ field | field_type }}>{% else %}{{ field | field_type }}{% endif %}> {
-        let start = flatdata_read_bytes!({{ field.type.name }}, self.data.as_ptr(), {{ field.offset }}, {{ field.type.width }});
-        let end = flatdata_read_bytes!({{ field.type.name }}, self.data.as_ptr(), {{ field.offset }} + {{ struct.size_in_bytes }} * 8, {{ field.type.width }});
+        let start = flatdata_read_bytes!({{ field | primitive_type }}, self.data.as_ptr(), {{ field.offset }}, {{ field.type.width }});
+        let end = flatdata_read_bytes!({{ field | primitive_type }}, self.data.as_ptr(), {{ field.offset }} + {{ struct.size_in_bytes }} * 8, {{ field.type.width }});
+        {% if (field | field_type) != (field | primitive_type) %}
+        let start = unsafe { std::mem::transmute::<{{ field | primitive_type }}, {{ field | field_type }}>(start) };
+        let end = unsafe { std::mem::transmute::<{{ field | primitive_type }}, {{ field | field_type }}>(end) };
+        {% endif %}
         {% if field.invalid_value %}
         let check = |x| {% if field.invalid_value %}Some(x).filter(|&x| x != {{ fully_qualified_name(struct, field.invalid_value.node) }}{% else %}x{% endif %};
         check(start)..check(end)
-- 
2.43.0


From 8bfe6327e2218266b80ce8e1643a7416e37fa73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:29 +0000
Subject: [PATCH 33/39] fix: Rust constants of type bool are true or false

---
 .../flatdata/generator/templates/rust/constant.jinja2           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
index 614c6fa..bdd6bd7 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
@@ -3,5 +3,5 @@
 {% if node.doc %}
     {{ node.doc | rust_doc }}
 {% endif %}
-pub const {{ node.name | camel_to_snake_case | upper }}: {{ node.type.name }} = {{ node.value | format_numeric_literal }};
+pub const {{ node.name | camel_to_snake_case | upper }}: {{ node.type.name }} = {% if node.type.name == "bool" %}{{ "true" if node.value else "false" }}{% else %}{{ node.value | format_numeric_literal }}{% endif %};
 {%- endmacro %}
-- 
2.43.0


From 58876912bd8cef41e2fd69343fc51682fe895e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:29 +0000
Subject: [PATCH 34/39] fix: Rust enumerations of type bool are represented by
 u8

and invalid values refer to constants by the name they are generated with.
---
 .../flatdata/generator/generators/rust.py           | 13 +++++++++++--
 .../generator/templates/rust/enumeration.jinja2     |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index 7751fee..6c341b0 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -79,18 +79,27 @@ class RustGenerator(BaseGenerator):
                     _fully_qualified_name(field.parent, field.type_reference.node))
             return "{}".format(field.type.name)
 
+        def _enum_type(enum):
+            # Rust has no enumerations represented by bool
+            return "u8" if enum.type.name == "bool" else enum.type.name
+
         def _primitive_type(field):
             if isinstance(field.type, EnumType):
-                return "{}".format(field.type_reference.node.type.name)
+                return _enum_type(field.type_reference.node)
             return "{}".format(field.type.name)
 
         def _fully_qualified_name(current, node):
-            return "::".join((current.path_depth() - 1) * ["super"]) + node.path_with("::")
+            path = node.path_with("::")
+            if isinstance(node, Constant):
+                namespace, _, name = path.rpartition("::")
+                path = namespace + "::" + _camel_to_snake_case(name).upper()
+            return "::".join((current.path_depth() - 1) * ["super"]) + path
 
         env.globals["fully_qualified_name"] = _fully_qualified_name
         env.filters["escape_rust_keywords"] = _escape_rust_keywords
         env.filters["field_type"] = _field_type
         env.filters["primitive_type"] = _primitive_type
+        env.filters["enum_type"] = _enum_type
         env.filters['structure_references'] = lambda ls: [
             x for x in ls if (isinstance(x.node, Structure)
                               and "_builtin.multivector" not in SyntaxTree.namespace_path(x.node))]
diff --git a/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
index 784ce67..84e210c 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
@@ -4,7 +4,7 @@
 {{ enum.doc | rust_doc }}
 {% endif %}
 #[derive(Debug, PartialEq, Eq)]
-#[repr({{ enum.type.name }})]
+#[repr({{ enum | enum_type }})]
 pub enum {{ enum.name }} {
     {% for value in enum.values %}
     {% if value.doc %}
-- 
2.43.0


From d98051b45b529757fa983dfb608aef27978a6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:44 +0000
Subject: [PATCH 35/39] fix: Rust reports damaged size headers near 2^64
 instead of overflowing

Debug builds panicked when adding header and padding to such a size.
---
 flatdata-rs/lib/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index d3c4eab..c1a20f9 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -112,7 +112,7 @@ pub trait ResourceStorage: std::fmt::Debug {
         }
 
         let size = flatdata_read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From 305c35e67bc7bb9a62ca12342262a26baddf7162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:18 +0000
Subject: [PATCH 36/39] fix: Rust file storage keeps the mapping that was
 handed out when two threads read a file

---
 flatdata-rs/lib/src/filestorage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index 8e1e14d..b845f25 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -22,7 +22,13 @@ impl MemoryMappedFileStorage {
         if !self.maps.lock().unwrap().contains_key(path) {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.lock().unwrap().insert(path.into(), file_mmap);
+            // Another thread may have mapped the file in the meantime, and handed out its
+            // bytes: the first mapping has to stay.
+            self.maps
+                .lock()
+                .unwrap()
+                .entry(path.into())
+                .or_insert(file_mmap);
         }
         let data = &self.maps.lock().unwrap()[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
-- 
2.43.0


From 657a67804df96294a52ce7dc9d5ac12b9cbd6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:18 +0000
Subject: [PATCH 37/39] fix: Rust memory storage keeps the data that was handed
 out when two threads read a resource

---
 flatdata-rs/lib/src/memstorage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index 04fdee2..7e9f057 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -119,12 +119,15 @@ impl ResourceStorage for MemoryResourceStorage {
                 Some(stream) => {
                     // Resource is not yet opened, but there is a stream it was written to
                     // => copy the stream as resource data.
+                    // Another thread may have done so in the meantime, and handed out its
+                    // bytes: the first copy has to stay.
                     let data = Arc::new(stream.lock().unwrap().get_ref().clone());
                     self.storage
                         .resources
                         .lock()
                         .unwrap()
-                        .insert(resource_path.clone(), data);
+                        .entry(resource_path.clone())
+                        .or_insert(data);
                 }
                 None => {
                     return Err(io::Error::new(
-- 
2.43.0


From e52c274208ae9edd810fb0a0b68833a550a49c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:25 +0000
Subject: [PATCH 38/39] fix: room for the mask entry behind the last line of a
 schema difference

create_context wrote result_mask[ diff.size( ) ], past the end of its storage for a difference of
64, 128... lines.
---
 flatdata-cpp/src/Archive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 4fb7a83..3b08c19 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -88,7 +88,8 @@ std::string
 create_context( const std::vector< std::string >& diff )
 {
     std::string result;
-    std::vector< bool > result_mask( diff.size( ) );
+    // one more than there are lines: what follows a difference is marked one line later
+    std::vector< bool > result_mask( diff.size( ) + 1 );
     size_t context_lines = 3;
 
     int lines_to_go = -1;
-- 
2.43.0


From d069f59f4748537501215fee056be2cf4e5967a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:25 +0000
Subject: [PATCH 39/39] fix: read no more than the stored schema when
 describing an archive

The schema of an archive is stored without a terminating zero; describing a mismatch read on behind
the end of the mapped file.
---
 flatdata-cpp/src/Archive.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 3b08c19..1ffe9d7 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -61,23 +61,20 @@ Archive::storage( ) const
 namespace
 {
 std::vector< std::string >
-to_lines( const char* string )
+to_lines( const char* string, const char* end )
 {
     std::vector< std::string > result;
-    if ( string )
+    while ( string != end )
     {
-        while ( *string )
+        auto begin = string;
+        while ( string != end && *string != '\n' )
         {
-            auto begin = string;
-            while ( *string && *string != '\n' )
-            {
-                string++;
-            }
-            result.emplace_back( begin, string );
-            if ( *string )
-            {
-                string++;
-            }
+            string++;
+        }
+        result.emplace_back( begin, string );
+        if ( string != end )
+        {
+            string++;
         }
     }
 
@@ -130,14 +127,17 @@ create_context( const std::vector< std::string >& diff )
 }
 
 std::string
-compute_diff( const char* expected, const char* found )
+compute_diff( const char* expected, const MemoryDescriptor& found )
 {
     if ( !found )
     {
         return { };
     }
-    std::vector< std::string > lines_expected = to_lines( expected );
-    std::vector< std::string > lines_found = to_lines( found );
+    std::vector< std::string > lines_expected
+        = to_lines( expected, expected + std::strlen( expected ) );
+    // the stored schema is not zero terminated
+    std::vector< std::string > lines_found
+        = to_lines( found.char_ptr( ), found.char_ptr( ) + found.size_in_bytes( ) );
     size_t expected_length = lines_expected.size( ) + 1;
     size_t found_length = lines_found.size( ) + 1;
 
@@ -259,8 +259,7 @@ Archive::describe( size_t nest_level ) const
                << "FATAL: Archive signature does not match software expectations."
                << ( is_root_node ? newl : empty ) << hline;
         result << compute_diff(
-            schema( ),
-            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ).char_ptr( ) );
+            schema( ), m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ) );
         return result.str( );
     }
 
-- 
2.43.0

