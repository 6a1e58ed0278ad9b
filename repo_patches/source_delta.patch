From 7d22e42c8b2f7246e580b3c6d495c919e65bc4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 01/49] fix: write_value keeps neighbouring bits and replaces
 the previous value

---
 flatdata-py/flatdata/lib/data_access.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 359dfc6..9fac9f2 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -42,23 +42,8 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
             data[offset_bytes] &= ~(1 << offset_extra_bits)
         return
 
-    mask = (1 << num_bits) - 1
-    value <<= offset_extra_bits
-    value &= mask << offset_extra_bits
-    value_in_little_endian = value.to_bytes(total_bytes + 1, byteorder="little", signed=is_signed)
-    surrounding_bits = data[offset_bytes] & ((1 << offset_bits) - 1)
-
-    byte_idx = 0
-    data[offset_bytes] = value_in_little_endian[byte_idx]
-    data[offset_bytes] |= surrounding_bits
-
-    byte_idx += 1
-    while byte_idx < total_bytes:
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx]
-        byte_idx += 1
-
-    bits_written = total_bytes * 8 - offset_extra_bits
-    if bits_written < num_bits:
-        surrounding_bits = data[offset_bytes + byte_idx] & ~((1 << offset_bits) - 1)
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx] & ((1 << (8 - (bits_written % 8))) - 1)
-        data[offset_bytes + byte_idx] |= surrounding_bits
+    mask = ((1 << num_bits) - 1) << offset_extra_bits
+    touched = slice(offset_bytes, offset_bytes + (offset_extra_bits + num_bits + 7) // 8)
+    surrounding_bits = int.from_bytes(data[touched], byteorder="little") & ~mask
+    result = surrounding_bits | ((value << offset_extra_bits) & mask)
+    data[touched] = result.to_bytes(len(data[touched]), byteorder="little")
-- 
2.43.0


From 184eb506e624a2f2855de5fb601a9012e9ccb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 02/49] fix: read_value masks unaligned 64-bit fields

---
 flatdata-py/flatdata/lib/data_access.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 9fac9f2..b9e53c1 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -20,8 +20,7 @@ def read_value(data, offset_bits, num_bits, is_signed):
         remainder = data[offset_bytes + total_bytes]
         result |= remainder << (total_bytes * 8 - offset_extra_bits)
 
-    if num_bits < 64:
-        result = result & ((1 << num_bits) - 1)
+    result = result & ((1 << num_bits) - 1)
 
     if not is_signed:
         return result
-- 
2.43.0


From 4bbdfc4a7e94eee4df8499bcdc0235efbfd16c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 03/49] fix: Rust bit access of fields spanning nine bytes past
 byte 0

---
 flatdata-rs/lib/src/bytereader.rs | 2 +-
 flatdata-rs/lib/src/bytewriter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 99376c5..5c39332 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -63,7 +63,7 @@ macro_rules! flatdata_read_bytes {
 
             let read_bits = num_bytes * 8 - bit_offset;
             if read_bits < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << read_bits % (num_bytes * 8);
             }
             result = flatdata_read_bytes!(@mask, result, $num_bits);
diff --git a/flatdata-rs/lib/src/bytewriter.rs b/flatdata-rs/lib/src/bytewriter.rs
index 2275e14..c931880 100644
--- a/flatdata-rs/lib/src/bytewriter.rs
+++ b/flatdata-rs/lib/src/bytewriter.rs
@@ -65,7 +65,7 @@ macro_rules! flatdata_write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes * 8);
             value_mask >>= batched_bits_written % (num_bytes * 8);
             unsafe {
-- 
2.43.0


From 8fc7c3485e1cd061bb16bc9904efbf2bc49a1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 04/49] fix: Go reader extends the sign of small unaligned
 fields

---
 flatdata-go/flatdata/reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flatdata-go/flatdata/reader.go b/flatdata-go/flatdata/reader.go
index a48d20e..0ccefb0 100644
--- a/flatdata-go/flatdata/reader.go
+++ b/flatdata-go/flatdata/reader.go
@@ -28,7 +28,7 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result = currentByte >> localOffset
 		if bitsLeft <= (8 - localOffset) {
 			result &= (1 << bitsLeft) - 1
-			return int(result)
+			return extendSign(result, size, signed)
 		}
 		bitsLeft -= 8 - localOffset
 		currentIndex++
@@ -51,7 +51,12 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result |= temp
 	}
 
-	if signed {
+	return extendSign(result, size, signed)
+}
+
+// extendSign interprets the lowest size bits as a number, a single bit is always either 0 or 1
+func extendSign(result, size uint, signed bool) int {
+	if signed && size > 1 {
 		return int((result & (signBits[size-1] - 1)) - (result & signBits[size-1]))
 	}
 
-- 
2.43.0


From 4f0caffb6cd4a0d95346c148f452144dd5f7ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 05/49] fix: Python archives expose resources that are present
 but empty

---
 flatdata-py/flatdata/lib/archive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 34e27aa..fb7ee28 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -56,8 +56,8 @@ class Archive:
         for name, signature in self._RESOURCES.items():
             resource = self.__getattr__(name)
             result.append([name, signature.container.__name__, signature.is_optional,
-                           resource.size_in_bytes() if resource else None,
-                           len(resource) if resource else None])
+                           resource.size_in_bytes() if resource is not None else None,
+                           len(resource) if resource is not None else None])
         return pd.DataFrame(data=result,
                             columns=["Name", "Type", "Optional", "SizeInBytes", "Size"])
 
@@ -84,7 +84,7 @@ class Archive:
     def size_in_bytes(self):
         return sum(resource_value.size_in_bytes() for resource_value in
                    (self.__getattr__(resource) for resource in self._RESOURCES.keys())
-                   if resource_value)
+                   if resource_value is not None)
 
     def __len__(self):
         return len(self._RESOURCES)
@@ -110,7 +110,7 @@ class Archive:
                                                          name=name,
                                                          initializer=resource_signature.initializer,
                                                          is_optional=resource_signature.is_optional)
-            if resource:
+            if resource is not None:
                 resource.__doc__ = resource_signature.doc
                 return resource
         return None
-- 
2.43.0


From 8983c78aa251b5551f9767452652bf1ba3c1eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 06/49] fix: Python reports an optional resource without data
 as none

---
 flatdata-py/flatdata/lib/archive.py   |  2 +-
 flatdata-py/flatdata/lib/resources.py | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index fb7ee28..87df13c 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -95,7 +95,7 @@ class Archive:
         # when it is initialized.
         if not _is_archive_signature(resource_signature):
             storage = self._resource_storage.get(name + _SCHEMA_EXT, resource_signature.is_optional)
-            if storage:
+            if storage is not None:
                 Archive._check_non_subarchive_schema(name, resource_signature, storage)
             elif not resource_signature.is_optional:
                 raise MissingResourceError(name)
diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f371a7d..08a8087 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -51,7 +51,10 @@ class ResourceBase:
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name, is_optional), initializer)
+        mem = storage.get(name, is_optional)
+        if mem is None:
+            return None
+        return cls(mem, initializer)
 
 
 class _VectorSlice:
@@ -138,9 +141,11 @@ class Multivector(ResourceBase):
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name + "_index", is_optional),
-                   storage.get(name, is_optional),
-                   *initializer)
+        index_mem = storage.get(name + "_index", is_optional)
+        mem = storage.get(name, is_optional)
+        if index_mem is None or mem is None:
+            return None
+        return cls(index_mem, mem, *initializer)
 
     def __len__(self):
         # The last entry is just a sentinel
-- 
2.43.0


From 1a94d03fe170dcbbaf9b1eabd8aa1f2b4f6870c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 07/49] fix: Python rejects resources whose recorded size does
 not match the stored data

---
 .../flatdata/lib/file_resource_storage.py     |  3 +++
 flatdata-py/flatdata/lib/resources.py         | 24 +++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/flatdata-py/flatdata/lib/file_resource_storage.py b/flatdata-py/flatdata/lib/file_resource_storage.py
index 674b6fb..7768065 100644
--- a/flatdata-py/flatdata/lib/file_resource_storage.py
+++ b/flatdata-py/flatdata/lib/file_resource_storage.py
@@ -22,6 +22,9 @@ class FileResourceStorage:
         :return: file-like object for memory mapped file.
         """
         opened_file = open(filename, 'r')
+        if os.path.getsize(filename) == 0:
+            # Empty files cannot be mapped
+            return b""
         return mmap.mmap(opened_file.fileno(), 0, access=mmap.ACCESS_READ)
 
     def __init__(self, path):
diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 08a8087..944098d 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -16,10 +16,18 @@ SIZE_OFFSET_IN_BYTES = SIZE_OFFSET_IN_BITS // 8
 SIZE_PADDING_IN_BYTES = 8
 
 
+def _checked_payload_size(mem):
+    if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):
+        raise CorruptResourceError("Resource is too short")
+    size = read_value(mem, 0, SIZE_OFFSET_IN_BITS, False)
+    if size + SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES != len(mem):
+        raise CorruptResourceError("Recorded resource size does not match the stored data")
+    return size
+
+
 class ResourceBase:
     def __init__(self, mem, element_type):
-        if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):
-            raise CorruptResourceError()
+        self._payload_size = _checked_payload_size(mem)
         self._mem = memoryview(mem)
         self._element_type = element_type
         self._element_types = [element_type]
@@ -90,9 +98,9 @@ class _VectorSlice:
 class Vector(ResourceBase):
     def __init__(self, mem, element_type):
         ResourceBase.__init__(self, mem, element_type)
-        size_in_bytes = read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
-        size, rem = divmod(size_in_bytes, self._type_size_in_bytes)
-        assert rem == 0, "Malformed vector"
+        size, rem = divmod(self._payload_size, self._type_size_in_bytes)
+        if rem != 0:
+            raise CorruptResourceError("Malformed vector")
         self._size = size
 
     def to_data_frame(self):
@@ -135,6 +143,7 @@ class _MultivectorSlice:
 class Multivector(ResourceBase):
     def __init__(self, index_mem, mem, index_type, *element_types):
         self._index = Vector(index_mem, index_type)
+        _checked_payload_size(mem)
         self._mem = mem
         self._element_types = element_types
         self._index_type = index_type
@@ -221,6 +230,11 @@ class RawData(ResourceBase):
 
 
 class Instance(ResourceBase):
+    def __init__(self, mem, element_type):
+        ResourceBase.__init__(self, mem, element_type)
+        if self._payload_size != self._type_size_in_bytes:
+            raise CorruptResourceError("Malformed instance")
+
     def __getitem__(self, index):
         if isinstance(index, slice):
             raise IndexError("Instance has only one item")
-- 
2.43.0


From 76a7a22eecc9620ca25b5b5fbecc69d43de213d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 08/49] fix: inspector reads the schema of tar archives

---
 flatdata-py/flatdata/lib/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/inspector.py b/flatdata-py/flatdata/lib/inspector.py
index 5bfdfdc..8ffc6ca 100755
--- a/flatdata-py/flatdata/lib/inspector.py
+++ b/flatdata-py/flatdata/lib/inspector.py
@@ -72,7 +72,7 @@ def open_archive(path, archive=None, module_name=None):
 
     try:
         module, archive_type = \
-            Engine(schema.read().decode()).render_python_module(module_name=module_name,
+            Engine(bytes(schema).decode()).render_python_module(module_name=module_name,
                                                                 archive_name=archive_name)
     except FlatdataSyntaxError as err:
         raise RuntimeError("Error reading schema: %s " % err)
-- 
2.43.0


From ee30aad588f4008d8d7335d34e7565b4fe6664ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 09/49] fix: Python raw data access stays within the payload

---
 flatdata-py/flatdata/lib/resources.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 944098d..f5411f3 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -191,22 +191,26 @@ class Multivector(ResourceBase):
 
 class RawData(ResourceBase):
     def __len__(self):
-        return read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
+        return self._payload_size
+
+    def _payload(self):
+        return self._mem[SIZE_OFFSET_IN_BYTES:SIZE_OFFSET_IN_BYTES + len(self)]
 
     def __getitem__(self, item):
         if isinstance(item, slice):
-            return self._mem[
-                slice(item.start + SIZE_OFFSET_IN_BYTES,
-                      (item.stop + SIZE_OFFSET_IN_BYTES) if item.stop is not None else None,
-                      item.step)
-            ]
+            return self._payload()[item]
+
+        if item < 0:
+            item += len(self)
+        if item >= len(self) or item < 0:
+            raise IndexError("Raw data access out of bounds: " + str(item))
         return self._mem[item + SIZE_OFFSET_IN_BYTES:item + SIZE_OFFSET_IN_BYTES + 1]
 
     def sub_str(self, index, separator = b'\0'):
         for i in range(index, len(self)):
             if self[i:i + len(separator)] == separator:
                 return bytes(self[index:i]).decode("utf-8")
-        return bytes(self[index]).decode("utf-8")
+        return bytes(self[index:]).decode("utf-8")
 
     def sub_str_list(self, index, separator = b'\0', list_separator = b'\0\0'):
         result = []
-- 
2.43.0


From 082a1b4dabe5090fd16173aa7fdb921c70867ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 10/49] fix: Python substring lists honour long separators and
 a size of zero

---
 flatdata-py/flatdata/lib/resources.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f5411f3..1e49597 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -217,19 +217,19 @@ class RawData(ResourceBase):
         for i in range(index, len(self)):
             if index == i and self[i:i + len(list_separator)] == list_separator:
                 break
-            if self[i:i + len(separator)] == separator:
+            if i >= index and self[i:i + len(separator)] == separator:
                 result.append(bytes(self[index:i]).decode("utf-8"))
-                index = i + 1
+                index = i + len(separator)
         return result
 
     def sub_str_array(self, index, size, separator = b'\0'):
         result = []
         for i in range(index, len(self)):
-            if self[i:i + len(separator)] == separator:
+            if len(result) == size:
+                break
+            if i >= index and self[i:i + len(separator)] == separator:
                 result.append(bytes(self[index:i]).decode("utf-8"))
-                index = i + 1
-                if len(result) == size:
-                    break
+                index = i + len(separator)
         return result
 
 
-- 
2.43.0


From 708d088e1f25d9c7eba667efffd90eb3ae6510c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 11/49] fix: Python multivectors check item indexes and accept
 negative ones

---
 flatdata-py/flatdata/lib/resources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 1e49597..ccb14bb 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -167,6 +167,11 @@ class Multivector(ResourceBase):
         if isinstance(index, slice):
             return _MultivectorSlice(index, self)
 
+        if index < 0:
+            index += len(self)
+        if index >= len(self) or index < 0:
+            raise IndexError("Multivector access out of bounds: " + str(index))
+
         offset = self._bucket_offset(index)
         next_offset = self._bucket_offset(index + 1)
         elements = []
-- 
2.43.0


From 3464355108e1b71a7889b2e95b1a21d5a8b55ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 12/49] fix: iterating a Python structure follows the
 declaration order

---
 flatdata-py/flatdata/lib/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/structure.py b/flatdata-py/flatdata/lib/structure.py
index fec73c0..2251e90 100644
--- a/flatdata-py/flatdata/lib/structure.py
+++ b/flatdata-py/flatdata/lib/structure.py
@@ -27,7 +27,7 @@ class Structure:
         return self._FIELD_KEYS
 
     def __iter__(self):
-        for name in self._FIELD_KEYS:
+        for name in self._FIELDS:
             yield getattr(self, name)
 
     def as_dict(self):
-- 
2.43.0


From f436cb1e15859054af19db1ba568630759596866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 13/49] fix: to_numpy honours its limit for any slice length

---
 flatdata-py/flatdata/lib/resources.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index ccb14bb..186c3f1 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -3,6 +3,7 @@
  See the LICENSE file in the root of this project for license details.
 '''
 
+from itertools import islice
 import json
 
 import pandas as pd
@@ -72,12 +73,14 @@ class _VectorSlice:
 
     def to_numpy(self, limit=None):
         indices = self._slice.indices(len(self._sequence))
-        num_items = len(range(*indices)) if not limit else limit
+        num_items = len(range(*indices))
+        if limit is not None:
+            num_items = min(num_items, limit)
         result = np.empty(
             shape=num_items,
             dtype=self._sequence._element_type.dtype()
         )
-        for index, item in enumerate(self):
+        for index, item in enumerate(islice(self, num_items)):
             result[index] = item.as_tuple()
         return result
 
-- 
2.43.0


From e2134523f163a93e2e8998c02c7a0c49a362b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 14/49] fix: the Python builder validates a value before
 writing anything of it

---
 flatdata-py/flatdata/lib/archive_builder.py | 33 +++++++++++++++------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index a4b1d2a..5fa474f 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -55,6 +55,19 @@ class IndexWriter:
         self._fout.close()
 
 
+class _Payload:
+    """
+    Collects the encoded value of a resource until it is known to be valid.
+    """
+
+    def __init__(self):
+        self.data = bytearray()
+
+    def write(self, data):
+        '''Append encoded data'''
+        self.data += data
+
+
 class ArchiveBuilder:
     """
     ArchiveBuilder class. Entry point to writing Flatdata.
@@ -260,24 +273,26 @@ class ArchiveBuilder:
         if name not in self._RESOURCES:
             raise UnknownResourceError(name)
 
-        if not self._resources_written.count(name):
-            self._write_schema(name)
-        else:
+        if self._resources_written.count(name):
             raise ResourceAlreadySetError()
 
-        storage = self._resource_storage.get(name, False)
+        # Validate and encode the value before anything is written
+        payload = _Payload()
 
         if self._RESOURCES[name].container is Instance:
-            self.__set_instance(storage, name, value)
+            self.__set_instance(payload, name, value)
         elif self._RESOURCES[name].container is Vector:
-            self.__set_vector(storage, name, value)
+            self.__set_vector(payload, name, value)
         elif self._RESOURCES[name].container is Multivector:
-            self.__set_multivector(storage, name, value)
+            self.__set_multivector(payload, name, value)
         elif self._RESOURCES[name].container is RawData:
-            storage.write(value)
+            payload.write(value)
         else:
-            NotImplementedError
+            raise NotImplementedError()
 
+        self._write_schema(name)
+        storage = self._resource_storage.get(name, False)
+        storage.write(payload.data)
         storage.add_size()
         storage.add_padding()
         storage.close()
-- 
2.43.0


From bc1caf5eaa797568d94dc22a8c4f8f2ce2836d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 15/49] fix: optional fields accept boost::optional values

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 230e861..d4b3fac 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -137,12 +137,13 @@ struct Writer< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
     {
         if ( t )
         {
-            Writer< T, offset, num_bits >{ data } = t;
+            Writer< T, offset, num_bits >{ data } = *t;
         }
         else
         {
             Writer< T, offset, num_bits >{ data } = INVALID_VALUE;
         }
+        return *this;
     }
 };
 
-- 
2.43.0


From 454cd02532908acc763a9445fc20f2660555cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 16/49] fix: describing a schema mismatch stays within the
 stored schema and the diff

---
 flatdata-cpp/src/Archive.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 4fb7a83..c14b947 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -61,23 +61,22 @@ Archive::storage( ) const
 namespace
 {
 std::vector< std::string >
-to_lines( const char* string )
+to_lines( const MemoryDescriptor& text )
 {
     std::vector< std::string > result;
-    if ( string )
+    auto string = text.char_ptr( );
+    const auto end = string + text.size_in_bytes( );
+    while ( string != end )
     {
-        while ( *string )
+        auto begin = string;
+        while ( string != end && *string != '\n' )
         {
-            auto begin = string;
-            while ( *string && *string != '\n' )
-            {
-                string++;
-            }
-            result.emplace_back( begin, string );
-            if ( *string )
-            {
-                string++;
-            }
+            string++;
+        }
+        result.emplace_back( begin, string );
+        if ( string != end )
+        {
+            string++;
         }
     }
 
@@ -88,7 +87,7 @@ std::string
 create_context( const std::vector< std::string >& diff )
 {
     std::string result;
-    std::vector< bool > result_mask( diff.size( ) );
+    std::vector< bool > result_mask( diff.size( ) + 1 );
     size_t context_lines = 3;
 
     int lines_to_go = -1;
@@ -129,13 +128,14 @@ create_context( const std::vector< std::string >& diff )
 }
 
 std::string
-compute_diff( const char* expected, const char* found )
+compute_diff( const char* expected, const MemoryDescriptor& found )
 {
     if ( !found )
     {
         return { };
     }
-    std::vector< std::string > lines_expected = to_lines( expected );
+    std::vector< std::string > lines_expected
+        = to_lines( MemoryDescriptor( expected, std::strlen( expected ) ) );
     std::vector< std::string > lines_found = to_lines( found );
     size_t expected_length = lines_expected.size( ) + 1;
     size_t found_length = lines_found.size( ) + 1;
@@ -259,7 +259,7 @@ Archive::describe( size_t nest_level ) const
                << ( is_root_node ? newl : empty ) << hline;
         result << compute_diff(
             schema( ),
-            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ).char_ptr( ) );
+            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ) );
         return result.str( );
     }
 
-- 
2.43.0


From e0b6b60eb827abb528942a06fc8e49cd2739bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 17/49] fix: a long directory name is not given to the next TAR
 member

---
 flatdata-cpp/src/TarReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 6a35034..9121494 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -156,7 +156,8 @@ read_tar_file_entries( MemoryDescriptor data )
         }
         else if ( header.typeflag == DIRTYPE )
         {
-            // Skip directories
+            // Skip directories, a long name may belong to them
+            long_name.clear( );
         }
         else if ( header.typeflag == GNUTYPE_LONGNAME )
         {
-- 
2.43.0


From 0860ca89881933119341429d1c0662369897e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 18/49] fix: TAR member sizes cannot overflow the offset

---
 flatdata-cpp/src/TarReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 9121494..259a380 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -152,6 +152,10 @@ read_tar_file_entries( MemoryDescriptor data )
             file_entries.emplace_back( file );
 
             const size_t padding = ( BLOCK_SIZE - ( file_size % BLOCK_SIZE ) ) % BLOCK_SIZE;
+            if ( file_size > std::numeric_limits< size_t >::max( ) - padding - offset )
+            {
+                throw std::runtime_error( "Numeric value too large" );
+            }
             offset += file_size + padding;
         }
         else if ( header.typeflag == DIRTYPE )
-- 
2.43.0


From a91aa1149a9dba460efaf361f50cd40f24951744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 19/49] fix: TAR numbers may be padded with spaces

---
 flatdata-cpp/src/TarReader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 259a380..703ca75 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -69,7 +69,12 @@ decode_numeric_field( const char* data, size_t size )
 
     // Decode octal number
     uint64_t value = 0;
-    for ( size_t idx = 0; idx < size && data[ idx ] != '\0'; ++idx )
+    size_t idx = 0;
+    while ( idx < size && data[ idx ] == ' ' )
+    {
+        ++idx;
+    }
+    for ( ; idx < size && data[ idx ] != '\0' && data[ idx ] != ' '; ++idx )
     {
         if ( value > MAX_VALUE / 8 )
         {
-- 
2.43.0


From bc0e335dc214b026c265e05cb683bb81742bf01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 20/49] fix: TAR member names include the ustar prefix

---
 flatdata-cpp/src/TarReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 703ca75..fedf058 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -142,6 +142,14 @@ read_tar_file_entries( MemoryDescriptor data )
         if ( header.typeflag == REGTYPE || header.typeflag == AREGTYPE )
         {
             std::string file_name( header.name, strnlen( header.name, sizeof( header.name ) ) );
+            // POSIX ustar splits long names, GNU uses the prefix area for other purposes
+            if ( std::memcmp( header.magic, "ustar", sizeof( header.magic ) ) == 0
+                 && header.prefix[ 0 ] != '\0' )
+            {
+                file_name = std::string( header.prefix,
+                                         strnlen( header.prefix, sizeof( header.prefix ) ) )
+                            + '/' + file_name;
+            }
             if ( !long_name.empty( ) )
             {
                 file_name = std::move( long_name );
-- 
2.43.0


From 3791b68aeff4a1f596a5dfb16c11dbf837c45b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 21/49] fix: the last TAR member of a name is the one that
 counts

---
 .../include/flatdata/MemoryMappedTarFileStorage.h        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
index cb2da3b..3ec8e28 100644
--- a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
@@ -62,11 +62,10 @@ inline MemoryMappedTarFileStorage::MemoryMappedTarFileStorage( const char* tar_p
     for ( const auto& file : file_entries )
     {
         std::string path = file.name.substr( 0, 2 ) == "./" ? file.name.substr( 2 ) : file.name;
-        m_files.emplace(
-            std::move( path ),
-            MemoryDescriptor(
-                static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
-                std::min( file.size, m_region.get_size( ) - file.offset ) ) );
+        // The last member of a name replaces the previous ones
+        m_files[ std::move( path ) ] = MemoryDescriptor(
+            static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
+            std::min( file.size, m_region.get_size( ) - file.offset ) );
     }
 }
 
-- 
2.43.0


From fec8eb8be9f20600358009fedad0785c26a1be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 22/49] fix: writing to a read-only resource storage reports
 failure

---
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 4 ++++
 flatdata-cpp/src/ResourceStorage.cpp                       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0520da2..566668a 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -134,6 +134,10 @@ ResourceStorage::write_schema( const char* resource_name, const char* schema )
 {
     auto schema_stream
         = create_output_stream( ( std::string( resource_name ) + ".schema" ).c_str( ) );
+    if ( !schema_stream )
+    {
+        return false;
+    }
     *schema_stream << schema;
     schema_stream->flush( );
     return static_cast< bool >( *schema_stream );
diff --git a/flatdata-cpp/src/ResourceStorage.cpp b/flatdata-cpp/src/ResourceStorage.cpp
index d14192e..631a750 100644
--- a/flatdata-cpp/src/ResourceStorage.cpp
+++ b/flatdata-cpp/src/ResourceStorage.cpp
@@ -17,6 +17,10 @@ ResourceStorage::write_to_stream( const char* resource_name,
                                   size_t size_in_bytes )
 {
     auto stream = create_output_stream( resource_name );
+    if ( !stream )
+    {
+        return false;
+    }
     resource_storage::write_to_stream( *stream, size_in_bytes );
     stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     resource_storage::write_padding( *stream );
-- 
2.43.0


From ee32a93c82a7596cb29af7e4ff6001abe023f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 23/49] fix: elements grown after shrinking a vector start
 zeroed

---
 flatdata-cpp/include/flatdata/Vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/Vector.h b/flatdata-cpp/include/flatdata/Vector.h
index 20579bd..4357f80 100644
--- a/flatdata-cpp/include/flatdata/Vector.h
+++ b/flatdata-cpp/include/flatdata/Vector.h
@@ -8,6 +8,7 @@
 #include "ArrayView.h"
 #include "internal/Constants.h"
 
+#include <algorithm>
 #include <type_traits>
 #include <vector>
 
@@ -135,6 +136,8 @@ void
 Vector< T >::resize( size_t size )
 {
     m_data.resize( size * T::size_in_bytes( ) + PADDING_SIZE );
+    // shrinking leaves parts of the removed elements in the padding
+    std::fill( m_data.end( ) - PADDING_SIZE, m_data.end( ), 0 );
 }
 
 template < typename T >
@@ -157,7 +160,7 @@ template < typename T >
 void
 Vector< T >::pop_back( )
 {
-    m_data.resize( m_data.size( ) - T::size_in_bytes( ) );
+    resize( size( ) - 1 );
 }
 
 template < typename T >
-- 
2.43.0


From 0bbc31853fa2e7223ff704d563080329b40e3c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 24/49] fix: an empty view of range structures has no sentinel
 to write

---
 flatdata-cpp/include/flatdata/ArrayView.h       |  3 ++-
 .../include/flatdata/internal/ArrayView.inl     | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ArrayView.h b/flatdata-cpp/include/flatdata/ArrayView.h
index f24d2f7..effe7c9 100644
--- a/flatdata-cpp/include/flatdata/ArrayView.h
+++ b/flatdata-cpp/include/flatdata/ArrayView.h
@@ -49,10 +49,11 @@ public:
     bool empty( ) const;
 
 private:
-    ArrayView( ConstStreamType data, size_t size );
+    ArrayView( ConstStreamType data, size_t size, bool has_sentinel );
 
     ConstStreamType m_data;
     size_t m_size;
+    bool m_has_sentinel;
 };
 
 }  // namespace flatdata
diff --git a/flatdata-cpp/include/flatdata/internal/ArrayView.inl b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
index 76c5a8f..25bfd42 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayView.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
@@ -11,17 +11,19 @@ template < typename T >
 ArrayView< T >::ArrayView( ConstStreamType data_begin, ConstStreamType data_end )
     : m_data( data_begin )
     , m_size( ( data_end - data_begin ) / T::size_in_bytes( ) )
+    , m_has_sentinel( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )
 {
-    if ( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )
+    if ( m_has_sentinel )
     {
         m_size--;
     }
 }
 
 template < typename T >
-ArrayView< T >::ArrayView( ConstStreamType data, size_t size )
+ArrayView< T >::ArrayView( ConstStreamType data, size_t size, bool has_sentinel )
     : m_data( data )
     , m_size( size )
+    , m_has_sentinel( has_sentinel )
 {
 }
 
@@ -50,7 +52,7 @@ template < typename T >
 size_t
 ArrayView< T >::size_in_bytes( ) const
 {
-    return ( m_size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) ) * T::size_in_bytes( );
+    return ( m_size + ( m_has_sentinel ? 1 : 0 ) ) * T::size_in_bytes( );
 }
 
 template < typename T >
@@ -78,28 +80,29 @@ template < typename T >
 ArrayView< T >
 ArrayView< T >::slice( size_t pos, size_t length ) const
 {
-    return ArrayView( m_data + pos * T::size_in_bytes( ), length );
+    return ArrayView( m_data + pos * T::size_in_bytes( ), length, m_has_sentinel );
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice( std::pair< size_t /*start*/, size_t /*end*/ > range ) const
 {
-    return ArrayView( m_data + range.first * T::size_in_bytes( ), range.second - range.first );
+    return ArrayView( m_data + range.first * T::size_in_bytes( ), range.second - range.first,
+                      m_has_sentinel );
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice_before( size_t pos ) const
 {
-    return ArrayView( m_data, pos );
+    return ArrayView( m_data, pos, m_has_sentinel );
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice_after( size_t pos ) const
 {
-    return ArrayView( m_data + pos * T::size_in_bytes( ), m_size - pos );
+    return ArrayView( m_data + pos * T::size_in_bytes( ), m_size - pos, m_has_sentinel );
 }
 
 template < typename T >
-- 
2.43.0


From cfce6135f47b2735f4e6da1de48cba322c79475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 25/49] fix: the distance to a later array view iterator is
 negative

---
 flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
index 7862702..6acf28b 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
@@ -98,7 +98,7 @@ template < typename T >
 typename ArrayViewIterator< T >::difference_type
 ArrayViewIterator< T >::operator-( const ArrayViewIterator& other ) const
 {
-    return ( m_ptr - other.m_ptr ) / T::size_in_bytes( );
+    return ( m_ptr - other.m_ptr ) / static_cast< difference_type >( T::size_in_bytes( ) );
 }
 
 template < typename T >
-- 
2.43.0


From ecc82ade3b5b5c73767793a8d3cfba9504e2c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 26/49] fix: Python reports a schema that is not text as a
 mismatch

---
 flatdata-py/flatdata/lib/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 87df13c..5ee8a1f 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -117,7 +117,7 @@ class Archive:
 
     @staticmethod
     def _check_non_subarchive_schema(name, resource_signature, storage):
-        actual_schema = bytes(storage).decode()
+        actual_schema = bytes(storage).decode(errors="backslashreplace")
         if actual_schema != resource_signature.schema:
             raise SchemaMismatchError(
                 name, resource_signature.schema.splitlines(), actual_schema.splitlines())
-- 
2.43.0


From 6f9f5099141072e05bb532f2910e792b332172f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 27/49] fix: memory storage returns what was written last

---
 .../include/flatdata/MemoryResourceStorage.h    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index f8dbf72..e5b29f9 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -15,6 +15,7 @@
 #include <set>
 #include <sstream>
 #include <stdexcept>
+#include <vector>
 
 namespace flatdata
 {
@@ -24,6 +25,7 @@ class MemoryResourceStorage : public ResourceStorage
     {
         std::map< std::string, std::shared_ptr< std::stringstream > > streams;
         std::map< std::string, std::shared_ptr< std::string > > resources;
+        std::vector< std::shared_ptr< std::string > > replaced_resources;
         std::set< std::string > created_directories;
 
         ~Storage( );
@@ -73,8 +75,16 @@ MemoryResourceStorage::create_output_stream( const char* key )
     std::shared_ptr< std::stringstream > result(
         new std::stringstream( std::ofstream::out | std::ofstream::binary ) );
 
+    const auto path = get_path( key );
     std::lock_guard< std::mutex > lock( m_storage_mutex );
-    m_storage->streams[ get_path( key ) ] = result;
+    m_storage->streams[ path ] = result;
+    // what was read before stays alive, but is not the contents of the resource any more
+    auto found = m_storage->resources.find( path );
+    if ( found != m_storage->resources.end( ) )
+    {
+        m_storage->replaced_resources.push_back( found->second );
+        m_storage->resources.erase( found );
+    }
 
     return result;
 }
@@ -102,6 +112,11 @@ inline MemoryResourceStorage::Storage::~Storage( )
         DebugDataAccessStatistics::deregister_mapping( MemoryDescriptor(
             reinterpret_cast< const unsigned char* >( string->c_str( ) ), string->size( ) ) );
     }
+    for ( auto& string : replaced_resources )
+    {
+        DebugDataAccessStatistics::deregister_mapping( MemoryDescriptor(
+            reinterpret_cast< const unsigned char* >( string->c_str( ) ), string->size( ) ) );
+    }
 #endif
 }
 
-- 
2.43.0


From 5e85ee44935a297416ef022bc6aac72064d473d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 28/49] fix: Python finds subarchives of tar files without
 directory members

---
 flatdata-py/flatdata/lib/tar_archive_resource_storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
index cb5dd55..c1a0e18 100644
--- a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
+++ b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
@@ -35,6 +35,9 @@ class TarArchiveResourceStorage:
                     raise CorruptResourceError("Sparse files are not supported")
                 if file.isreg():
                     file_entries[name] = (file.offset_data, file.size)
+                    # directory members are optional
+                    parts = name.split("/")[:-1]
+                    dir_entries.update("/".join(parts[:i + 1]) for i in range(len(parts)))
                 if file.isdir() and name != ".":
                     dir_entries.add(name)
 
-- 
2.43.0


From a0c6dec10f2b80a81aedf20ed203694571b5cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:55 +0000
Subject: [PATCH 29/49] fix: do not overwrite neighbouring bits when writing
 negative values of signed enumerations (C++)

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index d4b3fac..7ed7c3c 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -53,7 +53,7 @@ struct Writer
         static const int BIT_OFFSET = offset % 8;
 
         auto value_to_store = static_cast< UnsignedType >( t );
-        if ( std::is_signed< T >::value )
+        if ( IsSigned< T >::value )
         {
             // negative numbers are stored as 2-complement, and we need to remove upper bits
             value_to_store = masked< num_bits >( value_to_store );
-- 
2.43.0


From 2cbd7e15fc03e740834133bba55a2df201baf78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 30/49] fix: recognise the constant -1 in optional one-bit
 fields (C++)

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 74c3514..6f1f5c1 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -129,11 +129,15 @@ struct Reader< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
 {
     using StreamType = const unsigned char*;
 
+    // a single bit is read as 0 or 1, also when the constant is -1
+    static const T STORED_INVALID_VALUE
+        = num_bits == 1 ? static_cast< T >( INVALID_VALUE & 1 ) : INVALID_VALUE;
+
     StreamType data;
 
     explicit operator bool( ) const
     {
-        return Reader< T, offset, num_bits >{ data } != INVALID_VALUE;
+        return Reader< T, offset, num_bits >{ data } != STORED_INVALID_VALUE;
     }
 
     T
@@ -145,7 +149,7 @@ struct Reader< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
     template < typename U >
     operator boost::optional< U >( ) const
     {
-        if ( Reader< T, offset, num_bits >{ data } == INVALID_VALUE )
+        if ( Reader< T, offset, num_bits >{ data } == STORED_INVALID_VALUE )
         {
             return { };
         }
-- 
2.43.0


From 79f7a2b9ea96907716b0bda868feabbc646dc1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 31/49] fix: do not limit the size of instances that explicit
 references point at

---
 flatdata-generator/flatdata/generator/tree/builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index bc53a9d..3e67cec 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -15,7 +15,7 @@ from flatdata.generator.tree.nodes.explicit_reference import ExplicitReference
 from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.node import Node
 from flatdata.generator.tree.syntax_tree import SyntaxTree
-from flatdata.generator.tree.nodes.resources import Multivector, Vector, ResourceBase
+from flatdata.generator.tree.nodes.resources import Instance, Multivector, Vector, ResourceBase
 from flatdata.generator.tree.nodes.references import (
     BuiltinStructureReference, ConstantReference, ConstantValueReference,
     EnumerationReference, StructureReference, InvalidValueReference)
@@ -168,6 +168,9 @@ def _compute_max_resource_size(root):
     for reference in root.iterate(ExplicitReference):
         if reference.field.node.type.width == 64:
             continue
+        # an instance is a single object and has no size to limit
+        if isinstance(reference.destination.node, Instance):
+            continue
         ref_limit = 2 ** reference.field.node.type.width
         max_size = reference.destination.node.max_size
         reference.destination.node.max_size = ref_limit if max_size is None or max_size > ref_limit else max_size
-- 
2.43.0


From 49871cf55bd64c1242792529c0033c90fde88dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 32/49] fix: accept nested namespace blocks, as stored schemas
 contain them

---
 flatdata-generator/flatdata/generator/grammar.py    | 10 +++++++---
 .../flatdata/generator/tree/builder.py              | 13 ++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index 034c509..a252b15 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -8,7 +8,7 @@
 from pyparsing import (
     Word, alphas, alphanums, nums, cppStyleComment,
     Keyword, Group, Optional, Or, OneOrMore, delimitedList, ZeroOrMore,
-    hexnums, Combine, FollowedBy, ParseException as pyparsingParseException
+    hexnums, Combine, FollowedBy, Forward, ParseException as pyparsingParseException
 )
 
 ParseException = pyparsingParseException
@@ -195,11 +195,15 @@ flatdata_entry = (
 
 free_comments = Optional(OneOrMore(comment)("comment"))
 
-namespace = Group(
+namespace = Forward()
+namespace <<= Group(
     Keyword("namespace") +
     qualified_identifier("name") +
     "{" +
-    ZeroOrMore(flatdata_entry) + "}" +
+    ZeroOrMore(
+        flatdata_entry |
+        namespace.setResultsName("namespaces", listAllMatches=True)
+    ) + "}" +
     Optional(comment)
 )
 
diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index 3e67cec..3fccdb1 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -79,6 +79,14 @@ def _merge_roots(roots):
     return result
 
 
+def _namespaces_with_paths(namespaces, parent_path=""):
+    for namespace in namespaces:
+        path = parent_path + namespace.name
+        yield path, namespace
+        for item in _namespaces_with_paths(namespace.namespaces, path + Node.PATH_SEPARATOR):
+            yield item
+
+
 def _build_node_tree(definition):
     if not definition:
         return Root()
@@ -91,9 +99,8 @@ def _build_node_tree(definition):
 
     roots = []
 
-    for namespace in parsed.namespace:
-        root_namespace, target_namespace = _create_nested_namespaces(
-            namespace.name)
+    for path, namespace in _namespaces_with_paths(parsed.namespace):
+        root_namespace, target_namespace = _create_nested_namespaces(path)
 
         parsed_items = [
             (namespace.constants, nodes.Constant),
-- 
2.43.0


From 80cf7207305bd5c4fe19cdd69c1c9f8fe2b49dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 33/49] fix: find the archive by its name when loading a Python
 module for inspection

---
 .../flatdata/generator/engine.py              | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/engine.py b/flatdata-generator/flatdata/generator/engine.py
index d568f03..c17c977 100644
--- a/flatdata-generator/flatdata/generator/engine.py
+++ b/flatdata-generator/flatdata/generator/engine.py
@@ -6,7 +6,10 @@
 import types
 
 from flatdata.generator.tree.builder import build_ast
+from flatdata.generator.tree.nodes.archive import Archive
+from flatdata.generator.tree.nodes.references import ArchiveReference
 from flatdata.generator.tree.nodes.trivial.namespace import Namespace
+from flatdata.generator.tree.syntax_tree import SyntaxTree
 
 from .generators.cpp import CppGenerator
 from .generators.dot import DotGenerator
@@ -68,16 +71,24 @@ class Engine:
         :param archive_name: Archive name to lookup,
             if specified, archive type is returned along with the model
         """
-        root_namespace = self._find_root_namespace(self.tree)
+        archive = self._find_archive(self.tree, archive_name) if archive_name else None
+        if module_name is None:
+            if archive is not None:
+                module_name = next(SyntaxTree.namespaces(archive)).name
+            else:
+                module_name = self._find_root_namespace(self.tree).name
+
         module_code = self.render("py")
-        module = types.ModuleType(module_name if module_name is not None else root_namespace.name)
+        module = types.ModuleType(module_name)
         #pylint: disable=exec-used
         exec(module_code, module.__dict__)
         if archive_name is None:
             return module
 
-        name = root_namespace.name + "_" + archive_name
-        archive_type = getattr(module, name) if archive_name else None
+        archive_type = None
+        if archive is not None:
+            archive_type = getattr(
+                module, SyntaxTree.namespace_path(archive, "_") + "_" + archive_name)
         return module, archive_type
 
     @classmethod
@@ -88,6 +99,22 @@ class Engine:
 
         return generator_type()
 
+    @staticmethod
+    def _find_archive(tree, archive_name):
+        """
+        Finds the archive whose reader or builder has the given name. Of several archives of the
+        same name, the one which is not part of another archive is meant.
+        """
+        found = [a for a in tree.root.iterate(Archive)
+                 if archive_name in (a.name, a.name + "Builder")]
+        if len(found) > 1:
+            parts = [r.node for r in tree.root.iterate(ArchiveReference)]
+            found = [a for a in found if a not in parts]
+        if len(found) != 1:
+            raise RuntimeError("%s archive %s." % (
+                "Could not find" if not found else "Ambiguous", archive_name))
+        return found[0]
+
     @staticmethod
     def _find_root_namespace(tree):
         root_children = tree.root.children
-- 
2.43.0


From 0d9569ca9221df0e2009ad7f15f7d37e86190c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 34/49] fix: qualify the enumeration's namespace in generated
 C++ to_string

---
 .../flatdata/generator/templates/cpp/structure.jinja2           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
index 48759d6..2480279 100644
--- a/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
@@ -161,7 +161,7 @@ std::string {{ template_spec }}::to_string( ) const
     ss << "{{ struct.name }} {" << std::endl <<
     {% for member in struct.fields %}
     {% if member.type_reference | is_enumeration_reference %}
-    "    {{ member.name }} : " << {{ member.type_reference.node.parent | cpp_base_type }}::to_string( {{ member.name }} ) << "," << std::endl
+    "    {{ member.name }} : " << {{ member.type_reference.node.parent.path_with("::")[2:] }}::to_string( {{ member.name }} ) << "," << std::endl
     {% elif member.invalid_value %}
     "    {{ member.name }} : " << +*{{ member.name }} << "," << std::endl
     {% else %}
-- 
2.43.0


From 162e602697d6f3f1905f49cd1e5336e64d97bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 35/49] fix: compile limits of signed enumerations that use
 their full width (C++)

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 6f1f5c1..ae9e1ae 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -39,16 +39,23 @@ struct Reader
     {
         bit_width = num_bits
     };
+    enum : bool
+    {
+        // the limits of an enumeration are unsigned as long as its type can represent them
+        has_sign = std::is_signed< T >::value
+                   || ( std::is_signed< typename UnderlyingType< T >::type >::value
+                        && bit_width == sizeof( T ) * 8 )
+    };
     enum : typename UnderlyingType< T >::type
     {
         max = bit_width == 0 ? 0
-                             : ( bit_width - std::is_signed< T >::value
+                             : ( bit_width - has_sign
                                          == sizeof( typename BitsToUnsigned< num_bits >::type ) * 8
                                      ? typename BitsToUnsigned< num_bits >::type( -1 )
                                      : ( typename BitsToUnsigned< num_bits >::type( 1 )
-                                         << ( bit_width - std::is_signed< T >::value ) )
+                                         << ( bit_width - has_sign ) )
                                            - 1 ),
-        min = bit_width == 0 || !std::is_signed< T >::value
+        min = bit_width == 0 || !has_sign
                   ? static_cast< typename UnderlyingType< T >::type >( 0 )
                   : static_cast< typename UnderlyingType< T >::type >( -max - 1 )
     };
-- 
2.43.0


From 779afdb0f22ca383d4ca52a5693bd32a4552f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:55 +0000
Subject: [PATCH 36/49] fix: accept different explicit references whose joined
 names are the same

---
 .../generator/tree/nodes/explicit_reference.py       |  6 ++++++
 .../flatdata/generator/tree/nodes/resources/base.py  | 12 +++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py b/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
index 7f21d23..473ee5a 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
@@ -20,6 +20,12 @@ class ExplicitReference(Node):
         result.insert(StructureReference(name=properties.source_type))
         return result
 
+    def refers_like(self, other):
+        """
+        Whether the other reference has the same field and destination.
+        """
+        return (self.field.name == other.field.name
+                and self.destination.name == other.destination.name)
 
     @property
     def destination(self):
diff --git a/flatdata-generator/flatdata/generator/tree/nodes/resources/base.py b/flatdata-generator/flatdata/generator/tree/nodes/resources/base.py
index e8e92ff..58a372a 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/resources/base.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/resources/base.py
@@ -15,7 +15,17 @@ class ResourceBase(Node, ABC):
             self._decorations = properties.decorations
             for decoration in self._decorations:
                 if 'explicit_reference' in decoration:
-                    self.insert(ExplicitReference.create(properties=decoration.explicit_reference))
+                    self._insert_explicit_reference(
+                        ExplicitReference.create(properties=decoration.explicit_reference))
+
+    def _insert_explicit_reference(self, reference):
+        # Joined names are ambiguous: "P.a -> b_c" and "P.a_b -> c" are different references
+        existing = {r.name: r for r in self.explicit_references}
+        name = reference.name
+        while name in existing and not existing[name].refers_like(reference):
+            name += '_'
+        reference.set_name(name)
+        self.insert(reference)
 
     @abstractmethod
     def create_references(self):
-- 
2.43.0


From b93d6953520903081cbe85169c7b8f39d7205868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:55 +0000
Subject: [PATCH 37/49] fix: reject namespaces that redefine an existing
 definition

---
 flatdata-generator/flatdata/generator/tree/builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index 3fccdb1..c125be0 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -10,7 +10,7 @@ from flatdata.generator.grammar import flatdata_grammar
 from flatdata.generator.tree.errors import (
     InvalidEnumWidthError, InvalidRangeName, InvalidRangeReference,
     InvalidConstReference, InvalidConstValueReference, DuplicateInvalidValueReference,
-    InvalidStructInExplicitReference, OptionalRange)
+    InvalidStructInExplicitReference, OptionalRange, SymbolRedefinition)
 from flatdata.generator.tree.nodes.explicit_reference import ExplicitReference
 from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.node import Node
@@ -47,13 +47,14 @@ def _ensure_namespace(root, path):
         Node.PATH_SEPARATOR), "This method only works with root-level paths"
 
     found = root.get(path)
-    if found is not None:
-        assert isinstance(found, nodes.Namespace)
+    if isinstance(found, nodes.Namespace):
         return found
 
     last_common_parent = root.find_last(path)
     first, last = _create_nested_namespaces(
-        path[len(last_common_parent.path) + 1:])
+        path[len(last_common_parent.path) + 1:] or last_common_parent.name)
+    if not isinstance(last_common_parent, (Root, nodes.Namespace)):
+        raise SymbolRedefinition(duplicate=first, existing=last_common_parent)
     last_common_parent.insert(first)
     return last
 
-- 
2.43.0


From 225f6dd45da3650b61e92c333fc2f87d7bceb19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:55 +0000
Subject: [PATCH 38/49] fix: reject the same explicit reference given twice to
 one resource

---
 flatdata-generator/flatdata/generator/tree/builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index c125be0..13869cd 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -220,6 +220,12 @@ def _check_explicit_references(root):
         for ref in reference.children_like(StructureReference):
             if not ref.target in [x.target for x in reference.parent.children_like(StructureReference)]:
                 raise InvalidStructInExplicitReference(ref.node.name, reference.parent.name)
+    for resource in root.iterate(ResourceBase):
+        references = resource.explicit_references
+        for i, reference in enumerate(references):
+            for existing in references[:i]:
+                if reference.refers_like(existing):
+                    raise SymbolRedefinition(duplicate=reference, existing=existing)
 
 def build_ast(definition):
     """Build the Flatdata syntax tree from a definition"""
-- 
2.43.0


From 847ca07e53e4b6b022e27e6e472a29aa3cd89500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:55 +0000
Subject: [PATCH 39/49] fix: compile bool constants and enumerations over bool
 (Rust)

---
 flatdata-generator/flatdata/generator/generators/rust.py   | 7 ++++++-
 .../flatdata/generator/templates/rust/constant.jinja2      | 2 +-
 .../flatdata/generator/templates/rust/enumeration.jinja2   | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index 7751fee..d3129be 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -79,9 +79,13 @@ class RustGenerator(BaseGenerator):
                     _fully_qualified_name(field.parent, field.type_reference.node))
             return "{}".format(field.type.name)
 
+        def _enum_repr(enum_type):
+            # bool is not a valid representation of an enumeration
+            return "u8" if enum_type.name == "bool" else enum_type.name
+
         def _primitive_type(field):
             if isinstance(field.type, EnumType):
-                return "{}".format(field.type_reference.node.type.name)
+                return _enum_repr(field.type_reference.node.type)
             return "{}".format(field.type.name)
 
         def _fully_qualified_name(current, node):
@@ -90,6 +94,7 @@ class RustGenerator(BaseGenerator):
         env.globals["fully_qualified_name"] = _fully_qualified_name
         env.filters["escape_rust_keywords"] = _escape_rust_keywords
         env.filters["field_type"] = _field_type
+        env.filters["enum_repr"] = _enum_repr
         env.filters["primitive_type"] = _primitive_type
         env.filters['structure_references'] = lambda ls: [
             x for x in ls if (isinstance(x.node, Structure)
diff --git a/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
index 614c6fa..bdd6bd7 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
@@ -3,5 +3,5 @@
 {% if node.doc %}
     {{ node.doc | rust_doc }}
 {% endif %}
-pub const {{ node.name | camel_to_snake_case | upper }}: {{ node.type.name }} = {{ node.value | format_numeric_literal }};
+pub const {{ node.name | camel_to_snake_case | upper }}: {{ node.type.name }} = {% if node.type.name == "bool" %}{{ "true" if node.value else "false" }}{% else %}{{ node.value | format_numeric_literal }}{% endif %};
 {%- endmacro %}
diff --git a/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
index 784ce67..7aad1d4 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
@@ -4,7 +4,7 @@
 {{ enum.doc | rust_doc }}
 {% endif %}
 #[derive(Debug, PartialEq, Eq)]
-#[repr({{ enum.type.name }})]
+#[repr({{ enum.type | enum_repr }})]
 pub enum {{ enum.name }} {
     {% for value in enum.values %}
     {% if value.doc %}
-- 
2.43.0


From bca9525163a67cf5b65861f0650b8113343152a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:24 +0000
Subject: [PATCH 40/49] fix: keep the schemas of resources apart whose names
 differ only in case (Python)

---
 .../flatdata/generator/generators/python.py      |  7 +++++++
 .../generator/templates/py/python.jinja2         | 16 ++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/python.py b/flatdata-generator/flatdata/generator/generators/python.py
index 93b69f4..ceeff70 100644
--- a/flatdata-generator/flatdata/generator/generators/python.py
+++ b/flatdata-generator/flatdata/generator/generators/python.py
@@ -78,6 +78,13 @@ class PythonGenerator(BaseGenerator):
         def _safe_py_string_line(value):
             return value.replace('\\', '\\\\').replace('"', r'\"')
 
+        def _to_constant_name(resource):
+            # Names that differ only in case must not share their constants
+            name = resource.name.upper()
+            same = [r for r in resource.parent.resources if r.name.upper() == name]
+            return name if len(same) == 1 else resource.name
+
+        env.filters["to_constant_name"] = _to_constant_name
         env.filters["safe_py_string_line"] = _safe_py_string_line
         env.filters['to_python_doc'] = to_python_doc
         env.filters['to_container'] = to_container
diff --git a/flatdata-generator/flatdata/generator/templates/py/python.jinja2 b/flatdata-generator/flatdata/generator/templates/py/python.jinja2
index 4465597..9e8f066 100644
--- a/flatdata-generator/flatdata/generator/templates/py/python.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/py/python.jinja2
@@ -33,8 +33,8 @@ class {{ tree.namespace_path(struct, "_") }}_{{ struct.name }}(flatdata.structur
 class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}(flatdata.archive.Archive):
     _SCHEMA = """{{ tree.schema(archive)|safe_py_string_line }}"""
     {% for resource in archive.resources if not resource|is_bound_resource %}
-    _{{ resource.name|upper }}_SCHEMA = """{{ tree.schema(resource)|safe_py_string_line }}"""
-    _{{ resource.name|upper }}_DOC = """{{ resource.doc|safe_py_string_line }}"""
+    _{{ resource|to_constant_name }}_SCHEMA = """{{ tree.schema(resource)|safe_py_string_line }}"""
+    _{{ resource|to_constant_name }}_DOC = """{{ resource.doc|safe_py_string_line }}"""
     {% endfor %}
     _NAME = "{{ archive.name }}"
     _RESOURCES = {
@@ -47,9 +47,9 @@ class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}(flatdata.archiv
     {% for resource in archive.resources if not resource|is_bound_resource %}
         "{{ resource.name }}": flatdata.archive.ResourceSignature(container={{ resource|to_container}},
             initializer={{ resource|to_initializer(tree) }},
-            schema=_{{  resource.name|upper }}_SCHEMA,
+            schema=_{{ resource|to_constant_name }}_SCHEMA,
             is_optional={{ resource.optional }},
-            doc=_{{ resource.name|upper }}_DOC),
+            doc=_{{ resource|to_constant_name }}_DOC),
     {% endfor %}
     }
 
@@ -62,8 +62,8 @@ class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}(flatdata.archiv
 class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}Builder(flatdata.archive_builder.ArchiveBuilder):
     _SCHEMA = """{{ tree.schema(archive)|safe_py_string_line }}"""
     {% for resource in archive.resources if not resource|is_bound_resource %}
-    _{{ resource.name|upper }}_SCHEMA = """{{ tree.schema(resource)|safe_py_string_line }}"""
-    _{{ resource.name|upper }}_DOC = """{{ resource.doc|safe_py_string_line }}"""
+    _{{ resource|to_constant_name }}_SCHEMA = """{{ tree.schema(resource)|safe_py_string_line }}"""
+    _{{ resource|to_constant_name }}_DOC = """{{ resource.doc|safe_py_string_line }}"""
     {% endfor %}
     _NAME = "{{ archive.name }}"
     _RESOURCES = {
@@ -76,9 +76,9 @@ class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}Builder(flatdata
     {% for resource in archive.resources if not resource|is_bound_resource %}
         "{{ resource.name }}": flatdata.archive_builder.ResourceSignature(container={{ resource|to_container}},
             initializer={{ resource|to_initializer(tree) }},
-            schema=_{{  resource.name|upper }}_SCHEMA,
+            schema=_{{ resource|to_constant_name }}_SCHEMA,
             is_optional={{ resource.optional }},
-            doc=_{{ resource.name|upper }}_DOC),
+            doc=_{{ resource|to_constant_name }}_DOC),
     {% endfor %}
     }
 
-- 
2.43.0


From c7b3fd1ec156d6b1c90c24b7102422da9ef504ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 41/49] fix: Rust: report damaged size headers instead of
 overflowing

---
 flatdata-rs/lib/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index d3c4eab..c1a20f9 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -112,7 +112,7 @@ pub trait ResourceStorage: std::fmt::Debug {
         }
 
         let size = flatdata_read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From beb57fa5c9f915a67b414815d72bd09ba4352ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 42/49] fix: Rust: an interrupted writer must not leave a
 resource that looks complete

---
 flatdata-rs/lib/src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index c1a20f9..29b155c 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -307,9 +307,10 @@ impl<'a> ResourceHandle<'a> {
         mut stream: Box<dyn Stream>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. Until then the size is invalid, so that unfinished data cannot be mistaken
+        // for a complete resource.
         {
-            write_size(0u64, &mut stream)?;
+            write_size(SizeType::MAX, &mut stream)?;
         }
         Ok(Self {
             stream,
-- 
2.43.0


From 670b22687b82f58a734dc6e4181e5feb190d9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 43/49] fix: recognise the constant -1 in optional one-bit
 fields (Rust)

---
 .../flatdata/generator/templates/rust/structure.jinja2       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
index bfdce59..924ca77 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
@@ -98,7 +98,12 @@ impl {{ struct.name }} {
         let value = flatdata_read_bytes!({{ field | primitive_type }}, self.data.as_ptr(), {{ field.offset }}, {{ field.type.width }});
         {% if field.invalid_value %}
         let x = unsafe { std::mem::transmute::<{{ field | primitive_type }}, {{ field | field_type }}>(value) };
+        {% if field.type.width == 1 and (field | primitive_type).startswith("i") %}
+        // a single bit is read as 0 or 1, also when the constant is -1
+        Some(x).filter(|&x| x != {{ fully_qualified_name(struct, field.invalid_value.node) }} & 1)
+        {% else %}
         Some(x).filter(|&x| x != {{ fully_qualified_name(struct, field.invalid_value.node) }})
+        {% endif %}
         {% else %}
         unsafe { std::mem::transmute::<{{ field | primitive_type }}, {{ field | field_type }}>(value) }
         {% endif %}
-- 
2.43.0


From 753c2f2fa88295045e382c435215e5713fc11567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 44/49] fix: keep the data handed out by the Rust storages
 alive when threads read at the same time

---
 flatdata-rs/lib/src/filestorage.rs |  9 ++++++---
 flatdata-rs/lib/src/memstorage.rs  | 21 +++++++--------------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index 8e1e14d..558dfb9 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -19,12 +19,15 @@ struct MemoryMappedFileStorage {
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.lock().unwrap().contains_key(path) {
+        // The lock is held throughout: replacing the mapping another thread has just inserted
+        // would unmap the data it was given.
+        let mut maps = self.maps.lock().unwrap();
+        if !maps.contains_key(path) {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.lock().unwrap().insert(path.into(), file_mmap);
+            maps.insert(path.into(), file_mmap);
         }
-        let data = &self.maps.lock().unwrap()[path];
+        let data = &maps[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index 04fdee2..f193003 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -106,25 +106,18 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self
-            .storage
-            .resources
-            .lock()
-            .unwrap()
-            .contains_key(&resource_path)
-        {
-            let streams = self.storage.streams.lock().unwrap();
+        // The locks are held throughout: replacing the data another thread has just inserted
+        // would free the data it was given.
+        let mut resources = self.storage.resources.lock().unwrap();
+        let streams = self.storage.streams.lock().unwrap();
+        if !resources.contains_key(&resource_path) {
             let stream = streams.get(&resource_path);
             match stream {
                 Some(stream) => {
                     // Resource is not yet opened, but there is a stream it was written to
                     // => copy the stream as resource data.
                     let data = Arc::new(stream.lock().unwrap().get_ref().clone());
-                    self.storage
-                        .resources
-                        .lock()
-                        .unwrap()
-                        .insert(resource_path.clone(), data);
+                    resources.insert(resource_path.clone(), data);
                 }
                 None => {
                     return Err(io::Error::new(
@@ -134,7 +127,7 @@ impl ResourceStorage for MemoryResourceStorage {
                 }
             }
         }
-        let data = &self.storage.resources.lock().unwrap()[&resource_path];
+        let data = &resources[&resource_path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From dca07f1f06182ed146c390ace09155b1bf2a483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 45/49] fix: guard memory shared by C++ memory storages of
 different directories with one mutex

---
 flatdata-cpp/include/flatdata/MemoryResourceStorage.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index e5b29f9..1837aa2 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -27,6 +27,7 @@ class MemoryResourceStorage : public ResourceStorage
         std::map< std::string, std::shared_ptr< std::string > > resources;
         std::vector< std::shared_ptr< std::string > > replaced_resources;
         std::set< std::string > created_directories;
+        std::mutex mutex;
 
         ~Storage( );
     };
@@ -57,7 +58,8 @@ private:
 
 private:
     std::shared_ptr< Storage > m_storage;
-    mutable std::mutex m_storage_mutex;
+    // guards all of Storage, also against storages of other directories
+    std::mutex& m_storage_mutex;
     std::string m_path;
 };
 
@@ -99,6 +101,7 @@ MemoryResourceStorage::create( )
 inline MemoryResourceStorage::MemoryResourceStorage( std::shared_ptr< Storage > storage,
                                                      const std::string& path )
     : m_storage( storage )
+    , m_storage_mutex( storage->mutex )
     , m_path( path )
 {
 }
-- 
2.43.0


From b7cd15378562e4c10c8bd74b87651fd5782d62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:33 +0000
Subject: [PATCH 46/49] fix: dot graphs only shorten names that lie in the
 namespace itself

---
 flatdata-generator/flatdata/generator/generators/dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/generators/dot.py b/flatdata-generator/flatdata/generator/generators/dot.py
index 02e97d5..4a461de 100644
--- a/flatdata-generator/flatdata/generator/generators/dot.py
+++ b/flatdata-generator/flatdata/generator/generators/dot.py
@@ -22,7 +22,7 @@ class DotGenerator(BaseGenerator):
         def _field_value_type(field):
             type_name = field.type.name.replace("@@", ".").replace("@", ".")
             namespace_name = field.parent.parent.path
-            if type_name.startswith(namespace_name):
+            if type_name.startswith(namespace_name + "."):
                 type_name = type_name[len(namespace_name):]
             if type_name.startswith("."):
                 type_name = type_name[1:]
-- 
2.43.0


From 49cfccfa4a0b67087f015cb82f4f5235c34b3e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:13 +0000
Subject: [PATCH 47/49] fix: multivectors with more data than their index can
 address are refused

A narrow index silently kept only the low bits of the offsets: the closed
multivector showed wrong items, or crashed its readers.
---
 flatdata-cpp/include/flatdata/MultiVector.h | 16 +++++++++++++---
 flatdata-rs/lib/src/multivector.rs          | 16 ++++++++++++++--
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 62ae109..d1ec517 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -66,8 +66,9 @@ public:
     /**
      * @brief Flushes remaining elements in buffer to disk and closes the multivector.
      *        After the multivector is closed, no elements can be added to it anymore.
-     * @return MultiArrayView to the written data. May fail, in this case the view is
-     *         invalid (cf. bool operator of MultiArrayView).
+     * @return MultiArrayView to the written data. May fail (also when there is more data than
+     *         the index type can address), in this case the view is invalid (cf. bool operator of
+     *         MultiArrayView).
      */
     View close( );
 
@@ -86,6 +87,8 @@ private:
 
     std::unique_ptr< ResourceHandle > m_handle;
     size_t m_size_flushed = 0;
+    // whether the data has outgrown the offsets that fit into the index
+    bool m_index_overflow = false;
 };
 
 // -------------------------------------------------------------------------------------------------
@@ -140,6 +143,10 @@ typename MultiVector< IndexType, Args... >::View
 MultiVector< IndexType, Args... >::close( )
 {
     add_to_index( );  // sentinel for last item
+    if ( m_index_overflow )
+    {
+        return { };
+    }
     flush( );
 
     MemoryDescriptor data = m_handle->close( );
@@ -156,7 +163,10 @@ template < typename IndexType, typename... Args >
 void
 MultiVector< IndexType, Args... >::add_to_index( )
 {
-    m_index.grow( ).value = m_size_flushed + m_data.size( ) - PADDING_SIZE;
+    const uint64_t offset = m_size_flushed + m_data.size( ) - PADDING_SIZE;
+    auto entry = m_index.grow( );
+    entry.value = offset;
+    m_index_overflow |= ( offset >> ( decltype( entry.value )::bit_width - 1 ) ) > 1;
 }
 
 template < typename IndexType, typename... Args >
diff --git a/flatdata-rs/lib/src/multivector.rs b/flatdata-rs/lib/src/multivector.rs
index 4446a73..ab0dd70 100644
--- a/flatdata-rs/lib/src/multivector.rs
+++ b/flatdata-rs/lib/src/multivector.rs
@@ -2,7 +2,7 @@ use crate::{
     error::ResourceStorageError,
     multiarrayview::MultiArrayView,
     storage::ResourceHandle,
-    structs::{IndexStruct, VariadicRefFactory, VariadicStruct},
+    structs::{IndexStruct, Struct, VariadicRefFactory, VariadicStruct},
     vector::ExternalVector,
 };
 
@@ -149,8 +149,20 @@ where
     }
 
     fn add_to_index(&mut self) -> io::Result<()> {
+        let offset = self.size_flushed + self.data.len();
+        // The index type may be too narrow for the offset
+        let mut entries =
+            unsafe { [Ts::Index::create_unchecked(), Ts::Index::create_unchecked()] };
+        entries[0].set_index(offset);
+        if entries[0].range().start != offset {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "multivector has more data than its index type can address",
+            ));
+        }
+
         let idx_mut = self.index.grow()?;
-        Ts::Index::set_index(idx_mut, self.size_flushed + self.data.len());
+        Ts::Index::set_index(idx_mut, offset);
         Ok(())
     }
 
-- 
2.43.0


From 3787888f190274307e90aa55874e03c15e79458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:19 +0000
Subject: [PATCH 48/49] fix: comments of a schema stay comments in generated
 Rust code

---
 flatdata-generator/flatdata/generator/generators/rust.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index d3129be..da1a0ff 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -58,6 +58,14 @@ class RustGenerator(BaseGenerator):
                        r"/// \2", line).strip()
                 for line in expr.split('\n')
             ]
+            # Lines without an asterisk belong to the comment, too, and none may document
+            # the enclosing item
+            lines = [
+                line.replace("//!", "// !", 1) if line.startswith("//!")
+                else line if line.startswith("//") or not line
+                else "/// " + re.sub(r"\s*\*/$", "", line)
+                for line in lines
+            ]
             start = 0
             end = len(lines)
             if lines[0] == "///":
-- 
2.43.0


From f3143e57ea54146b7766dcd9619adec96b626442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:57 +0000
Subject: [PATCH 49/49] fix: clearing the access statistics also forgets reads
 outside of resources

---
 flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
index 9114d6d..2d6d65d 100644
--- a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
+++ b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
@@ -160,6 +160,7 @@ struct DebugDataAccessStatistics
         auto& self = instance( );
         std::unique_lock lock( self.m_mutex );
         self.m_inactive_mappings.clear( );
+        self.m_unregistered_bytes_read = 0;
         for ( auto& mapping : self.m_active_mappings )
         {
             for ( auto& x : mapping.second->accessed )
-- 
2.43.0

