From 98cccac408beaa06b2d431908d8765e2e4358598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 01/51] fix: only add a string terminator if the value does not
 end with it already

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9073e1f..efcb3de 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -196,7 +196,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def _st_data(self, values: tuple[bytes]) -> tuple[StructSerializer, bytes]:
         """Common packing logic."""
         raw_data = values[0]
-        if not raw_data or raw_data[-1] != self.terminator:
+        if raw_data[-1:] != self.terminator:
             # Insert terminator if needed
             raw_data += self.terminator
         count = len(raw_data)
-- 
2.43.0


From dea8af16058e5d9dc40d49bfb877171daf0151b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 02/51] fix: size of terminated strings unpacked at a non-zero
 offset

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index efcb3de..3c3f333 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -227,7 +227,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 end += 1
         except IndexError:
             raise ValueError('unterminated string.') from None
-        self.size = end + 1
+        self.size = end + 1 - offset
         return (bytes(buffer[offset:end]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
-- 
2.43.0


From 1a04ddc73d84275ced7c8ce1f66e10302dd7faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 03/51] fix: empty length-prefixed and .NET strings could not
 be packed or unpacked

---
 structured/serializers/structs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bac49aa..edfc79e 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -188,6 +188,10 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         if not isinstance(other, int):
             return NotImplemented
         elif other == 0:
+            if combine_strings:
+                # A zero length string is still a value
+                byte_order, fmt = self._split_format
+                return type(self)(f'0{fmt[-1]}', byte_order)
             return NullSerializer()
         elif other < 0:
             raise ValueError('count must be non-negative')
-- 
2.43.0


From c69989e3fddfa0b1d4fc73eef219ee30ab3b4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 04/51] fix: length-prefixed strings could not be packed with a
 byte order

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 3c3f333..335c19c 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -71,7 +71,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         raw_data = values[0]
         count = len(raw_data)
-        st = self.st + _single_char @ count
+        st = self.st + (_single_char @ count).with_byte_order(self.st.byte_order)
         self.size = st.size
         return st, count, raw_data
 
-- 
2.43.0


From aee91ce6d5e86848888dd9684c2766cc93618f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 05/51] fix: dynamic arrays of basic items could not be packed
 next to other members

---
 structured/serializers/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index e840cbc..aa77ef3 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -235,7 +235,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         self.count_serializer = count_serializer
         self.item_serializer = item_serializer
-        self.num_values = 0
+        self.num_values = 1
         self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
-- 
2.43.0


From c6c88f82c4f1cb120b8aff6cbe4902573a4af896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 06/51] fix: dynamic arrays of basic items packed alignment
 bytes that unpacking does not skip

---
 structured/serializers/arrays.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index aa77ef3..ec74f23 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -245,30 +245,27 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         )
 
     def _packer(self, values: tuple[list[T]]) -> tuple[Serializer, list[T]]:
+        # NOTE: not joined with the count serializer, since that may insert
+        # alignment bytes in between, which unpacking doesn't expect.
         items = values[0]
-        count = len(items)
-        if count == 0:
-            # Since we'll be modifying its .num_values, we want a copy
-            serializer = StructSerializer(self.count_serializer.format)
-        else:
-            serializer = self.count_serializer + (self.item_serializer * count)
-        serializer.num_values -= 1
-        self.size = serializer.size
+        serializer = self.item_serializer * len(items)
+        self.size = self.count_serializer.size + serializer.size
         return serializer, items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return serializer.pack(serializer.num_values, *items)
+        return self.count_serializer.pack(len(items)) + serializer.pack(*items)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_into(buffer, offset, serializer.num_values, *items)
+        self.count_serializer.pack_into(buffer, offset, len(items))
+        serializer.pack_into(buffer, offset + self.count_serializer.size, *items)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
-        serializer, items = self._packer(values)
-        serializer.pack_write(writable, serializer.num_values, *items)
+        # TODO: Why is the typechecker flagging this?
+        writable.write(self.pack(*values))  # type: ignore
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
-- 
2.43.0


From 4a22b20eadb0abcff6a6e96455c75fc7ef77e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 07/51] fix: arrays of basic items ignored the byte size of
 their header

---
 structured/hint_types/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5021869..e62d056 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -105,7 +105,8 @@ class array(Generic[S, T], list[T], requires_indexing):
             )
         # All good, check for specializations for struct.Struct unpackable
         if (
-            isinstance(item_serializer, StructSerializer)
+            header.data_size is None
+            and isinstance(item_serializer, StructSerializer)
             and item_serializer.num_values == 1
         ):
             if isinstance(header.count, int):
-- 
2.43.0


From a2834a92ba826b3408800fade5b014592900df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 08/51] fix: byte order was not applied to tuple members

---
 structured/serializers/tuples.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ff231bb..04ddf42 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -8,6 +8,7 @@ __all__ = [
 ]
 
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -16,6 +17,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     Ts,
     Unpack,
     WritableBuffer,
@@ -29,6 +31,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)((self.serializer.with_byte_order(byte_order),))
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-- 
2.43.0


From 46a5890b2bc57c986f1b6473c729aa5b5dee63aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 09/51] fix: byte order was not applied to the length prefix of
 unicode members

---
 structured/serializers/strings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 335c19c..c4de9bc 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -369,6 +369,10 @@ class UnicodeSerializer(Serializer[str]):
         self.encoder = encoder
         self.decoder = decoder
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        serializer = self.serializer.with_byte_order(byte_order)
+        return type(self)(serializer, self.encoder, self.decoder)
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-- 
2.43.0


From 7f617d71a20081fdd2d966cf26732fef0af094fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 10/51] fix: byte order was not applied to union members

---
 structured/serializers/unions.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 21b29cc..e14be66 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -11,8 +11,10 @@ __all__ = [
     'LookaheadDecider',
 ]
 
+import copy
 import os
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -21,6 +23,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     WritableBuffer,
     annotated,
     get_union_args,
@@ -53,6 +56,16 @@ class AUnion(Serializer):
         }
         self.size = 0
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        res = copy.copy(self)
+        res.result_map = {
+            key: serializer.with_byte_order(byte_order)
+            for key, serializer in self.result_map.items()
+        }
+        if self.default is not None:
+            res.default = self.default.with_byte_order(byte_order)
+        return res
+
     def get_final(self) -> Optional[Serializer]:
         for serializer in self.result_map.values():
             if serializer.is_final():
@@ -190,6 +203,13 @@ class LookaheadDecider(AUnion):
             )
         self.read_ahead_serializer = serializer
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        res = super().with_byte_order(byte_order)
+        res.read_ahead_serializer = self.read_ahead_serializer.with_byte_order(
+            byte_order
+        )
+        return res
+
     def pack(self, *values: Any) -> bytes:
         result = self.decider(self._partial_object)
         serializer = self.get_serializer(result, True)
-- 
2.43.0


From 756ddbd6eaaa04c69e24b782354104f58c2ece22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 11/51] fix: a final default alternative did not make a union
 final

---
 structured/serializers/unions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index e14be66..79e63d2 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -67,8 +67,8 @@ class AUnion(Serializer):
         return res
 
     def get_final(self) -> Optional[Serializer]:
-        for serializer in self.result_map.values():
-            if serializer.is_final():
+        for serializer in (*self.result_map.values(), self.default):
+            if serializer is not None and serializer.is_final():
                 return serializer.get_final()
 
     @staticmethod
-- 
2.43.0


From bd73d1503be1f0f28b03cc620c8b1245e996e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 12/51] fix: containers could not be read ahead by a
 LookaheadDecider

---
 structured/serializers/unions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 79e63d2..1ddc53e 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -230,22 +230,25 @@ class LookaheadDecider(AUnion):
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
-        readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_read(readable))[0]
+        readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_read(readable)
         self.size = serializer.size
-- 
2.43.0


From 7576fcba2837499f99cef07181a07d1c15db6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 13/51] fix: tuples of non-basic members unpacked to an
 unconsumed generator

---
 structured/serializers/tuples.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 04ddf42..2eadd3d 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -61,12 +61,12 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return self
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
+        return (tuple(self.serializer.preunpack(self._partial_obj).unpack(buffer)),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
-        return (
-            self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
-        )
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack_read(readable),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack_read(readable)),)
-- 
2.43.0


From 9e4d664881e7d36bc11af7761964b97ebc8d3440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 14/51] fix: consuming strings packed into a buffer could
 resize or overrun it

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index c4de9bc..034059e 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -160,7 +160,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     ) -> None:
         data = values[0]
         self.size = len(data)
-        buffer[offset : offset + self.size] = data
+        (_single_char @ self.size).pack_into(buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
-- 
2.43.0


From 787a4f6bf6f5372f32b05847b2dbed23d60a3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 15/51] fix: consuming strings aliased the buffer they were
 unpacked from

---
 structured/serializers/strings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 034059e..247c815 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -169,11 +169,11 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-        return (buffer,)
+        return (bytes(buffer),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         self.size = len(buffer) - offset
-        return (buffer[offset:],)
+        return (bytes(buffer[offset:]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
-- 
2.43.0


From c60e59ebbf0abac11a7f69ab075afc9bd67207b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 16/51] fix: truncated length-prefixed strings were silently
 shortened by unpack

---
 structured/serializers/strings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 247c815..89a04a1 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -112,7 +112,8 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        return (bytes(buffer[self.st.size : self.size]),)
+        st = _single_char @ count
+        return st.unpack(buffer[self.st.size : self.size])
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
-- 
2.43.0


From 2cfbc6be6bfa5ddaa5815f190bea1dde296c77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 17/51] fix: truncated .NET strings were silently shortened

---
 structured/serializers/strings.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 89a04a1..08b46e6 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -28,7 +28,6 @@ from ..type_checking import (
     Union,
     Unpack,
     WritableBuffer,
-    cast,
 )
 from .api import Serializer
 from .structs import StructSerializer
@@ -316,7 +315,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (cast(bytes, buffer[size : size + count]),)
+        return struct.unpack(f'{count}s', buffer[size : size + count])
 
     def unpack_from(
         self,
@@ -344,7 +343,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (readable.read(count),)
+        return struct.unpack(f'{count}s', readable.read(count))
 
 
 Encoder = Callable[[str], bytes]
-- 
2.43.0


From 15df86fdfa704da89c41e5ad03cb86d162c16ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 18/51] fix: joining format strings dropped everything after
 the folded type

---
 structured/serializers/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index edfc79e..2865cdf 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -56,7 +56,7 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
-_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
+_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)$')
 
 
 def fold_overlaps(format1: str, format2: str, combine_strings: bool = False) -> str:
-- 
2.43.0


From be38fae715a9018aa30c18d670d7aa141b77ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 19/51] fix: conditions returning other truthy values than True
 raised KeyError

---
 structured/serializers/conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index fc6299f..4d37866 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -64,7 +64,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[self.condition(partial_object)]
+        return self.serializers[bool(self.condition(partial_object))]
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
         return self.prepack(partial_object)
-- 
2.43.0


From 78726c52041ec3fc795fd2fade1e4a1ae64f00d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 20/51] fix: conditional members did not prepare their
 serializer for packing and unpacking

---
 structured/serializers/conditional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index 4d37866..34c59d0 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -63,11 +63,14 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         defaults = self.serializers[False].values
         return type(self)(serializer, self.condition, defaults)
 
-    def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
+    def _select(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
         return self.serializers[bool(self.condition(partial_object))]
 
+    def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
+        return self._select(partial_object).prepack(partial_object)
+
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.prepack(partial_object)
+        return self._select(partial_object).preunpack(partial_object)
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From 1c881a0eccd7579cd0680be8d891fb85128f43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 21/51] fix: classes with a single conditional member had no
 size

---
 structured/serializers/conditional.py | 55 ++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index 34c59d0..baa66b2 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -48,6 +48,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
             False: SkipSerializer(default),
         }
         self.num_values = serializer.num_values
+        self.size = 0
         if serializer.num_values != len(default):
             expected = len(default)
             raise ValueError(
@@ -67,10 +68,60 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return self.serializers[bool(self.condition(partial_object))]
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self._select(partial_object).prepack(partial_object)
+        serializer = self._select(partial_object).prepack(partial_object)
+        return _SelectedSerializer(self, serializer)
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self._select(partial_object).preunpack(partial_object)
+        serializer = self._select(partial_object).preunpack(partial_object)
+        return _SelectedSerializer(self, serializer)
+
+
+class _SelectedSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
+    """The serializer selected by a condition, which will also update the size
+    of the originating ConditionalSerializer.
+    """
+
+    def __init__(
+        self,
+        origin: ConditionalSerializer[Unpack[Ts]],
+        serializer: Serializer[Unpack[Ts]],
+    ) -> None:
+        self.origin = origin
+        self.serializer = serializer
+        self.num_values = serializer.num_values
+
+    def _update_size(self) -> None:
+        self.size = self.origin.size = self.serializer.size
+
+    def pack(self, *values: Unpack[Ts]) -> bytes:
+        data = self.serializer.pack(*values)
+        self._update_size()
+        return data
+
+    def pack_into(
+        self, buffer: WritableBuffer, offset: int, *values: Unpack[Ts]
+    ) -> None:
+        self.serializer.pack_into(buffer, offset, *values)
+        self._update_size()
+
+    def pack_write(self, writable: BinaryIO, *values: Unpack[Ts]) -> None:
+        self.serializer.pack_write(writable, *values)
+        self._update_size()
+
+    def unpack(self, buffer: ReadableBuffer) -> tuple[Unpack[Ts]]:
+        values = tuple(self.serializer.unpack(buffer))
+        self._update_size()
+        return values
+
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[Unpack[Ts]]:
+        values = tuple(self.serializer.unpack_from(buffer, offset))
+        self._update_size()
+        return values
+
+    def unpack_read(self, readable: BinaryIO) -> tuple[Unpack[Ts]]:
+        values = tuple(self.serializer.unpack_read(readable))
+        self._update_size()
+        return values
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From 4cb243fba6c10e13d4f8561ef13a1af3f9fb0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 22/51] fix: conditional padding was treated as a member

---
 structured/structured.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index bd9038f..0e0cb7a 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -16,7 +16,12 @@ from functools import reduce
 from itertools import count
 
 from .base_types import ByteOrder, ByteOrderMode
-from .serializers import NullSerializer, Serializer, StructSerializer
+from .serializers import (
+    ConditionalSerializer,
+    NullSerializer,
+    Serializer,
+    StructSerializer,
+)
 from .type_checking import (
     Any,
     BinaryIO,
@@ -46,6 +51,8 @@ from .utils import StructuredAlias, attrgetter, zips
 def ispad(annotation: Any) -> bool:
     """Detect pad[x] generated StructSerializers."""
     serializer = annotated.transform(annotation)
+    if isinstance(serializer, ConditionalSerializer):
+        serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
         and serializer.num_values == 0
-- 
2.43.0


From b5aa4a3ddb8917609f2c9bc6fc15593d032ff3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 23/51] fix: size of unions whose alternative unpacks to a
 generator

---
 structured/serializers/unions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 1ddc53e..032dcaa 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -162,19 +162,19 @@ class LookbackDecider(AUnion):
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack(buffer)
+        value = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return value
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_from(buffer, offset)
+        value = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return value
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_read(readable)
+        value = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return value
 
@@ -233,7 +233,7 @@ class LookaheadDecider(AUnion):
         read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
         result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack(buffer)
+        values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
@@ -241,7 +241,7 @@ class LookaheadDecider(AUnion):
         read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_from(buffer, offset)
+        values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
@@ -250,6 +250,6 @@ class LookaheadDecider(AUnion):
         result = tuple(read_ahead.unpack_read(readable))[0]
         readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_read(readable)
+        values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return values
-- 
2.43.0


From cfd9ea9349b6d8b2b23dc87e9d022753e0d143aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 24/51] fix: size of tuples whose only element prepares another
 serializer

---
 structured/serializers/tuples.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 2eadd3d..d830faf 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -30,6 +30,7 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
+        self.size = getattr(self.serializer, 'size', 0)
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         return type(self)((self.serializer.with_byte_order(byte_order),))
@@ -37,36 +38,46 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
-        return self.serializer.prepack(self._partial_obj).pack(*values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
-        self.serializer.prepack(self._partial_obj).pack_into(buffer, offset, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
-        self.serializer.prepack(self._partial_obj).pack_write(writable, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
 
     def preunpack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (tuple(self.serializer.preunpack(self._partial_obj).unpack(buffer)),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack_from(buffer, offset)),)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack_read(readable)),)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return (values,)
-- 
2.43.0


From 93db71a29c7acdd571154b48cd2443601588115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 25/51] fix: surplus tuple elements were silently dropped when
 packing

---
 structured/serializers/tuples.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index d830faf..2e75a29 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -42,7 +42,15 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self._partial_obj = partial_object
         return self
 
+    def _check_length(self, values: tuple[Unpack[Ts]]) -> None:
+        if len(values) != self.serializer.num_values:
+            raise ValueError(
+                f'Tuple length {len(values)} does not match hinted length '
+                f'{self.serializer.num_values}'
+            )
+
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         data = serializer.pack(*values)
         self.size = serializer.size
@@ -51,11 +59,13 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_write(writable, *values)
         self.size = serializer.size
-- 
2.43.0


From bf99d70e58b309f0d1cdab95f028b108ec912060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 26/51] fix: recursive classes could not be unpacked into an
 existing instance

---
 structured/serializers/self.py | 4 +++-
 structured/structured.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/self.py b/structured/serializers/self.py
index b611367..0f75ff3 100644
--- a/structured/serializers/self.py
+++ b/structured/serializers/self.py
@@ -25,7 +25,9 @@ class SelfSerializer(Serializer[Structured]):
         return StructuredSerializer(type(partial_object))
 
     def preunpack(self, partial_object: _Proxy) -> Serializer:
-        return StructuredSerializer(partial_object.cls)
+        # May be an instance already, if its unpack methods are used
+        cls = getattr(partial_object, '__structured_cls__', type(partial_object))
+        return StructuredSerializer(cls)
 
     @classmethod
     def _transform(cls, base_type: Any, hint: Any) -> Any:
diff --git a/structured/structured.py b/structured/structured.py
index 0e0cb7a..969e711 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -481,7 +481,7 @@ class _Proxy:
     # is a proxy for won't be shadowed.
     def __init__(self, cls: type[Structured]) -> None:
         self.__attrs = cls.attrs
-        self.cls = cls
+        self.__structured_cls__ = cls
 
     def __call__(self, values: Iterable[Any]) -> None:
         for attr, value in zips(self.__attrs, values, strict=True):
-- 
2.43.0


From dc11243ba94e716f1b1d2a58c236e58e95709e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 27/51] fix: deciders of array items looked at the wrong object
 in recursive classes

---
 structured/serializers/arrays.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index ec74f23..cb7fbd1 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -108,8 +108,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         data = [b'']
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in values[0]:
+            item_serializer = self.item_serializer.prepack(partial_object)
             data.append(item_serializer.pack(item))
             size += item_serializer.size
         header_values = self._header_pack_values(values[0], size - header_size)
@@ -122,8 +123,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         items = values[0]
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in items:
+            item_serializer = self.item_serializer.prepack(partial_object)
             item_serializer.pack_into(buffer, offset + size, item)
             size += item_serializer.size
         header_values = self._header_pack_values(items, size - header_size)
@@ -138,9 +140,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack(buffer)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack(buffer[size:]))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -151,9 +154,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_from(buffer, offset + size))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -164,9 +168,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_read(readable)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_read(readable))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
-- 
2.43.0


From 4b61d435efbb8b7f8af39431096a89101dc07a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 28/51] fix: generic classes with a byte order could not be
 specialized as a type hint

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 0f0f520..1cbfb9d 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,7 +96,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type):
+                class _Specialized(base_type, byte_order=origin.byte_order):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
-- 
2.43.0


From b30204d3d2be4187613f54d6a8e529deff63f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 29/51] fix: specializing a generic class overwrote attributes
 redefined by the subclass

---
 structured/structured.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structured/structured.py b/structured/structured.py
index 969e711..ff11287 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -391,6 +391,8 @@ class Structured(metaclass=StructuredMeta):
             orig_base = base_to_origbase.get(base, None)
             if orig_base:
                 annotations = base._get_specialization_hints(*get_args(orig_base))
+                # Attributes redefined by this class take precedence
+                annotations |= get_annotations(cls)
                 update_annotations(cls, annotations)
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
-- 
2.43.0


From 060f7890885618b0e07d0df88e9987c1b2a641aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 30/51] fix: attributes redefined in the middle of a generic
 hierarchy were overwritten

---
 structured/structured.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structured/structured.py b/structured/structured.py
index ff11287..4a9ef59 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -469,6 +469,9 @@ class Structured(metaclass=StructuredMeta):
             args = get_args(alias)
             args = (tvar_map.get(arg, arg) for arg in args)
             super_annotations = base._get_specialization_hints(*args)
+            # Attributes redefined by this class take precedence
+            for attr in cls_annotations:
+                super_annotations.pop(attr, None)
             all_annotations.append(super_annotations)
         return reduce(operator.or_, reversed(all_annotations))
 
-- 
2.43.0


From 83d5c1ecffc0cc45c261ffef9539832f4bcc58aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 31/51] fix: subclasses that are generic by way of their base
 could not be specialized

---
 structured/structured.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 4a9ef59..76aa45b 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -27,7 +27,6 @@ from .type_checking import (
     BinaryIO,
     Callable,
     ClassVar,
-    Generic,
     Iterable,
     Iterator,
     Optional,
@@ -436,11 +435,11 @@ class Structured(metaclass=StructuredMeta):
         to be specialized with `args`,
         """
         supers: dict[type[Structured], Any] = {}
-        tvars = ()
+        # NOTE: Generic[...] may be left out if a base class has the TypeVars
+        tvars = getattr(cls, '__parameters__', ())
         for base in getattr(cls, '__orig_bases__', ()):
-            if (origin := get_origin(base)) is Generic:
-                tvars = get_args(base)
-            elif origin and issubclass(origin, Structured):
+            origin = get_origin(base)
+            if origin and issubclass(origin, Structured):
                 supers[origin] = base
         tvar_map = dict(zip(tvars, args))
         if not tvar_map:
-- 
2.43.0


From 04b5013e6e564698d4bcb99ed4f2bc4ef1e298fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 32/51] fix: partially specialized generic members could not be
 specialized further

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 1cbfb9d..6728055 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -106,7 +106,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
                 # subclassing of the containing class.
-                return StructuredAlias(base_type, spec_args)
+                return StructuredAlias(origin, spec_args)
 
 
 annotated.register_transform(StructuredSerializer._transform)
-- 
2.43.0


From 5c4cc1ef044739cd618ddc55f5ef121cbe7eb98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 33/51] fix: TypeVars nested in tuples, arrays and generic
 members were not resolved

---
 structured/hint_types/arrays.py      |  8 +++++---
 structured/hint_types/tuples.py      |  3 ++-
 structured/serializers/structured.py |  6 +++---
 structured/utils.py                  | 13 ++++++++++++-
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index e62d056..9fdda98 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -21,7 +21,7 @@ from ..serializers import (
     StructSerializer,
 )
 from ..type_checking import Annotated, Generic, Optional, S, Self, T, TypeVar, annotated
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, as_alias
 from .basic_types import _SizeTypes
 
 
@@ -88,9 +88,11 @@ class array(Generic[S, T], list[T], requires_indexing):
     def __class_getitem__(cls, args) -> type[list[T]]:
         if not isinstance(args, tuple) or len(args) != 2:
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
-        header, item_type = args
+        header, item_type = args[0], as_alias(args[1])
         # TypeVar checks
-        if isinstance(header, StructuredAlias) or isinstance(item_type, TypeVar):
+        if isinstance(header, StructuredAlias) or isinstance(
+            item_type, (StructuredAlias, TypeVar)
+        ):
             return StructuredAlias(cls, (header, item_type))  # type: ignore
         elif not isinstance(header, Header):
             raise TypeError(f'invalid array header type: {header!r}')
diff --git a/structured/hint_types/tuples.py b/structured/hint_types/tuples.py
index b28f4dd..3c874b5 100644
--- a/structured/hint_types/tuples.py
+++ b/structured/hint_types/tuples.py
@@ -4,12 +4,13 @@ Provides transformations for tuple type hints into serializers.
 
 from ..serializers import Serializer, TupleSerializer
 from ..type_checking import Any, Tuple, TypeVar, annotated, get_tuple_args, istuple
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, as_alias
 
 
 def transform_tuple(base_type: Any, hint: Any) -> Any:
     if istuple(base_type):
         if tuple_args := get_tuple_args(base_type):
+            tuple_args = tuple(as_alias(arg) for arg in tuple_args)
             if any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in tuple_args):
                 return StructuredAlias(Tuple, tuple_args)
             serializers = [annotated.transform(x) for x in tuple_args]
diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 6728055..f239b46 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -21,7 +21,7 @@ from ..type_checking import (
     get_origin,
     safe_issubclass,
 )
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, as_alias
 from .api import Serializer
 
 if TYPE_CHECKING:
@@ -87,9 +87,9 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
         if safe_issubclass(base_type, Structured):
             return StructuredSerializer(base_type)
         elif safe_issubclass((origin := get_origin(base_type)), Structured):
-            spec_args = get_args(base_type)
+            spec_args = tuple(as_alias(arg) for arg in get_args(base_type))
             key = (origin, spec_args)
-            if all(not isinstance(arg, TypeVar) for arg in spec_args):
+            if all(not isinstance(arg, (StructuredAlias, TypeVar)) for arg in spec_args):
                 # Fully specialized, first try the cache
                 try:
                     return cls._specializations[key]
diff --git a/structured/utils.py b/structured/utils.py
index ad88a0a..de0cdb2 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -7,7 +7,7 @@ import sys
 import warnings
 from functools import wraps
 
-from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar
+from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar, annotated
 
 if sys.version_info < (3, 10):
     from typing import overload
@@ -102,6 +102,17 @@ class StructuredAlias:
             return self.cls[resolved]  # type: ignore
 
 
+def as_alias(hint: Any) -> Any:
+    """Replace a type-hint which contains TypeVars at any depth (for example
+    `tuple[T, T]`) with the StructuredAlias which can resolve them.
+
+    :param hint: Type-hint to check.
+    :return: The StructuredAlias, or the type-hint unchanged if there is none.
+    """
+    alias = annotated.transform(hint)
+    return alias if isinstance(alias, StructuredAlias) else hint
+
+
 # nice deprecation warnings, ideas taken from Trio
 class StructuredDeprecationWarning(FutureWarning):
     """Warning emitted if you use deprecated Structured functionality. This
-- 
2.43.0


From 86039cbb9854a0b7144becb48c32a5fbd9664b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 34/51] fix: some serializers required the offset which
 unpack_from defaults to 0

---
 structured/serializers/arrays.py  | 6 +++---
 structured/serializers/structs.py | 2 +-
 structured/serializers/tuples.py  | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index cb7fbd1..322327e 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -150,7 +150,7 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size
         return (items,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
@@ -221,7 +221,7 @@ class StaticStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         return (list(self.serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         return (list(self.serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
@@ -280,7 +280,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size + serializer.size
         return (list(items),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
         serializer = self.item_serializer * count
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 2865cdf..df96eda 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -247,7 +247,7 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         )  # type: ignore
 
     def unpack_from(
-        self, buffer: ReadableBuffer, offset: int = ...
+        self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Unpack[Ts]]:
         return tuple(
             action(value)
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 2e75a29..5db6d9b 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -80,7 +80,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self.size = serializer.size
         return (values,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
+    def unpack_from(
+        self, buffer: ReadableBuffer, offset: int = 0
+    ) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
         values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
-- 
2.43.0


From dd1166b899331d1c8f26bada804dc1fda6e17819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 35/51] fix: consuming strings packed values which are not
 bytestrings

---
 structured/serializers/strings.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 08b46e6..9d9e12e 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -152,20 +152,19 @@ class ConsumingCharSerializer(Serializer[bytes]):
         return self
 
     def pack(self, *values: Unpack[tuple[bytes]]) -> bytes:
-        self.size = len(values[0])
-        return values[0]
+        data = values[0]
+        self.size = len(data)
+        return struct.pack(f'{self.size}s', data)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[bytes]]
     ) -> None:
         data = values[0]
         self.size = len(data)
-        (_single_char @ self.size).pack_into(buffer, offset, data)
+        struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
-        data = values[0]
-        self.size = len(data)
-        writable.write(data)
+        writable.write(self.pack(*values))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-- 
2.43.0


From 3eac1f11085d3a1bb60a1092ac5edfabeb8b0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 36/51] fix: pads named _ collapsed into one with postponed
 annotations

---
 structured/structured.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 76aa45b..9b15404 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -175,18 +175,30 @@ def gen_init(
 
 class MetaDict(dict):
     """Dictionary which assigns unique names for variables named `_` and
-    annotated with `pad`.
+    annotated with `pad`.  Postponed annotations are only strings here, so these
+    also get a unique name, see `restore_names`.
     """
 
     _unique_id: ClassVar[Iterator[int]] = count()
 
     def __setitem__(self, key, value):
-        if key == '_' and ispad(value):
+        if key == '_' and (isinstance(value, str) or ispad(value)):
             # Generate a unique name, we'll use ones that are invalid attribute
             # names so they won't accidentally overwrite anything a use sets.
             key = f'{next(self._unique_id)}_pad_'
         super().__setitem__(key, value)
 
+    def restore_names(self, typehints: dict[str, Any]) -> None:
+        """Undo the renaming of annotations which evaluated to something else
+        than `pad`.
+        """
+        restored = {
+            attr if attr.isidentifier() or ispad(typehints[attr]) else '_': hint
+            for attr, hint in self.items()
+        }
+        self.clear()
+        self.update(restored)
+
 
 class StructuredMeta(type):
     """Metaclass that simply sets the annotations dict to one that automatically
@@ -395,6 +407,9 @@ class Structured(metaclass=StructuredMeta):
                 update_annotations(cls, annotations)
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
+        if isinstance(annotations := get_annotations(cls), MetaDict):
+            annotations.restore_names(typehints)
+            typehints = get_type_hints(cls, include_extras=True)
         applicable_typehints = filter_typehints(typehints, cls)
         # Which variables show up in the __init__
         # Need to ensure 'self' shows up first
-- 
2.43.0


From a0a1527c05d565fd09ac389c5cde541889ee8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:05 +0000
Subject: [PATCH 37/51] fix: array hints as type arguments added a type
 parameter

---
 structured/hint_types/arrays.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 9fdda98..40540a7 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -113,11 +113,11 @@ class array(Generic[S, T], list[T], requires_indexing):
         ):
             if isinstance(header.count, int):
                 return Annotated[
-                    list[T], StaticStructArraySerializer(header.count, item_serializer)
+                    list, StaticStructArraySerializer(header.count, item_serializer)
                 ]
             else:
                 return Annotated[
-                    list[T], DynamicStructArraySerializer(header.count, item_serializer)
+                    list, DynamicStructArraySerializer(header.count, item_serializer)
                 ]
         # General array serializer
         if isinstance(header.count, int):
@@ -134,7 +134,9 @@ class array(Generic[S, T], list[T], requires_indexing):
                 header_serializer = header.count  # no size check
             else:
                 header_serializer = header.count + header.data_size
+        # NOTE: `list[T]` would add T to the parameters of any generic alias this
+        # hint is an argument of.
         return Annotated[
-            list[T],
+            list,
             ArraySerializer[T](header_serializer, item_serializer, static_length),
         ]
-- 
2.43.0


From 1d94ac99a2fcd20054402c959f833711524eeab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:29 +0000
Subject: [PATCH 38/51] fix: corrupt lengths and counts took unbounded time and
 memory to reject

---
 structured/serializers/arrays.py  | 19 +++++++++++++++----
 structured/serializers/structs.py | 27 ++++++++++++++++++++-------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 322327e..13599cd 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -11,6 +11,8 @@ __all__ = [
     'HeaderSerializer',
 ]
 
+import sys
+
 from ..base_types import ByteOrder
 from ..type_checking import (
     BinaryIO,
@@ -272,10 +274,16 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         # TODO: Why is the typechecker flagging this?
         writable.write(self.pack(*values))  # type: ignore
 
+    def _unpacker(self, count: int, available: int) -> Serializer:
+        # NOTE: `count` may be a huge number, if it was read from corrupt data
+        if self.item_serializer.size * count > available:
+            raise ValueError(f'not enough data for an array of {count} items')
+        return self.item_serializer * count
+
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
+        serializer = self._unpacker(count, memoryview(buffer).nbytes - size)
         items = serializer.unpack(buffer[size:])
         self.size = size + serializer.size
         return (list(items),)
@@ -283,7 +291,8 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
+        available = memoryview(buffer).nbytes - offset - size
+        serializer = self._unpacker(count, available)
         items = serializer.unpack_from(buffer, offset + size)
         self.size = size + serializer.size
         return (list(items),)
@@ -291,7 +300,9 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_read(readable)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
-        items = serializer.unpack_read(readable)
+        data = readable.read(min(self.item_serializer.size * count, sys.maxsize))
+        serializer = self._unpacker(count, len(data))
+        data += readable.read(serializer.size - len(data))
+        items = serializer.unpack(data)
         self.size = size + serializer.size
         return (list(items),)
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index df96eda..9bc3a72 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -46,15 +46,19 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
     try:
         return __cache[st.format]
     except KeyError:
-        buffer = bytearray(st.size)
-        # Use struct.Struct so this can be called before full initialization of
-        # subclasses.
-        count = len(struct.Struct.unpack_from(st, buffer))
+        # NOTE: Not by unpacking an empty buffer, which would need as much memory
+        # as the (possibly corrupt) format asks for.
+        count = sum(
+            int(char not in 'sp' and repeat or 1)
+            for repeat, char in _re_code.findall(st.format)
+            if char != 'x'
+        )
         __cache[st.format] = count
         return count
 
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
+_re_code: re.Pattern[str] = re.compile(rf'(\d*)([{_struct_chars}])')
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
 _re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)$')
 
@@ -198,9 +202,18 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         elif other == 1:
             return self
         byte_order, fmt = self._split_format
-        fmt = reduce(
-            partial(fold_overlaps, combine_strings=combine_strings), repeat(fmt, other)
-        )
+        if single := _re_code.fullmatch(fmt):
+            # NOTE: `other` may be a huge number, if it was read from corrupt data
+            count, char = single.groups()
+            if combine_strings or char not in 'sp':
+                fmt = f'{(int(count) if count else 1) * other}{char}'
+            else:
+                fmt *= other
+        else:
+            fmt = reduce(
+                partial(fold_overlaps, combine_strings=combine_strings),
+                repeat(fmt, other),
+            )
         return type(self)(fmt, byte_order)
 
     def __eq__(self, other: StructSerializer) -> bool:
-- 
2.43.0


From b7529a79dfad93a1247a1ff4b3b69ff4c98e598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 39/51] fix: serializers which prepare another one had no size
 as only member of a class

---
 structured/serializers/api.py         | 55 +++++++++++++++++++++++++++
 structured/serializers/conditional.py | 54 +-------------------------
 structured/structured.py              |  9 +++--
 3 files changed, 63 insertions(+), 55 deletions(-)

diff --git a/structured/serializers/api.py b/structured/serializers/api.py
index da865af..edba512 100644
--- a/structured/serializers/api.py
+++ b/structured/serializers/api.py
@@ -28,6 +28,7 @@ from __future__ import annotations
 __all__ = [
     'Serializer',
     'NullSerializer',
+    'PreparedSerializer',
     'CompoundSerializer',
 ]
 
@@ -230,6 +231,60 @@ class NullSerializer(Serializer[Unpack[tuple[()]]]):
         return self.__add__(other)
 
 
+class PreparedSerializer(Serializer[Unpack[Ts]]):
+    """The serializer another one returned from `prepack` or `preunpack`, which
+    will also update the size of the originating serializer.
+    """
+
+    def __init__(
+        self, origin: Serializer[Unpack[Ts]], serializer: Serializer[Unpack[Ts]]
+    ) -> None:
+        self.origin = origin
+        self.serializer = serializer
+        self.num_values = serializer.num_values
+
+    def _update_size(self) -> None:
+        self.size = self.origin.size = self.serializer.size
+
+    def pack(self, *values: Unpack[Ts]) -> bytes:
+        data = self.serializer.pack(*values)
+        self._update_size()
+        return data
+
+    def pack_into(
+        self, buffer: WritableBuffer, offset: int, *values: Unpack[Ts]
+    ) -> None:
+        self.serializer.pack_into(buffer, offset, *values)
+        self._update_size()
+
+    def pack_write(self, writable: BinaryIO, *values: Unpack[Ts]) -> None:
+        self.serializer.pack_write(writable, *values)
+        self._update_size()
+
+    def unpack(self, buffer: ReadableBuffer) -> Iterable:
+        yield from self.serializer.unpack(buffer)
+        self._update_size()
+
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
+        yield from self.serializer.unpack_from(buffer, offset)
+        self._update_size()
+
+    def unpack_read(self, readable: BinaryIO) -> Iterable:
+        yield from self.serializer.unpack_read(readable)
+        self._update_size()
+
+    @classmethod
+    def track_size(cls, origin: Serializer, serializer: Serializer) -> Serializer:
+        """Have `serializer`, which was prepared by `origin`, update the size of
+        `origin`.
+        """
+        if serializer is origin or isinstance(
+            serializer, _SpecializedCompoundSerializer
+        ):
+            return serializer
+        return cls(origin, serializer)
+
+
 class CompoundSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     """A serializer that chains together multiple serializers."""
 
diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index baa66b2..8856151 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -68,60 +68,10 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return self.serializers[bool(self.condition(partial_object))]
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        serializer = self._select(partial_object).prepack(partial_object)
-        return _SelectedSerializer(self, serializer)
+        return self._select(partial_object).prepack(partial_object)
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        serializer = self._select(partial_object).preunpack(partial_object)
-        return _SelectedSerializer(self, serializer)
-
-
-class _SelectedSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-    """The serializer selected by a condition, which will also update the size
-    of the originating ConditionalSerializer.
-    """
-
-    def __init__(
-        self,
-        origin: ConditionalSerializer[Unpack[Ts]],
-        serializer: Serializer[Unpack[Ts]],
-    ) -> None:
-        self.origin = origin
-        self.serializer = serializer
-        self.num_values = serializer.num_values
-
-    def _update_size(self) -> None:
-        self.size = self.origin.size = self.serializer.size
-
-    def pack(self, *values: Unpack[Ts]) -> bytes:
-        data = self.serializer.pack(*values)
-        self._update_size()
-        return data
-
-    def pack_into(
-        self, buffer: WritableBuffer, offset: int, *values: Unpack[Ts]
-    ) -> None:
-        self.serializer.pack_into(buffer, offset, *values)
-        self._update_size()
-
-    def pack_write(self, writable: BinaryIO, *values: Unpack[Ts]) -> None:
-        self.serializer.pack_write(writable, *values)
-        self._update_size()
-
-    def unpack(self, buffer: ReadableBuffer) -> tuple[Unpack[Ts]]:
-        values = tuple(self.serializer.unpack(buffer))
-        self._update_size()
-        return values
-
-    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[Unpack[Ts]]:
-        values = tuple(self.serializer.unpack_from(buffer, offset))
-        self._update_size()
-        return values
-
-    def unpack_read(self, readable: BinaryIO) -> tuple[Unpack[Ts]]:
-        values = tuple(self.serializer.unpack_read(readable))
-        self._update_size()
-        return values
+        return self._select(partial_object).preunpack(partial_object)
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
diff --git a/structured/structured.py b/structured/structured.py
index 9b15404..266ea57 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -19,6 +19,7 @@ from .base_types import ByteOrder, ByteOrderMode
 from .serializers import (
     ConditionalSerializer,
     NullSerializer,
+    PreparedSerializer,
     Serializer,
     StructSerializer,
 )
@@ -239,9 +240,10 @@ class Structured(metaclass=StructuredMeta):
     # General packers/unpackers
     def _serializer(self, packing: bool) -> Serializer:
         if packing:
-            return self.serializer.prepack(self)
+            serializer = self.serializer.prepack(self)
         else:
-            return self.serializer.preunpack(self)
+            serializer = self.serializer.preunpack(self)
+        return PreparedSerializer.track_size(self.serializer, serializer)
 
     def unpack(self, buffer: ReadableBuffer) -> None:
         """Unpack values from the bytes-like `buffer` and assign them to members
@@ -305,7 +307,8 @@ class Structured(metaclass=StructuredMeta):
         new instances of this class.
         """
         proxy = _Proxy(cls)
-        return proxy, cls.serializer.preunpack(proxy)
+        serializer = cls.serializer.preunpack(proxy)
+        return proxy, PreparedSerializer.track_size(cls.serializer, serializer)
 
     @classmethod
     def create_unpack(cls, buffer: ReadableBuffer) -> Self:
-- 
2.43.0


From 9238769c0c800c5361106f5ceec2343ebb8f0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 40/51] fix: packing a terminated string appended the
 terminator to a bytearray in place

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9d9e12e..6b43216 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -197,7 +197,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
         raw_data = values[0]
         if raw_data[-1:] != self.terminator:
             # Insert terminator if needed
-            raw_data += self.terminator
+            raw_data = raw_data + self.terminator
         count = len(raw_data)
         self.size = count
         return _single_char @ count, raw_data
-- 
2.43.0


From ae9e7e1091c820e05ca753b10722c4937a1c9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 41/51] fix: pads with several conditions were treated as
 members

---
 structured/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 266ea57..733159e 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -51,7 +51,7 @@ from .utils import StructuredAlias, attrgetter, zips
 def ispad(annotation: Any) -> bool:
     """Detect pad[x] generated StructSerializers."""
     serializer = annotated.transform(annotation)
-    if isinstance(serializer, ConditionalSerializer):
+    while isinstance(serializer, ConditionalSerializer):
         serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
-- 
2.43.0


From dff0d72e5e7e453a85543af83248874ad0d7d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 42/51] fix: falsy defaults of unions were ignored instead of
 rejected

---
 structured/serializers/unions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 032dcaa..bcf4e48 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -49,7 +49,7 @@ class AUnion(Serializer):
         an unmapped value, or an `Annotated` instance with a Serializer as an
         extra argument.
         """
-        self.default = None if not default else self.validate_serializer(default)
+        self.default = None if default is None else self.validate_serializer(default)
         self.result_map = {
             key: self.validate_serializer(serializer)
             for key, serializer in result_map.items()
-- 
2.43.0


From c768606b833368e0c17ce62178e304d35256317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 43/51] fix: keep the size of an operation when a callback runs
 another one

Initializers, encoders and decoders may pack or unpack other instances of
the same class, which replaced the size of the data just unpacked.
---
 structured/serializers/strings.py | 27 +++++++++++++++++----------
 structured/structured.py          | 16 +++++++++++++---
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 6b43216..79d9078 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -367,6 +367,7 @@ class UnicodeSerializer(Serializer[str]):
         self.serializer = char_serializer
         self.encoder = encoder
         self.decoder = decoder
+        self.size = char_serializer.size
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         serializer = self.serializer.with_byte_order(byte_order)
@@ -375,28 +376,34 @@ class UnicodeSerializer(Serializer[str]):
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
+    # NOTE: The encoder and decoder might use the same serializer, so the size is
+    # set at the end only.
     def pack(self, *values: Unpack[tuple[str]]) -> bytes:
-        return self.serializer.pack(self.encoder(values[0]))
+        data = self.serializer.pack(self.encoder(values[0]))
+        self.size = self.serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[str]]
     ) -> None:
         self.serializer.pack_into(buffer, offset, self.encoder(values[0]))
+        self.size = self.serializer.size
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[str]]) -> None:
         self.serializer.pack_write(writable, self.encoder(values[0]))
+        self.size = self.serializer.size
+
+    def _decode(self, data: bytes) -> tuple[str]:
+        size = self.serializer.size
+        text = self.decoder(data).rstrip('\0')
+        self.size = size
+        return (text,)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[str]:
-        return (self.decoder(self.serializer.unpack(buffer)[0]).rstrip('\0'),)
+        return self._decode(self.serializer.unpack(buffer)[0])
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[str]:
-        return (
-            self.decoder(self.serializer.unpack_from(buffer, offset)[0]).rstrip('\0'),
-        )
+        return self._decode(self.serializer.unpack_from(buffer, offset)[0])
 
     def unpack_read(self, readable: BinaryIO) -> tuple[str]:
-        return (self.decoder(self.serializer.unpack_read(readable)[0]).rstrip('\0'),)
+        return self._decode(self.serializer.unpack_read(readable)[0])
diff --git a/structured/structured.py b/structured/structured.py
index 733159e..660d77e 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -310,6 +310,16 @@ class Structured(metaclass=StructuredMeta):
         serializer = cls.serializer.preunpack(proxy)
         return proxy, PreparedSerializer.track_size(cls.serializer, serializer)
 
+    @classmethod
+    def _create(cls, proxy: _Proxy, serializer: Serializer) -> Self:
+        """Create the instance for a proxy which `serializer` unpacked."""
+        size = serializer.size
+        new_obj = cls(*proxy)
+        if cls.serializer.size != size:
+            # The initializer packed or unpacked other instances
+            cls.serializer.size = size
+        return new_obj
+
     @classmethod
     def create_unpack(cls, buffer: ReadableBuffer) -> Self:
         """Create a new instance, initialized with values unpacked from a
@@ -320,7 +330,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack(buffer))
-        return cls(*proxy)
+        return cls._create(proxy, serializer)
 
     @classmethod
     def create_unpack_from(cls, buffer: ReadableBuffer, offset: int = 0) -> Self:
@@ -333,7 +343,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_from(buffer, offset))
-        return cls(*proxy)
+        return cls._create(proxy, serializer)
 
     @classmethod
     def create_unpack_read(cls, readable: BinaryIO) -> Self:
@@ -345,7 +355,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_read(readable))
-        return cls(*proxy)
+        return cls._create(proxy, serializer)
 
     def __str__(self) -> str:
         """Descriptive representation of this class."""
-- 
2.43.0


From 1ce4dcb77dcbd7515b700474da7c8ffe626ee4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 44/51] fix: deciders may pack or unpack other objects

The object for which the union is prepared was replaced by the other one.
---
 structured/serializers/unions.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index bcf4e48..5019e87 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -88,6 +88,13 @@ class AUnion(Serializer):
         self._partial_object = partial_object
         return self
 
+    def _decide(self) -> Any:
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        # The decider may have packed or unpacked other objects
+        self._partial_object = partial_object
+        return result
+
     def get_serializer(self, decider_result: Any, packing: bool) -> Serializer:
         """Given a target used to decide, return a serializer used to unpack."""
         if self.default is None:
@@ -141,8 +148,7 @@ class LookbackDecider(AUnion):
         self.decider = decider
 
     def decide(self, packing: bool) -> Serializer:
-        result = self.decider(self._partial_object)
-        return self.get_serializer(result, packing)
+        return self.get_serializer(self._decide(), packing)
 
     def pack(self, *values: Any) -> bytes:
         serializer = self.decide(True)
@@ -211,43 +217,46 @@ class LookaheadDecider(AUnion):
         return res
 
     def pack(self, *values: Any) -> bytes:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.get_serializer(self._decide(), True)
         data = serializer.pack(*values)
         self.size = serializer.size
         return data
 
     def pack_into(self, buffer: WritableBuffer, offset: int, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.get_serializer(self._decide(), True)
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.get_serializer(self._decide(), True)
         serializer.pack_write(writable, *values)
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack(buffer))[0]
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack_read(readable))[0]
+        self._partial_object = partial_object
         readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack_read(readable))
-- 
2.43.0


From 9d800a81f9fd224beb898a3f80709830dcce8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 45/51] fix: unpack from buffers with items other than unsigned
 bytes

Slicing an array.array('I') or a multi-dimensional memoryview does not give
the bytes at these positions.
---
 structured/structured.py | 12 +++++++-----
 structured/utils.py      | 30 +++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 660d77e..5bdc411 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -45,7 +45,7 @@ from .type_checking import (
     isclassvar,
     update_annotations,
 )
-from .utils import StructuredAlias, attrgetter, zips
+from .utils import StructuredAlias, attrgetter, byte_view, zips
 
 
 def ispad(annotation: Any) -> bool:
@@ -251,7 +251,7 @@ class Structured(metaclass=StructuredMeta):
         :param buffer: A bytes-like object.
         """
         for attr, value in zips(
-            self.attrs, self._serializer(False).unpack(buffer), strict=True
+            self.attrs, self._serializer(False).unpack(byte_view(buffer)), strict=True
         ):
             setattr(self, attr, value)
 
@@ -275,7 +275,9 @@ class Structured(metaclass=StructuredMeta):
         :param offset: position in the buffer to start from.
         """
         for attr, value in zips(
-            self.attrs, self._serializer(False).unpack_from(buffer, offset), strict=True
+            self.attrs,
+            self._serializer(False).unpack_from(byte_view(buffer), offset),
+            strict=True,
         ):
             setattr(self, attr, value)
 
@@ -329,7 +331,7 @@ class Structured(metaclass=StructuredMeta):
         :return: A new Structured object unpacked from the buffer.
         """
         proxy, serializer = cls._create_proxy()
-        proxy(serializer.unpack(buffer))
+        proxy(serializer.unpack(byte_view(buffer)))
         return cls._create(proxy, serializer)
 
     @classmethod
@@ -342,7 +344,7 @@ class Structured(metaclass=StructuredMeta):
         :return: A new Structured object unpacked from the buffer.
         """
         proxy, serializer = cls._create_proxy()
-        proxy(serializer.unpack_from(buffer, offset))
+        proxy(serializer.unpack_from(byte_view(buffer), offset))
         return cls._create(proxy, serializer)
 
     @classmethod
diff --git a/structured/utils.py b/structured/utils.py
index de0cdb2..623ef29 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -7,7 +7,16 @@ import sys
 import warnings
 from functools import wraps
 
-from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar, annotated
+from .type_checking import (
+    Any,
+    Callable,
+    Optional,
+    ParamSpec,
+    ReadableBuffer,
+    T,
+    TypeVar,
+    annotated,
+)
 
 if sys.version_info < (3, 10):
     from typing import overload
@@ -64,6 +73,25 @@ def attrgetter(*attr_names: str) -> Callable[[Any], tuple[Any, ...]]:
         return _get
 
 
+def byte_view(buffer: ReadableBuffer) -> ReadableBuffer:
+    """Items and slices of a buffer are only bytes if it consists of those, for
+    example not for `array.array('I')`.
+
+    :param buffer: Any object supporting the Buffer Protocol.
+    :return: An object to access the individual bytes of the buffer.
+    """
+    if isinstance(buffer, (bytes, bytearray)):
+        return buffer
+    view = memoryview(buffer)
+    if view.format == 'B' and view.ndim == 1:
+        return buffer
+    try:
+        return view.cast('B')
+    except (TypeError, ValueError):
+        # Not contiguous, or not of a native format
+        return view.tobytes()
+
+
 class StructuredAlias:
     """Class to hold one of the structured types that takes types as arguments,
     which has been passes either another StructuredAlias or a TypeVar.
-- 
2.43.0


From 3f4c31aad509c86e55eefdd964dc5cc21885e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 46/51] fix: StructActionSerializers of different byte orders
 were joined

One of the parts silently got the byte order of the other one.  As for
StructSerializers, this is a ValueError.
---
 structured/serializers/structs.py | 32 +++++++++++++------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 9bc3a72..51862dc 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -147,6 +147,16 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         # any custom logic in pack_write for subclasses
         writable.write(super().pack(*values))
 
+    def _join_formats(self, other: StructSerializer) -> tuple[str, ByteOrder]:
+        byte_order, lfmt = self._split_format
+        byte_order2, rfmt = other._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{self} + {other}'
+            )
+        return fold_overlaps(lfmt, rfmt), byte_order
+
     @overload
     def __add__(
         self, other: StructSerializer[Unpack[Ss]]
@@ -160,17 +170,7 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
     def __add__(self, other: Serializer) -> Serializer:
         if isinstance(other, StructSerializer):
             # Don't need a CompoundSerializer for joining with another Struct
-            byte_order, lfmt = self._split_format
-            byte_order2, rfmt = other._split_format
-            if byte_order is not byte_order2:
-                raise ValueError(
-                    f'Cannot join StructSerializers with different byte orders: '
-                    f'{self} + {other}'
-                )
-            return type(self)(
-                fold_overlaps(lfmt, rfmt),
-                byte_order,
-            )
+            return type(self)(*self._join_formats(other))
         return super().__add__(other)
 
     def __mul__(self, other: int) -> Self:  # no tool to hint the [] yet
@@ -296,11 +296,8 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
             actions = ()
         else:
             return super().__add__(other)
-        byte_order, lfmt = self._split_format
-        _, rfmt = other._split_format
-        fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(self.actions, actions))
-        return type(self)(fmt, byte_order, actions)
+        return type(self)(*self._join_formats(other), actions)
 
     def __radd__(
         self, other: StructSerializer[Unpack[Ss]]
@@ -309,11 +306,8 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
             actions = repeat(noop_action, other.num_values)
         else:
             return NotImplemented
-        byte_order, lfmt = other._split_format
-        _, rfmt = self._split_format
-        fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(actions, self.actions))
-        return type(self)(fmt, byte_order, actions)  # type: ignore
+        return type(self)(*other._join_formats(self), actions)  # type: ignore
 
     def __mul__(self, other: int) -> StructActionSerializer:  # no way to hint this yet
         res = super().__mul__(other)
-- 
2.43.0


From 19c0d4b1dec5225103ba760ebc70288002dc93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 47/51] fix: StructActionSerializer @ count lost the actions

---
 structured/serializers/structs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 51862dc..f13415d 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -314,6 +314,13 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         res.actions = tuple(chain.from_iterable(repeat(self.actions, other)))
         return res
 
+    def __matmul__(self, other: int) -> StructActionSerializer:
+        res = super().__matmul__(other)
+        if isinstance(res, StructActionSerializer):
+            # Still the same values, the strings are just longer
+            res.actions = self.actions
+        return res
+
     def __eq__(self, other: StructSerializer) -> bool:
         if isinstance(other, StructActionSerializer):
             return self.format == other.format and self.actions == other.actions
-- 
2.43.0


From 406a3746c609b9346218590e13f62c18d3b7fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 48/51] fix: count the bytes a stream actually returned when
 reading terminated strings

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 79d9078..a911b70 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -238,7 +238,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 offset = chunk.find(self.terminator)
                 if offset == -1:
                     out.write(chunk)
-                    size += READ_SIZE
+                    size += len(chunk)
                 else:
                     out.write(chunk[:offset])
                     size += offset + 1
-- 
2.43.0


From bf0f9786aafa3f1399b6d5b751172cbdc47dca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 49/51] fix: lengths equal to, but of another type than one
 used before were accepted

---
 structured/hint_types/arrays.py  | 4 ++--
 structured/hint_types/strings.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 40540a7..406a23d 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -9,7 +9,7 @@ __all__ = [
     'Header',
 ]
 
-from functools import cache
+from functools import cache, lru_cache
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -52,7 +52,7 @@ class Header:
         return cls._create(length_kind, size_kind)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         length_kind: int | TypeVar | StructSerializer[int],
diff --git a/structured/hint_types/strings.py b/structured/hint_types/strings.py
index 8abc533..d8a1a96 100644
--- a/structured/hint_types/strings.py
+++ b/structured/hint_types/strings.py
@@ -13,7 +13,7 @@ __all__ = [
 ]
 
 import math
-from functools import cache, partial
+from functools import lru_cache, partial
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -58,7 +58,7 @@ class char(bytes, requires_indexing):
         return cls._create(*args)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
@@ -143,7 +143,7 @@ class unicode(str, requires_indexing):
         return cls._create(count, encoding)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
-- 
2.43.0


From 242ce617338ba8b8399a5e041158002e81f65fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 50/51] fix: resolving a specialization substituted TypeVars in
 what it had substituted

---
 structured/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structured/utils.py b/structured/utils.py
index 623ef29..726ccab 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -117,9 +117,11 @@ class StructuredAlias:
         """
         resolved = []
         for arg in self.args:
-            arg = tvar_map.get(arg, arg)
             if isinstance(arg, StructuredAlias):
                 arg = arg.resolve(tvar_map)
+            else:
+                # NOTE: TypeVars in what one is mapped to are not the same ones
+                arg = tvar_map.get(arg, arg)
             resolved.append(arg)
         resolved = tuple(resolved)
         if any((isinstance(arg, (TypeVar, StructuredAlias)) for arg in resolved)):
-- 
2.43.0


From 64084118b7752aae4d1d04ad26fbd996a5545eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:45 +0000
Subject: [PATCH 51/51] fix: TypeVars in a tuple which was substituted into an
 alias were not found anymore

---
 structured/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structured/utils.py b/structured/utils.py
index 726ccab..8fba08a 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -119,9 +119,9 @@ class StructuredAlias:
         for arg in self.args:
             if isinstance(arg, StructuredAlias):
                 arg = arg.resolve(tvar_map)
-            else:
+            elif isinstance(arg, TypeVar) and arg in tvar_map:
                 # NOTE: TypeVars in what one is mapped to are not the same ones
-                arg = tvar_map.get(arg, arg)
+                arg = as_alias(tvar_map[arg])
             resolved.append(arg)
         resolved = tuple(resolved)
         if any((isinstance(arg, (TypeVar, StructuredAlias)) for arg in resolved)):
-- 
2.43.0

