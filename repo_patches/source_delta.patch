From 4c11b0db65783800f177b6d39bfc61514046c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 01/25] fix: assign an object ID to errors without a cause when
 encoding

V8 and our own decoder assign an ID to every Error, so references following
an Error without a cause pointed to the wrong object.
---
 src/v8serialize/encode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 99d8331..68f5106 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -420,6 +420,9 @@ class WritableTagStream:
                     "cause without CircularErrorCause enabled",
                 ):
                     ctx.encode_object(cause)
+        else:
+            # Readers assign every error an object ID, whether or not it has a cause
+            self.objects.record_reference(identity)
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-- 
2.43.0


From 06f57a595f75e47df5a36a9bb5416559e7f93bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 02/25] fix: assign an object ID to RegExps when encoding

V8 and our own decoder assign an ID to RegExps, so references following a
RegExp pointed to the wrong object.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 68f5106..a7ca403 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -386,6 +386,7 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
@@ -945,7 +946,9 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value))
+        ctx.stream.write_js_regexp(
+            JSRegExp.from_python_pattern(value), identity=value
+        )
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From 410249c8e780744c101be546ac9b00c190e92bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 03/25] fix: assign an object ID to shared and transferred
 ArrayBuffers when decoding

V8 and our own encoder assign IDs to them.
---
 src/v8serialize/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 03abaa3..9e4a910 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -766,7 +766,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kSharedArrayBuffer)
         index = self.read_uint32()
-        return shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        result = shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        self.objects.record_reference(result)
+        return result
 
     def _read_js_array_buffer_transfer(
         self,
@@ -777,7 +779,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferTransfer)
         transfer_id = self.read_uint32()
-        return array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        result = array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        self.objects.record_reference(result)
+        return result
 
     def read_js_array_buffer_view(
         self,
-- 
2.43.0


From 1fe42c0fc22f5138ad4019470cf2292818002f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 04/25] fix: assign an object ID to HostObjects

V8 assigns IDs to HostObjects, so references following a HostObject written
by V8 (e.g. a Node.js Buffer) failed to load or pointed to the wrong object,
and V8 misread references in our data.
---
 src/v8serialize/decode.py | 7 +++++--
 src/v8serialize/encode.py | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9e4a910..fdfafae 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -823,8 +823,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
         if isinstance(deserializer, HostObjectDeserializerObj):
-            return deserializer.deserialize_host_object(stream=self)
-        return deserializer(stream=self)
+            result = deserializer.deserialize_host_object(stream=self)
+        else:
+            result = deserializer(stream=self)
+        self.objects.record_reference(result)
+        return result
 
     def read_v8_shared_object_reference(
         self, tag: bool = False
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index a7ca403..d5cf8d5 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -691,6 +691,7 @@ class WritableTagStream:
     def write_host_object(
         self, value: T, *, serializer: HostObjectSerializer[T]
     ) -> None:
+        self.objects.record_reference(value)
         self.write_tag(SerializationTag.kHostObject)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
-- 
2.43.0


From 7771a6957119d099bdcc31a7752247313d6fec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 05/25] fix: preserve negative zero when 0.0 has already been
 encoded

---
 src/v8serialize/encode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index d5cf8d5..f07b178 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -844,6 +844,10 @@ class DefaultEncodeContext(EncodeContext):
         )
 
     def deduplicate(self, value: T) -> T:
+        # JavaScript primitives have no identity. Values that are equal in Python
+        # are not always the same in JavaScript, e.g. 0.0 and -0.0.
+        if isinstance(value, (int, float, str)):
+            return value
         if getattr(value, "__hash__", None) is not None:
             try:
                 return self._memoized(value)  # type: ignore[no-any-return]
-- 
2.43.0


From a71243f328e744088be2b33fa83e626c8a092171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 06/25] fix: support ints outside the float range in
 same_value_zero()

---
 src/v8serialize/jstypes/_equality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index c1e188b..a74a6a4 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -81,7 +81,8 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         # bools are equal to 0 and 1 by default
         return (bool, value)  # type: ignore[return-value]
     elif isinstance(value, (int, float)):
-        if isnan(value):
+        # isnan() cannot handle ints that are too large to represent as a float
+        if isinstance(value, float) and isnan(value):
             # Represent nan as a value equal to itself.
             return _nankey  # type: ignore[return-value]
         return value  # type: ignore[return-value]
-- 
2.43.0


From 89023308fe9f6f0c5edaf024bf0d3a65ffbfbda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 07/25] fix: report invalid error tags at the end of the stream
 as DecodeV8SerializeError

---
 src/v8serialize/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index fdfafae..c7420e1 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -418,7 +418,7 @@ class ReadableTagStream:
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
-            f"Expected an error tag but found {self.data[self.pos]} "
+            f"Expected an error tag but found {hex(code)} "
             f"(not a valid error tag)"
         )
 
-- 
2.43.0


From ee771d115c4e0d57fc5fdf62695275bd40859aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 08/25] fix: report unrepresentable Dates as
 DecodeV8SerializeError

---
 src/v8serialize/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index c7420e1..5e8acf7 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -518,7 +518,10 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        try:
+            result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        except (OSError, OverflowError, ValueError) as e:
+            self.throw(f"Date cannot be represented as a datetime: {epoch_ms=}", cause=e)
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
-- 
2.43.0


From 44c4585d1e8d50b70ab85bb8346f4dfa6b247fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 09/25] fix: report invalid RegExp flags as
 DecodeV8SerializeError

---
 src/v8serialize/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 5e8acf7..c09adb2 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -409,7 +409,10 @@ class ReadableTagStream:
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
         flags = JSRegExpFlag(self.read_varint())
-        result = JSRegExp(source, flags)
+        try:
+            result = JSRegExp(source, flags)
+        except ValueError as e:
+            self.throw("RegExp has an invalid combination of flags", cause=e)
         return self.objects.record_reference(result), result
 
     def read_error_tag(self) -> SerializationErrorTag:
-- 
2.43.0


From 1630a8c3b60b597b16e31236e2da16bac28956d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 10/25] fix: check resizable ArrayBuffer bounds against the
 data following max_byte_length

---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index c09adb2..88a0995 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -742,11 +742,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kResizableArrayBuffer)
         byte_length = self.read_uint32()
-        if self.pos + byte_length >= len(self.data):
+        max_byte_length = self.read_uint32()
+        if self.pos + byte_length > len(self.data):
             self.throw(
                 f"ArrayBuffer byte length exceeds available data: {byte_length=}"
             )
-        max_byte_length = self.read_uint32()
         if max_byte_length < byte_length:
             self.throw(
                 f"ResizableArrayBuffer max byte length is less than current "
-- 
2.43.0


From 77080a95e92121cc4249d1cfddad722cfa62d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 11/25] fix: only write resizable view flags when
 ResizableArrayBuffers is enabled

---
 src/v8serialize/encode.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index f07b178..b0f0cde 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -681,10 +681,12 @@ class WritableTagStream:
         self.write_uint32(buffer_view.byte_length or 0, tag=None)
 
         flags = ArrayBufferViewFlags(0)
-        if buffer_view.is_backing_buffer_resizable:
-            flags |= ArrayBufferViewFlags.IsBufferResizable
-        if buffer_view.is_length_tracking:
-            flags |= ArrayBufferViewFlags.IsLengthTracking
+        # Resizable buffers are written as non-resizable without this feature
+        if SerializationFeature.ResizableArrayBuffers in self.features:
+            if buffer_view.is_backing_buffer_resizable:
+                flags |= ArrayBufferViewFlags.IsBufferResizable
+            if buffer_view.is_length_tracking:
+                flags |= ArrayBufferViewFlags.IsLengthTracking
 
         self.write_varint(flags)
 
-- 
2.43.0


From 4893a924058d1c70b784e77f88245e864eddf713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 12/25] fix: apply the object key tag constraint to constants

---
 src/v8serialize/encode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index b0f0cde..332fa3a 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -238,8 +238,12 @@ class WritableTagStream:
         self.write_varint(_encode_zigzag(n))
 
     def write_constant(self, constant: ConstantTags) -> None:
-        with self.constrain_tags(JS_CONSTANT_TAGS):
-            self.write_tag(constant)
+        if constant not in JS_CONSTANT_TAGS:
+            raise EncodeV8SerializeError(
+                f"Attempted to write tag {constant.name} as a constant, allowed tags "
+                f"are {JS_CONSTANT_TAGS}"
+            )
+        self.write_tag(constant)
 
     def write_header(self) -> None:
         """Write the V8 serialization stream header."""
-- 
2.43.0


From f05d93dfa9246cbdc469a8dbd6473bc1d96c81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 13/25] fix: allow setting sparse array elements after other
 elements become holes

_sorted_keys is legitimately None when it has been invalidated and fewer than
two elements remain, the assertions were wrong.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fccee7a..3918064 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -526,11 +526,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
                 # Creating a hole invalidates the sorted keys, but if it's the
                 # last value we can update the sorted keys in place in O(1).
 
-                # TODO: ensure we set an empty sorted_keys when
-                #   appending/inserting from empty list
                 sorted_keys = self._sorted_keys
-                assert sorted_keys is not None if len(items) <= 1 else True
-
                 if sorted_keys is None:
                     return
                 if i == sorted_keys[-1]:
@@ -546,9 +542,6 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             # When filling a hole after the last existing element we can update
             # sorted_keys in place in O(1).
             sorted_keys = self._sorted_keys
-            # TODO: ensure we set an empty sorted_keys when appending/inserting
-            #   from empty list
-            assert sorted_keys is not None if len(items) <= 1 else True
             if sorted_keys is not None and i > (
                 -1 if len(sorted_keys) == 0 else sorted_keys[-1]
             ):
-- 
2.43.0


From 8bf3c9e0b4e9e4c2cfac3fe75920c7f58e7c0d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 14/25] fix: extend the length of sparse arrays when appending
 holes

---
 src/v8serialize/jstypes/jsarrayproperties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 3918064..e2c5555 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -591,13 +591,14 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def append(self, value: T | JSHoleType) -> None:
-        if value is JSHole:
-            return
         i = self._max_index + 1
         if i >= MAX_ARRAY_LENGTH:
             raise IndexError(
                 f"Cannot extend array beyond max length: {MAX_ARRAY_LENGTH}"
             )
+        if value is JSHole:
+            self._max_index = i
+            return
 
         items = self._items
         sorted_keys = self._sorted_keys
-- 
2.43.0


From 9aa6613f2b70c1c586c2deb957d65bd323a58632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 15/25] fix: keep trailing holes when creating sparse arrays
 from iterators

---
 src/v8serialize/jstypes/jsarrayproperties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index e2c5555..9b162a4 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -403,8 +403,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if values is not None:
             if length is not None:  # Enforce type signature
                 raise ValueError("length cannot be used with values argument")
-            if supports_sized(values):
-                length = len(values)
+            if not supports_sized(values):
+                values = list(values)
+            length = len(values)
             entries = (
                 (i, v)
                 for i, v in enumerate(cast(Iterable[T], values))
-- 
2.43.0


From be3e547696206cad6536d9b3057ad6fc9db5e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 16/25] fix: allow inserting at the end of sparse arrays

---
 src/v8serialize/jstypes/jsarrayproperties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 9b162a4..4588421 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -574,7 +574,8 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        i = self._normalise_index(i)
+        # Like list.insert(), indexes past the end insert at the end
+        i = len(self) if i >= len(self) else self._normalise_index(i)
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
 
-- 
2.43.0


From 9d3eeb6ecb27ed2e291d6790d3458e76b1bdf862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 17/25] fix: raise KeyError for the index after the end in
 elements() views

---
 src/v8serialize/jstypes/jsarrayproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 4588421..74b2b6a 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -656,7 +656,7 @@ class ArrayPropertiesElementsView(ElementsView[T], Mapping[int, T]):
         self.order = order
 
     def __getitem__(self, key: int, /) -> T:
-        if not (0 <= key <= len(self._array_properties)):
+        if not (0 <= key < len(self._array_properties)):
             raise KeyError(key)
         value = self._array_properties[key]
         if value is not JSHole:
-- 
2.43.0


From 74743bfaa1234fa8d9a0bd9f0ef2efc22cbe1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 18/25] fix: support property names consisting of more digits
 than int() can parse

---
 src/v8serialize/jstypes/_normalise_property_key.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f471247..c376f62 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -2,6 +2,8 @@ from __future__ import annotations
 
 from v8serialize.jstypes.jsarrayproperties import MAX_ARRAY_LENGTH
 
+MAX_ARRAY_INDEX_DIGITS = len(str(MAX_ARRAY_LENGTH))
+
 
 def canonical_numeric_index_string(value: str) -> int | None:
     """Get the int representation of value or None.
@@ -53,6 +55,10 @@ def normalise_property_key(key: str | int | float) -> str | int:
     This reflects the behaviour defined in: https://tc39.es/ecma262/#integer-index
     """
     if isinstance(key, str):
+        # Strings longer than any array index are not array indexes. Python refuses
+        # to parse very long integers, so these must not be parsed.
+        if len(key) > MAX_ARRAY_INDEX_DIGITS:
+            return key
         int_value = canonical_numeric_index_string(key)
         if int_value is None:
             return key
-- 
2.43.0


From 30f5608d5349b95bc241b88fa80f3fd75ed49837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 19/25] fix: limit lengths, counts and other uint32 fields to
 32-bit varints when decoding

V8 reads and writes these as uint32. Formatting huge values in error messages
failed with plain ValueErrors from int to str conversion.
---
 src/v8serialize/decode.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 88a0995..7fecdb5 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -298,7 +298,7 @@ class ReadableTagStream:
         @return the header's version number.
         """
         self.read_tag(SerializationTag.kVersion)
-        version = self.read_varint()
+        version = self.read_varint(max_bits=32)
         # v13 was first released in 2017.
         if version > kLatestVersion or version < 13:
             self.throw(f"Unsupported version {version}")
@@ -317,7 +317,7 @@ class ReadableTagStream:
         """Decode a OneByteString, which is latin1-encoded text."""
         if tag:
             self.read_tag(tag=SerializationTag.kOneByteString)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         self.ensure_capacity(length)
         # Decoding latin1 can't fail/throw — just 1 byte/char.
         # We use codecs.decode because not all ReadableBinary types have a
@@ -329,7 +329,7 @@ class ReadableTagStream:
         """Decode a TwoByteString, which is UTF-16-encoded text."""
         if tag:
             self.read_tag(SerializationTag.kTwoByteString)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         try:
             value = codecs.decode(self.read_bytes(length), "utf-16-le")
         except UnicodeDecodeError as e:
@@ -341,7 +341,7 @@ class ReadableTagStream:
         """Decode a Utf8String, which is UTF8-encoded text."""
         if tag:
             self.read_tag(tag=SerializationTag.kUtf8String)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         try:
             value = codecs.decode(self.read_bytes(length), "utf-8")
         except UnicodeDecodeError as e:
@@ -352,7 +352,7 @@ class ReadableTagStream:
     def read_bigint(self, *, tag: bool = False) -> int:
         if tag:
             self.read_tag(tag=SerializationTag.kBigInt)
-        bitfield = self.read_varint()
+        bitfield = self.read_varint(max_bits=32)
         is_negative = bitfield & 1
         byte_count = (bitfield >> 1) & 0b111111111111111111111111111111
         value = int.from_bytes(self.read_bytes(byte_count), byteorder="little")
@@ -408,7 +408,7 @@ class ReadableTagStream:
             self.read_tag(tag=SerializationTag.kRegExp)
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
-        flags = JSRegExpFlag(self.read_varint())
+        flags = JSRegExpFlag(self.read_varint(max_bits=32))
         try:
             result = JSRegExp(source, flags)
         except ValueError as e:
@@ -417,7 +417,7 @@ class ReadableTagStream:
 
     def read_error_tag(self) -> SerializationErrorTag:
         self.ensure_capacity(1)
-        code = self.read_varint()
+        code = self.read_varint(max_bits=32)
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
@@ -538,7 +538,7 @@ class ReadableTagStream:
         while (next_tag := self.read_tag()) != SerializationTag.kEndJSMap:
             yield ctx.decode_object(tag=next_tag), ctx.decode_object()
             actual_count += 2
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
 
         if expected_count != actual_count:
             self.throw(
@@ -559,7 +559,7 @@ class ReadableTagStream:
             yield ctx.decode_object(tag=next_tag)
             actual_count += 1
 
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
         if expected_count != actual_count:
             self.throw(
                 f"Expected count does not match actual count after reading "
@@ -606,7 +606,7 @@ class ReadableTagStream:
                     f"{JS_OBJECT_KEY_TAGS}"
                 )
 
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
         if expected_count != actual_count:
             self.throw(
                 f"Expected properties count does not match actual count after reading "
@@ -623,7 +623,7 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kBeginDenseJSArray)
         self.objects.record_reference(identity)
         current_array_el_count = 0
-        expected_array_el_count = self.read_varint()
+        expected_array_el_count = self.read_varint(max_bits=32)
 
         for i in range(expected_array_el_count):
             yield i, ctx.decode_object()
@@ -634,7 +634,7 @@ class ReadableTagStream:
             end_tag=SerializationTag.kEndDenseJSArray,
             enclosing_name="DenseJSArray",
         )
-        final_array_el_count = self.read_varint()
+        final_array_el_count = self.read_varint(max_bits=32)
 
         if expected_array_el_count != final_array_el_count:
             self.throw(
@@ -650,7 +650,7 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kBeginSparseJSArray)
         self.objects.record_reference(identity)
-        expected_array_length = self.read_varint()
+        expected_array_length = self.read_varint(max_bits=32)
 
         def read_items() -> Generator[tuple[int | float | str, object], None, int]:
             actual_properties_count = yield from self._read_js_object_properties(
@@ -658,7 +658,7 @@ class ReadableTagStream:
                 end_tag=SerializationTag.kEndSparseJSArray,
                 enclosing_name="SparseJSArray",
             )
-            final_array_length = self.read_varint()
+            final_array_length = self.read_varint(max_bits=32)
             if expected_array_length != final_array_length:
                 self.throw(
                     "Expected array length does not match the final length "
@@ -674,7 +674,7 @@ class ReadableTagStream:
     ) -> tuple[SerializedId, object]:
         if tag:
             self.read_tag(SerializationTag.kObjectReference)
-        serialized_id = SerializedId(self.read_varint())
+        serialized_id = SerializedId(self.read_varint(max_bits=32))
 
         try:
             return serialized_id, self.objects.get_object(serialized_id)
@@ -798,7 +798,7 @@ class ReadableTagStream:
     ) -> ViewT:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferView)
-        raw_view_tag = self.read_varint()
+        raw_view_tag = self.read_varint(max_bits=32)
         if raw_view_tag not in ArrayBufferViewTag:
             self.throw(
                 f"ArrayBufferView view type {hex(raw_view_tag)} is not a known type"
@@ -810,7 +810,7 @@ class ReadableTagStream:
         byte_length = self.read_uint32()
         flags = ArrayBufferViewFlags(0)
         if self.version >= 14:  # flags field was added in v14
-            flags = ArrayBufferViewFlags(self.read_varint())
+            flags = ArrayBufferViewFlags(self.read_varint(max_bits=32))
 
         result = array_buffer_view(
             buffer=backing_buffer,
-- 
2.43.0


From 9c09b997b1dbb88a9cb4e2bc6370f595fe6eebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 20/25] fix: don't write a double's tag when the value is out
 of range

---
 src/v8serialize/encode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 332fa3a..fd5dacc 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -256,8 +256,9 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kDouble] | None = SerializationTag.kDouble,
     ) -> None:
+        encoded = struct.pack("<d", value)  # fails if value is not in range
         self.write_tag(tag)
-        self.data.extend(struct.pack("<d", value))
+        self.data.extend(encoded)
 
     def write_string_onebyte(
         self,
-- 
2.43.0


From 3c84cc6bcb7385e1e0c5ca1b88b680d1abd4b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 21/25] fix: match the places where cycles close when comparing
 cyclic values

Two cyclic objects were considered equal when both were already being
compared, even if they were being compared with other objects. And
objects reached from both sides of a comparison were never equal.
---
 src/v8serialize/_recursive_eq.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 82bbcaf..bc367e4 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -4,7 +4,7 @@ from _thread import get_ident
 from functools import wraps
 from typing import Final, TypeVar
 
-_RUNNING_EQ_KEYS: Final[set[tuple[int, int]]] = set()
+_RUNNING_EQ_KEYS: Final[dict[tuple[int, int, str], int]] = {}
 
 _T = TypeVar("_T")
 
@@ -39,33 +39,38 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
             return True
 
         # Keys are different across threads so that concurrent eq calls are
-        # independent.
+        # independent. The same object can be compared on both sides at once, so
+        # keys are also different for each side.
         thread_id = get_ident()
-        self_key = id(self), thread_id
-        other_key = id(other), thread_id
+        self_key = id(self), thread_id, "self"
+        other_key = id(other), thread_id, "other"
         self_running = self_key in _RUNNING_EQ_KEYS
         other_running = other_key in _RUNNING_EQ_KEYS
 
         # If either side already has __eq__ running in the call stack, we must
         # stop recursing, otherwise we'll infinitely loop.
         if self_running or other_running:
-            # If both sides were already seen, we might be equal (caller decides)
-            # If only one side was running, we can't be equal, as there's a
-            # different structure referencing this point.
-            return self_running and other_running
+            # If both sides were already seen being compared to each other, we
+            # might be equal (caller decides). Otherwise we can't be equal, as
+            # there's a different structure referencing this point.
+            return (
+                self_running
+                and other_running
+                and _RUNNING_EQ_KEYS[self_key] == id(other)
+            )
 
         # Register these objects as running so that we won't descend into them
         # if they are referenced again.
-        _RUNNING_EQ_KEYS.add(self_key)
-        _RUNNING_EQ_KEYS.add(other_key)
+        _RUNNING_EQ_KEYS[self_key] = id(other)
+        _RUNNING_EQ_KEYS[other_key] = id(self)
 
         # Allow the type to do its own equality check as normal, descending into
         # children if required.
         try:
             eq = wrapped_eq(self, other)
         finally:
-            _RUNNING_EQ_KEYS.remove(self_key)
-            _RUNNING_EQ_KEYS.remove(other_key)
+            del _RUNNING_EQ_KEYS[self_key]
+            del _RUNNING_EQ_KEYS[other_key]
         return eq
 
     cls.__eq__ = decorator  # type: ignore[method-assign]
-- 
2.43.0


From dd3c43f85fd419b3a39ce9d1f98b9a6323c212be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 22/25] fix: don't change the buffer when a DataView write's
 value is out of range

---
 src/v8serialize/jstypes/jsbuffers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 16c2fcc..fc282dc 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -937,6 +937,7 @@ data in bulk.
                 byte_length=struct.calcsize(struct_format),
                 buffer_byte_length=len(self.buffer),
             )
+        struct.pack(struct_format, *values)  # pack_into() clears bytes if this fails
         struct.pack_into(struct_format, buffer, byte_offset, *values)
 
     def get_bigint64(self, byte_offset: int, little_endian: bool = False) -> int:
-- 
2.43.0


From f82a7cfaf70348e084a67e3bb0e6c6b643cc80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:01 +0000
Subject: [PATCH 23/25] fix: don't merge equal collections, dates, wrapped
 primitives and views

Values that are equal in Python can be different values in JavaScript: (0.0,)
and (-0.0,), datetimes that differ in fold only, and views of different regions
of a buffer with the same contents.
---
 src/v8serialize/encode.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index fd5dacc..d6e2b29 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -852,8 +852,14 @@ class DefaultEncodeContext(EncodeContext):
 
     def deduplicate(self, value: T) -> T:
         # JavaScript primitives have no identity. Values that are equal in Python
-        # are not always the same in JavaScript, e.g. 0.0 and -0.0.
-        if isinstance(value, (int, float, str)):
+        # are not always the same in JavaScript, e.g. 0.0 and -0.0, and so nor are
+        # collections of them, datetimes that differ in fold or views of buffers.
+        if isinstance(
+            value,
+            (int, float, str, datetime, JSPrimitiveObject, JSArrayBufferView),
+        ) or (
+            isinstance(value, Collection) and not isinstance(value, (bytes, memoryview))
+        ):
             return value
         if getattr(value, "__hash__", None) is not None:
             try:
-- 
2.43.0


From 1b83d583bb7a7f61cf363ccb65fb84dafe60e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 24/25] fix: count bytes, not items, of a JSArrayBuffer's
 existing memory

---
 src/v8serialize/jstypes/jsbuffers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index fc282dc..de605e8 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import functools
 import struct
 from abc import ABC, abstractmethod
-from collections.abc import Sized
 from contextlib import AbstractContextManager, contextmanager
 from dataclasses import dataclass, field
 from enum import Enum
@@ -161,8 +160,9 @@ Reference/Global_Objects/ArrayBuffer
             byte_length = byte_length or 0
             data = b"\x00" * byte_length if readonly else bytearray(byte_length)
 
-        assert isinstance(data, Sized)
-        max_byte_length = len(data) if max_byte_length is None else max_byte_length
+        with memoryview(data) as data_view:
+            byte_length = data_view.nbytes  # len(data) is not its size in bytes
+        max_byte_length = byte_length if max_byte_length is None else max_byte_length
 
         if resizable:
             if not isinstance(data, bytearray):
@@ -177,10 +177,10 @@ Reference/Global_Objects/ArrayBuffer
                 isinstance(data, memoryview) and data.readonly
             )
 
-        if len(data) > max_byte_length:
+        if byte_length > max_byte_length:
             raise ByteLengthJSArrayBufferError(
                 "max_byte_length cannot be less than initial byte_length",
-                byte_length=len(data),
+                byte_length=byte_length,
                 max_byte_length=max_byte_length,
             )
 
-- 
2.43.0


From 6c3f915ab39fe2f79cab4088a51d23fddf905032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:55 +0000
Subject: [PATCH 25/25] fix: repr passes only names that are valid keyword
 arguments as such

---
 src/v8serialize/jstypes/_repr.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 2186e28..2ce0d37 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -6,8 +6,10 @@ from _thread import get_ident
 from collections.abc import Collection, Iterable
 from contextlib import contextmanager
 from itertools import islice
+from keyword import iskeyword
 from reprlib import Repr
 from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
+from unicodedata import normalize
 
 from v8serialize.constants import JSErrorName
 from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties
@@ -157,7 +159,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= obj.array.elements_used
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            _is_keyword_argument_name(k) for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -216,7 +218,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= len(obj.array)
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            _is_keyword_argument_name(k) for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -400,6 +402,17 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{repr_[:-1]}…{repr_[-1:]}"
 
 
+def _is_keyword_argument_name(name: object) -> bool:
+    """Whether `f(name=...)` is valid Python that passes an argument named `name`."""
+    return (
+        isinstance(name, str)
+        and name.isidentifier()
+        and not iskeyword(name)
+        # Python applies NFKC normalisation to identifiers
+        and normalize("NFKC", name) == name
+    )
+
+
 def _contains_single_piece(pieces: list[str]) -> bool:
     if len(pieces) != 1:
         return False
-- 
2.43.0

