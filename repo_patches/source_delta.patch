From 6753c39fc5f8d6b0f3d71f6df7ea11c625cd0ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 01/31] fix: compiled reader must unpack a block of one packed
 and one byte based field

A block like 'uint8 a; char b;' has the format 'Bx', which was mistaken for pure padding.
---
 dissect/cstruct/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 1b608a4..911f3d2 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -330,7 +330,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[1] == "x"):
+        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From 8453923e6298af70001a17c8e3da0bffd7a8294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 02/31] fix: compiled reader of pointers and enum arrays stored
 as arbitrary width integers

Types such as uint24 and uint48 are not unpacked but sliced from the buffer, so the slices of a
pointer (array) or enum array have to be decoded element by element.
---
 dissect/cstruct/compiler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 911f3d2..584e093 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -303,10 +303,15 @@ class _ReadSourceGenerator:
                 reads.append(f"_t = {self._map_field(field)}")
                 reads.append("_et = _t.type")
 
-                if issubclass(field_type.type, Int):
+                if issubclass(read_type, Int):
                     reads.append(f"_b = {getter}")
-                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {field_type.type.size}]")
-                    list_comp = f"[{item_parser} for i in range(0, {count}, {field_type.type.size})]"
+                    getter = f"_b[i:i + {read_type.size}]"
+                    if issubclass(field_type.type, Pointer):
+                        reads.append("_rt = cls.cs.pointer")
+                        item_parser = f"_et.__new__(_et, _rt({getter}), stream, r)"
+                    else:
+                        item_parser = parser_template.format(type="_et", getter=getter)
+                    list_comp = f"[{item_parser} for i in range(0, {count}, {read_type.size})]"
                 elif issubclass(field_type.type, Pointer):
                     item_parser = "_et.__new__(_et, e, stream, r)"
                     list_comp = f"[{item_parser} for e in {getter}]"
@@ -319,6 +324,8 @@ class _ReadSourceGenerator:
                 parser = f"type.__call__({self._map_field(field)}, {getter})"
             elif issubclass(field_type, Pointer):
                 reads.append(f"_pt = {self._map_field(field)}")
+                if issubclass(read_type, Int):
+                    getter = f"cls.cs.pointer({getter})"
                 parser = f"_pt.__new__(_pt, {getter}, stream, r)"
             else:
                 parser = parser_template.format(type=self._map_field(field), getter=getter)
-- 
2.43.0


From 0359c2f803ba7dd3650c2139abd5016d85d43814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:01 +0000
Subject: [PATCH 03/31] fix: compiled reader must start every block of fields
 at its own offset

The reader lost track of its position after bit fields, so packed fields following a bit field, nested
structure or dynamic field in an aligned structure were read without skipping the padding before them.
---
 dissect/cstruct/compiler.py | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 584e093..0500c17 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -137,13 +137,9 @@ class _ReadSourceGenerator:
         prev_was_bits = False
         prev_bits_type = None
         bits_remaining = 0
-        bits_rollover = False
 
         def flush() -> Iterator[str]:
             if current_block:
-                if self.align and current_block[0].offset is None:
-                    yield f"stream.seek(-stream.tell() & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
-
                 yield from self._generate_packed(current_block)
                 current_block[:] = []
 
@@ -170,6 +166,7 @@ class _ReadSourceGenerator:
             if prev_was_bits and not field.bits:
                 yield "bit_reader.reset()"
                 prev_was_bits = False
+                prev_bits_type = None
                 bits_remaining = 0
 
             try:
@@ -198,25 +195,45 @@ class _ReadSourceGenerator:
                 if size is None:
                     raise TypeError(f"Unsupported type for bit field: {field_type}")
 
-                if not prev_was_bits:
-                    prev_bits_type = field_type
-                    prev_was_bits = True
+                prev_was_bits = True
+
+                yield from flush()
 
                 if bits_remaining == 0 or prev_bits_type != field_type:
-                    bits_remaining = (size * 8) - field.bits
-                    bits_rollover = True
+                    # Start of a new storage unit, the other fields in the unit are read from the bit buffer
+                    prev_bits_type = field_type
+                    bits_remaining = size * 8
+                    yield from align_to_field(field)
 
-                yield from flush()
-                yield from align_to_field(field)
+                    if current_offset is not None:
+                        current_offset += size
+
+                bits_remaining -= field.bits
                 yield from self._generate_bits(field)
+                continue
 
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if current_block and (
+                    # The offsets within a block are only known if the start of the block is sufficiently aligned
+                    (self.align and field.offset is None and field.alignment > current_block[0].alignment)
+                    # A block can only move forward
+                    or (field.offset is not None and current_offset is not None and field.offset < current_offset)
+                ):
+                    yield from flush()
+
+                if not current_block:
+                    yield from align_to_field(field)
                 current_block.append(field)
 
-            if current_offset is not None and size is not None and (not field.bits or bits_rollover):
+                if field.offset is not None:
+                    current_offset = field.offset
+
+            if size is None:
+                # From here on we no longer know our exact offset
+                current_offset = None
+            elif current_offset is not None:
                 current_offset += size
-                bits_rollover = False
 
         yield from flush()
 
-- 
2.43.0


From ae56cdec4531f9c7ee4effc9f05684c834201cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 04/31] fix: bit fields sharing a storage unit stay in that
 unit in aligned and dynamic structures

---
 dissect/cstruct/types/structure.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a1074af..7e42dfa 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -174,18 +174,20 @@ class StructureMetaType(MetaType):
                 # If a field already has an offset, it's leading
                 offset = field.offset
 
-            if align and offset is not None:
-                # Round to next alignment
+            storage_type = field.type.type if isinstance(field.type, EnumMetaType) else field.type
+            in_bit_field = bool(
+                field.bits and field.offset is None and bits_remaining != 0 and storage_type == bits_type
+            )
+
+            if align and offset is not None and not in_bit_field:
+                # Round to next alignment, fields that share a bit field storage unit have already been placed
                 offset += -offset & (field.alignment - 1)
 
             # The alignment of this struct is equal to its largest members' alignment
             alignment = max(alignment, field.alignment)
 
             if field.bits:
-                field_type = field.type
-
-                if isinstance(field_type, EnumMetaType):
-                    field_type = field_type.type
+                field_type = storage_type
 
                 # Bit fields have special logic
                 if (
@@ -194,7 +196,12 @@ class StructureMetaType(MetaType):
                     # Moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
                     or field_type != bits_type
                     # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
-                    or (bits_type is not None and offset > bits_field_offset + bits_type.size)
+                    or (
+                        bits_type is not None
+                        and offset is not None
+                        and bits_field_offset is not None
+                        and offset > bits_field_offset + bits_type.size
+                    )
                 ):
                     # ... if any of this is true, we have to move to the next field
                     bits_type = field_type
@@ -253,7 +260,10 @@ class StructureMetaType(MetaType):
                 offset = struct_start + field.offset
                 stream.seek(offset)
 
-            if cls.__align__ and field.offset is None:
+            storage_type = field.type.type if isinstance(field.type, EnumMetaType) else field.type
+            in_bit_field = field.bits and bit_buffer._remaining != 0 and bit_buffer._type == storage_type
+
+            if cls.__align__ and field.offset is None and not in_bit_field:
                 # Previous field was dynamically sized and we need to align
                 offset += -offset & (field.alignment - 1)
                 stream.seek(offset)
-- 
2.43.0


From 3cac32cec266723dd22c58720cb81548d02ec8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 05/31] fix: bit fields follow the byte order of native endian
 cstruct instances

---
 dissect/cstruct/bitbuffer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 57b1fb4..5c3a925 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import sys
 from typing import TYPE_CHECKING, BinaryIO
 
 if TYPE_CHECKING:
@@ -10,6 +11,10 @@ class BitBuffer:
     """Implements a bit buffer that can read and write bit fields."""
 
     def __init__(self, stream: BinaryIO, endian: str):
+        if endian in ("@", "="):
+            # Native byte order
+            endian = "<" if sys.byteorder == "little" else ">"
+
         self.stream = stream
         self.endian = endian
 
-- 
2.43.0


From 2fc24fffd7ff3e8798e5e98dcd6627458fc183ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 06/31] fix: refuse to write a bit field value that does not
 fit instead of corrupting its neighbours

---
 dissect/cstruct/bitbuffer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 5c3a925..8136d6b 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -65,6 +65,12 @@ class BitBuffer:
         if self._type is None or self._type.size is None:
             raise ValueError("Invalid state")
 
+        if bits > self._remaining:
+            raise ValueError("Writing straddled bits is unsupported")
+
+        if not 0 <= data < (1 << bits):
+            raise ValueError(f"Value {data} does not fit in a bit field of {bits} bits")
+
         if self.endian == "<":
             self._buffer |= data << (self._type.size * 8 - self._remaining)
         else:
-- 
2.43.0


From 5878048f20511afd54ed1a8f05445e202bf688bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 07/31] fix: write signed bit field storage units of which the
 top bit is set

---
 dissect/cstruct/bitbuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 8136d6b..aff7bf9 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -82,7 +82,8 @@ class BitBuffer:
 
     def flush(self) -> None:
         if self._type is not None:
-            self._type._write(self.stream, self._buffer)
+            # Write the raw storage unit, the top bit of a signed type is an ordinary bit here
+            self.stream.write(self._buffer.to_bytes(self._type.size, "little" if self.endian == "<" else "big"))
         self._type = None
         self._remaining = 0
         self._buffer = 0
-- 
2.43.0


From a7a760d52fba09ded8df199ad26fe3aa72d67dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:55 +0000
Subject: [PATCH 08/31] fix: compiled reader must not share a bit field storage
 unit between char and uint8

---
 dissect/cstruct/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 0500c17..0d268b3 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -201,6 +201,10 @@ class _ReadSourceGenerator:
 
                 if bits_remaining == 0 or prev_bits_type != field_type:
                     # Start of a new storage unit, the other fields in the unit are read from the bit buffer
+                    if bits_remaining != 0 and (issubclass(field_type, Char) or issubclass(prev_bits_type, Char)):
+                        # The bits of a char are read using uint8, so explicitly leave the storage unit of the other
+                        yield "bit_reader.reset()"
+
                     prev_bits_type = field_type
                     bits_remaining = size * 8
                     yield from align_to_field(field)
-- 
2.43.0


From 5a7a12cfa4585d8f438b4d44ea8391bb964770b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:55 +0000
Subject: [PATCH 09/31] fix: compiled reader of byte blocks that contain empty
 arrays

---
 dissect/cstruct/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 0d268b3..daf5787 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -287,6 +287,7 @@ class _ReadSourceGenerator:
 
         size = 0
         slice_index = 0
+        uses_data = False
         for field, count, _ in info:
             if field is None:
                 # Padding
@@ -306,11 +307,13 @@ class _ReadSourceGenerator:
                 else:
                     getter = f"data[{slice_index}:{slice_index + count}]"
                     slice_index += count
+                    uses_data = True
             elif issubclass(read_type, (Char, Wchar, Int)):
                 getter = f"buf[{size}:{size + read_type.size}]"
             else:
                 getter = f"data[{slice_index}]"
                 slice_index += 1
+                uses_data = True
 
             if issubclass(read_type, (Wchar, Int)):
                 # Types that parse bytes further down to their own type
@@ -358,7 +361,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
+        if not uses_data and (fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x")):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From 8d48e9cba500d79e71045c1a8ef66ac826f628d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 10/31] fix: structures with fields named cls or self can be
 initialized by keyword

---
 dissect/cstruct/types/base.py      |  2 +-
 dissect/cstruct/types/structure.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 0c9e527..97dd78b 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -32,7 +32,7 @@ class MetaType(type):
     ArrayType: type[BaseArray] = "Array"
     """The array type for this type class."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
         if len(args) == 1 and not isinstance(args[0], cls):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 7e42dfa..c474583 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -67,7 +67,7 @@ class StructureMetaType(MetaType):
 
         return super().__new__(metacls, name, bases, classdict)
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
@@ -415,7 +415,7 @@ class Structure(BaseType, metaclass=StructureMetaType):
 class UnionMetaType(StructureMetaType):
     """Base metaclass for cstruct union type classes."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         obj: Union = super().__call__(*args, **kwargs)
 
         # Calling with non-stream args or kwargs means we are initializing with values
@@ -790,9 +790,9 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     template: FunctionType = _make_structure__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
-            co_consts=(None, *[field.type.__default__() for field in fields]),
+            co_consts=(None, *[_field_default(field) for field in fields]),
             co_names=(*field_names,),
-            co_varnames=("self", *field_names),
+            co_varnames=("__self__" if "self" in field_names else "self", *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
@@ -812,9 +812,9 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
         template.__code__.replace(
             co_consts=(
                 None,
-                *sum([(field._name, field.type.__default__()) for field in fields], ()),
+                *sum([(field._name, _field_default(field)) for field in fields], ()),
             ),
-            co_varnames=("self", *field_names),
+            co_varnames=("__self__" if "self" in field_names else "self", *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
-- 
2.43.0


From 564987251f472d47d26da9ee93d50bcab7101d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 11/31] fix: char bit fields have a number as value in every
 form of initialization

---
 dissect/cstruct/types/structure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c474583..92cfca9 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -73,6 +73,7 @@ class StructureMetaType(MetaType):
             and len(args) == len(cls.__fields__) == 1
             and isinstance(args[0], bytes)
             and issubclass(cls.__fields__[0].type, bytes)
+            and not cls.__fields__[0].bits
             and len(args[0]) == cls.__fields__[0].type.size
         ):
             # Shortcut for single char/bytes type
@@ -341,7 +342,7 @@ class StructureMetaType(MetaType):
 
             value = getattr(data, field._name, None)
             if value is None:
-                value = field_type.__default__()
+                value = _field_default(field)
 
             if field.bits:
                 if isinstance(field_type, EnumMetaType):
@@ -576,7 +577,7 @@ class Union(Structure, metaclass=UnionMetaType):
             buf.seek(field.offset)
 
         if (value := getattr(self, attr)) is None:
-            value = field.type.__default__()
+            value = _field_default(field)
 
         field.type._write(buf, value)
 
@@ -634,6 +635,11 @@ class UnionProxy:
         self.__union__._rebuild(self.__attr__)
 
 
+def _field_default(field: Field) -> Any:
+    """Return the default value of a field. The value of a bit field is a number, also if its type is not."""
+    return 0 if field.bits and issubclass(field.type, bytes) else field.type.__default__()
+
+
 def attrsetter(path: str) -> Callable[[Any], Any]:
     path, _, attr = path.rpartition(".")
     path = path.split(".")
-- 
2.43.0


From 0896717e9d0197103e0c2a4d3562cfdb2d643e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 12/31] fix: a structure value with a field named read is not a
 file-like object

---
 dissect/cstruct/types/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 97dd78b..706a46a 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -284,7 +284,8 @@ class Array(list[T], BaseArray):
 
 
 def _is_readable_type(value: object) -> bool:
-    return hasattr(value, "read")
+    # A structure instance may have a field called read
+    return callable(getattr(value, "read", None))
 
 
 def _is_buffer_type(value: object) -> bool:
-- 
2.43.0


From 01119c4e532d3b117ad5b12567934baaddb87f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 13/31] fix: an EOF array takes every whole entry, also if the
 input ends in an incomplete one

---
 dissect/cstruct/types/base.py   | 6 +++++-
 dissect/cstruct/types/packed.py | 5 +++--
 dissect/cstruct/types/wchar.py  | 4 ++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 706a46a..253861a 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -146,7 +146,11 @@ class MetaType(type):
         if count == EOF:
             result = []
             while not _is_eof(stream):
-                result.append(cls._read(stream, context))
+                try:
+                    result.append(cls._read(stream, context))
+                except EOFError:
+                    # Incomplete trailing entry
+                    break
             return result
 
         return [cls._read(stream, context) for _ in range(count)]
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 76e7099..2935077 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -31,8 +31,9 @@ class Packed(BaseType, Generic[T]):
     def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:
         if count == EOF:
             data = stream.read()
-            length = len(data)
-            count = length // cls.size
+            count = len(data) // cls.size
+            length = cls.size * count
+            data = data[:length]
         else:
             length = cls.size * count
             data = stream.read(length)
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index 1cd8822..6f6d387 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -57,6 +57,10 @@ class Wchar(str, BaseType):
             count *= 2
 
         data = stream.read(-1 if count == EOF else count)
+        if count == EOF and len(data) % 2:
+            # Incomplete trailing entry
+            data = data[:-1]
+
         if count != EOF and len(data) != count:
             raise EOFError(f"Read {len(data)} bytes, but expected {count}")
 
-- 
2.43.0


From cd0f7396059fd7680205c106125d762cde1d1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 14/31] fix: arrays with a negative constant length are empty

---
 dissect/cstruct/cstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 548b3f5..af261f3 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -348,6 +348,10 @@ class cstruct:
 
     def _make_array(self, type_: T, num_entries: int | Expression | None) -> type[Array[T]]:
         null_terminated = False
+        if isinstance(num_entries, int):
+            # Arrays with a negative amount of entries are empty
+            num_entries = max(0, num_entries)
+
         if num_entries is None:
             null_terminated = True
             size = None
-- 
2.43.0


From d0ede2ac86cf76edfb697104f282d874004d961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 15/31] fix: an array length refers to the preceding field if
 there is also a constant with that name

---
 dissect/cstruct/expression.py |  8 ++++++++
 dissect/cstruct/parser.py     | 20 ++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 6c48356..8d2429f 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -197,6 +197,14 @@ class Expression:
     def __repr__(self) -> str:
         return self.expression
 
+    def identifiers(self) -> set[str]:
+        """Return the identifiers this expression is evaluated over, so not the types it takes the size of."""
+        return {
+            token
+            for i, token in enumerate(self.tokens)
+            if (token[0].isalpha() or token[0] == "_") and token != "sizeof" and self.tokens[max(0, i - 2) : i] != ["sizeof", "("]
+        }
+
     def precedence(self, o1: str, o2: str) -> bool:
         return self.precedence_levels[o1] >= self.precedence_levels[o2]
 
diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6de850e..3b218b6 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -207,7 +207,7 @@ class TokenParser(Parser):
                 tokens.consume()
                 break
 
-            field = self._parse_field(tokens)
+            field = self._parse_field(tokens, fields)
             fields.append(field)
 
         if register:
@@ -254,7 +254,7 @@ class TokenParser(Parser):
         d = ast.literal_eval(m.group(2))
         self.cstruct.lookups[m.group(1)] = {self.cstruct.consts[k]: v for k, v in d.items()}
 
-    def _parse_field(self, tokens: TokenConsumer) -> Field:
+    def _parse_field(self, tokens: TokenConsumer, fields: list[Field] | None = None) -> Field:
         type_ = None
         if tokens.next == self.TOK.IDENTIFIER:
             type_ = self.cstruct.resolve(self._identifier(tokens))
@@ -268,12 +268,14 @@ class TokenParser(Parser):
             raise ParserError(f"line {self._lineno(tokens.next)}: expected name")
         nametok = tokens.consume()
 
-        type_, name, bits = self._parse_field_type(type_, nametok.value)
+        type_, name, bits = self._parse_field_type(type_, nametok.value, {field.name for field in fields or []})
 
         tokens.eol()
         return Field(name.strip(), type_, bits)
 
-    def _parse_field_type(self, type_: type[BaseType], name: str) -> tuple[type[BaseType], str, int | None]:
+    def _parse_field_type(
+        self, type_: type[BaseType], name: str, field_names: set[str] | None = None
+    ) -> tuple[type[BaseType], str, int | None]:
         pattern = self.TOK.patterns[self.TOK.NAME]
         # Dirty trick because the regex expects a ; but we don't want it to be part of the value
         d = pattern.match(name + ";").groupdict()
@@ -294,10 +296,12 @@ class TokenParser(Parser):
                     count = None
                 else:
                     count = Expression(self.cstruct, count)
-                    try:
-                        count = count.evaluate()
-                    except Exception:
-                        pass
+                    # A preceding field takes precedence over a constant with the same name
+                    if not field_names or field_names.isdisjoint(count.identifiers()):
+                        try:
+                            count = count.evaluate()
+                        except Exception:
+                            pass
 
                 if issubclass(type_, BaseArray) and count is None:
                     raise ParserError("Depth required for multi-dimensional array")
-- 
2.43.0


From 6b5249021898d1c0c438e2ad38108f421af0fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 16/31] fix: equal enum and flag values hash equally

---
 dissect/cstruct/types/enum.py | 15 +++++++--------
 dissect/cstruct/types/flag.py | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 5b83056..0955c86 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -14,7 +14,6 @@ if TYPE_CHECKING:
 
 
 PY_311 = sys.version_info >= (3, 11, 0)
-PY_312 = sys.version_info >= (3, 12, 0)
 
 _S = TypeVar("_S")
 
@@ -76,12 +75,11 @@ class EnumMetaType(EnumMeta, MetaType):
 
     __len__ = MetaType.__len__
 
-    if not PY_312:
-        # Backport __contains__ from CPython 3.12
-        def __contains__(cls, value: Any) -> bool:
-            if isinstance(value, cls):
-                return True
-            return value in cls._value2member_map_
+    def __contains__(cls, value: Any) -> bool:
+        # Similar to CPython 3.12, but members of another enum are never a member of this one
+        if isinstance(value, _Enum):
+            return isinstance(value, cls)
+        return value in cls._value2member_map_
 
     def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:
         return cls(cls.type._read(stream, context))
@@ -196,7 +194,8 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        # Equal to its integer value and every other member with the same value, so the hash has to be as well
+        return hash(self.value)
 
     @classmethod
     def _missing_(cls, value: int) -> Self:
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 6740591..9a737c5 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -69,4 +69,16 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        # Equal to its integer value and every other member with the same value, so the hash has to be as well
+        return hash(self.value)
+
+    @classmethod
+    def _missing_(cls, value: int) -> Self:
+        if isinstance(value, int) and value < 0 and _is_signed(cls.type):
+            # Python flags turn a negative value into the bits it inverts, but for a signed type it's just a value
+            new_member = int.__new__(cls, value)
+            new_member._name_ = None
+            new_member._value_ = value
+            return new_member
+
+        return super()._missing_(value)
-- 
2.43.0


From 1c8a1df105da6d90c1fbcbb664d2241fad757da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 17/31] fix: a flag of a signed type preserves negative values

---
 dissect/cstruct/types/flag.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 9a737c5..02b9339 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -1,9 +1,18 @@
 from __future__ import annotations
 
 from enum import IntFlag
+from typing import TYPE_CHECKING
 
 from dissect.cstruct.types.base import BaseType
 from dissect.cstruct.types.enum import PY_311, EnumMetaType
+from dissect.cstruct.types.packed import Packed
+
+if TYPE_CHECKING:
+    from typing_extensions import Self
+
+
+def _is_signed(type_: type[BaseType]) -> bool:
+    return type_.packchar.islower() if issubclass(type_, Packed) else type_.signed
 
 
 class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
-- 
2.43.0


From 57645b43f12fceb54ce91a1cb09c2f58e0a038b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 18/31] fix: references to structures nested in a union stay
 valid and compare as those structures

---
 dissect/cstruct/types/structure.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 92cfca9..c2090d5 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -594,7 +594,10 @@ class Union(Structure, metaclass=UnionMetaType):
         object.__setattr__(self, "_sizes", sizes)
 
     def _proxify(self) -> None:
-        def _proxy_structure(value: Structure) -> None:
+        # Proxies are kept for the lifetime of the union, so that a reference to one never goes stale
+        proxies = self.__dict__.setdefault("_proxies", {})
+
+        def _proxy_structure(value: Structure, path: tuple[str, ...]) -> None:
             for field in value.__class__.__fields__:
                 if issubclass(field.type, Structure):
                     nested_value = getattr(value, field._name)
@@ -615,6 +618,19 @@ class UnionProxy:
         object.__setattr__(self, "__attr__", attr)
         object.__setattr__(self, "__target__", target)
 
+    @property
+    def __class__(self) -> type[Structure]:
+        return self.__target__.__class__
+
+    def __eq__(self, other: object) -> bool:
+        return self.__target__ == other
+
+    def __hash__(self) -> int:
+        return hash(self.__target__)
+
+    def __bool__(self) -> bool:
+        return bool(self.__target__)
+
     def __len__(self) -> int:
         return len(self.__target__.dumps())
 
-- 
2.43.0


From 1f2c186abe00da8a3441b0bd0fe9e94193a19b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 19/31] fix: dumping and assigning union members keeps all
 bytes of the union, also for bit field, nested and anonymous members

---
 dissect/cstruct/types/structure.py | 151 ++++++++++++++++++++++-------
 1 file changed, 114 insertions(+), 37 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c2090d5..0cb0e5e 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -12,6 +12,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO, Callable
 
 from dissect.cstruct.bitbuffer import BitBuffer
 from dissect.cstruct.types.base import (
+    BaseArray,
     BaseType,
     MetaType,
     _is_buffer_type,
@@ -447,10 +448,13 @@ class UnionMetaType(StructureMetaType):
         for field in fields:
             if size is not None:
                 try:
-                    size = max(len(field.type), size)
+                    size = max((field.offset or 0) + len(field.type), size)
                 except TypeError:
                     size = None
 
+            if field.bits and field.bits > len(field.type) * 8:
+                raise ValueError("Straddled bit fields are unsupported")
+
             alignment = max(field.alignment, alignment)
 
         if align and size is not None:
@@ -474,6 +478,7 @@ class UnionMetaType(StructureMetaType):
             offset = 0
             buf = io.BytesIO(stream.read(cls.size))
 
+        end = offset
         for field in cls.__fields__:
             field_type = cls.cs.resolve(field.type)
 
@@ -482,11 +487,23 @@ class UnionMetaType(StructureMetaType):
                 start = field.offset
 
             buf.seek(offset + start)
-            value = field_type._read(buf, result)
+            if field.bits:
+                # A bit field is in the first bits of its storage unit
+                bit_buffer = BitBuffer(buf, cls.cs.endian)
+                if isinstance(field_type, EnumMetaType):
+                    value = field_type(bit_buffer.read(field_type.type, field.bits))
+                else:
+                    value = bit_buffer.read(field_type, field.bits)
+            else:
+                value = field_type._read(buf, result)
+                sizes[field._name] = buf.tell() - offset - start
 
-            sizes[field._name] = buf.tell() - start
+            end = max(end, buf.tell())
             result[field._name] = value
 
+        # The union ends where its last member ends
+        buf.seek(end)
+
         return result, sizes
 
     def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:  # type: ignore
@@ -524,32 +541,49 @@ class UnionMetaType(StructureMetaType):
             raise NotImplementedError("Writing dynamic unions is not yet supported")
 
         offset = stream.tell()
-        expected_offset = offset + len(cls)
+
+        buf = getattr(data, "_buf", b"\x00" * cls.size)
+        current = cls._read_fields(io.BytesIO(buf))[0]
 
         # Sort by largest field
-        fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)
-        anonymous_struct = False
+        for field in sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True):
+            # If the value of a field was changed in place, the buffer doesn't reflect that change yet
+            new = cls._write_field(buf, field, getattr(data, field._name))
+            if new != cls._write_field(buf, field, current[field._name]):
+                buf = new
+                break
 
-        # Try to write by largest field
-        for field in fields:
-            if isinstance(field.type, StructureMetaType) and field.name is None:
-                # Prefer to write regular fields initially
-                anonymous_struct = field.type
-                continue
+        # Bits that no field uses are written as zeroes
+        stream.write((int.from_bytes(buf, "little") & _data_mask(cls)).to_bytes(len(buf), "little"))
 
-            # Write the value
-            field.type._write(stream, getattr(data, field._name))
-            break
+        return stream.tell() - offset
 
-        # If we haven't written anything yet and we initially skipped an anonymous struct, write it now
-        if stream.tell() == offset and anonymous_struct:
-            anonymous_struct._write(stream, data)
+    def _write_field(cls, buf: bytes, field: Field, value: Any) -> bytes:
+        """Return the given union bytes with the bytes of a single field replaced."""
+        field_type = cls.cs.resolve(field.type)
+        start = field.offset or 0
 
-        # If we haven't filled the union size yet, pad it
-        if remaining := expected_offset - stream.tell():
-            stream.write(b"\x00" * remaining)
+        if value is None:
+            value = _field_default(field)
 
-        return stream.tell() - offset
+        stream = io.BytesIO(buf)
+        stream.seek(start)
+
+        if not field.bits:
+            field_type._write(stream, value)
+            return stream.getvalue()
+
+        # A bit field is in the first bits of its storage unit, the other bits keep their value
+        bit_buffer = BitBuffer(stream, cls.cs.endian)
+        if isinstance(field_type, EnumMetaType):
+            field_type, value = field_type.type, value.value
+
+        bit_buffer.write(field_type, value, field.bits)
+        bit_buffer.flush()
+
+        mask = _bits_mask(field_type, 0, field.bits) << (start * 8)
+        result = int.from_bytes(buf, "little") & ~mask | int.from_bytes(stream.getvalue(), "little") & mask
+        return result.to_bytes(len(buf), "little")
 
 
 class Union(Structure, metaclass=UnionMetaType):
@@ -565,23 +599,18 @@ class Union(Structure, metaclass=UnionMetaType):
             raise NotImplementedError("Modifying a dynamic union is not yet supported")
 
         super().__setattr__(attr, value)
-        self._rebuild(attr)
+
+        if attr in self.__class__.lookup:
+            # Fields of anonymous structures are assigned, and have the union rebuilt, through those structures
+            self._rebuild(attr)
 
     def _rebuild(self, attr: str) -> None:
         if (cur_buf := getattr(self, "_buf", None)) is None:
             cur_buf = b"\x00" * self.__class__.size
 
-        buf = io.BytesIO(cur_buf)
-        field = self.__class__.lookup[attr]
-        if field.offset:
-            buf.seek(field.offset)
+        buf = self.__class__._write_field(cur_buf, self.__class__.lookup[attr], getattr(self, attr))
 
-        if (value := getattr(self, attr)) is None:
-            value = _field_default(field)
-
-        field.type._write(buf, value)
-
-        object.__setattr__(self, "_buf", buf.getvalue())
+        object.__setattr__(self, "_buf", buf)
         self._update()
 
         # (Re-)proxify all values
@@ -601,11 +630,20 @@ class Union(Structure, metaclass=UnionMetaType):
             for field in value.__class__.__fields__:
                 if issubclass(field.type, Structure):
                     nested_value = getattr(value, field._name)
-                    proxy = UnionProxy(self, field._name, nested_value)
-                    object.__setattr__(value, field._name, proxy)
-                    _proxy_structure(nested_value)
+                    if isinstance(nested_value, UnionProxy):
+                        # A nested union already has proxies, but changes need to go through this union
+                        nested_value = nested_value.__target__
+
+                    nested_path = (*path, field._name)
+                    if (proxy := proxies.get(nested_path)) is None:
+                        proxy = proxies[nested_path] = UnionProxy(self, nested_path[0], nested_value)
+                    else:
+                        object.__setattr__(proxy, "__target__", nested_value)
+
+                    value.__dict__[field._name] = proxy
+                    _proxy_structure(nested_value, nested_path)
 
-        _proxy_structure(self)
+        _proxy_structure(self, ())
 
 
 class UnionProxy:
@@ -651,6 +689,45 @@ class UnionProxy:
         self.__union__._rebuild(self.__attr__)
 
 
+def _data_mask(type_: type[BaseType]) -> int:
+    """Return a mask, in little-endian byte order, of the bits of a fixed size type that carry data and are not padding."""
+    if issubclass(type_, BaseArray):
+        element = _data_mask(type_.type).to_bytes(type_.type.size, "little")
+        return int.from_bytes(element * max(0, type_.num_entries), "little")
+
+    if not issubclass(type_, Structure):
+        return (1 << (type_.size * 8)) - 1
+
+    mask = offset = used = 0
+
+    for field in type_.__fields__:
+        field_type = type_.cs.resolve(field.type)
+
+        if field.offset is not None or issubclass(type_, Union):
+            # Only a field that shares the bit field storage unit of the previous field has no offset of its own
+            offset = field.offset or 0
+            used = 0
+
+        if field.bits:
+            field_mask = _bits_mask(field_type, used, field.bits)
+            used += field.bits
+        else:
+            field_mask = _data_mask(field_type)
+
+        mask |= field_mask << (offset * 8)
+
+    return mask
+
+
+def _bits_mask(type_: type[BaseType], used: int, bits: int) -> int:
+    """Return a mask, in little-endian byte order, of a bit field in a storage unit of which some bits are in use."""
+    if BitBuffer(None, type_.cs.endian).endian == "<":
+        return ((1 << bits) - 1) << used
+
+    mask = ((1 << bits) - 1) << (type_.size * 8 - used - bits)
+    return int.from_bytes(mask.to_bytes(type_.size, "big"), "little")
+
+
 def _field_default(field: Field) -> Any:
     """Return the default value of a field. The value of a bit field is a number, also if its type is not."""
     return 0 if field.bits and issubclass(field.type, bytes) else field.type.__default__()
-- 
2.43.0


From aad597f56348c0982c5686882c4713a1253d7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 20/31] fix: an incomplete entry after the last entry of an EOF
 array is not consumed

---
 dissect/cstruct/types/base.py   | 2 ++
 dissect/cstruct/types/packed.py | 6 +++++-
 dissect/cstruct/types/wchar.py  | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 253861a..6c8f12b 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -146,10 +146,12 @@ class MetaType(type):
         if count == EOF:
             result = []
             while not _is_eof(stream):
+                offset = stream.tell()
                 try:
                     result.append(cls._read(stream, context))
                 except EOFError:
                     # Incomplete trailing entry
+                    stream.seek(offset)
                     break
             return result
 
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 2935077..b0f00c1 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from functools import lru_cache
+from io import SEEK_CUR
 from struct import Struct
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
 
@@ -33,7 +34,10 @@ class Packed(BaseType, Generic[T]):
             data = stream.read()
             count = len(data) // cls.size
             length = cls.size * count
-            data = data[:length]
+            if len(data) != length:
+                # Incomplete trailing entry
+                stream.seek(length - len(data), SEEK_CUR)
+                data = data[:length]
         else:
             length = cls.size * count
             data = stream.read(length)
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index 6f6d387..b272a03 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from io import SEEK_CUR
 import sys
 from typing import Any, BinaryIO, ClassVar
 
@@ -59,6 +60,7 @@ class Wchar(str, BaseType):
         data = stream.read(-1 if count == EOF else count)
         if count == EOF and len(data) % 2:
             # Incomplete trailing entry
+            stream.seek(-1, SEEK_CUR)
             data = data[:-1]
 
         if count != EOF and len(data) != count:
-- 
2.43.0


From ace6616f68069aa6e82678ce50704349aa8ad664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 21/31] fix: no tail padding after an EOF array, it would be
 read as entries of the array

---
 dissect/cstruct/compiler.py        |  3 ++-
 dissect/cstruct/types/structure.py | 15 +++++++++++++--
 dissect/cstruct/types/wchar.py     |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index daf5787..2c28ead 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -27,6 +27,7 @@ from dissect.cstruct.types import (
 from dissect.cstruct.types.base import BaseArray
 from dissect.cstruct.types.enum import EnumMetaType
 from dissect.cstruct.types.packed import _struct
+from dissect.cstruct.types.structure import _ends_with_eof_array
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -241,7 +242,7 @@ class _ReadSourceGenerator:
 
         yield from flush()
 
-        if self.align:
+        if self.align and not (self.fields and _ends_with_eof_array(self.fields[-1].type)):
             yield f"stream.seek(-stream.tell() & (cls.alignment - 1), {io.SEEK_CUR})"
 
     def _generate_structure(self, field: Field) -> Iterator[str]:
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 0cb0e5e..f78a609 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -11,6 +11,7 @@ from types import FunctionType
 from typing import TYPE_CHECKING, Any, BinaryIO, Callable
 
 from dissect.cstruct.bitbuffer import BitBuffer
+from dissect.cstruct.expression import Expression
 from dissect.cstruct.types.base import (
     BaseArray,
     BaseType,
@@ -286,7 +287,7 @@ class StructureMetaType(MetaType):
             sizes[field._name] = stream.tell() - offset
             result[field._name] = value
 
-        if cls.__align__:
+        if cls.__align__ and not _ends_with_eof_array(cls):
             # Align the stream
             stream.seek(-stream.tell() & (cls.alignment - 1), io.SEEK_CUR)
 
@@ -357,7 +358,7 @@ class StructureMetaType(MetaType):
         if bit_buffer._type is not None:
             bit_buffer.flush()
 
-        if cls.__align__:
+        if cls.__align__ and not _ends_with_eof_array(cls):
             # Align the stream
             stream.write(b"\x00" * (-stream.tell() & (cls.alignment - 1)))
 
@@ -728,6 +729,16 @@ def _bits_mask(type_: type[BaseType], used: int, bits: int) -> int:
     return int.from_bytes(mask.to_bytes(type_.size, "big"), "little")
 
 
+def _ends_with_eof_array(type_: type[BaseType]) -> bool:
+    """Return whether a type extends to the end of the stream, which leaves no room for padding after it."""
+    if issubclass(type_, Structure):
+        return not issubclass(type_, Union) and bool(type_.__fields__) and _ends_with_eof_array(type_.__fields__[-1].type)
+
+    return issubclass(type_, BaseArray) and (
+        isinstance(type_.num_entries, Expression) and type_.num_entries.expression == "EOF"
+    )
+
+
 def _field_default(field: Field) -> Any:
     """Return the default value of a field. The value of a bit field is a number, also if its type is not."""
     return 0 if field.bits and issubclass(field.type, bytes) else field.type.__default__()
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index b272a03..b4e2e16 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-from io import SEEK_CUR
 import sys
+from io import SEEK_CUR
 from typing import Any, BinaryIO, ClassVar
 
 from dissect.cstruct.types.base import EOF, BaseArray, BaseType
-- 
2.43.0


From 52a8d8e1b0fdef91b78786e6b6b84043bd80b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 22/31] fix: combinations of flags of which some have the same
 value

---
 dissect/cstruct/types/enum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 0955c86..f906ff9 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -113,6 +113,7 @@ def _fix_alias_members(cls: type[Enum]) -> None:
             new_member = int.__new__(cls, member.value)
             new_member._name_ = name
             new_member._value_ = member.value
+            new_member._sort_order_ = len(cls._member_names_)
 
             type.__setattr__(cls, name, new_member)
             cls._member_names_.append(name)
-- 
2.43.0


From 4bb32c47e5af67f6d8eeb12ff36f9db05710345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 23/31] fix: fields of anonymous structures can have the name
 of a class attribute, e.g. size

---
 dissect/cstruct/types/structure.py | 47 ++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index f78a609..e341fc6 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -96,14 +96,14 @@ class StructureMetaType(MetaType):
         lookup = {}
         raw_lookup = {}
         field_names = []
+        forwarded = {}
         for field in fields:
             if field._name in lookup and field._name != "_":
                 raise ValueError(f"Duplicate field name: {field._name}")
 
             if isinstance(field.type, StructureMetaType) and field.name is None:
                 for anon_field in field.type.fields.values():
-                    attr = f"{field._name}.{anon_field.name}"
-                    classdict[anon_field.name] = property(attrgetter(attr), attrsetter(attr))
+                    forwarded[anon_field.name] = f"{field._name}.{anon_field.name}"
 
                 lookup.update(field.type.fields)
             else:
@@ -152,6 +152,9 @@ class StructureMetaType(MetaType):
         classdict["alignment"] = alignment
         classdict["dynamic"] = size is None
 
+        namespace = classdict if issubclass(cls, type) else {**vars(cls), **classdict}
+        classdict.update({name: _ForwardedField(name, path, namespace) for name, path in forwarded.items()})
+
         return classdict
 
     def _calculate_size_and_offsets(cls, fields: list[Field], align: bool = False) -> tuple[int | None, int]:
@@ -394,10 +397,10 @@ class Structure(BaseType, metaclass=StructureMetaType):
     _sizes: dict[str, int]
 
     def __len__(self) -> int:
-        return len(self.dumps())
+        return len(bytes(self))
 
     def __bytes__(self) -> bytes:
-        return self.dumps()
+        return self.__class__.dumps(self)
 
     def __getitem__(self, item: str) -> Any:
         return getattr(self, item)
@@ -671,10 +674,10 @@ class UnionProxy:
         return bool(self.__target__)
 
     def __len__(self) -> int:
-        return len(self.__target__.dumps())
+        return len(self.__target__)
 
     def __bytes__(self) -> bytes:
-        return self.__target__.dumps()
+        return bytes(self.__target__)
 
     def __getitem__(self, item: str) -> Any:
         return getattr(self.__target__, item)
@@ -744,6 +747,38 @@ def _field_default(field: Field) -> Any:
     return 0 if field.bits and issubclass(field.type, bytes) else field.type.__default__()
 
 
+class _ForwardedField(property):
+    """Property for a field of an anonymous structure.
+
+    The class keeps its own attribute if that has the same name, e.g. ``size``.
+    """
+
+    def __init__(self, name: str, path: str, namespace: dict[str, Any]):
+        super().__init__(attrgetter(path), attrsetter(path))
+        self.name = name
+
+        value = namespace.get(name, self)
+        if isinstance(value, _ForwardedField) and value is not self:
+            # Carry over from the previous definition of the class
+            value = self if value.class_attribute is value else value.class_attribute
+        self.class_attribute = value
+
+    def __get__(self, instance: Any, owner: type | None = None) -> Any:
+        if instance is not None:
+            return super().__get__(instance, owner)
+
+        if self.class_attribute is not self:
+            return self.class_attribute
+
+        if hasattr(super(owner, owner), self.name):
+            return getattr(super(owner, owner), self.name)
+
+        if hasattr(type(owner), self.name):
+            return getattr(type(owner), self.name).__get__(owner)
+
+        return self
+
+
 def attrsetter(path: str) -> Callable[[Any], Any]:
     path, _, attr = path.rpartition(".")
     path = path.split(".")
-- 
2.43.0


From 321a54c1ad5f6064108373a18e0ed3bfff4bd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 24/31] fix: sizeof of a type with a name of more than one word

---
 dissect/cstruct/expression.py | 44 +++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 8d2429f..e5d7734 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -199,11 +199,18 @@ class Expression:
 
     def identifiers(self) -> set[str]:
         """Return the identifiers this expression is evaluated over, so not the types it takes the size of."""
-        return {
-            token
-            for i, token in enumerate(self.tokens)
-            if (token[0].isalpha() or token[0] == "_") and token != "sizeof" and self.tokens[max(0, i - 2) : i] != ["sizeof", "("]
-        }
+        result = set()
+        in_sizeof = False
+
+        for token in self.tokens:
+            if token == "sizeof":
+                in_sizeof = True
+            elif token == ")":
+                in_sizeof = False
+            elif not in_sizeof and token.isidentifier():
+                result.add(token)
+
+        return result
 
     def precedence(self, o1: str, o2: str) -> bool:
         return self.precedence_levels[o1] >= self.precedence_levels[o2]
@@ -254,24 +261,31 @@ class Expression:
         while i < len(tmp_expression):
             current_token = tmp_expression[i]
             if self.is_number(current_token):
-                self.queue.append(int(current_token, 0))
+                queue.append(int(current_token, 0))
             elif current_token in context:
-                self.queue.append(int(context[current_token]))
+                queue.append(int(context[current_token]))
             elif current_token in self.cstruct.consts:
-                self.queue.append(int(self.cstruct.consts[current_token]))
+                queue.append(int(self.cstruct.consts[current_token]))
             elif current_token in self.unary_operators:
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == "sizeof":
-                if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
+                if ")" not in tmp_expression[i:] or tmp_expression[i + 1] != "(":
+                    raise ExpressionParserError("Invalid sizeof operation")
+
+                # The name of a type can be more than one word, e.g. unsigned int
+                end = tmp_expression.index(")", i)
+                names = tmp_expression[i + 2 : end]
+                if not names or not all(name.isidentifier() for name in names):
                     raise ExpressionParserError("Invalid sizeof operation")
-                self.queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
-                i += 3
+
+                queue.append(len(self.cstruct.resolve(" ".join(names))))
+                i = end
             elif current_token in operators:
                 while (
-                    len(self.stack) != 0 and self.stack[-1] != "(" and (self.precedence(self.stack[-1], current_token))
+                    len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token))
                 ):
-                    self.evaluate_exp()
-                self.stack.append(current_token)
+                    self.evaluate_exp(stack, queue)
+                stack.append(current_token)
             elif current_token == "(":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
-- 
2.43.0


From e1c6207620a02452feefc4900347b821cb7cda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 25/31] fix: evaluating an expression has no state that other
 evaluations can observe, an identifier u is no unary minus

---
 dissect/cstruct/expression.py | 60 ++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index e5d7734..f5d7a3c 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -167,7 +167,7 @@ class Expression:
     }
 
     unary_operators: ClassVar[dict[str, Callable[[int], int]]] = {
-        "u": lambda a: -a,
+        "u-": lambda a: -a,
         "~": lambda a: ~a,
     }
 
@@ -182,7 +182,7 @@ class Expression:
         "*": 5,
         "/": 5,
         "%": 5,
-        "u": 6,
+        "u-": 6,
         "~": 6,
         "sizeof": 6,
     }
@@ -191,8 +191,6 @@ class Expression:
         self.cstruct = cstruct
         self.expression = expression
         self.tokens = ExpressionTokenizer(expression).tokenize()
-        self.stack = []
-        self.queue = []
 
     def __repr__(self) -> str:
         return self.expression
@@ -215,24 +213,24 @@ class Expression:
     def precedence(self, o1: str, o2: str) -> bool:
         return self.precedence_levels[o1] >= self.precedence_levels[o2]
 
-    def evaluate_exp(self) -> None:
-        operator = self.stack.pop(-1)
+    def evaluate_exp(self, stack: list[str], queue: list[int]) -> None:
+        operator = stack.pop(-1)
         res = 0
 
-        if len(self.queue) < 1:
+        if len(queue) < 1:
             raise ExpressionParserError("Invalid expression: not enough operands")
 
-        right = self.queue.pop(-1)
+        right = queue.pop(-1)
         if operator in self.unary_operators:
             res = self.unary_operators[operator](right)
         else:
-            if len(self.queue) < 1:
+            if len(queue) < 1:
                 raise ExpressionParserError("Invalid expression: not enough operands")
 
-            left = self.queue.pop(-1)
+            left = queue.pop(-1)
             res = self.binary_operators[operator](left, right)
 
-        self.queue.append(res)
+        queue.append(res)
 
     def is_number(self, token: str) -> bool:
         return token.isnumeric() or (len(token) > 2 and token[0] == "0" and token[1] in ("x", "X", "b", "B", "o", "O"))
@@ -240,22 +238,20 @@ class Expression:
     def evaluate(self, context: dict[str, int] | None = None) -> int:
         """Evaluates an expression using a Shunting-Yard implementation."""
 
-        self.stack = []
-        self.queue = []
+        # Keep all evaluation state local, an expression can be evaluated by multiple threads at the same time
+        stack = []
+        queue = []
         operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())
 
         context = context or {}
-        tmp_expression = self.tokens
+        tmp_expression = self.tokens.copy()
 
         # Unary minus tokens; we change the semantic of '-' depending on the previous token
-        for i in range(len(self.tokens)):
-            if self.tokens[i] == "-":
-                if i == 0:
-                    self.tokens[i] = "u"
-                    continue
-                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "u" or self.tokens[i - 1] == "(":
-                    self.tokens[i] = "u"
-                    continue
+        for i in range(len(tmp_expression)):
+            if tmp_expression[i] == "-" and (
+                i == 0 or tmp_expression[i - 1] in operators or tmp_expression[i - 1] == "("
+            ):
+                tmp_expression[i] = "u-"
 
         i = 0
         while i < len(tmp_expression):
@@ -294,7 +290,7 @@ class Expression:
                             f"Parser expected sizeof or an arethmethic operator instead got: '{previous_token}'"
                         )
 
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == ")":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -303,24 +299,24 @@ class Expression:
                             f"Parser expected an expression, instead received empty parenthesis. Index: {i}"
                         )
 
-                if len(self.stack) == 0:
+                if len(stack) == 0:
                     raise ExpressionParserError("Invalid expression")
 
-                while self.stack[-1] != "(":
-                    self.evaluate_exp()
+                while stack[-1] != "(":
+                    self.evaluate_exp(stack, queue)
 
-                self.stack.pop(-1)
+                stack.pop(-1)
             else:
                 raise ExpressionParserError(f"Unmatched token: '{current_token}'")
             i += 1
 
-        while len(self.stack) != 0:
-            if self.stack[-1] == "(":
+        while len(stack) != 0:
+            if stack[-1] == "(":
                 raise ExpressionParserError("Invalid expression")
 
-            self.evaluate_exp()
+            self.evaluate_exp(stack, queue)
 
-        if len(self.queue) != 1:
+        if len(queue) != 1:
             raise ExpressionParserError("Invalid expression")
 
-        return self.queue[0]
+        return queue[0]
-- 
2.43.0


From bdae2b13753caf2f76096c51dc27b4f17ed00498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 26/31] fix: reading a union of which the input ends in the
 padding

---
 dissect/cstruct/types/structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index e341fc6..9072bd4 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -535,6 +535,11 @@ class UnionMetaType(StructureMetaType):
         if cls.size is not None:
             obj._update()
 
+            if (missing := cls.size - len(buf)) > 0:
+                # All fields could be read, the stream ends in the padding of the union
+                stream.seek(missing, io.SEEK_CUR)
+                object.__setattr__(obj, "_buf", buf + b"\x00" * missing)
+
         # Proxify any nested structures
         obj._proxify()
 
-- 
2.43.0


From 0a7706250e0c173ae3ab0e757102fee4eca9e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 27/31] fix: compiled reader does not need the padding before
 an empty array to exist

---
 dissect/cstruct/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 2c28ead..694543c 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -220,8 +220,10 @@ class _ReadSourceGenerator:
             # Everything else - basic and composite types (and arrays of them)
             else:
                 if current_block and (
+                    # An empty array doesn't need the bytes between it and the previous field to exist
+                    size == 0
                     # The offsets within a block are only known if the start of the block is sufficiently aligned
-                    (self.align and field.offset is None and field.alignment > current_block[0].alignment)
+                    or (self.align and field.offset is None and field.alignment > current_block[0].alignment)
                     # A block can only move forward
                     or (field.offset is not None and current_offset is not None and field.offset < current_offset)
                 ):
-- 
2.43.0


From 06805172334d9e70184486b7389de56e9ade2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 28/31] fix: an enum alias called value or name does not
 replace that property of other members

---
 dissect/cstruct/types/enum.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index f906ff9..efb2c7c 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import sys
 from enum import Enum as _Enum
 from enum import EnumMeta, IntEnum, IntFlag
+from types import DynamicClassAttribute
 from typing import TYPE_CHECKING, Any, BinaryIO, TypeVar, overload
 
 from dissect.cstruct.types.base import Array, BaseType, MetaType
@@ -115,7 +116,12 @@ def _fix_alias_members(cls: type[Enum]) -> None:
             new_member._value_ = member.value
             new_member._sort_order_ = len(cls._member_names_)
 
-            type.__setattr__(cls, name, new_member)
+            descriptor = cls.__dict__.get(name)
+            if isinstance(descriptor, DynamicClassAttribute):
+                # Members can be called "name" or "value", keep the property of that name working on other members
+                descriptor.member = new_member
+            else:
+                type.__setattr__(cls, name, new_member)
             cls._member_names_.append(name)
             cls._member_map_[name] = new_member
             cls._value2member_map_[member.value] = new_member
-- 
2.43.0


From 3f78e67dbf4fb78d74f9cbd7d47ef938d1398837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 29/31] fix: instances do not share default values of arrays
 and structures

---
 dissect/cstruct/types/base.py      |  3 ++-
 dissect/cstruct/types/structure.py | 25 +++++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 6c8f12b..d32e96f 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -250,7 +250,8 @@ class BaseArray(BaseType):
     @classmethod
     def __default__(cls) -> BaseType:
         return type.__call__(
-            cls, [cls.type.__default__()] * (cls.num_entries if isinstance(cls.num_entries, int) else 0)
+            cls,
+            [cls.type.__default__() for _ in range(cls.num_entries if isinstance(cls.num_entries, int) else 0)],
         )
 
     @classmethod
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 9072bd4..e965569 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -21,6 +21,7 @@ from dissect.cstruct.types.base import (
 )
 from dissect.cstruct.types.enum import EnumMetaType
 from dissect.cstruct.types.pointer import Pointer
+from dissect.cstruct.types.void import Void
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -84,9 +85,15 @@ class StructureMetaType(MetaType):
             obj = type.__call__(cls)
             object.__setattr__(obj, "_values", {})
             object.__setattr__(obj, "_sizes", {})
-            return obj
+        else:
+            obj = super().__call__(*args, **kwargs)
+
+        # Every instance gets its own default values of types that are mutable
+        for name, field in cls.lookup.items():
+            if _is_mutable(field) and obj.__dict__.get(name) is None:
+                object.__setattr__(obj, name, _field_default(field))
 
-        return super().__call__(*args, **kwargs)
+        return obj
 
     def _update_fields(
         cls, fields: list[Field], align: bool = False, classdict: dict[str, Any] | None = None
@@ -752,6 +759,16 @@ def _field_default(field: Field) -> Any:
     return 0 if field.bits and issubclass(field.type, bytes) else field.type.__default__()
 
 
+def _is_mutable(field: Field) -> bool:
+    """Return whether values of a field can change in place."""
+    return not issubclass(field.type, (int, float, bytes, str, Void))
+
+
+def _initial_value(field: Field) -> Any:
+    """Return the default value of a field for use in the ``__init__`` method, which all instances share."""
+    return None if _is_mutable(field) else _field_default(field)
+
+
 class _ForwardedField(property):
     """Property for a field of an anonymous structure.
 
@@ -940,7 +957,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     template: FunctionType = _make_structure__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
-            co_consts=(None, *[_field_default(field) for field in fields]),
+            co_consts=(None, *[_initial_value(field) for field in fields]),
             co_names=(*field_names,),
             co_varnames=("__self__" if "self" in field_names else "self", *field_names),
         ),
@@ -962,7 +979,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
         template.__code__.replace(
             co_consts=(
                 None,
-                *sum([(field._name, _field_default(field)) for field in fields], ()),
+                *sum([(field._name, _initial_value(field)) for field in fields], ()),
             ),
             co_varnames=("__self__" if "self" in field_names else "self", *field_names),
         ),
-- 
2.43.0


From 4246b58556cf5e3f99680e4841c710da01cddfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 30/31] fix: changing a structure in an array of a union
 changes the union

---
 dissect/cstruct/types/structure.py | 47 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index e965569..178c24c 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -642,24 +642,35 @@ class Union(Structure, metaclass=UnionMetaType):
         # Proxies are kept for the lifetime of the union, so that a reference to one never goes stale
         proxies = self.__dict__.setdefault("_proxies", {})
 
-        def _proxy_structure(value: Structure, path: tuple[str, ...]) -> None:
-            for field in value.__class__.__fields__:
-                if issubclass(field.type, Structure):
-                    nested_value = getattr(value, field._name)
-                    if isinstance(nested_value, UnionProxy):
-                        # A nested union already has proxies, but changes need to go through this union
-                        nested_value = nested_value.__target__
-
-                    nested_path = (*path, field._name)
-                    if (proxy := proxies.get(nested_path)) is None:
-                        proxy = proxies[nested_path] = UnionProxy(self, nested_path[0], nested_value)
-                    else:
-                        object.__setattr__(proxy, "__target__", nested_value)
-
-                    value.__dict__[field._name] = proxy
-                    _proxy_structure(nested_value, nested_path)
-
-        _proxy_structure(self, ())
+        def _proxify_fields(structure: Structure, path: tuple[str | int, ...]) -> None:
+            for field in structure.__class__.__fields__:
+                field_type = field.type
+                while issubclass(field_type, BaseArray):
+                    field_type = field_type.type
+
+                if issubclass(field_type, Structure):
+                    structure.__dict__[field._name] = _proxify_value(
+                        getattr(structure, field._name), (*path, field._name)
+                    )
+
+        def _proxify_value(value: Any, path: tuple[str | int, ...]) -> Any:
+            if isinstance(value, list):
+                value[:] = [_proxify_value(entry, (*path, i)) for i, entry in enumerate(value)]
+                return value
+
+            if isinstance(value, UnionProxy):
+                # A nested union already has proxies, but changes need to go through this union
+                value = value.__target__
+
+            if (proxy := proxies.get(path)) is None:
+                proxy = proxies[path] = UnionProxy(self, path[0], value)
+            else:
+                object.__setattr__(proxy, "__target__", value)
+
+            _proxify_fields(value, path)
+            return proxy
+
+        _proxify_fields(self, ())
 
 
 class UnionProxy:
-- 
2.43.0


From 44c55337931e9e3b64cb69aefda8b813ca6e9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 31/31] fix: native byte order does not imply native alignment
 in compiled readers and arrays

---
 dissect/cstruct/types/packed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index b0f00c1..0cb7094 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -13,7 +13,8 @@ if TYPE_CHECKING:
 
 @lru_cache(1024)
 def _struct(endian: str, packchar: str) -> Struct:
-    return Struct(f"{endian}{packchar}")
+    # Native byte order, but without the native alignment that struct applies for "@"
+    return Struct(f"{'=' if endian == '@' else endian}{packchar}")
 
 
 T = TypeVar("T", int, float)
-- 
2.43.0

